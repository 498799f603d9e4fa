//! F07: arrays with a bit offset are refused at every depth, without leaking.
use narrow::array::Array;
use narrow::buffer::{ArcBuffer, BoxBuffer, RcBuffer, SliceBuffer, VecBuffer};
use narrow::collection::Collection;
use narrow::layout::ArrayItem;
use narrow_ffi::{Export, ExportError};
use vh::cdata::*;
use vh::identity::{Parts, places};
use vh::programs::{Trace, fault_owners, rows_len};
use vh::rehouse::{Odd, Rehouse};
use vh::run::{Case, Plan, Res, Subject, caught, cleanup};
use vh::share::other_owners;
use vh::storage::{FaultBuf, Handle, House, SmallBuf, set_current};
use vh::val::{Dist, fp_all, sample_n, show};
use vh::{ensure, meter};

fn program<T, S>(case: &mut Case, trace: Trace<Array<T, S>>) -> Res<i64>
where
    S: House,
    T: ArrayItem + CVal,
    Array<T, VecBuffer>: FromIterator<T> + Rehouse<S, Out = Array<T, S>>,
    Array<T, S>: Export + Collection<Owned = T> + Parts + 'static,
{
    let mut d = Dist::random(&mut case.rng);
    if cfg!(miri) {
        d.list_max = d.list_max.min(3);
    }
    let n = rows_len(&mut case.rng, T::COST);
    let base = meter::get().live_bytes;
    let h = Handle::new(3);
    let r = (|| -> Res {
        set_current(Some(h.clone()));
        let items: Vec<T> = sample_n(&mut case.rng, &d, n);
        fp_all(&items, case.fp_mut());
        let rows = dyns(&items);
        let mut odd = Odd { shift: *case.rng.pick(&[0.0, 0.2, 0.5, 1.0]), ..Odd::random(&mut case.rng) };
        case.trace(|| format!("{odd:?} of {}", show(&items)));
        let a: Array<T, S> = items.into_iter().collect::<Array<T, VecBuffer>>().rehouse(&mut odd);
        let offsets: Vec<usize> = places(&a).iter().map(|p| p.offset).filter(|o| *o != 0).collect();
        for o in &offsets {
            case.fp(*o as u64);
        }
        case.trace(|| format!("bit offsets {offsets:?}"));
        let data: usize = places(&a).iter().map(|p| p.bytes).sum();
        let watch = trace.map(|t| t(&a));
        let before = watch.as_ref().map(|w| w());
        ensure!(before.is_none_or(|k| k > 0), "harness: nothing watched");
        let live = meter::get().live_bytes;
        let got = caught(|| a.export()).map_err(|e| format!("export {e}"))?;
        let outcome;
        match got {
            Ok((a, s)) => {
                ensure!(offsets.is_empty(), "an array with bit offsets {offsets:?} is exported");
                let (mut a, mut s) = (take_array(a), take_schema(s));
                let r = unsafe { conforms(&T::ty(), &a, &s) }.and_then(|_| {
                    let got = unsafe { read_all(&T::ty(), &a) };
                    ensure!(got == rows, "the export reads {got:?} instead of {rows:?}");
                    Ok(())
                });
                unsafe {
                    (a.release.expect("live"))(&raw mut a);
                    (s.release.expect("live"))(&raw mut s);
                }
                r?;
                outcome = "exported_without_offsets";
            }
            Err(e) => {
                let ExportError::NonZeroOffset { offset } = e else { return Err(format!("refused with {e:?} instead of a bit offset among {offsets:?}")) };
                ensure!(offsets.contains(&offset), "refused for bit offset {offset}, the array has {offsets:?}");
                outcome = "refused_with_offset";
                case.nontrivial();
            }
        }
        let freed = live - meter::get().live_bytes;
        ensure!(!matches!(S::NAME, "vec" | "box") || freed >= data as i64, "an array with {data} bytes of data gives up {freed}");
        case.count(outcome, 1);
        if let Some(k) = watch.as_ref().map(|w| w()) {
            ensure!(k == 0, "{k} owners of the storage remain");
            case.count("owners_read_after", 1);
        }
        Ok(())
    })();
    set_current(None);
    drop(h);
    cleanup();
    r?;
    Ok(meter::get().live_bytes - base)
}

fn subject<T, S>(case: &mut Case, trace: Trace<Array<T, S>>) -> Res
where
    S: House,
    T: ArrayItem + CVal,
    Array<T, VecBuffer>: FromIterator<T> + Rehouse<S, Out = Array<T, S>>,
    Array<T, S>: Export + Collection<Owned = T> + Parts + 'static,
{
    let rng = case.rng.clone();
    let mut left = 0;
    // Whatever one run leaves in lasting tables is not left again.
    for _ in 0..4 {
        case.rng = rng.clone();
        left = program::<T, S>(case, trace)?;
        if left == 0 || case.tracing() {
            case.count("programs_leaving_nothing_allocated", 1);
            return Ok(());
        }
    }
    Err(format!("{left} bytes are left allocated after everything was let go"))
}

fn main() {
    let mut subjects = Vec::new();
    macro_rules! sub {
        ($t:ty, $s:ty, $cases:expr, $trace:expr) => {
            subjects.push(Subject::new(format!("Array<{},{}>", vh::items::tidy(stringify!($t)), <$s as House>::NAME), $cases, move |case| subject::<$t, $s>(case, $trace)));
        };
    }
    macro_rules! vec { ($t:ty) => { sub!($t, VecBuffer, 80, None); }; }
    macro_rules! boxed { ($t:ty) => { sub!($t, BoxBuffer, 40, None); }; }
    macro_rules! rc { ($t:ty) => { sub!($t, RcBuffer, 40, Some(other_owners)); }; }
    macro_rules! arc { ($t:ty) => { sub!($t, ArcBuffer, 40, Some(other_owners)); }; }
    macro_rules! slice { ($t:ty) => { sub!($t, SliceBuffer<'static>, 30, None); }; }
    macro_rules! fault { ($t:ty) => { sub!($t, FaultBuf, 30, Some(fault_owners)); }; }
    macro_rules! small { ($t:ty) => { sub!($t, SmallBuf, 40, None); }; }
    vh::ffi_items!(vec);
    vh::ffi_few!(boxed);
    vh::ffi_items!(rc);
    vh::ffi_items!(arc);
    vh::ffi_few!(slice);
    vh::ffi_few!(fault);
    vh::ffi_few!(small);
    vh::run::main(Plan {
        id: "F07",
        rule: "a case = an array in one storage kind whose bitmaps start at random bit offsets (none, some or all of them, including whole bytes) with spare bytes, garbage padding and omitted validity, exported; refusals are compared with the offsets read back from the array, and the owners of the storage and the live memory are watched; non-trivial = refused; distinct = by items and offsets",
        subjects,
        exhaustive: false,
    });
}
