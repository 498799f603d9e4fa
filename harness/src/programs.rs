//! Consumer programs over exports of every type and storage.

use crate::cdata::*;
use crate::consumer::{Did, Importer, World, importers};
use crate::rehouse::{Odd, Rehouse};
use crate::rng::Rng;
use crate::run::{Case, Obs, Plan, Res, Subject, caught, cleanup};
use crate::share::other_owners;
use crate::storage::{FaultBuf, Handle, House, SmallBuf, set_current};
use crate::val::{Dist, fp_all, sample_n, show};
use crate::{ensure, meter};
use narrow::array::Array;
use narrow::buffer::{ArcBuffer, BoxBuffer, RcBuffer, SliceBuffer, VecBuffer};
use narrow::collection::Collection;
use narrow::layout::ArrayItem;
use narrow_ffi::Export;
use std::rc::Rc;

/// Counts the owners of the storage of a collection.
pub type Trace<C> = Option<fn(&C) -> Box<dyn Fn() -> usize>>;

/// Allocator handles counted through the handles of live buffers.
pub fn fault_owners<C>(_: &C) -> Box<dyn Fn() -> usize> {
    let h = crate::storage::current();
    // Ours, the one set as current, and the one of the caller.
    Box::new(move || Rc::strong_count(&h.0) - 3)
}

/// Row counts for consumer programs.
pub fn rows_len(rng: &mut Rng, cost: usize) -> usize {
    if cfg!(miri) { *rng.pick(&[0, 1, 2, 3, 5, 9]) } else { crate::val::sample_len(rng, cost * 4) }
}

fn program<T, S>(case: &mut Case, importers: &[Importer], trace: Trace<Array<T, S>>, split: bool, obs: &mut Obs, seed: u64) -> Res<(Did, i64)>
where
    S: House,
    T: ArrayItem + CVal,
    Array<T, VecBuffer>: FromIterator<T> + Rehouse<S, Out = Array<T, S>>,
    Array<T, S>: Export + Collection<Owned = T> + 'static,
{
    let mut rng = Rng::new(seed);
    let rng = &mut rng;
    let base = meter::get().live_bytes;
    let h = Handle::new(7);
    let mut did = Did::default();
    let res = (|| -> Res {
        let mut w = World { arrays: Vec::new(), schemas: Vec::new(), did: Did::default(), importers, deep: !cfg!(miri) && rng.below(4) == 0, split };
        set_current(Some(h.clone()));
        let mut watch: Option<Box<dyn Fn() -> usize>> = None;
        let exports = if split { 1 } else { rng.range(1, 2) };
        for _ in 0..exports {
            let mut d = Dist::random(rng);
            if cfg!(miri) {
                d.list_max = d.list_max.min(3);
            }
            let n = rows_len(rng, T::COST);
            let items: Vec<T> = sample_n(rng, &d, n);
            fp_all(&items, case.fp_mut());
            case.trace(|| format!("export {}", show(&items)));
            let rows = dyns(&items);
            let a: Array<T, S> = items.into_iter().collect::<Array<T, VecBuffer>>().rehouse(&mut Odd::unshifted(rng));
            if exports == 1 {
                watch = trace.map(|t| t(&a));
            }
            let (a, s) = a.export().map_err(|e| format!("export fails: {e}"))?;
            w.adopt(&T::ty(), take_array(a), take_schema(s), &rows)?;
        }
        let mut last = w.did;
        for k in 0..rng.range(3, if cfg!(miri) { 14 } else { 30 }) {
            w.step(rng, obs).map_err(|e| format!("step {k}: {e}"))?;
            case.trace(|| format!("step {k}: {:?}", w.did));
            if let Some(o) = &watch {
                let n = o();
                ensure!((n == 0) == w.arrays.is_empty(), "step {k}: the storage has {n} owners, {} array structures are live", w.arrays.len());
            }
            last = w.did;
        }
        let _ = last;
        w.finish(rng, watch.as_deref()).map_err(|e| format!("at the end: {e}"))?;
        did = w.did;
        Ok(())
    })();
    set_current(None);
    drop(h);
    cleanup();
    res?;
    Ok((did, meter::get().live_bytes - base))
}

fn subject<T, S>(case: &mut Case, trace: Trace<Array<T, S>>, split: bool) -> Res
where
    S: House,
    T: ArrayItem + CVal,
    Array<T, VecBuffer>: FromIterator<T> + Rehouse<S, Out = Array<T, S>>,
    Array<T, S>: Export + Collection<Owned = T> + 'static,
{
    thread_local! { static IMPORTERS: Vec<Importer> = importers(); }
    let seed = case.rng.u64();
    IMPORTERS.with(|m| {
        let mut obs = Obs::default();
        let run = |case: &mut Case, obs: &mut Obs| caught(|| program::<T, S>(case, m, trace, split, obs, seed)).map_err(|e| format!("unexpected {e}"))?;
        let (did, mut left) = run(case, &mut obs)?;
        // Whatever the first run left in lasting tables is not left again.
        for _ in 0..2 {
            if left == 0 || case.tracing() {
                break;
            }
            left = run(case, &mut obs)?.1;
        }
        ensure!(left == 0 || case.tracing(), "{left} bytes are left allocated after everything was released");
        if did.reads + did.imports + did.moves + did.children_out > 0 {
            case.nontrivial();
        }
        case.fp(seed);
        did.tell(&mut obs);
        for (k, n) in obs.counts {
            case.count(k, n);
        }
        case.count("programs_leaving_nothing_allocated", 1);
        Ok(())
    })
}

pub fn main(id: &'static str, split: bool) {
    let mut subjects = Vec::new();
    macro_rules! sub {
        ($t:ty, $s:ty, $cases:expr, $trace:expr) => {
            if !split || <$t>::ty().child().is_some() {
                subjects.push(Subject::new(format!("Array<{},{}>", crate::items::tidy(stringify!($t)), <$s as House>::NAME), $cases, move |case| {
                    subject::<$t, $s>(case, $trace, split)
                }));
            }
        };
    }
    macro_rules! vec { ($t:ty) => { sub!($t, VecBuffer, 60, None); }; }
    macro_rules! boxed { ($t:ty) => { sub!($t, BoxBuffer, 30, None); }; }
    macro_rules! rc { ($t:ty) => { sub!($t, RcBuffer, 40, Some(other_owners)); }; }
    macro_rules! arc { ($t:ty) => { sub!($t, ArcBuffer, 40, Some(other_owners)); }; }
    macro_rules! slice { ($t:ty) => { sub!($t, SliceBuffer<'static>, 30, None); }; }
    macro_rules! fault { ($t:ty) => { sub!($t, FaultBuf, 30, Some(fault_owners)); }; }
    macro_rules! small { ($t:ty) => { sub!($t, SmallBuf, 30, None); }; }
    if cfg!(miri) {
        crate::ffi_few!(vec);
        small!(Option<i32>);
        small!(Vec<Option<i32>>);
        small!(Option<[bool; 5]>);
        crate::ffi_few!(arc);
        rc!(Option<i32>);
        rc!(Vec<Option<i32>>);
        boxed!(bool);
        boxed!(Vec<[u16; 2]>);
        slice!(Option<[bool; 5]>);
        fault!(Vec<Option<Vec<Option<bool>>>>);
    } else {
        crate::ffi_items!(vec);
        crate::ffi_few!(boxed);
        crate::ffi_few!(rc);
        crate::ffi_items!(arc);
        crate::ffi_few!(slice);
        crate::ffi_few!(fault);
        crate::ffi_few!(small);
    }
    crate::run::main(Plan {
        id,
        rule: "a case = a consumer program: one or two exports of random items (odd but legal parts: omitted validity, garbage under nulls and in padding, spare bytes and rows) held by one storage kind, then random steps reading everything through plain C structures, moving structures, importing as the same and as other types, taking children and child schemas out, releasing by callback or drop, and a final release of everything in random order, with the owners of the storage and the live memory watched; non-trivial = something was read, moved, imported or taken out; distinct = by items and program",
        subjects,
        exhaustive: false,
    });
}
