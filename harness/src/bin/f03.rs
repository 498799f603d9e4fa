//! F03: exports share the storage of the array and hold it exactly until release.
use narrow::array::Array;
use narrow::buffer::{ArcBuffer, BoxBuffer, RcBuffer, SliceBuffer, VecBuffer};
use narrow::collection::Collection;
use narrow::layout::ArrayItem;
use narrow_ffi::{ArrowArray, ArrowSchema, Export};
use vh::cdata::*;
use vh::identity::{Parts, Place, places};
use vh::programs::{Trace, fault_owners, rows_len};
use vh::rehouse::{Odd, Rehouse};
use vh::run::{Case, Plan, Res, Subject, caught, cleanup};
use vh::share::{Share, other_owners};
use vh::storage::{FaultBuf, Handle, House, set_current};
use vh::val::{Dist, fp_all, sample_n, show};
use vh::{ensure, meter};

/// Memory an export may take per level, whatever the data.
const PER_LEVEL: i64 = 1024;

/// The structures of one export, held where a consumer put them.
struct Out {
    array: Option<Box<CArray>>,
    schema: Option<Box<CSchema>>,
    bytes: Vec<Vec<u8>>,
    given: Vec<(usize, usize)>,
}
impl Drop for Out {
    fn drop(&mut self) {
        if let Some(a) = self.array.take() {
            drop(give_array(*a));
        }
        if let Some(s) = self.schema.take() {
            drop(give_schema(*s));
        }
    }
}
unsafe fn bytes_at(ty: &Ty, a: &CArray, out: &mut Vec<Vec<u8>>) {
    unsafe {
        let n = a.length as usize;
        let copy = |i: usize, len: usize| -> Vec<u8> {
            let p = a.buffers.add(i).read().cast::<u8>();
            (0..if p.is_null() { 0 } else { len }).map(|k| p.add(k).read()).collect()
        };
        if ty.nullable {
            out.push(copy(0, n.div_ceil(8)));
        }
        match ty.kind {
            Kind::Bool => out.push(copy(1, n.div_ceil(8))),
            Kind::Prim(_, size) => out.push(copy(1, n * size)),
            Kind::List(_) => out.push(copy(1, (n + 1) * 4)),
            Kind::Fsl(..) => {}
        }
        if let Some(c) = ty.child() {
            bytes_at(c, &*child(a), out);
        }
    }
}
fn levels(ty: &Ty) -> i64 {
    1 + ty.child().map_or(0, levels)
}

/// Writes over whatever memory of these sizes is free.
fn scribble(sizes: &[usize]) {
    let all: Vec<Vec<u8>> = sizes.iter().flat_map(|n| (0..3).map(|_| vec![0xee_u8; *n])).collect();
    std::hint::black_box(&all);
}

fn export<T, S>(case: &mut Case, a: Array<T, S>, before: &[Place], requests: &dyn Fn() -> u64) -> Res<Out>
where
    S: House,
    T: ArrayItem + CVal,
    Array<T, S>: Export,
{
    let live = meter::get().live_bytes;
    let was = requests();
    meter::reset_peak();
    let r = caught(|| a.export());
    let m = meter::get();
    let (a, s) = r.map_err(|e| format!("export {e}"))?.map_err(|e| format!("export fails: {e}"))?;
    ensure!(!a.is_released() && !s.is_released(), "a fresh export is marked as released");
    let out = Out { array: Some(Box::new(take_array(a))), schema: Some(Box::new(take_schema(s))), bytes: Vec::new(), given: Vec::new() };
    let mut out = out;
    let room = PER_LEVEL * levels(&T::ty());
    ensure!(m.live_bytes - live <= room && m.peak - live <= room, "export takes {} bytes, {} at its peak, for {} levels", m.live_bytes - live, m.peak - live, levels(&T::ty()));
    ensure!(requests() == was, "export asks the storage for memory {} times", requests() - was);
    let c = out.array.as_deref().expect("set");
    unsafe {
        exposed(&T::ty(), c, &mut out.given);
        bytes_at(&T::ty(), c, &mut out.bytes);
    }
    ensure!(out.given.len() == before.len(), "the export exposes {} buffers, the array has {}", out.given.len(), before.len());
    for (i, (g, p)) in out.given.iter().zip(before).enumerate() {
        if g.1 > 0 {
            ensure!(g.0 == p.addr && p.bytes >= g.1, "buffer {i} of {} bytes is exposed at {:#x}, the array holds {} bytes at {:#x}", g.1, g.0, p.bytes, p.addr);
            case.count("buffers_in_place", 1);
        }
    }
    case.count("exports", 1);
    Ok(out)
}

fn unchanged<T: CVal>(o: &Out) -> Res {
    let Some(a) = o.array.as_deref() else { return Ok(()) };
    let mut now = Vec::new();
    unsafe { bytes_at(&T::ty(), a, &mut now) };
    for (i, (n, w)) in now.iter().zip(&o.bytes).enumerate() {
        ensure!(n == w, "buffer {i} now reads {n:x?}, exported as {w:x?}");
    }
    let mut given = Vec::new();
    unsafe { exposed(&T::ty(), a, &mut given) };
    ensure!(given == o.given, "the buffers have moved from {:x?} to {given:x?}", o.given);
    Ok(())
}

fn program<T, S>(case: &mut Case, twin: Option<fn(&Array<T, S>) -> Array<T, S>>, trace: Trace<Array<T, S>>) -> Res<i64>
where
    S: House,
    T: ArrayItem + CVal,
    Array<T, VecBuffer>: FromIterator<T> + Rehouse<S, Out = Array<T, S>>,
    Array<T, S>: Export + Collection<Owned = T> + Parts + 'static,
{
    let mut d = Dist::random(&mut case.rng);
    if cfg!(miri) {
        d.list_max = d.list_max.min(3);
    }
    let n = rows_len(&mut case.rng, T::COST);
    let base = meter::get().live_bytes;
    let h = Handle::new(3);
    let r = (|| -> Res {
        set_current(Some(h.clone()));
        let items: Vec<T> = sample_n(&mut case.rng, &d, n);
        fp_all(&items, case.fp_mut());
        case.trace(|| format!("export {}", show(&items)));
        let a: Array<T, S> = items.into_iter().collect::<Array<T, VecBuffer>>().rehouse(&mut Odd::unshifted(&mut case.rng));
        let before = places(&a);
        let data: usize = before.iter().map(|p| p.bytes).sum();
        let sizes: Vec<usize> = before.iter().map(|p| p.bytes.clamp(1, 1 << 16)).collect();
        // Shared storage: one more handle, so that giving up twice is seen.
        let keep = twin.map(|t| t(&a));
        let watch = trace.map(|t| t(&a));
        let owners = || watch.as_ref().map(|w| w());
        let asked = || h.requests();
        let alone = if keep.is_some() { before.len() } else { 0 };
        let mut outs = Vec::new();
        let more = match twin {
            Some(t) if case.rng.coin() => (0..case.rng.range(1, 2)).map(|_| t(&a)).collect(),
            _ => Vec::new(),
        };
        for a in more.into_iter().chain([a]) {
            outs.push(export::<T, S>(case, a, &before, &asked)?);
        }
        let owned = matches!(S::NAME, "vec" | "box");
        if owned {
            case.count("own_storage", 1);
        }
        // Let go of everything, one structure at a time.
        while outs.iter().any(|o| o.array.is_some() || o.schema.is_some()) {
            let i = case.rng.below(outs.len());
            let arrays = |outs: &[Out]| outs.iter().filter(|o| o.array.is_some()).count();
            match case.rng.below(6) {
                0 => {
                    // The consumer moves its structures.
                    let o = &mut outs[i];
                    o.array = o.array.take().map(|a| Box::new(*a));
                    o.schema = o.schema.take().map(|a| Box::new(*a));
                }
                1 => scribble(&sizes),
                2 | 3 => {
                    let Some(mut s) = outs[i].schema.take() else { continue };
                    case.trace(|| format!("release schema {i}"));
                    if case.rng.coin() {
                        let p = &raw mut *s;
                        unsafe {
                            ensure!(!(*p.cast::<ArrowSchema>()).is_released(), "a live schema is marked as released");
                            ((*p).release.expect("live"))(p);
                            ensure!((*p).release.is_none() && (*p.cast::<ArrowSchema>()).is_released(), "a released schema is not marked as released");
                        }
                    } else {
                        drop(give_schema(*s));
                    }
                    case.count("schemas_released", 1);
                }
                _ => {
                    let Some(mut a) = outs[i].array.take() else { continue };
                    case.trace(|| format!("release array {i}"));
                    let live = meter::get().live_bytes;
                    if case.rng.coin() {
                        let p = &raw mut *a;
                        unsafe {
                            ensure!(!(*p.cast::<ArrowArray>()).is_released(), "a live array is marked as released");
                            ((*p).release.expect("live"))(p);
                            ensure!((*p).release.is_none() && (*p.cast::<ArrowArray>()).is_released(), "a released array is not marked as released");
                        }
                        case.count("arrays_released_by_callback", 1);
                    } else {
                        drop(give_array(*a));
                        case.count("arrays_released_by_drop", 1);
                    }
                    let freed = live - meter::get().live_bytes;
                    ensure!(!owned || freed >= data as i64, "the release of an array with {data} bytes of data gives up {freed}");
                    ensure!(twin.is_none() || arrays(&outs) > 0 || freed > 0, "the release gives up no memory");
                }
            }
            if let Some(k) = owners() {
                let want = arrays(&outs);
                ensure!(k >= alone + if want > 0 { before.len() } else { 0 }, "the {} buffers have {k} owners besides the monitor while {want} exports are live and {alone} handles are kept", before.len());
                ensure!(want > 0 || k == alone, "the {} buffers have {k} owners besides the monitor after all exports were released and {alone} handles are kept", before.len());
                case.count("owner_counts_read", 1);
            }
            for o in &outs {
                unchanged::<T>(o)?;
            }
        }
        drop(keep);
        if let Some(k) = owners() {
            ensure!(k == 0, "{k} owners remain after everything was let go");
        }
        if data > 0 {
            case.nontrivial();
        }
        Ok(())
    })();
    set_current(None);
    drop(h);
    cleanup();
    r?;
    Ok(meter::get().live_bytes - base)
}

fn subject<T, S>(case: &mut Case, twin: Option<fn(&Array<T, S>) -> Array<T, S>>, trace: Trace<Array<T, S>>) -> Res
where
    S: House,
    T: ArrayItem + CVal,
    Array<T, VecBuffer>: FromIterator<T> + Rehouse<S, Out = Array<T, S>>,
    Array<T, S>: Export + Collection<Owned = T> + Parts + 'static,
{
    let rng = case.rng.clone();
    // Whatever one run leaves in lasting tables is not left again.
    for _ in 0..3 {
        case.rng = rng.clone();
        let left = program::<T, S>(case, twin, trace)?;
        if left == 0 || case.tracing() {
            case.count("programs_leaving_nothing_allocated", 1);
            return Ok(());
        }
    }
    case.rng = rng;
    let left = program::<T, S>(case, twin, trace)?;
    ensure!(left == 0, "{left} bytes are left allocated after everything was released");
    Ok(())
}

fn main() {
    let mut subjects = Vec::new();
    macro_rules! sub {
        ($t:ty, $s:ty, $cases:expr, $twin:expr, $trace:expr) => {
            subjects.push(Subject::new(format!("Array<{},{}>", vh::items::tidy(stringify!($t)), <$s as House>::NAME), $cases, move |case| {
                subject::<$t, $s>(case, $twin, $trace)
            }));
        };
    }
    macro_rules! vec { ($t:ty) => { sub!($t, VecBuffer, 60, None, None); }; }
    macro_rules! boxed { ($t:ty) => { sub!($t, BoxBuffer, 40, None, None); }; }
    macro_rules! rc { ($t:ty) => { sub!($t, RcBuffer, 40, Some(Share::share), Some(other_owners)); }; }
    macro_rules! arc { ($t:ty) => { sub!($t, ArcBuffer, 40, Some(Share::share), Some(other_owners)); }; }
    macro_rules! slice { ($t:ty) => { sub!($t, SliceBuffer<'static>, 30, None, None); }; }
    macro_rules! fault { ($t:ty) => { sub!($t, FaultBuf, 30, None, Some(fault_owners)); }; }
    vh::ffi_items!(vec);
    vh::ffi_few!(boxed);
    vh::ffi_items!(rc);
    vh::ffi_items!(arc);
    vh::ffi_few!(slice);
    vh::ffi_few!(fault);
    vh::run::main(Plan {
        id: "F03",
        rule: "a case = random items held by one storage kind (odd but legal parts), exported one to three times over shared storage; the exposed addresses, the memory taken, the owners of every buffer, the bytes behind every pointer and the memory given up are watched while structures are moved, other memory is overwritten and arrays and schemas are released by callback or drop in random order; non-trivial = some buffer holds data; distinct = by items",
        subjects,
        exhaustive: false,
    });
}
