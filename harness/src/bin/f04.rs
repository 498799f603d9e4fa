//! F04: export followed by import returns the same array without copying.
use narrow::array::Array;
use narrow::bitmap::Bitmap;
use narrow::buffer::{ArcBuffer, ArrayBuffer, BoxBuffer, RcBuffer, SliceBuffer, VecBuffer};
use narrow::collection::flatten::Flatten;
use narrow::collection::{Collection, CollectionRealloc};
use narrow::layout::ArrayItem;
use narrow::layout::boolean::Boolean;
use narrow::layout::fixed_size_list::FixedSizeList;
use narrow::layout::fixed_size_primitive::FixedSizePrimitive;
use narrow::length::Length;
use narrow::validity::Validity;
use narrow_ffi::{Export, Import};
use vh::cdata::*;
use vh::coll::{Coll, check_all, check_consume};
use vh::consumer::{Importer, importers, probe};
use vh::ensure;
use vh::identity::Parts;
use vh::meter;
use vh::programs::rows_len;
use vh::rehouse::{Odd, Rehouse, pack};
use vh::run::{Case, Plan, Res, Subject, caught};
use vh::storage::{FaultBuf, House, SmallBuf};
use vh::val::{Dist, Val, fp_all, sample_n, show};

/// One export, released at the end whatever happens.
struct Pair(Box<CArray>, Option<Box<CSchema>>);
impl Pair {
    fn of<A: Export>(a: A) -> Res<Self> {
        let (a, s) = caught(|| a.export()).map_err(|e| format!("export {e}"))?.map_err(|e| format!("export fails: {e}"))?;
        Ok(Pair(Box::new(take_array(a)), Some(Box::new(take_schema(s)))))
    }
    fn s(&self) -> *const CSchema {
        self.1.as_deref().expect("schema")
    }
}
impl Drop for Pair {
    fn drop(&mut self) {
        drop(give_array(*self.0));
        if let Some(s) = self.1.take() {
            drop(give_schema(*s));
        }
    }
}

fn rounds<T, A>(case: &mut Case, a: A, want: &[T]) -> Res
where
    A: Export,
    T: ArrayItem + CVal,
    Imported<T>: Import<'static> + Export + Coll<Owned = T> + Parts,
{
    let rows = dyns(want);
    let mut p = Pair::of(a)?;
    ensure!(p.0.length == want.len() as i64, "{} rows are exported as {}", want.len(), p.0.length);
    let deep = !cfg!(miri);
    for k in 0..case.rng.range(1, 4) {
        if case.rng.coin() {
            p = { let mut q = p; let moved = Pair(Box::new(*q.0), q.1.take()); q.0.release = None; moved };
        }
        let (at, s) = (&raw const *p.0, p.s());
        if let Some(e) = probe::<T>(at, s, &rows, &mut || {}, &mut case.obs, deep && k == 0)? {
            return Err(format!("import {k} is refused: {e:?}"));
        }
        case.count("round_trips", 1);
    }
    // Several imports at once, all outliving the schema.
    let (at, s) = (&raw const *p.0, p.s());
    let base = meter::get().live_bytes;
    let mut held = Vec::with_capacity(4);
    let n = case.rng.range(1, 3);
    let had = meter::get().live_bytes;
    for _ in 0..n {
        held.push(unsafe { import::<T>(at, s) }.map_err(|e| format!("one of several imports is refused: {e:?}"))?);
    }
    let took = meter::get().live_bytes - had;
    ensure!(took == 0, "importing {n} times keeps {took} bytes allocated");
    let _ = base;
    if case.rng.coin() {
        drop(give_schema(*p.1.take().expect("schema")));
    }
    for (k, h) in held.iter().enumerate() {
        ensure!(Length::len(h) == want.len(), "import {k} of several has {} rows, expected {}", Length::len(h), want.len());
        check_all(h, want, &mut case.obs).map_err(|e| format!("import {k} of several: {e}"))?;
        h.audit(&mut case.obs).map_err(|e| format!("import {k} of several: {e}"))?;
    }
    let again = if case.rng.below(3) == 0 { held.pop() } else { None };
    for h in held {
        check_consume(h, want, &mut case.obs)?;
        case.count("imports_held_together", 1);
    }
    // The import exported in turn; it lives on in its export while `p` is alive.
    if let Some(a) = again {
        let q = Pair::of(a).map_err(|e| format!("re-export: {e}"))?;
        let (mut was, mut now) = (Vec::new(), Vec::new());
        unsafe {
            exposed(&T::ty(), &p.0, &mut was);
            exposed(&T::ty(), &q.0, &mut now);
        }
        let here = |v: Vec<(usize, usize)>| v.into_iter().filter(|(_, n)| *n > 0).collect::<Vec<_>>();
        let (was, now) = (here(was), here(now));
        ensure!(was == now, "the re-export exposes {now:x?}, the export {was:x?}");
        if let Some(e) = probe::<T>(&raw const *q.0, q.s(), &rows, &mut || {}, &mut case.obs, deep)? {
            return Err(format!("import of the re-export is refused: {e:?}"));
        }
        case.count("re_exported_imports", 1);
    }
    if !want.is_empty() {
        case.nontrivial();
    }
    Ok(())
}

fn dist(case: &mut Case) -> Dist {
    let mut d = Dist::random(&mut case.rng);
    if cfg!(miri) {
        d.list_max = d.list_max.min(3);
    }
    d
}

fn subject<T, S>(case: &mut Case) -> Res
where
    S: House,
    T: ArrayItem + CVal,
    Array<T, VecBuffer>: FromIterator<T> + Extend<T> + Rehouse<S, Out = Array<T, S>> + CollectionRealloc<Owned = T>,
    Array<T, S>: Export + Collection<Owned = T>,
    Imported<T>: Import<'static> + Export + Coll<Owned = T> + Parts,
{
    let d = dist(case);
    let n = rows_len(&mut case.rng, T::COST);
    let mut items: Vec<T> = sample_n(&mut case.rng, &d, n);
    let mut a: Array<T, VecBuffer> = items.iter().cloned().collect();
    for _ in 0..case.rng.below(4) {
        match case.rng.below(4) {
            0 => {
                let n = case.rng.below(items.len() + 1);
                a.truncate(n);
                items.truncate(n);
            }
            1 => a.reserve(case.rng.below(100)),
            2 => {
                // An append cut short keeps whole items only.
                let n = case.rng.range(1, 12);
                let more: Vec<T> = sample_n(&mut case.rng, &d, n);
                let at = case.rng.below(n);
                let r = caught(|| {
                    a.extend(more.iter().cloned().enumerate().map(|(i, v)| {
                        assert!(i != at, "{}", vh::run::PLANNED);
                        v
                    }));
                });
                ensure!(r.is_err(), "the panic is lost");
                let kept = Length::len(&a) - items.len();
                items.extend(more.into_iter().take(kept));
                case.count("interrupted_appends", 1);
            }
            _ => {
                let n = case.rng.below(12);
                let more: Vec<T> = sample_n(&mut case.rng, &d, n);
                a.extend(more.iter().cloned());
                items.extend(more);
            }
        }
    }
    fp_all(&items, case.fp_mut());
    let odd = if case.rng.coin() { Odd::unshifted(&mut case.rng) } else { Odd::none(&mut case.rng) };
    case.trace(|| format!("{odd:?} of {}", show(&items)));
    case.fp(u64::from(odd.spare > 0.0) | u64::from(odd.omit > 0.0) << 1 | u64::from(odd.under > 0.0) << 2);
    let a = a.rehouse(&mut odd.clone());
    rounds::<T, _>(case, a, &items)
}

/// Data inside the collection itself, which export has to put somewhere lasting.
fn inline<const N: usize, const B: usize>(case: &mut Case) -> Res {
    let d = dist(case);
    let rng = &mut case.rng.clone();
    let n = rng.range(N.saturating_sub(7), N);
    let bits: Vec<bool> = (0..N).map(|_| rng.chance(d.truth)).collect();
    let ok: Vec<bool> = (0..N).map(|_| !rng.chance(d.null)).collect();
    let mut fill = rng.fork();
    let mut bytes = |set: &[bool]| -> [u8; B] { pack(set, 0, B - set.len().div_ceil(8), Some(&mut fill)).try_into().expect("size") };
    let bitmap = |b: [u8; B], n: usize| Bitmap::<ArrayBuffer<B>>::try_from_parts(b, n, 0).map_err(|e| e.to_string());
    let b = bitmap(bytes(&bits), n)?;
    rounds::<bool, _>(case, Array::<bool, ArrayBuffer<B>>::from_buffer(Boolean::from_buffer(b)), &bits[..n])?;
    let v = Validity::try_from_parts(bitmap(bytes(&bits), n)?, bitmap(bytes(&ok), n)?).map_err(|e| e.to_string())?;
    let want: Vec<Option<bool>> = (0..n).map(|i| ok[i].then_some(bits[i])).collect();
    rounds::<Option<bool>, _>(case, Array::<Option<bool>, ArrayBuffer<B>>::from_buffer(Boolean::from_buffer(v)), &want)?;
    let items: [i32; B] = std::array::from_fn(|_| i32::sample(rng, &d));
    items.iter().for_each(|v| v.fp(case.fp_mut()));
    rounds::<i32, _>(case, Array::<i32, ArrayBuffer<B>>::from_buffer(FixedSizePrimitive::from_buffer(items)), &items)?;
    if B <= N {
        let v = Validity::try_from_parts(items, bitmap(bytes(&ok[..B]), B)?).map_err(|e| e.to_string())?;
        let want: Vec<Option<i32>> = (0..B).map(|i| ok[i].then_some(items[i])).collect();
        rounds::<Option<i32>, _>(case, Array::<Option<i32>, ArrayBuffer<B>>::from_buffer(FixedSizePrimitive::from_buffer(v)), &want)?;
    }
    let v = Validity::from_collection(items);
    let want: Vec<Option<i32>> = items.iter().copied().map(Some).collect();
    rounds::<Option<i32>, _>(case, Array::<Option<i32>, ArrayBuffer<B>>::from_buffer(FixedSizePrimitive::from_buffer(v)), &want)?;
    if B % 2 == 0 {
        let child = FixedSizePrimitive::from_buffer(items);
        let f = Flatten::<_, 2>::try_from_parts(child).map_err(|e| e.to_string())?;
        let want: Vec<[i32; 2]> = items.chunks(2).map(|c| [c[0], c[1]]).collect();
        rounds::<[i32; 2], _>(case, Array::<[i32; 2], ArrayBuffer<B>>::from_buffer(FixedSizeList::from_buffer(f)), &want)?;
    }
    case.count("inline_storage", 1);
    Ok(())
}

/// One array against every item type.
fn pairs<T>(case: &mut Case, all: &[Importer]) -> Res
where
    T: ArrayItem + CVal,
    Array<T, VecBuffer>: FromIterator<T> + Export,
{
    let d = dist(case);
    let n = *case.rng.pick(&[0, 0, 1, 2, 3, 8, 24]);
    let items: Vec<T> = sample_n(&mut case.rng, &d, n);
    fp_all(&items, case.fp_mut());
    let rows = dyns(&items);
    let p = Pair::of(items.into_iter().collect::<Array<T, VecBuffer>>())?;
    for m in all {
        let mut why = Vec::new();
        unsafe { judge(&m.ty, &p.0, &*p.s(), &mut why) };
        let got = (m.rows)(&raw const *p.0, p.s())?;
        if m.ty == T::ty() {
            ensure!(why.is_empty(), "harness: {why:?}");
            let got = got.map_err(|e| format!("import as itself is refused: {e:?}"))?;
            ensure!(got == rows, "import reads {got:?} instead of {rows:?}");
            case.count("imported_as_itself", 1);
        } else {
            match got {
                Ok(got) => return Err(format!("{:?} is accepted as {:?} with rows {got:?}", T::ty(), m.ty)),
                Err(e) => ensure!(why.contains(&e), "{:?} as {:?} is refused with {e:?}, expected one of {why:?}", T::ty(), m.ty),
            }
            case.count("refused_as_another_type", 1);
        }
    }
    case.nontrivial();
    Ok(())
}

fn main() {
    let mut subjects = Vec::new();
    macro_rules! sub {
        ($t:ty, $s:ty, $cases:expr) => {
            subjects.push(Subject::new(format!("Array<{},{}>", vh::items::tidy(stringify!($t)), <$s as House>::NAME), $cases, subject::<$t, $s>));
        };
    }
    macro_rules! vec { ($t:ty) => { sub!($t, VecBuffer, 80); }; }
    macro_rules! boxed { ($t:ty) => { sub!($t, BoxBuffer, 40); }; }
    macro_rules! rc { ($t:ty) => { sub!($t, RcBuffer, 30); }; }
    macro_rules! arc { ($t:ty) => { sub!($t, ArcBuffer, 30); }; }
    macro_rules! slice { ($t:ty) => { sub!($t, SliceBuffer<'static>, 30); }; }
    macro_rules! fault { ($t:ty) => { sub!($t, FaultBuf, 30); }; }
    macro_rules! small { ($t:ty) => { sub!($t, SmallBuf, 30); }; }
    macro_rules! pair {
        ($t:ty) => {
            subjects.push(Subject::new(format!("pairs of {}", vh::items::tidy(stringify!($t))), 12, |case| {
                thread_local! { static IMPORTERS: Vec<Importer> = importers(); }
                IMPORTERS.with(|m| pairs::<$t>(case, m))
            }));
        };
    }
    vh::ffi_items!(vec);
    vh::ffi_few!(boxed);
    vh::ffi_few!(rc);
    vh::ffi_few!(arc);
    vh::ffi_few!(slice);
    vh::ffi_few!(fault);
    vh::ffi_few!(small);
    vh::ffi_items!(pair);
    subjects.push(Subject::new("inline 9", 60, inline::<9, 2>));
    subjects.push(Subject::new("inline 24", 60, inline::<24, 3>));
    subjects.push(Subject::new("inline 8", 60, inline::<8, 4>));
    subjects.push(Subject::new("inline 40", 60, inline::<40, 6>));
    vh::run::main(Plan {
        id: "F04",
        rule: "a case = an array built by a short history (with interrupted appends) or from odd but legal parts in one storage kind, or of inline storage, exported, moved about, imported up to four times, several times at once, after the schema is gone and from the export of an import, read through every access path and located in memory; or one array imported as every item type; non-trivial = at least one row, or all item types tried; distinct = by items and oddities",
        subjects,
        exhaustive: false,
    });
}
