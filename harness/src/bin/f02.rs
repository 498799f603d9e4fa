//! F02: exported structures conform to the Arrow C Data Interface.
use narrow::array::Array;
use narrow::bitmap::Bitmap;
use narrow::buffer::{ArcBuffer, ArrayBuffer, BoxBuffer, RcBuffer, SliceBuffer, VecBuffer};
use narrow::collection::{Collection, CollectionRealloc};
use narrow::collection::flatten::Flatten;
use narrow::layout::ArrayItem;
use narrow::layout::boolean::Boolean;
use narrow::layout::fixed_size_list::FixedSizeList;
use narrow::layout::fixed_size_primitive::FixedSizePrimitive;
use narrow::validity::Validity;
use narrow_ffi::Export;
use vh::bomb::Bomb;
use vh::cdata::*;
use vh::ensure;
use vh::programs::rows_len;
use vh::rehouse::{Odd, Rehouse, pack};
use vh::run::{Case, Plan, Res, Subject, caught};
use vh::storage::{FaultBuf, House, SmallBuf};
use vh::val::{Dist, Val, fp_all, sample_n, show, vast_len};

/// Exports and compares everything exposed with `want`.
fn checked<A: Export>(case: &mut Case, a: A, ty: &Ty, want: &[Dyn]) -> Res {
    let (a, s) = caught(|| a.export()).map_err(|e| format!("export {e}"))?.map_err(|e| format!("export fails: {e}"))?;
    let (mut a, mut s) = (take_array(a), take_schema(s));
    let levels = unsafe { conforms(ty, &a, &s) };
    let r = levels.and_then(|levels| {
        ensure!(a.length == want.len() as i64, "the length is {}, expected {}", a.length, want.len());
        let got = unsafe { read_all(ty, &a) };
        for (i, (g, w)) in got.iter().zip(want).enumerate() {
            ensure!(g == w, "row {i} reads {g:?}, expected {w:?}");
        }
        Ok(levels)
    });
    unsafe {
        (a.release.expect("checked"))(&raw mut a);
        (s.release.expect("checked"))(&raw mut s);
    }
    let levels = r?;
    ensure!(a.release.is_none() && s.release.is_none(), "released structures are not marked");
    case.count("levels_conform", levels);
    case.count("rows_read_through_c", want.len() as u64);
    if !want.is_empty() {
        case.nontrivial();
    }
    Ok(())
}

fn subject<T, S>(case: &mut Case) -> Res
where
    S: House,
    T: ArrayItem + CVal,
    Array<T, VecBuffer>: FromIterator<T> + Extend<T> + Default + Rehouse<S, Out = Array<T, S>> + CollectionRealloc<Owned = T>,
    Array<T, S>: Export + Collection<Owned = T>,
{
    let mut d = Dist::random(&mut case.rng);
    if cfg!(miri) {
        d.list_max = d.list_max.min(3);
    }
    let n = vast_len(&mut case.rng, 4000, T::COST).unwrap_or_else(|| rows_len(&mut case.rng, T::COST));
    let mut items: Vec<T> = sample_n(&mut case.rng, &d, n);
    let mut a: Array<T, VecBuffer> = if case.rng.below(12) == 0 {
        items.clear();
        Array::default()
    } else {
        items.iter().cloned().collect()
    };
    // Some history: cut back, appended to, with spare room.
    for _ in 0..case.rng.below(4) {
        match case.rng.below(3) {
            0 => {
                let n = case.rng.below(items.len() + 1);
                a.truncate(n);
                items.truncate(n);
            }
            1 => a.reserve(case.rng.below(100)),
            _ => {
                let n = case.rng.below(12);
                let more: Vec<T> = sample_n(&mut case.rng, &d, n);
                a.extend(more.iter().cloned());
                items.extend(more);
            }
        }
    }
    fp_all(&items, case.fp_mut());
    let odd = if case.rng.coin() { Odd::unshifted(&mut case.rng) } else { Odd::none(&mut case.rng) };
    case.trace(|| format!("{odd:?} of {}", show(&items)));
    case.fp(u64::from(odd.spare > 0.0) | u64::from(odd.omit > 0.0) << 1 | u64::from(odd.under > 0.0) << 2);
    let a = a.rehouse(&mut odd.clone());
    checked(case, a, &T::ty(), &dyns(&items))
}

/// Data inside the collection itself, which export has to put somewhere lasting.
fn inline<const N: usize, const B: usize>(case: &mut Case) -> Res {
    let d = Dist::random(&mut case.rng);
    let rng = &mut case.rng.clone();
    let n = rng.range(N.saturating_sub(7).max(1), N);
    let bits: Vec<bool> = (0..N).map(|_| rng.chance(d.truth)).collect();
    let ok: Vec<bool> = (0..N).map(|_| !rng.chance(d.null)).collect();
    let mut fill = rng.fork();
    let mut bytes = |set: &[bool]| -> [u8; B] { pack(set, 0, B - set.len().div_ceil(8), Some(&mut fill)).try_into().expect("size") };
    let nn = n.div_ceil(8).max(1);
    let _ = nn;
    let bitmap = |b: [u8; B], n: usize| Bitmap::<ArrayBuffer<B>>::try_from_parts(b, n, 0).map_err(|e| e.to_string());
    // Any number of bits fits as long as the bytes hold them.
    let b = bitmap(bytes(&bits), n)?;
    let want: Vec<Dyn> = bits[..n].iter().map(CVal::to_dyn).collect();
    checked(case, Array::<bool, ArrayBuffer<B>>::from_buffer(Boolean::from_buffer(b)), &bool::ty(), &want)?;
    let v = Validity::try_from_parts(bitmap(bytes(&bits), n)?, bitmap(bytes(&ok), n)?).map_err(|e| e.to_string())?;
    let want: Vec<Dyn> = (0..n).map(|i| ok[i].then_some(bits[i]).to_dyn()).collect();
    checked(case, Array::<Option<bool>, ArrayBuffer<B>>::from_buffer(Boolean::from_buffer(v)), &<Option<bool>>::ty(), &want)?;
    // Primitive values are exactly as many as the storage.
    let items: [i32; B] = std::array::from_fn(|_| i32::sample(rng, &d));
    items.iter().for_each(|v| v.fp(case.fp_mut()));
    checked(case, Array::<i32, ArrayBuffer<B>>::from_buffer(FixedSizePrimitive::from_buffer(items)), &i32::ty(), &dyns(&items))?;
    let v = Validity::try_from_parts(items, bitmap(bytes(&ok[..B.min(N)]), B.min(N))?);
    if let (Ok(v), true) = (v, B <= N) {
        let want: Vec<Dyn> = (0..B).map(|i| ok[i].then_some(items[i]).to_dyn()).collect();
        checked(case, Array::<Option<i32>, ArrayBuffer<B>>::from_buffer(FixedSizePrimitive::from_buffer(v)), &<Option<i32>>::ty(), &want)?;
    }
    let v = Validity::from_collection(items);
    let want: Vec<Dyn> = items.iter().map(CVal::to_dyn).collect();
    checked(case, Array::<Option<i32>, ArrayBuffer<B>>::from_buffer(FixedSizePrimitive::from_buffer(v)), &<Option<i32>>::ty(), &want)?;
    if B % 2 == 0 {
        let child = FixedSizePrimitive::from_buffer(items);
        let f = Flatten::<_, 2>::try_from_parts(child).map_err(|e| e.to_string())?;
        let want: Vec<Dyn> = items.chunks(2).map(|c| Dyn::List(c.iter().map(CVal::to_dyn).collect())).collect();
        checked(case, Array::<[i32; 2], ArrayBuffer<B>>::from_buffer(FixedSizeList::from_buffer(f)), &<[i32; 2]>::ty(), &want)?;
    }
    case.count("inline_storage", 1);
    Ok(())
}

/// Arrays whose last append was cut short by a panic.
fn interrupted<T>(case: &mut Case) -> Res
where
    T: ArrayItem + CVal,
    Array<T, VecBuffer>: FromIterator<T> + Extend<T> + Export + Collection<Owned = T>,
{
    let d = Dist::random(&mut case.rng);
    let n = case.rng.below(20);
    let items: Vec<T> = sample_n(&mut case.rng, &d, n);
    let mut a: Array<T, VecBuffer> = items.iter().cloned().collect();
    let more: Vec<T> = { let n = case.rng.below(8); sample_n(&mut case.rng, &d, n) };
    let at = case.rng.below(more.len() + 1);
    let r = caught(|| {
        a.extend(more.iter().cloned().enumerate().map(|(i, v)| {
            assert!(i != at, "{}", vh::run::PLANNED);
            v
        }));
    });
    ensure!(r.is_err() || at >= more.len(), "the panic is lost");
    let kept: Vec<T> = (&a).iter_views_owned();
    fp_all(&kept, case.fp_mut());
    checked(case, a, &T::ty(), &dyns(&kept))
}

trait Kept<T> {
    fn iter_views_owned(&self) -> Vec<T>;
}
impl<T: ArrayItem, S: narrow::buffer::Buffer> Kept<T> for Array<T, S>
where
    Array<T, S>: Collection<Owned = T>,
{
    fn iter_views_owned(&self) -> Vec<T> {
        (0..narrow::length::Length::len(self)).map(|i| self.owned(i).expect("row")).collect()
    }
}

fn main() {
    let _ = std::marker::PhantomData::<Bomb<u8>>;
    let mut subjects = Vec::new();
    macro_rules! sub {
        ($t:ty, $s:ty, $cases:expr) => {
            subjects.push(Subject::new(format!("Array<{},{}>", vh::items::tidy(stringify!($t)), <$s as House>::NAME), $cases, subject::<$t, $s>));
        };
    }
    macro_rules! vec { ($t:ty) => { sub!($t, VecBuffer, 100); }; }
    macro_rules! boxed { ($t:ty) => { sub!($t, BoxBuffer, 60); }; }
    macro_rules! rc { ($t:ty) => { sub!($t, RcBuffer, 40); }; }
    macro_rules! arc { ($t:ty) => { sub!($t, ArcBuffer, 40); }; }
    macro_rules! slice { ($t:ty) => { sub!($t, SliceBuffer<'static>, 40); }; }
    macro_rules! fault { ($t:ty) => { sub!($t, FaultBuf, 40); }; }
    macro_rules! small { ($t:ty) => { sub!($t, SmallBuf, 40); }; }
    macro_rules! cut {
        ($t:ty) => {
            subjects.push(Subject::new(format!("interrupted Array<{}>", vh::items::tidy(stringify!($t))), 60, interrupted::<$t>));
        };
    }
    vh::ffi_items!(vec);
    vh::ffi_few!(boxed);
    vh::ffi_few!(rc);
    vh::ffi_few!(arc);
    vh::ffi_few!(slice);
    vh::ffi_few!(fault);
    vh::ffi_few!(small);
    vh::ffi_items!(cut);
    subjects.push(Subject::new("inline 9", 60, inline::<9, 2>));
    subjects.push(Subject::new("inline 24", 60, inline::<24, 3>));
    subjects.push(Subject::new("inline 8", 60, inline::<8, 4>));
    subjects.push(Subject::new("inline 40", 60, inline::<40, 6>));
    vh::run::main(Plan {
        id: "F02",
        rule: "a case = an array built by a short history or from odd but legal parts in one storage kind (also inline storage, and arrays whose last append was interrupted by a panic), exported and read by a consumer that knows only the C layouts and the specification; non-trivial = at least one row read; distinct = by items and oddities",
        subjects,
        exhaustive: false,
    });
}
