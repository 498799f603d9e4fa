//! C16: list views behave exactly like the list they denote.
vh::zoo_uses!();
use narrow::buffer::Buffer;
use narrow::collection::Collection;
use narrow::collection::owned::IntoOwned;
use narrow::length::Length;
use narrow::offset::{Offset, OffsetView};
use std::rc::Rc;
use std::sync::Arc;
use vh::coll::{Coll, check_all, check_list_view};
use vh::ensure;
use vh::rehouse::Odd;
use vh::run::{Case, Plan, Res, Subject, forever};
use vh::val::{Dist, Val, fp_all, sample_n, sample_small, show};
use vh::virt::{ITEM, Virt};

/// Lists related to `row`: equal, shorter, longer, different somewhere.
fn relatives<I: Val>(case: &mut Case, row: &[I], rows: &[Vec<I>], d: &Dist) -> Vec<Vec<I>> {
    let mut out = vec![row.to_vec(), Vec::new()];
    let mut longer = row.to_vec();
    longer.push(I::sample(&mut case.rng, d));
    out.push(longer);
    let mut front = row.to_vec();
    front.insert(0, I::sample(&mut case.rng, d));
    out.push(front);
    if !row.is_empty() {
        out.push(row[..row.len() - 1].to_vec());
        out.push(row[1..].to_vec());
        for _ in 0..2 {
            let i = case.rng.below(row.len());
            let mut other = row.to_vec();
            other[i] = I::sample(&mut case.rng, d);
            out.push(other);
        }
        let mut last = row.to_vec();
        *last.last_mut().expect("non-empty") = I::sample(&mut case.rng, d);
        out.push(last);
        let mut turned = row.to_vec();
        turned.reverse();
        out.push(turned);
    }
    if !rows.is_empty() {
        out.push(case.rng.pick(rows).clone());
    }
    out
}

type View<'a, T, O, S> = OffsetView<'a, T, O, S, Vec<<T as Collection>::Owned>>;

/// One way of comparing a view with a list.
struct Eq<T: Collection<Owned: 'static> + 'static, O: Offset, S: Buffer + 'static> {
    name: &'static str,
    eq: fn(View<'static, T, O, S>, &'static Vec<T::Owned>) -> bool,
}

#[allow(clippy::type_complexity)]
struct Kit<T: Collection<Owned: 'static> + 'static, O: Offset, S: Buffer + 'static> {
    build: fn(Vec<Vec<T::Owned>>, &mut Odd) -> Offsets<T, O, S>,
    eqs: Vec<Eq<T, O, S>>,
    between: fn(&View<'static, T, O, S>, &View<'static, T, O, S>) -> bool,
}

fn subject<T, O, S>(case: &mut Case, kit: &Kit<T, O, S>) -> Res
where
    T: Coll<Owned: PartialEq> + 'static,
    O: Offset,
    S: Buffer + 'static,
{
    let mut d = Dist::random(&mut case.rng);
    d.truth = 0.5;
    if case.rng.coin() {
        // Few different items, so that rows often agree in part.
        d.special = 1.0;
    }
    let k = sample_small(&mut case.rng).min(14);
    let mut rows: Vec<Vec<T::Owned>> = sample_n(&mut case.rng, &d, k);
    let row: Vec<T::Owned> = Vec::sample(&mut case.rng, &d);
    // The same row several times among different neighbours.
    for _ in 0..2 {
        let at = case.rng.below(rows.len() + 1);
        rows.insert(at, row.clone());
    }
    fp_all(&rows, case.fp_mut());
    let mut odd = Odd::random(&mut case.rng);
    // Comparing views needs collections that outlive the comparison.
    let c = forever((kit.build)(rows.clone(), &mut odd));
    // A second collection with the row at another start position.
    let n = sample_small(&mut case.rng).min(9);
    let mut others: Vec<Vec<T::Owned>> = sample_n(&mut case.rng, &d, n);
    let at = case.rng.below(others.len() + 1);
    others.insert(at, row.clone());
    let e = forever((kit.build)(others.clone(), &mut Odd::random(&mut case.rng)));
    case.trace(|| format!("rows {} and {}", show(&rows), show(&others)));
    case.nontrivial();
    check_all(c, &rows, &mut case.obs)?;
    for (i, want) in rows.iter().enumerate() {
        let v = c.view(i).ok_or("missing row")?;
        let copy = v;
        #[allow(clippy::clone_on_copy)]
        let clone = v.clone();
        for (name, v) in [("view", v), ("copy", copy), ("clone", clone)] {
            check_list_view(v, want, &mut case.obs).map_err(|e| format!("{name} of row {i}: {e}"))?;
        }
        // Items that differ from themselves make their list do so, too.
        let itself = want == want;
        for (name, w) in [("itself", &v), ("its copy", &copy), ("its clone", &clone)] {
            ensure!((kit.between)(&v, w) == itself, "row {i} {want:?} compares {} with {name}", !itself);
            case.count(if itself { "equal_itself" } else { "unequal_itself" }, 1);
        }
        let owned: Vec<T::Owned> = v.into_owned();
        ensure!(owned.same(want), "row {i} converts to {owned:?}, expected {want:?}");
        for other in relatives(case, want, &rows, &d) {
            let expected = *want == other;
            let other: &'static Vec<T::Owned> = forever(other);
            for eq in &kit.eqs {
                let got = (eq.eq)(v, other);
                ensure!(
                    got == expected,
                    "row {i} {want:?} compares {got} with {} {other:?}",
                    eq.name
                );
                case.count(if got { "equal" } else { "unequal" }, 1);
            }
        }
        for (source, lists) in [(c, &rows), (e, &others)] {
            for (j, other) in lists.iter().enumerate() {
                let w = source.view(j).ok_or("missing row")?;
                let (got, expected) = ((kit.between)(&v, &w), want == other);
                ensure!(got == expected, "row {i} {want:?} compares {got} with the view of {other:?}");
                ensure!((kit.between)(&w, &v) == expected, "comparison of {other:?} and {want:?} is not symmetric");
                case.count(if got { "equal_views" } else { "unequal_views" }, 1);
            }
        }
    }
    Ok(())
}

/// Views of nested collections, through every wrapper, at every level.
fn nested<C: Coll>(case: &mut Case, build: fn(Vec<C::Owned>, &mut Odd) -> C) -> Res {
    let d = Dist::random(&mut case.rng);
    let n = sample_small(&mut case.rng);
    let items: Vec<C::Owned> = sample_n(&mut case.rng, &d, n);
    fp_all(&items, case.fp_mut());
    let mut odd = Odd::random(&mut case.rng);
    // The same rows embedded between other rows.
    let before = case.rng.below(9);
    let mut more: Vec<C::Owned> = sample_n(&mut case.rng, &d, before);
    more.extend(items.iter().cloned());
    let after = case.rng.below(9);
    more.extend(sample_n::<C::Owned>(&mut case.rng, &d, after));
    case.trace(|| format!("{odd:?} rows {}", show(&items)));
    case.nontrivial();
    let a = build(items.clone(), &mut odd);
    let b = build(more, &mut Odd::random(&mut case.rng));
    for (i, w) in items.iter().enumerate() {
        C::check_view(a.view(i).ok_or("missing row")?, w, &mut case.obs).map_err(|e| format!("row {i}: {e}"))?;
        C::check_view(b.view(before + i).ok_or("missing row")?, w, &mut case.obs)
            .map_err(|e| format!("row {i} between {before} and {after} others: {e}"))?;
        let owned = a.view(i).ok_or("missing row")?.into_owned();
        ensure!(owned.same(w), "row {i} converts to {owned:?}");
    }
    Ok(())
}

/// Rows that start or end at the largest positions.
fn huge<O: Offset + TryFrom<i64>>(case: &mut Case, max: i64) -> Res {
    let tail = case.rng.below(30) as i64;
    let head = max - tail;
    case.fp(tail as u64);
    case.nontrivial();
    let fit = |v: i64| O::try_from(v).ok().expect("fits");
    let extra = case.rng.below(3);
    let c = Offsets::<Virt, O, VecBuffer, Virt>::try_from_parts(
        Virt { len: (max as usize).saturating_add(extra) },
        vec![fit(0), fit(head), fit(max)],
    )
    .map_err(|e| e.to_string())?;
    for (row, len) in [(0, head as usize), (1, tail as usize)] {
        let v = c.view(row).ok_or("missing row")?;
        ensure!(Length::len(&v) == len, "row {row} has length {}, expected {len}", Length::len(&v));
        for i in [len, len + 1, max as usize, usize::MAX - 1, usize::MAX, usize::MAX - head as usize, (usize::MAX - head as usize).wrapping_add(1)] {
            if i >= len {
                ensure!(v.view(i).is_none() && v.owned(i).is_none(), "row {row} of length {len} answers {i}");
            }
        }
        if len > 0 {
            ensure!(v.view(len - 1) == Some(ITEM) && v.view(0) == Some(ITEM), "row {row} misses items");
        }
        let hint = (len, Some(len));
        ensure!(v.iter_views().size_hint() == hint, "hint is {:?}", v.iter_views().size_hint());
        ensure!(v.into_iter_owned().size_hint() == hint, "hint is {:?}", v.into_iter_owned().size_hint());
        ensure!(row == 0 || <_ as PartialEq<Virt>>::eq(&v, &Virt { len }), "row differs from itself");
        ensure!(<_ as PartialEq<Virt>>::ne(&v, &Virt { len: len + 1 }), "rows of different lengths are equal");
        ensure!(len == 0 || <_ as PartialEq<Virt>>::ne(&v, &Virt { len: len - 1 }), "rows of different lengths are equal");
        case.count("huge_rows", 1);
    }
    Ok(())
}

fn main() {
    let mut subjects = Vec::new();
    macro_rules! sub {
        ($item:ty, $o:ty, $t:ty, [$($other:ty),*]) => {
            subjects.push(Subject::new(
                format!("{} {} {}", vh::items::tidy(stringify!($item)), stringify!($o), vh::items::tidy(stringify!($t))),
                150,
                |case| {
                    let kit: Kit<$t, $o, VecBuffer> = Kit {
                        build: |rows, odd| {
                            vh::rehouse::Rehouse::<VecBuffer>::rehouse(rows.into_iter().collect::<Offsets<$t, $o, VecBuffer>>(), odd)
                        },
                        eqs: vec![
                            Eq { name: "&[T]", eq: |v, w| <_ as PartialEq<&[$item]>>::eq(&v, &w.as_slice()) },
                            $(Eq { name: stringify!($other), eq: |v, w| <_ as PartialEq<$other>>::eq(&v, &w.iter().cloned().collect::<Vec<$item>>().into_iter().collect::<$other>()) }),*
                        ],
                        between: |v, w| <_ as PartialEq<View<'static, $t, $o, VecBuffer>>>::eq(v, w),
                    };
                    subject(case, &kit)
                },
            ));
        };
    }
    // Views compared with every contiguous and packed representation.
    sub!(i32, i32, Vec<i32>, [Vec<i32>, Box<[i32]>, Rc<[i32]>, Arc<[i32]>]);
    sub!(u8, i64, Vec<u8>, [Vec<u8>, Box<[u8]>]);
    sub!(f64, i32, Vec<f64>, [Vec<f64>, Box<[f64]>]);
    sub!(i64, i32, FixedSizePrimitive<i64, NonNullable, VecBuffer>, [Vec<i64>, FixedSizePrimitive<i64, NonNullable, VecBuffer>]);
    sub!(bool, i32, Bitmap, [Bitmap, Bitmap<BoxBuffer>, Vec<bool>]);
    sub!(bool, i64, Boolean<NonNullable, VecBuffer>, [Bitmap, Vec<bool>, Boolean<NonNullable, VecBuffer>]);
    sub!(Option<i32>, i32, Validity<Vec<i32>>, [Validity<Vec<i32>>, Vec<Option<i32>>, Box<[Option<i32>]>]);
    sub!(Option<bool>, i64, Validity<Bitmap>, [Validity<Bitmap>, Vec<Option<bool>>, Boolean<Nullable, VecBuffer>]);
    sub!(Option<i32>, i64, FixedSizePrimitive<i32, Nullable, VecBuffer>, [Validity<Vec<i32>>, Vec<Option<i32>>, FixedSizePrimitive<i32, Nullable, VecBuffer>]);

    macro_rules! zoo {
        ($name:expr, $w:expr, $t:ty, $build:expr) => {
            let build = $build;
            if <$t as Collection>::Owned::LISTS {
                subjects.push(Subject::new(format!("nested {}", $name), (150.0 * $w) as u64, move |c| nested::<$t>(c, build)));
            }
        };
    }
    vh::zoo!(zoo);
    subjects.push(Subject::new("huge i32", 60, |c| huge::<i32>(c, i64::from(i32::MAX))));
    subjects.push(Subject::new("huge i64", 60, |c| huge::<i64>(c, i64::MAX)));
    vh::run::main(Plan {
        id: "C16",
        rule: "a case = collections of lists holding one row several times at different start positions among random neighbours, unreferenced data and bit offsets; every row's view, copy and clone goes through every access path and is compared with equal, shorter, longer, reversed and one-item-different lists in every representation and with all other views (both ways); nested views of all collections with and without neighbours; rows ending at the largest offsets; distinct = by rows",
        subjects,
        exhaustive: false,
    });
}
