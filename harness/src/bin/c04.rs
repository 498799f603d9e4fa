//! C04: iterators report their exact remaining length at every step.
vh::zoo_uses!();
use narrow::collection::Collection;
use vh::coll::Coll;
use vh::drive::{drive, drive_exact};
use vh::ensure;
use vh::rehouse::{Odd, pack};
use vh::run::{Case, Obs, Plan, Res, Subject};
use vh::storage::{FaultBuf, House};
use vh::val::{Dist, Val, fp_all, sample_len, sample_n, show};

fn same_owned<T: Val>(v: T, w: &T, _: &mut Obs) -> Res {
    ensure!(v.same(w), "{v:?} differs from {w:?}");
    Ok(())
}

fn nullness<V>(v: Option<V>, w: &Option<u16>, _: &mut Obs) -> Res {
    ensure!(v.is_some() == w.is_some(), "nullness differs from {w:?}");
    Ok(())
}

fn subject<C: Coll>(case: &mut Case, build: fn(Vec<C::Owned>, &mut Odd) -> C) -> Res {
    let d = Dist::random(&mut case.rng);
    let n = sample_len(&mut case.rng, C::Owned::COST * 2);
    let items: Vec<C::Owned> = sample_n(&mut case.rng, &d, n);
    fp_all(&items, case.fp_mut());
    let odd = Odd::random(&mut case.rng);
    case.trace(|| format!("{odd:?} items {}", show(&items)));
    case.nontrivial();
    let mut rng = case.rng.fork();
    let c = build(items.clone(), &mut odd.clone());
    for _ in 0..3 {
        let mut nested = rng.fork();
        let mut budget = 30;
        drive(c.iter_views(), &items, &mut rng, &mut case.obs, |v, w, o| {
            C::check_view(v, w, o)?;
            if budget > 0 {
                budget -= 1;
                C::drive_view(v, w, &mut nested, o)?;
            }
            Ok(())
        })
        .map_err(|e| format!("borrowed iteration: {e}"))?;
    }
    drive_exact(c.into_iter_owned(), &items, &mut rng, &mut case.obs, same_owned)
        .map_err(|e| format!("consuming iteration: {e}"))?;
    for _ in 0..2 {
        let c = build(items.clone(), &mut odd.clone());
        drive_exact(c.into_iter_owned(), &items, &mut rng, &mut case.obs, same_owned)
            .map_err(|e| format!("consuming iteration: {e}"))?;
    }
    case.fp(rng.u64());
    Ok(())
}

/// Bitmaps at every bit offset, through every iteration entry point.
fn bits<S: House>(case: &mut Case) -> Res {
    let n = sample_len(&mut case.rng, 1).min(700);
    let d = Dist::random(&mut case.rng);
    let bits: Vec<bool> = sample_n(&mut case.rng, &d, n);
    let offset = case.rng.below(40);
    let spare = case.rng.below(4);
    fp_all(&bits, case.fp_mut());
    case.fp(offset as u64);
    case.nontrivial();
    case.trace(|| format!("bit offset {offset}, {spare} spare bytes, bits {}", show(&bits)));
    let bytes = pack(&bits, offset, spare, Some(&mut case.rng.fork()));
    let make = || Bitmap::<S>::try_from_parts(S::house(bytes.clone()), n, offset).map_err(|e| e.to_string());
    let mut rng = case.rng.fork();
    let b = make()?;
    let o = &mut case.obs;
    drive(b.iter_views(), &bits, &mut rng, o, same_owned).map_err(|e| format!("iter_views: {e}"))?;
    drive((&b).into_iter(), &bits, &mut rng, o, same_owned).map_err(|e| format!("&into_iter: {e}"))?;
    drive(b.into_iter(), &bits, &mut rng, o, same_owned).map_err(|e| format!("into_iter: {e}"))?;
    drive_exact(make()?.into_iter_owned(), &bits, &mut rng, o, same_owned).map_err(|e| format!("into_iter_owned: {e}"))?;
    // The same bits as validity.
    let items: Vec<Option<u16>> = bits.iter().enumerate().map(|(i, b)| b.then_some(i as u16)).collect();
    let validity = || -> Res<Validity<S::For<u16>, S>> {
        Validity::try_from_parts(S::house((0..n).map(|i| i as u16).collect()), make()?).map_err(|e| e.to_string())
    };
    let v = validity()?;
    drive((&v).into_iter(), &items, &mut rng, o, nullness).map_err(|e| format!("&Validity::into_iter: {e}"))?;
    drive(v.into_iter(), &items, &mut rng, o, nullness).map_err(|e| format!("Validity::into_iter: {e}"))?;
    drive_exact(validity()?.into_iter_owned(), &items, &mut rng, o, nullness)
        .map_err(|e| format!("Validity::into_iter_owned: {e}"))?;
    let v = Validity::<S::For<u16>, S>::from_collection(S::house((0..n).map(|i| i as u16).collect()));
    let all: Vec<Option<u16>> = (0..n).map(|i| Some(i as u16)).collect();
    drive((&v).into_iter(), &all, &mut rng, o, nullness).map_err(|e| format!("omitted &into_iter: {e}"))?;
    drive(v.into_iter(), &all, &mut rng, o, nullness).map_err(|e| format!("omitted into_iter: {e}"))
}

/// In-place arrays of values.
fn inline<const N: usize>(case: &mut Case) -> Res {
    let d = Dist::random(&mut case.rng);
    let items: [i64; N] = std::array::from_fn(|_| i64::sample(&mut case.rng, &d));
    fp_all(&items, case.fp_mut());
    case.nontrivial();
    let mut rng = case.rng.fork();
    drive(items.iter_views(), &items, &mut rng, &mut case.obs, same_owned)?;
    drive_exact(items.into_iter_owned(), &items, &mut rng, &mut case.obs, same_owned)?;
    case.fp(rng.u64());
    Ok(())
}

fn main() {
    let mut subjects = Vec::new();
    macro_rules! sub {
        ($name:expr, $w:expr, $t:ty, $build:expr) => {
            let build = $build;
            subjects.push(Subject::new($name, (100.0 * $w) as u64, move |c| subject::<$t>(c, build)));
        };
    }
    vh::zoo!(sub);
    subjects.push(Subject::new("bits vec", 400, bits::<VecBuffer>));
    subjects.push(Subject::new("bits box", 400, bits::<BoxBuffer>));
    subjects.push(Subject::new("bits rc", 200, bits::<RcBuffer>));
    subjects.push(Subject::new("bits arc", 200, bits::<ArcBuffer>));
    subjects.push(Subject::new("bits slice", 200, bits::<SliceBuffer<'static>>));
    subjects.push(Subject::new("bits fault", 100, bits::<FaultBuf>));
    subjects.push(Subject::new("inline 0", 20, inline::<0>));
    subjects.push(Subject::new("inline 1", 50, inline::<1>));
    subjects.push(Subject::new("inline 13", 100, inline::<13>));
    vh::run::main(Plan {
        id: "C04",
        rule: "a case = a collection (any storage, bit offsets, spare and unreferenced data) whose borrowed and consuming iterators, and those of its nested list views, are driven by random programs of next, nth, take, skip, try_for_each and finally count, last, step_by, collect or for_each; after every single operation both size bounds are compared with the items still to come and yielded items with random access; distinct = by items and program",
        subjects,
        exhaustive: false,
    });
}
