//! C03: out-of-range access answers None for every index and never panics.
vh::zoo_uses!();
use narrow::length::Length;
use vh::coll::{Coll, check_all};
use vh::ensure;
use vh::rehouse::Odd;
use vh::run::{Case, Plan, Res, Subject};
use vh::val::{Dist, Val, fp_all, sample_len, sample_n, show};

/// An index, concentrated where arithmetic on it may go wrong.
fn index(case: &mut Case, len: usize) -> usize {
    let r = &mut case.rng;
    let delta = r.below(70);
    match r.below(9) {
        0 => len.wrapping_add(delta),
        1 => usize::MAX.wrapping_sub(delta),
        2 => (usize::MAX / r.range(1, 12)).wrapping_add(delta).wrapping_sub(35),
        3 => (1usize << r.below(64)).wrapping_add(delta).wrapping_sub(35),
        4 => 0usize.wrapping_sub(len).wrapping_add(delta).wrapping_sub(35),
        5 => (usize::MAX / 8).wrapping_mul(r.range(1, 8)).wrapping_add(delta),
        6 => len.wrapping_mul(r.range(1, 9)).wrapping_add(delta),
        7 => r.u64() as usize,
        _ => r.below(len + 1),
    }
}

fn subject<C: Coll>(case: &mut Case, build: fn(Vec<C::Owned>, &mut Odd) -> C) -> Res {
    let d = Dist::random(&mut case.rng);
    let n = sample_len(&mut case.rng, C::Owned::COST * 3);
    let items: Vec<C::Owned> = sample_n(&mut case.rng, &d, n);
    fp_all(&items, case.fp_mut());
    let mut odd = Odd::random(&mut case.rng);
    case.trace(|| format!("{odd:?} items {}", show(&items)));
    let c = build(items.clone(), &mut odd);
    case.nontrivial();
    check_all(&c, &items, &mut case.obs)?;
    // Every physical child, as a collection of its own, and every validity.
    c.audit(&mut case.obs).map_err(|e| format!("audit: {e}"))?;
    for _ in 0..40 {
        let i = index(case, n);
        case.fp(i as u64);
        match items.get(i) {
            Some(w) => {
                let v = c.view(i).ok_or_else(|| format!("view({i}) is None of {n}"))?;
                C::check_view(v, w, &mut case.obs)?;
            }
            None => {
                ensure!(c.view(i).is_none(), "view({i}) answers at length {n}");
                ensure!(c.owned(i).is_none(), "owned({i}) answers at length {n}");
                case.count("hostile_indices", 1);
            }
        }
    }
    ensure!(Length::len(&c) == n, "length changed");
    Ok(())
}

fn main() {
    let mut subjects = Vec::new();
    macro_rules! sub {
        ($name:expr, $w:expr, $t:ty, $build:expr) => {
            let build = $build;
            subjects.push(Subject::new($name, (100.0 * $w) as u64, move |c| subject::<$t>(c, build)));
        };
    }
    vh::zoo!(sub);
    vh::run::main(Plan {
        id: "C03",
        rule: "a case = a collection (any storage, any legal physical oddity: bit offsets, bytes, bits and list data beyond the logical end, omitted validity) and indices around its length, powers of two, fractions and the top of the index range, put to view, owned and the validity queries of the collection, of every nested view and of every physical child; distinct = by items and indices",
        subjects,
        exhaustive: false,
    });
}
