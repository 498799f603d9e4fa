//! Random histories of mutations against a plain list.

use crate::coll::{Coll, check_all, check_consume};
use crate::ensure;
use crate::rehouse::Odd;
use crate::run::{Case, Res};
use crate::source::Source;
use crate::val::{Dist, Val, fp_all, sample_n, sample_small, show};
use narrow::collection::{Collection, CollectionAllocIn, CollectionRealloc};

/// How a subject can be started and cloned.
pub struct Kit<C: Collection> {
    /// Builds the collection holding exactly these items, with legal
    /// physical oddities.
    pub odd: fn(Vec<C::Owned>, &mut Odd) -> C,
    pub clone: Option<fn(&C) -> C>,
}

impl<C: Collection> Clone for Kit<C> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<C: Collection> Copy for Kit<C> {}

fn batch<T: Val>(case: &mut Case, d: &Dist, live: usize) -> Vec<T> {
    let n = if !cfg!(miri) && case.rng.below(1500) == 0 && T::COST <= 6 && live < 3000 {
        *case.rng.pick(&[4096, 8191, 8193, 16_385, 32_769, 65_530, 65_536, 65_543, 70_000])
    } else if case.rng.below(24) == 0 && T::COST <= 6 && live < 3000 {
        *case.rng.pick(&[500, 1000, 1023, 1024, 1025, 1030, 2048, 2060])
    } else {
        sample_small(&mut case.rng)
    };
    sample_n(&mut case.rng, d, n)
}

fn room(case: &mut Case) -> usize {
    if case.rng.below(100) == 0 { *case.rng.pick(&[1000, 4096, 65_535, 65_536, 100_000]) } else { case.rng.below(200) }
}

pub const OPS: [&str; 8] = [
    "extend",
    "try_extend",
    "reserve",
    "try_reserve",
    "truncate",
    "truncate_beyond",
    "clone",
    "extend_one_by_one",
];

/// A history of operations; `probe` runs after every operation.
pub fn history<C>(
    case: &mut Case,
    kit: Kit<C>,
    steps: usize,
    probe: impl Fn(&C, &[C::Owned], &mut Case) -> Res,
) -> Res
where
    C: Coll + CollectionRealloc + CollectionAllocIn<Alloc: Default>,
    C: Default + FromIterator<<C as Collection>::Owned>,
{
    let d = Dist::random(&mut case.rng);
    let items: Vec<C::Owned> = batch(case, &d, 0);
    fp_all(&items, case.fp_mut());
    let start = case.rng.below(8);
    case.fp(start as u64);
    let (c, model): (C, Vec<C::Owned>) = match start {
        0 => (C::default(), Vec::new()),
        1 => {
            let n = case.rng.below(40);
            (C::with_capacity_in(n, Default::default()), Vec::new())
        }
        2 => {
            let s = Source::random_hint(items.clone(), &mut case.rng);
            (s.collect(), items)
        }
        3 => {
            let s = Source::random_hint(items.clone(), &mut case.rng);
            (
                C::try_from_iter_in(s, Default::default()).map_err(|e| e.to_string())?,
                items,
            )
        }
        4 => {
            let s = Source::random_hint(items.clone(), &mut case.rng);
            (C::from_iter_in(s, Default::default()), items)
        }
        _ => {
            let mut odd = Odd::random(&mut case.rng);
            let c = (kit.odd)(items.clone(), &mut odd);
            (c, items)
        }
    };
    case.trace(|| format!("start kind {start} with {}", show(&model)));
    probe(&c, &model, case).map_err(|e| format!("start kind {start}: {e}"))?;
    let mut pool: Vec<(C, Vec<C::Owned>)> = vec![(c, model)];
    for step in 0..steps {
        let at = case.rng.below(pool.len());
        let op = *case.rng.pick(&[0, 0, 0, 1, 1, 2, 3, 4, 4, 5, 6, 7]);
        let (c, model) = &mut pool[at];
        let len = model.len();
        case.fp((op * 31 + at) as u64);
        let mut grown: Option<(C, Vec<C::Owned>)> = None;
        match op {
            0 => {
                let items: Vec<C::Owned> = batch(case, &d, len);
                fp_all(&items, case.fp_mut());
                case.trace(|| format!("{step}: extend {}", show(&items)));
                let s = Source::random_hint(items.clone(), &mut case.rng);
                c.extend(s);
                if !items.is_empty() {
                    case.nontrivial();
                }
                model.extend(items);
            }
            1 => {
                let items: Vec<C::Owned> = batch(case, &d, len);
                fp_all(&items, case.fp_mut());
                case.trace(|| format!("{step}: try_extend {}", show(&items)));
                let s = Source::random_hint(items.clone(), &mut case.rng);
                ensure!(c.try_extend(s).is_ok(), "step {step}: try_extend failed with memory available");
                if !items.is_empty() {
                    case.nontrivial();
                }
                model.extend(items);
            }
            2 => {
                let n = room(case);
                case.trace(|| format!("{step}: reserve {n}"));
                c.reserve(n);
            }
            3 => {
                let n = room(case);
                case.trace(|| format!("{step}: try_reserve {n}"));
                ensure!(c.try_reserve(n).is_ok(), "step {step}: try_reserve failed with memory available");
            }
            4 => {
                let n = if len == 0 { 0 } else { case.rng.below(len) };
                case.trace(|| format!("{step}: truncate {len} -> {n}"));
                case.fp(n as u64);
                c.truncate(n);
                model.truncate(n);
            }
            5 => {
                let n = len.saturating_add(*case.rng.pick(&[0, 1, 7, 8, 1000, usize::MAX / 2, usize::MAX]));
                case.trace(|| format!("{step}: truncate {len} -> {n}"));
                c.truncate(n);
            }
            6 => {
                if let Some(f) = kit.clone {
                    case.trace(|| format!("{step}: clone #{at}"));
                    grown = Some((f(c), model.clone()));
                    case.count("clones", 1);
                }
            }
            _ => {
                let n = case.rng.below(10);
                let items: Vec<C::Owned> = sample_n(&mut case.rng, &d, n);
                fp_all(&items, case.fp_mut());
                case.trace(|| format!("{step}: one by one {}", show(&items)));
                for x in &items {
                    if case.rng.coin() {
                        c.extend(Some(x.clone()));
                    } else {
                        ensure!(c.try_extend(Some(x.clone())).is_ok(), "step {step}: try_extend failed");
                    }
                }
                model.extend(items);
            }
        }
        case.count(OPS[op], 1);
        let label = |e: String| format!("step {step} ({} on #{at}): {e}", OPS[op]);
        let (c, model) = &pool[at];
        probe(c, model, case).map_err(label)?;
        if let Some(g) = grown
            && pool.len() < 3
        {
            probe(&g.0, &g.1, case).map_err(label)?;
            pool.push(g);
        }
        // Mutating one collection must not disturb the others.
        for (i, (c, m)) in pool.iter().enumerate() {
            if i != at {
                check_all(c, m, &mut case.obs).map_err(|e| format!("step {step}: bystander #{i}: {e}"))?;
                case.count("bystanders_checked", 1);
            }
        }
    }
    for (c, m) in pool {
        check_consume(c, &m, &mut case.obs).map_err(|e| format!("end: {e}"))?;
    }
    case.count("histories", 1);
    Ok(())
}

/// A few random operations on a collection that must still be fully usable.
pub fn after<C>(case: &mut Case, c: &mut C, model: &mut Vec<C::Owned>, steps: usize) -> Res
where
    C: Coll + CollectionRealloc,
{
    let d = Dist::random(&mut case.rng);
    for step in 0..steps {
        let len = model.len();
        let op = case.rng.below(6);
        let say = |e: String| format!("later step {step} (op {op}): {e}");
        match op {
            0 | 1 => {
                let n = sample_small(&mut case.rng);
                let items: Vec<C::Owned> = sample_n(&mut case.rng, &d, n);
                case.trace(|| format!("later {step}: extend {}", show(&items)));
                c.extend(Source::random_hint(items.clone(), &mut case.rng));
                model.extend(items);
            }
            2 => {
                let n = sample_small(&mut case.rng);
                let items: Vec<C::Owned> = sample_n(&mut case.rng, &d, n);
                case.trace(|| format!("later {step}: try_extend {}", show(&items)));
                let r = c.try_extend(Source::random_hint(items.clone(), &mut case.rng));
                ensure!(r.is_ok(), "later step {step}: try_extend fails with memory available");
                model.extend(items);
            }
            3 => {
                let n = case.rng.below(len + 2);
                case.trace(|| format!("later {step}: truncate {n}"));
                c.truncate(n);
                model.truncate(n);
            }
            4 => {
                let n = case.rng.below(70);
                case.trace(|| format!("later {step}: reserve {n}"));
                c.reserve(n);
            }
            _ => {
                let n = case.rng.below(70);
                case.trace(|| format!("later {step}: try_reserve {n}"));
                ensure!(c.try_reserve(n).is_ok(), "later step {step}: try_reserve fails with memory available");
            }
        }
        case.count("later_operations", 1);
        check_reads_len(c, model).map_err(say)?;
    }
    check_all(c, model, &mut case.obs).map_err(|e| format!("after later operations: {e}"))
}

fn check_reads_len<C: Coll>(c: &C, model: &[C::Owned]) -> Res {
    let n = narrow::length::Length::len(c);
    ensure!(n == model.len(), "length is {n}, expected {}", model.len());
    Ok(())
}

pub fn sample_batch<T: Val>(case: &mut Case, d: &Dist, live: usize) -> Vec<T> {
    batch(case, d, live)
}
