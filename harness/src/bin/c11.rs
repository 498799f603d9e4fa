//! C11: only the delivered items matter, not size hints or late items.
use narrow::array::Array;
use narrow::bitmap::Bitmap;
use narrow::buffer::{BoxBuffer, VecBuffer};
use narrow::collection::flatten::Flatten;
use narrow::collection::{Collection, CollectionAllocIn, CollectionRealloc};
use narrow::fixed_size::FixedSizeArray;
use narrow::layout::variable_size_binary::VariableSizeBinary;
use narrow::layout::variable_size_list::VariableSizeList;
use narrow::nullability::{NonNullable, Nullable};
use narrow::offset::Offsets;
use narrow::validity::Validity;
use std::rc::Rc;
use vh::coll::{Coll, check_all};
use vh::hist::sample_batch;
use vh::items::tidy;
use vh::rehouse::{Odd, Rehouse};
use vh::run::{Case, Plan, Res, Subject, caught};
use vh::source::{HINTS, Hint, Source, Watch};
use vh::storage::{FaultBuf, Handle};
use vh::val::{Dist, Val, fp_all, sample_n, show};
use vh::{ensure, meter};

type Build<C> = fn(Vec<<C as Collection>::Owned>, &mut Odd) -> C;

/// Bytes a construction from these items may reasonably hold at once.
fn ceiling<T: Val>(items: &[T]) -> i64 {
    let mut bits = vh::rng::Fp::default();
    items.iter().for_each(|v| v.fp(&mut bits));
    // Every scalar part of an item is at most 16 bytes; growth doubles and
    // both the old and the new room exist while moving.
    (1 << 16) + 512 * (items.len() as i64 + 1) * (T::COST as i64 + 1) + 256 * weigh(items)
}
fn weigh<T: Val>(items: &[T]) -> i64 {
    format!("{items:?}").len() as i64
}

struct Plot<T> {
    items: Vec<T>,
    late: Vec<T>,
    gap: usize,
    hint: Hint,
}
impl<T: Val> Plot<T> {
    fn source(&self) -> (Source<T>, Rc<Watch>) {
        let s = Source::new(self.items.clone(), self.hint).resume(self.late.clone(), self.gap);
        let w = s.watch.clone();
        (s, w)
    }
    fn verdict(&self, case: &mut Case, w: &Watch) -> Res {
        ensure!(w.delivered.get() == self.items.len(), "{} of {} items were requested", w.delivered.get(), self.items.len());
        ensure!(w.late.get() == 0, "{} items after the end were requested", w.late.get());
        case.count("ends_seen", u64::from(w.ended.get()));
        case.count("asked_after_end", w.after_end.get() as u64);
        case.count("late_items_offered", self.late.len() as u64);
        Ok(())
    }
}

fn watched<R>(case: &mut Case, limit: i64, f: impl FnOnce() -> R) -> Res<R> {
    Handle::default().0.log.borrow_mut().clear();
    let before = meter::get().live_bytes;
    meter::reset_peak();
    let r = caught(f);
    let s = meter::get();
    let used = s.peak - before;
    case.obs.add("peak_checks", 1);
    let r = r.map_err(|e| format!("fails: {e}"))?;
    ensure!(used <= limit, "holds {used} bytes at once (largest request {}), expected at most {limit}", s.largest);
    Ok(r)
}

fn plot<T: Val>(case: &mut Case, d: &Dist, live: usize) -> Plot<T> {
    let items: Vec<T> = sample_batch(case, d, live);
    let n = case.rng.range(1, 20);
    let late: Vec<T> = sample_n(&mut case.rng, d, n);
    let gap = case.rng.range(1, 3);
    let hint = *case.rng.pick(&HINTS);
    fp_all(&items, case.fp_mut());
    case.fp(hint as u64 * 8 + gap as u64);
    case.trace(|| format!("{hint:?} source of {} resuming after {gap} ends with {}", show(&items), show(&late)));
    Plot { items, late, gap, hint }
}

fn construct<C>(case: &mut Case) -> Res
where
    C: Coll + FromIterator<<C as Collection>::Owned> + CollectionAllocIn<Alloc: Default>,
{
    let d = Dist::random(&mut case.rng);
    let p: Plot<C::Owned> = plot(case, &d, 0);
    let limit = ceiling(&p.items);
    case.nontrivial();
    for how in 0..3 {
        let (s, w) = p.source();
        let name = ["collect", "from_iter_in", "try_from_iter_in"][how];
        let label = |e: String| format!("{name} from {} items ({:?}, then {} late ones): {e}", p.items.len(), p.hint, p.late.len());
        let c: C = watched(case, limit, || match how {
            0 => Ok(s.collect()),
            1 => Ok(C::from_iter_in(s, Default::default())),
            _ => C::try_from_iter_in(s, Default::default()),
        })
        .map_err(label)?
        .map_err(|e| label(e.to_string()))?;
        p.verdict(case, &w).map_err(label)?;
        check_all(&c, &p.items, &mut case.obs).map_err(label)?;
        case.count("constructions", 1);
    }
    Ok(())
}

fn append<C>(case: &mut Case, build: Build<C>) -> Res
where
    C: Coll + CollectionRealloc,
{
    let d = Dist::random(&mut case.rng);
    let base: Vec<C::Owned> = sample_batch(case, &d, 0);
    fp_all(&base, case.fp_mut());
    let mut odd = Odd::random(&mut case.rng);
    let mut c = build(base.clone(), &mut odd);
    let mut model = base;
    for round in 0..case.rng.range(1, 3) {
        let p: Plot<C::Owned> = plot(case, &d, model.len());
        let limit = 2 * ceiling(&p.items) + 4 * ceiling(&model);
        let (s, w) = p.source();
        let fallible = case.rng.coin();
        let name = if fallible { "try_extend" } else { "extend" };
        let label = |e: String| format!("append {round}, {name} of {} items ({:?}, then {} late ones): {e}", p.items.len(), p.hint, p.late.len());
        case.nontrivial();
        watched(case, limit, || {
            if fallible {
                c.try_extend(s)
            } else {
                c.extend(s);
                Ok(())
            }
        })
        .map_err(label)?
        .map_err(|e| label(e.to_string()))?;
        p.verdict(case, &w).map_err(label)?;
        model.extend(p.items.iter().cloned());
        check_all(&c, &model, &mut case.obs).map_err(label)?;
        case.count("appends", 1);
    }
    Ok(())
}

fn main() {
    let mut subjects = Vec::new();
    macro_rules! both {
        ($name:expr, $cases:expr, $base:ty, $s:ty, $t:ty) => {
            subjects.push(Subject::new(format!("construct {}", $name), $cases, construct::<$t>));
            subjects.push(Subject::new(format!("append {}", $name), $cases, |case| {
                append::<$t>(case, |items, odd| Rehouse::<$s>::rehouse(items.into_iter().collect::<$base>(), odd))
            }));
        };
    }
    macro_rules! arr {
        ($t:ty) => {
            both!(format!("Array<{}>", tidy(stringify!($t))), 60, Array<$t, VecBuffer>, VecBuffer, Array<$t, VecBuffer>);
        };
    }
    macro_rules! fault {
        ($t:ty) => {
            both!(format!("Array<{},FaultBuf>", tidy(stringify!($t))), 20, Array<$t, VecBuffer>, FaultBuf, Array<$t, FaultBuf>);
        };
    }
    macro_rules! bare {
        ($t:ty) => {
            both!(tidy(stringify!($t)), 60, $t, VecBuffer, $t);
        };
    }
    macro_rules! build {
        ($t:ty) => {
            subjects.push(Subject::new(format!("construct {}", tidy(stringify!($t))), 60, construct::<$t>));
        };
    }
    vh::all_items!(arr);
    vh::few_items!(fault);
    bare!(Bitmap);
    bare!(Validity<Vec<u16>>);
    bare!(Validity<Bitmap>);
    bare!(Validity<Flatten<Bitmap, 3>>);
    bare!(Offsets<Vec<u8>, i64>);
    bare!(Offsets<Vec<u16>, i32, VecBuffer, Box<[u16]>>);
    bare!(Offsets<Bitmap, i64>);
    bare!(Offsets<Validity<Bitmap>, i64>);
    bare!(Flatten<Bitmap, 3>);
    bare!(Flatten<Validity<Vec<u8>>, 2>);
    bare!(Flatten<Offsets<Vec<u8>>, 2>);
    bare!(VariableSizeList<Option<i32>, NonNullable, i64>);
    bare!(VariableSizeList<Vec<bool>, Nullable, i64>);
    bare!(VariableSizeBinary<Nullable, i64>);
    build!(Bitmap<BoxBuffer>);
    build!(Vec<bool>);
    build!(Vec<Option<u16>>);
    build!(Box<[f64]>);
    vh::run::main(Plan {
        id: "C11",
        rule: "a case = a construction (collect, from_iter_in, try_from_iter_in) or 1-3 appends (extend, try_extend) from a source with one of seven lawful size hints (exact, zero, unknown, huge upper, loose, no upper, exact with huge upper) that offers further items after its first end; the items stored must be exactly those before the end, none of the late items may be requested, every item must be requested once, and the memory held at once must be proportional to the delivered items; non-trivial = every case; distinct = by items, hint and gap",
        subjects,
        exhaustive: false,
    });
}
