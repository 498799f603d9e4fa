//! C09: failed reservations leave collections unchanged and usable.
use narrow::array::Array;
use narrow::bitmap::Bitmap;
use narrow::buffer::{BoxBuffer, VecBuffer};
use narrow::collection::flatten::Flatten;
use narrow::collection::{AllocError, Collection, CollectionAllocIn, CollectionRealloc};
use narrow::fixed_size::FixedSizeArray;
use narrow::layout::variable_size_binary::VariableSizeBinary;
use narrow::layout::variable_size_list::VariableSizeList;
use narrow::nullability::Nullable;
use narrow::offset::Offsets;
use narrow::validity::Validity;
use vh::coll::{Coll, check_all, shl};
use vh::hist::{after, sample_batch};
use vh::items::tidy;
use vh::rehouse::{Odd, Rehouse};
use vh::rng::Rng;
use vh::run::{Case, Plan, Res, Subject, caught};
use vh::source::{HINTS, Hint, Source};
use vh::storage::{FaultBuf, FaultVec, Handle, set_current};
use vh::val::{Dist, fp_all, sample_small, show};
use vh::{ensure, meter};

/// A memory supply that can be made to fail.
trait Supply: Clone {
    /// Storage can be told to grow by exactly what is needed.
    const EXACT: bool;
    fn fresh(amortized: bool) -> Self;
    fn arm(&self, nth: u64, persistent: bool);
    /// Requests, failures and infallible requests since arming.
    fn disarm(&self) -> (u64, u64, u64);
}
impl Supply for Handle {
    const EXACT: bool = true;
    fn fresh(amortized: bool) -> Self {
        let h = Handle::new(1);
        h.0.amortized.set(amortized);
        set_current(Some(h.clone()));
        h
    }
    fn arm(&self, nth: u64, persistent: bool) {
        Handle::arm(self, nth, persistent);
    }
    fn disarm(&self) -> (u64, u64, u64) {
        Handle::disarm(self);
        (self.requests(), self.0.failures.get(), self.0.infallible_in_try.get())
    }
}
impl Supply for () {
    const EXACT: bool = false;
    fn fresh(_: bool) {}
    fn arm(&self, nth: u64, persistent: bool) {
        meter::arm(nth, persistent);
    }
    fn disarm(&self) -> (u64, u64, u64) {
        let s = meter::disarm();
        (s.requests, s.failures, 0)
    }
}

#[derive(Clone, Copy, Debug)]
enum Start {
    Empty,
    Capacity(usize),
    FromIter,
    Odd,
    /// Built, then cut back: spare room and stale data beyond the end.
    Truncated(usize),
}
#[derive(Clone, Copy, Debug)]
enum Op {
    TryReserve(usize),
    TryExtend(Hint),
    TryWithCapacity(usize),
    TryFromIter(Hint),
    /// Appends from a source that never ends.
    TryExtendForever,
}

/// Never ends; announces so.
struct Forever<T> {
    items: Vec<T>,
    pos: usize,
    announce: bool,
}
impl<T: Clone> Iterator for Forever<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.pos += 1;
        Some(self.items[self.pos % self.items.len()].clone())
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (if self.announce { usize::MAX } else { 0 }, None)
    }
}

type Build<C> = fn(Vec<<C as Collection>::Owned>, &mut Odd) -> C;

struct Scene<C: Coll> {
    start: Start,
    items: Vec<C::Owned>,
    odd: Odd,
    amortized: bool,
    op: Op,
    more: Vec<C::Owned>,
}

impl<C: Coll + CollectionRealloc + CollectionAllocIn<Alloc: Supply>> Scene<C> {
    fn build(&self, how: Build<C>) -> (C, C::Alloc, Vec<C::Owned>) {
        let s = C::Alloc::fresh(self.amortized);
        let (c, model) = match self.start {
            Start::Empty => (C::with_capacity_in(0, s.clone()), Vec::new()),
            Start::Capacity(n) => (C::with_capacity_in(n, s.clone()), Vec::new()),
            Start::FromIter => (C::from_iter_in(self.items.clone(), s.clone()), self.items.clone()),
            Start::Odd => (how(self.items.clone(), &mut self.odd.clone()), self.items.clone()),
            Start::Truncated(n) => {
                let mut c = C::from_iter_in(self.items.clone(), s.clone());
                c.truncate(n);
                (c, self.items.iter().take(n).cloned().collect())
            }
        };
        (c, s, model)
    }
}

/// One fallible operation with the `k`-th request failing; whether a failure
/// was injected, and the number of requests seen.
fn attempt<C>(case: &mut Case, scene: &Scene<C>, how: Build<C>, k: u64, persistent: bool) -> Res<(u64, u64)>
where
    C: Coll + CollectionRealloc + CollectionAllocIn<Alloc: Supply>,
{
    let (mut c, s, mut model) = scene.build(how);
    let at = |e: String| format!("{:?} after {:?} of {}, request {k} failing{}: {e}", scene.op, scene.start, scene.items.len(), if persistent { " and all later ones" } else { "" });
    // Everything the operation needs exists before the supply is armed.
    let (outcome, made): (Result<Result<(), AllocError>, String>, Option<C>);
    match scene.op {
        Op::TryReserve(n) => {
            s.arm(k, persistent);
            outcome = caught(|| c.try_reserve(n));
            made = None;
        }
        Op::TryExtend(h) => {
            let src = Source::new(scene.more.clone(), h);
            s.arm(k, persistent);
            outcome = caught(|| c.try_extend(src));
            made = None;
        }
        Op::TryExtendForever => {
            // Only without lists: producing an item must not need the supply.
            let src = Forever { items: scene.more.clone(), pos: 0, announce: k.is_multiple_of(2) };
            s.arm(k, true);
            outcome = caught(|| c.try_extend(src));
            made = None;
        }
        Op::TryWithCapacity(n) => {
            let a = s.clone();
            s.arm(k, persistent);
            let r = caught(|| C::try_with_capacity_in(n, a));
            (outcome, made) = match r {
                Ok(Ok(m)) => (Ok(Ok(())), Some(m)),
                Ok(Err(e)) => (Ok(Err(e)), None),
                Err(e) => (Err(e), None),
            };
        }
        Op::TryFromIter(h) => {
            let a = s.clone();
            let src = Source::new(scene.more.clone(), h);
            s.arm(k, persistent);
            let r = caught(|| C::try_from_iter_in(src, a));
            (outcome, made) = match r {
                Ok(Ok(m)) => (Ok(Ok(())), Some(m)),
                Ok(Err(e)) => (Ok(Err(e)), None),
                Err(e) => (Err(e), None),
            };
        }
    }
    let (requests, failures, infallible) = s.disarm();
    case.count("attempts", 1);
    case.count("failures_injected", failures);
    let outcome = outcome.map_err(|e| at(format!("instead of an error: {e}")))?;
    ensure!(infallible == 0, "{}", at(format!("{infallible} requests that cannot report failure")));
    match outcome {
        Ok(()) => {
            ensure!(failures == 0 || !persistent || !matches!(scene.op, Op::TryReserve(_) | Op::TryWithCapacity(_)),
                "{}", at("reports success although storage was refused".into()));
            match scene.op {
                Op::TryExtend(_) => model.extend(scene.more.iter().cloned()),
                Op::TryExtendForever => return Err(at("an endless append succeeded".into())),
                _ => {}
            }
            case.count("completed", 1);
        }
        Err(AllocError) => {
            ensure!(failures > 0 || matches!(scene.op, Op::TryExtendForever), "{}", at("fails although storage was available".into()));
            case.count("errors_returned", 1);
        }
    }
    check_all(&c, &model, &mut case.obs).map_err(|e| at(format!("the collection changed: {e}")))?;
    if let Some(mut m) = made {
        let mut got: Vec<C::Owned> = match scene.op {
            Op::TryFromIter(_) => scene.more.clone(),
            _ => Vec::new(),
        };
        check_all(&m, &got, &mut case.obs).map_err(|e| at(format!("the new collection: {e}")))?;
        after(case, &mut m, &mut got, 2).map_err(|e| at(format!("the new collection: {e}")))?;
    }
    let steps = case.rng.range(1, 4);
    after(case, &mut c, &mut model, steps).map_err(at)?;
    // Strictly well formed again after a successful append.
    check_all(&c, &model, &mut case.obs).map_err(at)?;
    Ok((requests, failures))
}

const HUGE: [usize; 12] = [
    usize::MAX,
    usize::MAX - 1,
    usize::MAX - 7,
    usize::MAX / 2,
    usize::MAX / 2 + 1,
    usize::MAX / 3,
    usize::MAX / 3 + 1,
    usize::MAX / 8 + 1,
    isize::MAX as usize / 4,
    shl(61),
    shl(48),
    shl(40),
];

/// Requests no memory can satisfy.
fn huge<C>(case: &mut Case, scene: &Scene<C>, how: Build<C>) -> Res
where
    C: Coll + CollectionRealloc + CollectionAllocIn<Alloc: Supply>,
{
    let (mut c, s, mut model) = scene.build(how);
    for _ in 0..4 {
        let n = if case.rng.coin() { *case.rng.pick(&HUGE) } else { (case.rng.u64() as usize) | shl(40) };
        s.arm(0, false);
        let r = caught(|| c.try_reserve(n));
        let (_, _, infallible) = s.disarm();
        let r = r.map_err(|e| format!("try_reserve({n}): {e}"))?;
        ensure!(r == Err(AllocError), "try_reserve({n}) succeeds at length {}", model.len());
        ensure!(infallible == 0, "try_reserve({n}) makes requests that cannot report failure");
        s.arm(0, false);
        let a = s.clone();
        let r = caught(|| C::try_with_capacity_in(n, a).err());
        s.disarm();
        let r = r.map_err(|e| format!("try_with_capacity_in({n}): {e}"))?;
        ensure!(r == Some(AllocError), "try_with_capacity_in({n}) succeeds");
        case.count("huge_requests", 2);
    }
    check_all(&c, &model, &mut case.obs).map_err(|e| format!("after huge requests: {e}"))?;
    after(case, &mut c, &mut model, 2).map_err(|e| format!("after huge requests: {e}"))
}

fn hint(rng: &mut Rng) -> Hint {
    *rng.pick(&HINTS)
}

fn subject<C>(case: &mut Case, how: Build<C>) -> Res
where
    C: Coll + CollectionRealloc + CollectionAllocIn<Alloc: Supply>,
{
    use vh::val::Val;
    let d = Dist::random(&mut case.rng);
    let items: Vec<C::Owned> = sample_batch(case, &d, 0);
    let mut more: Vec<C::Owned> = sample_batch(case, &d, 0);
    let len = items.len();
    let start = match case.rng.below(6) {
        0 => Start::Empty,
        1 => Start::Capacity(sample_small(&mut case.rng)),
        2 => Start::Truncated(case.rng.below(len + 1)),
        3 => Start::FromIter,
        _ => Start::Odd,
    };
    let op = match case.rng.below(10) {
        0 | 1 => Op::TryReserve(case.rng.below(3 * len + 200)),
        2 => Op::TryWithCapacity(case.rng.below(300)),
        3 | 4 => Op::TryFromIter(hint(&mut case.rng)),
        5 if !C::Owned::LISTS => {
            if more.is_empty() {
                more.push(C::Owned::sample(&mut case.rng, &d));
            }
            Op::TryExtendForever
        }
        _ => Op::TryExtend(hint(&mut case.rng)),
    };
    let scene = Scene::<C> {
        start,
        items,
        odd: Odd::random(&mut case.rng),
        amortized: case.rng.coin(),
        op,
        more,
    };
    case.trace(|| format!("{start:?} of {} then {op:?} of {}", show(&scene.items), show(&scene.more)));
    fp_all(&scene.items, case.fp_mut());
    fp_all(&scene.more, case.fp_mut());
    let tag = format!("{start:?}{op:?}");
    case.fp(vh::rng::hash_str(&tag));
    if case.rng.below(8) == 0 {
        huge(case, &scene, how)?;
    }
    if let Op::TryExtendForever = op {
        for _ in 0..2 {
            let k = 1 + case.rng.below(if scene.amortized || !C::Alloc::EXACT { 8 } else { 30 }) as u64;
            attempt(case, &scene, how, k, true)?;
        }
        case.nontrivial();
        return Ok(());
    }
    // Without a failure, then every request failing in turn.
    let (total, _) = attempt(case, &scene, how, 0, false)?;
    let weight = (scene.items.len() + scene.more.len() + 10) * C::Owned::COST;
    let cap = (if case.thorough { 400_000 } else { 12_000 } / weight as u64).clamp(12, 400);
    let mut sites: Vec<u64> = (1..=total.min(cap)).collect();
    for _ in 0..8 {
        if total > cap {
            sites.push(1 + case.rng.u64() % total);
        }
    }
    if total > cap {
        sites.push(total);
        case.count("histories_sampled", 1);
    }
    for k in sites {
        let (_, f) = attempt(case, &scene, how, k, false)?;
        let (_, g) = attempt(case, &scene, how, k, true)?;
        ensure!(f > 0 && g > 0, "request {k} of {total} is not made again by the same history");
        case.nontrivial();
        case.count("fault_sites", 1);
    }
    Ok(())
}

/// Fallible construction of what cannot grow.
fn made<C>(case: &mut Case) -> Res
where
    C: Coll + CollectionAllocIn<Alloc = ()>,
{
    let d = Dist::random(&mut case.rng);
    let items: Vec<C::Owned> = sample_batch(case, &d, 0);
    let (h, n) = (hint(&mut case.rng), case.rng.below(300));
    fp_all(&items, case.fp_mut());
    case.fp(vh::rng::hash_str(&format!("{h:?}")));
    case.trace(|| format!("{h:?} of {}, capacity {n}", show(&items)));
    let attempt = |case: &mut Case, collect: bool, k: u64, persistent: bool| -> Res<(u64, u64)> {
        let at = |e: String| format!("{} of {}, request {k} failing{}: {e}", if collect { "try_from_iter_in" } else { "try_with_capacity_in" }, items.len(), if persistent { " and all later ones" } else { "" });
        let src = Source::new(items.clone(), h);
        meter::arm(k, persistent);
        let r = caught(|| if collect { C::try_from_iter_in(src, ()) } else { C::try_with_capacity_in(n, ()) });
        let s = meter::disarm();
        case.count("attempts", 1);
        case.count("failures_injected", s.failures);
        match r.map_err(|e| at(format!("instead of an error: {e}")))? {
            Ok(c) => {
                check_all(&c, if collect { &items } else { &[] }, &mut case.obs).map_err(at)?;
                case.count("completed", 1);
            }
            Err(AllocError) => {
                ensure!(s.failures > 0, "{}", at("fails although storage was available".into()));
                case.count("errors_returned", 1);
            }
        }
        Ok((s.requests, s.failures))
    };
    for collect in [true, false] {
        let (total, _) = attempt(case, collect, 0, false)?;
        for k in 1..=total.min(100) {
            let (_, f) = attempt(case, collect, k, false)?;
            let (_, g) = attempt(case, collect, k, true)?;
            ensure!(f > 0 && g > 0, "request {k} of {total} is not made again");
            case.nontrivial();
            case.count("fault_sites", 1);
        }
    }
    if size_of::<C::Owned>() > 0 {
        let n = *case.rng.pick(&HUGE);
        let r = caught(|| C::try_with_capacity_in(n, ()).err()).map_err(|e| format!("try_with_capacity_in({n}): {e}"))?;
        ensure!(r == Some(AllocError), "try_with_capacity_in({n}) succeeds");
        case.count("huge_requests", 1);
    }
    Ok(())
}

fn main() {
    let mut subjects = Vec::new();
    macro_rules! fixed {
        ($t:ty) => { subjects.push(Subject::new(tidy(stringify!($t)), 60, made::<$t>)); };
    }
    fixed!(Box<[u8]>);
    fixed!(Box<[f64]>);
    fixed!(Bitmap<BoxBuffer>);
    fixed!(Flatten<Box<[u16]>, 3>);
    fixed!(Flatten<Flatten<Bitmap<BoxBuffer>, 2>, 3>);
    fixed!(Array<i32, BoxBuffer>);
    fixed!(Array<bool, BoxBuffer>);
    fixed!(Array<[bool; 3], BoxBuffer>);
    fixed!(Array<[FixedSizeArray<u8, 3>; 2], BoxBuffer>);
    macro_rules! sub {
        ($name:expr, $cases:expr, $base:ty, $s:ty, $t:ty) => {
            subjects.push(Subject::new($name, $cases, |case| {
                let r = subject::<$t>(case, |items, odd| Rehouse::<$s>::rehouse(items.into_iter().collect::<$base>(), odd));
                set_current(None);
                r
            }));
        };
    }
    macro_rules! fault {
        ($t:ty) => {
            sub!(format!("Array<{},FaultBuf>", tidy(stringify!($t))), 60, Array<$t, VecBuffer>, FaultBuf, Array<$t, FaultBuf>);
        };
    }
    macro_rules! real {
        ($t:ty) => {
            sub!(format!("Array<{}>", tidy(stringify!($t))), 30, Array<$t, VecBuffer>, VecBuffer, Array<$t, VecBuffer>);
        };
    }
    macro_rules! bare {
        ($b:ty, $t:ty) => {
            sub!(tidy(stringify!($t)), 60, $b, FaultBuf, $t);
        };
    }
    vh::all_items!(fault);
    vh::few_items!(real);
    bare!(Bitmap, Bitmap<FaultBuf>);
    bare!(Validity<Vec<u16>>, Validity<FaultVec<u16>, FaultBuf>);
    bare!(Validity<Bitmap>, Validity<Bitmap<FaultBuf>, FaultBuf>);
    bare!(Validity<Flatten<Bitmap, 3>>, Validity<Flatten<Bitmap<FaultBuf>, 3>, FaultBuf>);
    bare!(Offsets<Vec<u8>, i64>, Offsets<FaultVec<u8>, i64, FaultBuf>);
    bare!(Offsets<Vec<u16>, i32, VecBuffer, Box<[u16]>>, Offsets<FaultVec<u16>, i32, FaultBuf, Box<[u16]>>);
    bare!(Offsets<Validity<Bitmap>, i64>, Offsets<Validity<Bitmap<FaultBuf>, FaultBuf>, i64, FaultBuf>);
    bare!(Flatten<Validity<Vec<u8>>, 2>, Flatten<Validity<FaultVec<u8>, FaultBuf>, 2>);
    bare!(Flatten<Offsets<Vec<u8>>, 2>, Flatten<Offsets<FaultVec<u8>, i32, FaultBuf>, 2>);
    bare!(VariableSizeList<Vec<bool>, Nullable, i64>, VariableSizeList<Vec<bool>, Nullable, i64, FaultBuf>);
    bare!(VariableSizeBinary<Nullable, i64>, VariableSizeBinary<Nullable, i64, FaultBuf>);
    vh::run::main(Plan {
        id: "C09",
        rule: "a case = a start state (empty, with capacity, collected, cut back, or raw parts with legal oddities) and one fallible operation (try_reserve, try_extend, try_with_capacity_in, try_from_iter_in, or appending an endless source); the operation is first run without a failure to count its storage requests, then repeated with every single request failing once and, again, from that request on; each time: an error and the unchanged collection, or complete success, no request that cannot report failure, and further operations as if nothing happened; sizes nothing can hold must be errors; non-trivial = at least one failure injected; distinct = by start, operation and items",
        subjects,
        exhaustive: false,
    });
}
