//! C14: requested capacity is really available.
use narrow::array::Array;
use narrow::bitmap::Bitmap;
use narrow::buffer::VecBuffer;
use narrow::collection::flatten::Flatten;
use narrow::collection::{AllocError, Collection, CollectionAllocIn, CollectionRealloc};
use narrow::fixed_size::FixedSizeArray;
use narrow::layout::variable_size_binary::VariableSizeBinary;
use narrow::layout::variable_size_list::VariableSizeList;
use narrow::length::Length;
use narrow::nullability::{NonNullable, Nullable};
use narrow::offset::Offsets;
use narrow::validity::Validity;
use vh::coll::{Coll, check_all, shl};
use vh::hist::sample_batch;
use vh::items::tidy;
use vh::rehouse::{Odd, Rehouse};
use vh::rng::Rng;
use vh::run::{Case, Plan, Res, Subject, caught};
use vh::source::Source;
use vh::storage::{FaultBuf, FaultVec, Handle, set_current};
use vh::val::{Dist, Val, fp_all, sample_len, sample_n, show};
use vh::{ensure, meter};

type Build<C> = fn(Vec<<C as Collection>::Owned>, &mut Odd) -> C;

/// A memory supply whose requests are counted.
trait Supply: Clone {
    /// Whether a refused infallible request panics (and does not abort).
    const PANICS: bool;
    fn fresh() -> Self;
    /// Requests made while running `f`, which frees nothing but what it obtains.
    fn count(&self, f: impl FnOnce()) -> u64;
    fn describe(&self) -> String;
}
impl Supply for Handle {
    const PANICS: bool = true;
    fn fresh() -> Self {
        let h = Handle::new(1);
        // No spare room beyond what was asked for.
        h.0.amortized.set(false);
        set_current(Some(h.clone()));
        h
    }
    fn count(&self, f: impl FnOnce()) -> u64 {
        self.0.log.borrow_mut().clear();
        let before = self.requests() + Handle::default().requests();
        f();
        self.requests() + Handle::default().requests() - before
    }
    fn describe(&self) -> String {
        format!("{:?}", self.0.log.borrow().iter().take(4).collect::<Vec<_>>())
    }
}
impl Supply for () {
    const PANICS: bool = false;
    fn fresh() {}
    fn count(&self, f: impl FnOnce()) -> u64 {
        // What is freed again was not storage.
        let before = meter::get().live_bytes;
        f();
        u64::from(meter::get().live_bytes > before)
    }
    fn describe(&self) -> String {
        String::new()
    }
}

/// Appends `items` in random portions; the requests made.
fn fill<C>(case: &mut Case, c: &mut C, s: &C::Alloc, items: &[C::Owned]) -> Res<u64>
where
    C: Coll + CollectionRealloc + CollectionAllocIn<Alloc: Supply>,
{
    let mut total = 0;
    let mut rest = items;
    while !rest.is_empty() {
        let n = if case.rng.below(3) == 0 { rest.len() } else { case.rng.range(1, rest.len().min(40)) };
        let (now, later) = rest.split_at(n);
        // Everything the append consumes exists before counting starts.
        let mut src = Source::random_hint(now.to_vec(), &mut case.rng);
        let fallible = case.rng.coin();
        let mut r = Ok(());
        total += s.count(|| {
            if fallible {
                r = c.try_extend(src.by_ref());
            } else {
                c.extend(src.by_ref());
            }
        });
        r.map_err(|e| e.to_string())?;
        rest = later;
        case.count("appends_watched", 1);
    }
    Ok(total)
}

/// More items than can exist.
fn too_many(rng: &mut Rng) -> usize {
    match rng.below(5) {
        0 => usize::MAX - rng.below(9),
        1 => usize::MAX / rng.range(1, 9) - rng.below(2),
        // Just past what a factor leaves room for.
        2 => (usize::MAX / rng.range(2, 9) + 1).saturating_add(rng.below(4)),
        3 => isize::MAX as usize - rng.below(3),
        _ => (rng.u64() as usize) | shl(62),
    }
}

fn unrepresentable<C>(case: &mut Case, mut c: C, model: &[C::Owned], s: &C::Alloc) -> Res
where
    C: Coll + CollectionRealloc + CollectionAllocIn<Alloc: Supply>,
{
    for _ in 0..2 {
        let n = too_many(&mut case.rng);
        let a = s.clone();
        let r = caught(|| C::try_with_capacity_in(n, a).err()).map_err(|e| format!("try_with_capacity_in({n}): {e}"))?;
        ensure!(r == Some(AllocError), "try_with_capacity_in({n}) succeeds");
        let r = caught(|| c.try_reserve(n)).map_err(|e| format!("try_reserve({n}): {e}"))?;
        ensure!(r == Err(AllocError), "try_reserve({n}) succeeds");
        // What cannot report the failure does not return instead.
        if C::Alloc::PANICS {
            let a = s.clone();
            ensure!(caught(|| drop(C::with_capacity_in(n, a))).is_err(), "with_capacity_in({n}) returns");
            ensure!(caught(|| c.reserve(n)).is_err(), "reserve({n}) returns");
            case.count("unrepresentable_infallible", 2);
        }
        case.count("unrepresentable_capacities", 2);
    }
    check_all(&c, model, &mut case.obs).map_err(|e| format!("after impossible reservations: {e}"))
}

fn subject<C>(case: &mut Case, build: Build<C>) -> Res
where
    C: Coll + CollectionRealloc + CollectionAllocIn<Alloc: Supply>,
{
    Handle::default().reset();
    let s = C::Alloc::fresh();
    let d = Dist::random(&mut case.rng);
    let kind = case.rng.below(7);
    let room = sample_len(&mut case.rng, C::Owned::COST);
    case.fp((kind * 4096 + room) as u64);
    let (mut c, mut model): (C, Vec<C::Owned>) = match kind {
        0 => (C::with_capacity_in(room, s.clone()), Vec::new()),
        1 => (C::try_with_capacity_in(room, s.clone()).map_err(|e| e.to_string())?, Vec::new()),
        _ => {
            let items: Vec<C::Owned> = sample_batch(case, &d, 0);
            fp_all(&items, case.fp_mut());
            let mut c = if kind == 2 {
                C::from_iter_in(items.clone(), s.clone())
            } else {
                build(items.clone(), &mut Odd::random(&mut case.rng))
            };
            let mut model = items;
            if case.rng.below(3) == 0 {
                let n = case.rng.below(model.len() + 1);
                c.truncate(n);
                model.truncate(n);
            }
            (c, model)
        }
    };
    case.trace(|| format!("start {kind} room {room} of {}", show(&model)));
    let mut rooms = vec![room];
    for _ in 0..case.rng.below(3) {
        rooms.push(sample_len(&mut case.rng, C::Owned::COST));
    }
    for (round, room) in rooms.into_iter().enumerate() {
        let how = if round == 0 && kind < 2 {
            "construction"
        } else if case.rng.coin() {
            c.reserve(room);
            "reserve"
        } else {
            ensure!(c.try_reserve(room).is_ok(), "try_reserve({room}) fails with memory available");
            "try_reserve"
        };
        let label = |e: String| format!("{how} of {room} at length {} (start {kind}): {e}", model.len());
        if round > 0 || kind >= 2 {
            check_all(&c, &model, &mut case.obs).map_err(label)?;
        } else {
            ensure!(Length::len(&c) == 0, "a new collection with capacity has {} items", Length::len(&c));
        }
        let used = if case.rng.below(3) == 0 { case.rng.below(room + 1) } else { room };
        let hollow = Dist::hollow(&mut case.rng);
        let items: Vec<C::Owned> = sample_n(&mut case.rng, &hollow, used);
        fp_all(&items, case.fp_mut());
        let made = fill(case, &mut c, &s, &items).map_err(label)?;
        ensure!(made == 0, "{}", label(format!("appending {used} items makes {made} storage requests {}", s.describe())));
        if used > 0 {
            case.nontrivial();
        }
        case.count("rooms_filled", 1);
        case.count("items_without_request", used as u64);
        model.extend(items);
        let label = |e: String| format!("{how} of {room} (start {kind}), filled to {}: {e}", model.len());
        check_all(&c, &model, &mut case.obs).map_err(label)?;
        // Continue from some other bit position.
        if case.rng.coin() {
            let more: Vec<C::Owned> = sample_batch(case, &d, model.len());
            c.extend(more.clone());
            model.extend(more);
        }
    }
    unrepresentable(case, c, &model, &s)
}

fn main() {
    let mut subjects = Vec::new();
    macro_rules! sub {
        ($name:expr, $cases:expr, $base:ty, $s:ty, $t:ty) => {
            subjects.push(Subject::new($name, $cases, |case| {
                let r = subject::<$t>(case, |items, odd| Rehouse::<$s>::rehouse(items.into_iter().collect::<$base>(), odd));
                set_current(None);
                r
            }));
        };
    }
    macro_rules! fault {
        ($t:ty) => {
            sub!(format!("Array<{},FaultBuf>", tidy(stringify!($t))), 80, Array<$t, VecBuffer>, FaultBuf, Array<$t, FaultBuf>);
        };
    }
    macro_rules! real {
        ($t:ty) => {
            sub!(format!("Array<{}>", tidy(stringify!($t))), 40, Array<$t, VecBuffer>, VecBuffer, Array<$t, VecBuffer>);
        };
    }
    macro_rules! bare {
        ($b:ty, $t:ty) => {
            sub!(tidy(stringify!($t)), 80, $b, FaultBuf, $t);
        };
    }
    vh::all_items!(fault);
    vh::few_items!(real);
    bare!(Bitmap, Bitmap<FaultBuf>);
    bare!(Validity<Vec<u16>>, Validity<FaultVec<u16>, FaultBuf>);
    bare!(Validity<Bitmap>, Validity<Bitmap<FaultBuf>, FaultBuf>);
    bare!(Validity<Flatten<Bitmap, 3>>, Validity<Flatten<Bitmap<FaultBuf>, 3>, FaultBuf>);
    bare!(Offsets<Vec<u8>, i64>, Offsets<FaultVec<u8>, i64, FaultBuf>);
    bare!(Offsets<Vec<u16>, i32, VecBuffer, Box<[u16]>>, Offsets<FaultVec<u16>, i32, FaultBuf, Box<[u16]>>);
    bare!(Offsets<Validity<Bitmap>, i64>, Offsets<Validity<Bitmap<FaultBuf>, FaultBuf>, i64, FaultBuf>);
    bare!(Flatten<Validity<Vec<u8>>, 2>, Flatten<Validity<FaultVec<u8>, FaultBuf>, 2>);
    bare!(Flatten<Offsets<Vec<u8>>, 2>, Flatten<Offsets<FaultVec<u8>, i32, FaultBuf>, 2>);
    bare!(VariableSizeList<Option<i32>, NonNullable, i64>, VariableSizeList<Option<i32>, NonNullable, i64, FaultBuf>);
    bare!(VariableSizeList<Vec<bool>, Nullable, i64>, VariableSizeList<Vec<bool>, Nullable, i64, FaultBuf>);
    bare!(VariableSizeBinary<Nullable, i64>, VariableSizeBinary<Nullable, i64, FaultBuf>);
    vh::run::main(Plan {
        id: "C14",
        rule: "a case = a construction with capacity, or a collection (collected, cut back, or raw parts at any bit position with omitted validity and unreferenced data) on which room is reserved 1-3 times; up to that many items with empty variable-size parts are then appended in random portions and the storage requests of all buffers are counted, on storage without growth slack and, for the growable storage, by the global allocator; also capacities nothing can hold; non-trivial = at least one item appended into reserved room; distinct = by start, room and items",
        subjects,
        exhaustive: false,
    });
}
