//! C13: the caller's allocator is used for every buffer, nested or late.
use narrow::array::Array;
use narrow::bitmap::Bitmap;
use narrow::buffer::VecBuffer;
use narrow::collection::flatten::Flatten;
use narrow::collection::{Collection, CollectionAllocIn, CollectionRealloc};
use narrow::fixed_size::FixedSizeArray;
use narrow::layout::variable_size_binary::VariableSizeBinary;
use narrow::layout::variable_size_list::VariableSizeList;
use narrow::nullability::{NonNullable, Nullable};
use narrow::offset::Offsets;
use narrow::validity::Validity;
use vh::coll::{Coll, check_all};
use vh::ensure;
use vh::hist::sample_batch;
use vh::items::tidy;
use vh::owners::{Owners, owners};
use vh::rehouse::{Odd, Rehouse};
use vh::run::{Case, Plan, Res, Subject};
use vh::source::Source;
use vh::storage::{FaultBuf, FaultVec, Handle, set_current};
use vh::val::{Dist, fp_all, show};

type Build<C> = fn(Vec<<C as Collection>::Owned>, &mut Odd) -> C;

struct Actor<C: Coll> {
    c: C,
    model: Vec<C::Owned>,
    handle: Handle,
}

fn begin<C>(case: &mut Case, id: u32, d: &Dist, build: Build<C>) -> Res<Actor<C>>
where
    C: Coll + Owners + CollectionRealloc + CollectionAllocIn<Alloc = Handle>,
{
    let handle = Handle::new(id);
    let kind = case.rng.below(7);
    let items: Vec<C::Owned> = if kind < 2 { Vec::new() } else { sample_batch(case, d, 0) };
    fp_all(&items, case.fp_mut());
    case.fp(kind as u64);
    case.trace(|| format!("#{id}: start {kind} with {}", show(&items)));
    let n = case.rng.below(60);
    let src = Source::random_hint(items.clone(), &mut case.rng);
    let c = match kind {
        0 => C::with_capacity_in(n, handle.clone()),
        1 => C::try_with_capacity_in(n, handle.clone()).map_err(|e| e.to_string())?,
        2 | 3 => C::from_iter_in(src, handle.clone()),
        4 => C::try_from_iter_in(src, handle.clone()).map_err(|e| e.to_string())?,
        _ => {
            // Raw parts from this allocator, some validity omitted.
            set_current(Some(handle.clone()));
            let mut odd = Odd { omit: 1.0, ..Odd::random(&mut case.rng) };
            let c = build(items.clone(), &mut odd);
            set_current(None);
            c
        }
    };
    Ok(Actor { c, model: items, handle })
}

fn check<C>(case: &mut Case, a: &Actor<C>) -> Res
where
    C: Coll + Owners + CollectionRealloc + CollectionAllocIn<Alloc = Handle>,
{
    let id = a.handle.0.id;
    let got = a.c.allocator().0.id;
    ensure!(got == id, "the collection reports allocator {got} instead of {id}");
    let all = owners(&a.c);
    ensure!(all.iter().all(|x| *x == id), "buffers belong to allocators {all:?} instead of {id}");
    let stray = Handle::default().requests();
    ensure!(stray == 0, "{stray} storage requests went to the default allocator");
    case.obs.add("buffers_attributed", all.len() as u64);
    Ok(())
}

fn subject<C>(case: &mut Case, build: Build<C>) -> Res
where
    C: Coll + Owners + CollectionRealloc + CollectionAllocIn<Alloc = Handle>,
{
    Handle::default().reset();
    let d = Dist::random(&mut case.rng);
    let mut cast: Vec<Actor<C>> = Vec::new();
    for id in 1..=2 {
        cast.push(begin(case, id, &d, build)?);
        let a = &cast[cast.len() - 1];
        check(case, a).map_err(|e| format!("start of #{id}: {e}"))?;
    }
    for step in 0..case.rng.range(2, 12) {
        let at = case.rng.below(cast.len());
        let before: Vec<u64> = cast.iter().map(|a| a.handle.requests()).collect();
        let op = case.rng.below(6);
        let a = &mut cast[at];
        let len = a.model.len();
        case.trace(|| format!("step {step}: operation {op} on #{}", at + 1));
        match op {
            0 | 1 => {
                let items: Vec<C::Owned> = sample_batch(case, &d, len);
                fp_all(&items, case.fp_mut());
                let src = Source::random_hint(items.clone(), &mut case.rng);
                if op == 0 {
                    a.c.extend(src);
                } else {
                    ensure!(a.c.try_extend(src).is_ok(), "step {step}: try_extend fails");
                }
                a.model.extend(items);
            }
            2 => a.c.reserve(case.rng.below(200)),
            3 => ensure!(a.c.try_reserve(case.rng.below(200)).is_ok(), "step {step}: try_reserve fails"),
            4 => {
                let n = case.rng.below(len + 1);
                a.c.truncate(n);
                a.model.truncate(n);
            }
            _ => {
                // A new collection over the allocator the old one reports.
                let items: Vec<C::Owned> = sample_batch(case, &d, 0);
                a.c = C::from_iter_in(items.clone(), a.c.allocator());
                a.model = items;
            }
        }
        let label = |e: String| format!("step {step}, operation {op} on #{}: {e}", at + 1);
        for (i, a) in cast.iter().enumerate() {
            let made = a.handle.requests() - before[i];
            if i == at {
                if made > 0 {
                    case.nontrivial();
                }
                case.obs.add("requests_attributed", made);
            } else {
                ensure!(made == 0, "{}", label(format!("{made} storage requests went to #{}", i + 1)));
            }
            check(case, a).map_err(label)?;
            check_all(&a.c, &a.model, &mut case.obs).map_err(label)?;
        }
    }
    Ok(())
}

fn main() {
    let mut subjects = Vec::new();
    macro_rules! sub {
        ($name:expr, $cases:expr, $base:ty, $t:ty) => {
            subjects.push(Subject::new($name, $cases, |case| {
                let r = subject::<$t>(case, |items, odd| {
                    Rehouse::<FaultBuf>::rehouse(items.into_iter().collect::<$base>(), odd)
                });
                set_current(None);
                r
            }));
        };
    }
    macro_rules! arr {
        ($t:ty) => {
            sub!(format!("Array<{}>", tidy(stringify!($t))), 80, Array<$t, VecBuffer>, Array<$t, FaultBuf>);
        };
    }
    macro_rules! bare {
        ($b:ty, $t:ty) => {
            sub!(tidy(stringify!($t)), 80, $b, $t);
        };
    }
    vh::all_items!(arr);
    bare!(Bitmap, Bitmap<FaultBuf>);
    bare!(Validity<Vec<u16>>, Validity<FaultVec<u16>, FaultBuf>);
    bare!(Validity<Bitmap>, Validity<Bitmap<FaultBuf>, FaultBuf>);
    bare!(Validity<Flatten<Bitmap, 3>>, Validity<Flatten<Bitmap<FaultBuf>, 3>, FaultBuf>);
    bare!(Validity<Flatten<Validity<Vec<u8>>, 2>>, Validity<Flatten<Validity<FaultVec<u8>, FaultBuf>, 2>, FaultBuf>);
    bare!(Offsets<Vec<u8>, i64>, Offsets<FaultVec<u8>, i64, FaultBuf>);
    bare!(Offsets<Vec<u16>, i32, VecBuffer, Box<[u16]>>, Offsets<FaultVec<u16>, i32, FaultBuf, Box<[u16]>>);
    bare!(Offsets<Validity<Bitmap>, i64>, Offsets<Validity<Bitmap<FaultBuf>, FaultBuf>, i64, FaultBuf>);
    bare!(Flatten<Validity<Vec<u8>>, 2>, Flatten<Validity<FaultVec<u8>, FaultBuf>, 2>);
    bare!(Flatten<Offsets<Vec<u8>>, 2>, Flatten<Offsets<FaultVec<u8>, i32, FaultBuf>, 2>);
    bare!(VariableSizeList<Option<i32>, NonNullable, i64>, VariableSizeList<Option<i32>, NonNullable, i64, FaultBuf>);
    bare!(VariableSizeList<Vec<bool>, Nullable, i64>, VariableSizeList<Vec<bool>, Nullable, i64, FaultBuf>);
    bare!(VariableSizeBinary<Nullable, i64>, VariableSizeBinary<Nullable, i64, FaultBuf>);
    vh::run::main(Plan {
        id: "C13",
        rule: "a case = two collections over two distinguishable allocators (empty, with capacity, collected, or raw parts with omitted validity) and 2-11 operations alternating between them; after every operation every buffer at every depth must belong to its own allocator, the reported allocator must be it, the default allocator must not have been asked for storage, nor the other's; non-trivial = storage was requested; distinct = by starts and items",
        subjects,
        exhaustive: false,
    });
}
