//! C10: a panicking source leaves a committed prefix and a usable collection.
use narrow::array::Array;
use narrow::bitmap::Bitmap;
use narrow::buffer::VecBuffer;
use narrow::collection::flatten::Flatten;
use narrow::collection::{Collection, CollectionRealloc};
use narrow::fixed_size::FixedSizeArray;
use narrow::layout::variable_size_binary::VariableSizeBinary;
use narrow::layout::variable_size_list::VariableSizeList;
use narrow::length::Length;
use narrow::nullability::{NonNullable, Nullable};
use narrow::offset::Offsets;
use narrow::validity::Validity;
use vh::bomb::Bomb;
use vh::coll::{Coll, check_all, check_consume};
use vh::ensure;
use vh::hist::{after, sample_batch};
use vh::items::tidy;
use vh::rehouse::{Odd, Rehouse};
use vh::run::{Case, Plan, Res, Subject, caught};
use vh::source::{HINTS, Source};
use vh::storage::FaultBuf;
use vh::val::{Dist, Val, fp_all, show};

type Build<C> = fn(Vec<<C as Collection>::Owned>, &mut Odd) -> C;

/// Panics at item `at` (after `at` items were delivered) in one append.
fn blow<C>(case: &mut Case, c: &mut C, model: &mut Vec<C::Owned>, more: &[C::Owned], at: usize) -> Res
where
    C: Coll + CollectionRealloc,
{
    let hint = *case.rng.pick(&HINTS);
    let src = Source::new(more.to_vec(), hint).panic_at(at);
    let watch = src.watch.clone();
    let fallible = case.rng.coin();
    let r = if fallible {
        caught(|| c.try_extend(src).is_ok())
    } else {
        caught(|| {
            c.extend(src);
            true
        })
    };
    let how = if fallible { "try_extend" } else { "extend" };
    if r == Ok(true) && at == more.len() {
        // Every item was delivered; a consumer that counts need not ask for the end.
        model.extend(more.iter().cloned());
        return check_all(c, model, &mut case.obs);
    }
    ensure!(
        r.is_err(),
        "{how} swallows the panic of its source at item {at} (returned {r:?}, {} delivered)",
        watch.delivered.get()
    );
    let old = model.len();
    committed(case, c, model, &more[..at])
        .map_err(|e| format!("{how} of {} ({hint:?}) onto {old}, panicking at item {at}: {e}", more.len()))
}

/// The contents are the old items and a prefix of the delivered ones.
fn committed<C: Coll>(case: &mut Case, c: &C, model: &mut Vec<C::Owned>, delivered: &[C::Owned]) -> Res {
    let (old, now) = (model.len(), Length::len(c));
    ensure!(now >= old, "length is {now}, below the previous {old}");
    ensure!(now <= old + delivered.len(), "length is {now}, above {old} + {} delivered", delivered.len());
    model.extend(delivered[..now - old].iter().cloned());
    case.count("panics_survived", 1);
    case.count("items_committed", (now - old) as u64);
    case.count("items_dropped", (delivered.len() - (now - old)) as u64);
    check_all(c, model, &mut case.obs)?;
    if case.rng.below(4) == 0 {
        c.audit(&mut case.obs)?;
    }
    Ok(())
}

fn start<C>(case: &mut Case, items: Vec<C::Owned>, how: Build<C>, odd: &Odd, kind: usize) -> (C, Vec<C::Owned>)
where
    C: Coll + CollectionRealloc,
{
    let mut c = how(items.clone(), &mut odd.clone());
    let mut model = items;
    match kind {
        0 => {
            let n = case.rng.below(model.len() + 1);
            c.truncate(n);
            model.truncate(n);
        }
        1 => c.reserve(case.rng.below(100)),
        _ => {}
    }
    (c, model)
}

fn subject<C>(case: &mut Case, how: Build<C>) -> Res
where
    C: Coll + CollectionRealloc,
{
    let d = Dist { giants: false, ..Dist::random(&mut case.rng) };
    let items: Vec<C::Owned> = sample_batch(case, &d, 0);
    let more: Vec<C::Owned> = sample_batch(case, &d, 0);
    let odd = Odd::random(&mut case.rng);
    let kind = case.rng.below(4);
    fp_all(&items, case.fp_mut());
    fp_all(&more, case.fp_mut());
    case.fp(kind as u64);
    case.trace(|| format!("start {kind} {} then a panicking append of {}", show(&items), show(&more)));
    let cap = if case.thorough { 300 } else { 24 };
    let mut at: Vec<usize> = (0..=more.len()).collect();
    if at.len() > cap {
        let n = more.len();
        at = [0, 1, 7, 8, 9, 1022, 1023, 1024, 1025, 2047, 2048, 2049, n - 1, n]
            .into_iter()
            .filter(|x| *x <= n)
            .collect();
        at.extend((at.len()..cap).map(|_| case.rng.below(n + 1)));
    }
    for at in at {
        let (mut c, mut model) = start(case, items.clone(), how, &odd, kind);
        case.nontrivial();
        blow(case, &mut c, &mut model, &more, at)?;
        // Sometimes again, immediately or after other operations.
        while case.rng.below(3) == 0 {
            if case.rng.coin() {
                let n = case.rng.range(1, 3);
                after(case, &mut c, &mut model, n).map_err(|e| format!("after a panic at item {at}: {e}"))?;
            }
            let more: Vec<C::Owned> = sample_batch(case, &d, model.len());
            let at = case.rng.below(more.len() + 1);
            blow(case, &mut c, &mut model, &more, at).map_err(|e| format!("repeated: {e}"))?;
            case.count("repeated_panics", 1);
        }
        let n = case.rng.range(1, 4);
        let label = |e: String| format!("after a panic at item {at}: {e}");
        after(case, &mut c, &mut model, n).map_err(label)?;
        if case.rng.below(4) == 0 {
            c.audit(&mut case.obs).map_err(label)?;
        }
        check_consume(c, &model, &mut case.obs).map_err(label)?;
    }
    Ok(())
}

/// Lists whose own items panic in the middle of a row.
fn inner<C, T>(case: &mut Case, how: fn(Vec<Bomb<T>>) -> C, wrap: fn(Bomb<T>) -> C::Owned) -> Res
where
    T: Val,
    C: Coll + CollectionRealloc,
{
    let d = Dist { list_max: 12, empty: 0.2, giants: false, ..Dist::random(&mut case.rng) };
    let sample = |case: &mut Case, n: usize| -> Vec<Bomb<T>> { (0..n).map(|_| Bomb::sample(&mut case.rng, &d)).collect() };
    let n = case.rng.below(8);
    let items = sample(case, n);
    let n = case.rng.range(1, 6);
    let more = sample(case, n);
    fp_all(&items, case.fp_mut());
    fp_all(&more, case.fp_mut());
    for row in 0..more.len() {
        for at in 0..=more[row].items.len() {
            let mut c = how(items.clone());
            let mut model: Vec<C::Owned> = items.iter().cloned().map(wrap).collect();
            let mut src: Vec<C::Owned> = more.iter().cloned().map(wrap).collect();
            let calm = src.clone();
            src[row] = wrap(Bomb { at: Some(at), ..more[row].clone() });
            let hint = *case.rng.pick(&HINTS);
            let src = Source::new(src, hint);
            let r = if case.rng.coin() {
                caught(|| c.try_extend(src).is_ok())
            } else {
                caught(|| {
                    c.extend(src);
                    true
                })
            };
            let label = |e: String| format!("append of {} lists onto {}, row {row} panicking at its item {at}: {e}", more.len(), items.len());
            if r.is_ok() {
                // A consumer that counts items may never ask for the last end.
                ensure!(at == more[row].items.len(), "{}", label("the panic is swallowed".into()));
                model.extend(calm);
            } else {
                case.nontrivial();
                case.count("rows_interrupted", 1);
                // The panicking row itself was not delivered in full.
                committed(case, &c, &mut model, &calm[..row]).map_err(label)?;
            }
            let n = case.rng.range(1, 4);
            after(case, &mut c, &mut model, n).map_err(label)?;
            check_consume(c, &model, &mut case.obs).map_err(label)?;
        }
    }
    Ok(())
}

fn main() {
    let mut subjects = Vec::new();
    macro_rules! sub {
        ($name:expr, $cases:expr, $base:ty, $s:ty, $t:ty) => {
            subjects.push(Subject::new($name, $cases, |case| {
                subject::<$t>(case, |items, odd| Rehouse::<$s>::rehouse(items.into_iter().collect::<$base>(), odd))
            }));
        };
    }
    macro_rules! arr {
        ($t:ty) => {
            sub!(format!("Array<{}>", tidy(stringify!($t))), 60, Array<$t, VecBuffer>, VecBuffer, Array<$t, VecBuffer>);
        };
    }
    macro_rules! fault {
        ($t:ty) => {
            sub!(format!("Array<{},FaultBuf>", tidy(stringify!($t))), 20, Array<$t, VecBuffer>, FaultBuf, Array<$t, FaultBuf>);
        };
    }
    macro_rules! bare {
        ($t:ty) => {
            sub!(tidy(stringify!($t)), 60, $t, VecBuffer, $t);
        };
    }
    macro_rules! bomb {
        ($t:ty, $item:ty, $wrap:expr) => {
            subjects.push(Subject::new(tidy(stringify!($t)), 60, |case| {
                inner::<$t, $item>(case, |items| items.into_iter().map($wrap).collect(), $wrap)
            }));
        };
    }
    vh::all_items!(arr);
    vh::few_items!(fault);
    bare!(Bitmap);
    bare!(Validity<Vec<u16>>);
    bare!(Validity<Bitmap>);
    bare!(Validity<Flatten<Bitmap, 3>>);
    bare!(Offsets<Vec<u8>, i64>);
    bare!(Offsets<Vec<u16>, i32, VecBuffer, Box<[u16]>>);
    bare!(Offsets<Bitmap, i64>);
    bare!(Offsets<Validity<Bitmap>, i64>);
    bare!(Flatten<Bitmap, 3>);
    bare!(Flatten<Validity<Vec<u8>>, 2>);
    bare!(Flatten<Offsets<Vec<u8>>, 2>);
    bare!(Flatten<Flatten<Bitmap, 2>, 3>);
    bare!(VariableSizeList<Option<i32>, NonNullable, i64>);
    bare!(VariableSizeList<Vec<bool>, Nullable, i64>);
    bare!(VariableSizeBinary<Nullable, i64>);
    bomb!(Offsets<Vec<u16>, i32, VecBuffer, Bomb<u16>>, u16, |b| b);
    bomb!(Offsets<Bitmap, i64, VecBuffer, Bomb<bool>>, bool, |b| b);
    bomb!(Offsets<Validity<Vec<u16>>, i32, VecBuffer, Bomb<Option<u16>>>, Option<u16>, |b| b);
    bomb!(Offsets<Validity<Bitmap>, i32, VecBuffer, Bomb<Option<bool>>>, Option<bool>, |b| b);
    bomb!(Validity<Offsets<Bitmap, i32, VecBuffer, Bomb<bool>>>, bool, Some);
    bomb!(Validity<Offsets<Vec<u8>, i32, VecBuffer, Bomb<u8>>>, u8, Some);
    bomb!(Validity<Offsets<Validity<Bitmap>, i32, VecBuffer, Bomb<Option<bool>>>>, Option<bool>, Some);
    bomb!(Flatten<Offsets<Bitmap, i32, VecBuffer, Bomb<bool>>, 2>, bool, |b| [Bomb { at: None, ..b.clone() }, b]);
    vh::run::main(Plan {
        id: "C10",
        rule: "a case = a start state (collected, cut back, reserved, or raw parts with legal oddities) and an append whose source panics; repeated with the panic at every item (every row boundary, chunk boundary and a sample for long appends), by extend and try_extend, also inside the items of a row, also several times in a row; the contents must be the old items and a prefix of the delivered ones through every access path and in the decoded buffers, and 1-4 later operations and consumption must match a plain list; non-trivial = a panic happened; distinct = by start and items",
        subjects,
        exhaustive: false,
    });
}
