//! C19: what one row costs does not depend on how many there are.
vh::zoo_uses!();
use narrow::collection::{Collection, CollectionRealloc};
use narrow::layout::ArrayItem;
use narrow::length::Length;
use narrow::offset::OffsetView;
use narrow_ffi::Import;
use std::hint::black_box;
use std::sync::atomic::{AtomicU32, Ordering::Relaxed};
use vh::cdata::{CVal, Dyn, Imported, Ledger, Style, dyns, import, produce};
use vh::coll::Coll;
use vh::ensure;
use vh::items::tidy;
use vh::rehouse::{Odd, Rehouse};
use vh::rng::Rng;
use vh::run::{Case, Plan, Res, Subject};
use vh::scan::{Read, Scan};
use vh::val::{Dist, Val, fp_all, sample_n, show};

/// Rows of the small collections, and the period of all contents.
const FEW: usize = 64;
/// What an operation may cost whatever it costs on few rows.
const SLACK: u64 = 400;
/// How much more than on few rows an operation may cost.
const TIMES: u64 = 20;
/// Measurements that must all be too long.
const TRIES: usize = 6;

/// Enough violations to stop looking for more, which takes long.
const ENOUGH: u32 = 24;
static FOUND: AtomicU32 = AtomicU32::new(0);

/// Time this thread has been running, in nanoseconds.
fn cpu() -> u64 {
    unsafe extern "C" {
        fn clock_gettime(clock: i32, at: *mut [i64; 2]) -> i32;
    }
    let mut at = [0; 2];
    assert_eq!(unsafe { clock_gettime(3, &mut at) }, 0);
    at[0] as u64 * 1_000_000_000 + at[1] as u64
}
fn timed<R>(f: impl FnOnce() -> R) -> (u64, R) {
    let from = cpu();
    let r = f();
    (cpu() - from, r)
}
/// The shortest of some runs.
fn least(mut f: impl FnMut()) -> u64 {
    let mut best = u64::MAX;
    for _ in 0..5 {
        let t = timed(&mut f).0;
        best = best.min(t);
        if t > 100_000_000 {
            break;
        }
    }
    best
}

fn enough(case: &mut Case) -> bool {
    let enough = FOUND.load(Relaxed) >= ENOUGH;
    case.count("cases_left_out_after_violations", u64::from(enough));
    enough
}

/// Compares `ops` operations on few rows with as many on many.
fn compare(case: &mut Case, what: &str, ops: usize, rows: usize, mut few: impl FnMut() -> u64, mut many: impl FnMut() -> u64) -> Res {
    let mut last = (0, 0);
    for tried in 1..=TRIES {
        last = (few(), many());
        let most = TIMES * last.0 + SLACK * ops as u64;
        if last.1 > 20 * most && tried > 1 {
            break;
        }
        if last.1 <= most {
            case.count("comparisons", 1);
            case.count("repeated_measurements", tried as u64 - 1);
            case.count("nanoseconds_on_few_rows", last.0);
            case.count("nanoseconds_on_many_rows", last.1);
            return Ok(());
        }
    }
    FOUND.fetch_add(1, Relaxed);
    Err(format!("{what}: {} ns with {FEW} rows, {} ns with {rows} ({ops} operations)", last.0, last.1))
}

/// The rows of a period of contents.
fn period<T: Val>(case: &mut Case) -> Vec<T> {
    let d = Dist { giants: false, ..Dist::random(&mut case.rng) };
    let items = sample_n(&mut case.rng, &Dist { list_max: d.list_max.min(4), ..d }, FEW);
    fp_all(&items, case.fp_mut());
    case.nontrivial();
    items
}
fn rows<T: Clone>(period: &[T], n: usize) -> Vec<T> {
    period.iter().cycle().take(n).cloned().collect()
}
fn vast(case: &mut Case, cost: usize) -> usize {
    let most = *case.rng.pick(&[400_000, 1_000_000]) / (1 + cost);
    (most / FEW).max(512) * FEW
}

/// Every kind of access to rows with the same contents.
fn reads<C: Read>(case: &mut Case, few: &C, many: &C) -> Res {
    let n = Length::len(many);
    ensure!(Length::len(few) == FEW && n % FEW == 0, "built {} and {n} rows", Length::len(few));
    let at: Vec<usize> = (0..32).map(|_| case.rng.below(FEW)).collect();
    let far: Vec<usize> = at.iter().map(|i| (case.rng.below(n / FEW)) * FEW + i).collect();
    let seeds: Rng = case.rng.fork();
    macro_rules! each {
        ($what:expr, |$c:ident, $i:ident| $e:expr) => {{
            let run = |$c: &C, at: &[usize]| {
                least(|| {
                    for $i in at.iter().copied() {
                        black_box(&$e);
                    }
                })
            };
            compare(case, $what, at.len(), n, || run(few, &at), || run(many, &far))?;
        }};
    }
    each!("the length", |c, _i| (Length::len(c), c.is_empty()));
    each!("a borrowed row", |c, i| c.view(i).is_some());
    each!("an owned row", |c, i| c.owned(i));
    each!("a row that is not there", |c, i| {
        let len = Length::len(c);
        (c.view(len).is_none(), c.view(len + i).is_none(), c.view(usize::MAX - i).is_none())
    });
    each!("the parts of a row", |c, i| {
        c.touch(i);
        c.touch(usize::MAX - i);
    });
    each!("a new iterator", |c, _i| c.iter_views().size_hint());
    each!("the contents of a row", |c, i| {
        let mut s = Scan::new(seeds.clone());
        if let Some(v) = c.view(i) {
            C::scan_view(v, &mut s);
        }
        s.fp.0
    });
    let first = |c: &C| {
        least(|| {
            let mut it = c.iter_views();
            for _ in 0..FEW {
                black_box(it.next().is_some());
                black_box(it.size_hint());
            }
        })
    };
    compare(case, "the first rows and what remains", FEW, n, || first(few), || first(many))?;
    case.count("rows_of_large_collections", n as u64);
    Ok(())
}

/// Reading every row once.
fn sweeps<C: Read>(case: &mut Case, build: &mut dyn FnMut(usize) -> C) -> Res {
    let rows = (65_536 / (1 + C::Owned::COST) / FEW).max(64) * FEW;
    let (few, mid) = (build(FEW), build(rows));
    let sweep = |c: &C, times: usize| {
        least(|| {
            for _ in 0..times {
                for v in c.iter_views() {
                    black_box(&v);
                }
            }
        })
    };
    compare(case, "every borrowed row", rows, rows, || sweep(&few, rows / FEW), || sweep(&mid, 1))?;
    let by_index = |c: &C, times: usize| {
        least(|| {
            for _ in 0..times {
                for i in 0..Length::len(c) {
                    black_box(c.view(i).is_some());
                }
            }
        })
    };
    compare(case, "every row by index", rows, rows, || by_index(&few, rows / FEW), || by_index(&mid, 1))?;
    drop((few, mid));
    let mut drain = |n: usize| {
        let all: Vec<C> = (0..rows / n).map(|_| build(n)).collect();
        timed(|| {
            for c in all {
                for v in c.into_iter_owned() {
                    black_box(&v);
                }
            }
        })
        .0
    };
    let drains = std::cell::RefCell::new(&mut drain);
    compare(case, "every consumed row", rows, rows, || (drains.borrow_mut())(FEW), || (drains.borrow_mut())(rows))?;
    case.count("rows_consumed", rows as u64);
    Ok(())
}

fn read<C: Read>(case: &mut Case, build: fn(Vec<C::Owned>, &mut Odd) -> C) -> Res {
    if enough(case) {
        return Ok(());
    }
    let p: Vec<C::Owned> = period(case);
    let odd = Odd::random(&mut case.rng);
    case.trace(|| format!("{odd:?} rows {}", show(&p)));
    let many = vast(case, C::Owned::COST);
    let mut make = |n: usize| build(rows(&p, n), &mut odd.clone());
    let (a, b) = (make(FEW), make(many));
    reads(case, &a, &b)?;
    drop((a, b));
    sweeps(case, &mut make)
}

/// Arrays over foreign memory.
fn imported<T>(case: &mut Case) -> Res
where
    T: CVal + ArrayItem,
    Imported<T>: Import<'static> + Coll<Owned = T> + Read,
{
    if enough(case) {
        return Ok(());
    }
    let p: Vec<T> = period(case);
    let l = Ledger::default();
    let st = Style::any(&mut case.rng);
    let seeds = case.rng.fork();
    case.trace(|| format!("producer {st:?} of {}", show(&p)));
    let make = |n: usize| {
        let some: Vec<Option<Dyn>> = dyns(&rows(&p, n)).into_iter().map(Some).collect();
        let (a, s) = produce(&l, &T::ty(), &some, &st, &mut seeds.clone());
        unsafe { import::<T>(a, s) }.map_err(|e| format!("well-formed data is refused: {e:?}"))
    };
    let (a, b) = (make(FEW)?, make((1024 / (1 + T::COST)).max(8) * FEW)?);
    case.count("imports_read", 2);
    reads(case, &a, &b)
}

/// Mutations of collections that differ in length only.
fn grows<C: Coll + CollectionRealloc>(case: &mut Case, build: fn(Vec<C::Owned>, &mut Odd) -> C) -> Res {
    const BATCH: usize = 256;
    if enough(case) {
        return Ok(());
    }
    let p: Vec<C::Owned> = period(case);
    let odd = Odd::random(&mut case.rng);
    case.trace(|| format!("{odd:?} rows {}", show(&p)));
    let n = vast(case, C::Owned::COST);
    let (mut few, mut many) = (build(rows(&p, FEW), &mut odd.clone()), build(rows(&p, n), &mut odd.clone()));
    macro_rules! each {
        ($what:expr, |$c:ident, $item:ident| $e:expr) => {{
            // Storage may move now and then: the longest batches do not count.
            let run = |$c: &mut C| {
                let len = Length::len($c);
                let mut times = Vec::new();
                let mut total = 0;
                for _ in 0..16 {
                    let items = rows(&p, BATCH);
                    let (took, ()) = timed(|| {
                        for $item in items {
                            $e;
                        }
                    });
                    $c.truncate(len);
                    times.push(took);
                    total += took;
                    if total > 200_000_000 {
                        return total;
                    }
                }
                times.sort_unstable();
                times[..12].iter().sum()
            };
            compare(case, $what, BATCH * 12, n, || run(&mut few), || run(&mut many))?;
        }};
    }
    each!("appending a row", |c, item| c.extend(std::iter::once(item)));
    each!("fallibly appending a row", |c, item| c.try_extend(std::iter::once(item)).expect("room"));
    each!("appending two rows", |c, item| c.extend([item.clone(), item]));
    each!("appending nothing", |c, _item| c.extend(std::iter::empty()));
    each!("reserving room for a row", |c, _item| c.reserve(1));
    each!("fallibly reserving room for a row", |c, _item| c.try_reserve(1).expect("room"));
    each!("truncating to more than the length", |c, _item| c.truncate(Length::len(c) + 1));
    each!("replacing the last row", |c, item| {
        c.truncate(Length::len(c) - 1);
        c.extend(std::iter::once(item));
    });
    case.count("rows_of_large_collections", n as u64);
    Ok(())
}

/// Items of one list.
fn listed<C, T: Read, O: narrow::offset::Offset>(case: &mut Case, build: fn(Vec<Vec<T::Owned>>) -> C) -> Res
where
    C: for<'a> Collection<View<'a> = OffsetView<'a, T, O, VecBuffer, Vec<T::Owned>>> + 'static,
    T: 'static,
{
    if enough(case) {
        return Ok(());
    }
    let p: Vec<T::Owned> = period(case);
    let n = vast(case, T::Owned::COST);
    let c = build(vec![rows(&p, 3), rows(&p, n), rows(&p, FEW), rows(&p, 5)]);
    let (many, few) = (c.view(1).ok_or("missing row")?, c.view(2).ok_or("missing row")?);
    let at: Vec<usize> = (0..32).map(|_| case.rng.below(FEW)).collect();
    let far: Vec<usize> = at.iter().map(|i| (case.rng.below(n / FEW)) * FEW + i).collect();
    macro_rules! each {
        ($what:expr, |$v:ident, $i:ident| $e:expr) => {{
            macro_rules! run {
                ($from:expr, $at:expr) => {
                    least(|| {
                        for $i in $at.iter().copied() {
                            let $v = $from;
                            black_box(&$e);
                        }
                    })
                };
            }
            compare(case, $what, at.len(), n, || run!(few, at), || run!(many, far))?;
        }};
    }
    each!("the length of a list", |v, _i| (Length::len(&v), v.is_empty()));
    each!("a borrowed item", |v, i| v.view(i).is_some());
    each!("an owned item", |v, i| v.owned(i));
    each!("an item that is not there", |v, i| (v.view(Length::len(&v) + i).is_none(), v.view(usize::MAX - i).is_none()));
    each!("a new iterator of items", |v, _i| v.iter_views().size_hint());
    macro_rules! first {
        ($v:expr) => {
            least(|| {
                let mut it = $v.iter_views();
                for _ in 0..FEW {
                    black_box(it.next().is_some());
                    black_box(it.size_hint());
                }
            })
        };
    }
    compare(case, "the first items and what remains", FEW, n, || first!(few), || first!(many))?;
    case.count("items_of_large_lists", n as u64);
    Ok(())
}

fn main() {
    let mut subjects = Vec::new();
    macro_rules! sub {
        ($name:expr, $w:expr, $t:ty, $build:expr) => {
            let build = $build;
            subjects.push(Subject::new($name, (4.0 * $w) as u64, move |c| read::<$t>(c, build)));
        };
    }
    vh::zoo!(sub);
    macro_rules! ffi {
        ($t:ty) => {
            subjects.push(Subject::new(format!("imported {}", tidy(stringify!($t))), 1, imported::<$t>));
        };
    }
    vh::ffi_items!(ffi);
    macro_rules! grow {
        ($t:ty) => {
            subjects.push(Subject::new(format!("growing {}", tidy(stringify!($t))), 3, |c| {
                grows::<$t>(c, |items, odd| Rehouse::<VecBuffer>::rehouse(items.into_iter().collect::<$t>(), odd))
            }));
        };
    }
    macro_rules! arr {
        ($t:ty) => {
            grow!(Array<$t, VecBuffer>);
        };
    }
    vh::all_items!(arr);
    grow!(Bitmap);
    grow!(Vec<i32>);
    grow!(Flatten<Bitmap, 3>);
    grow!(Validity<Vec<u16>>);
    grow!(Validity<Bitmap>);
    grow!(Validity<Flatten<Bitmap, 3>>);
    grow!(Offsets<Vec<u8>, i64>);
    grow!(Offsets<Vec<u16>, i32, VecBuffer, Box<[u16]>>);
    grow!(Offsets<Validity<Bitmap>, i64>);
    grow!(Flatten<Validity<Vec<u8>>, 2>);
    grow!(Flatten<Offsets<Vec<u8>>, 2>);
    grow!(VariableSizeList<Option<i32>, NonNullable, i64>);
    grow!(VariableSizeList<Vec<bool>, Nullable, i64>);
    grow!(VariableSizeBinary<Nullable, i64>);
    macro_rules! list {
        ($t:ty, $o:ty) => {
            subjects.push(Subject::new(format!("lists of {} by {}", tidy(stringify!($t)), stringify!($o)), 3, |c| {
                listed::<Offsets<$t, $o>, $t, $o>(c, |l| l.into_iter().collect())
            }));
        };
    }
    list!(Vec<u8>, i32);
    list!(Vec<i64>, i64);
    list!(Bitmap, i32);
    list!(Validity<Vec<u16>>, i64);
    list!(Validity<Bitmap>, i32);
    list!(Flatten<Bitmap, 3>, i32);
    list!(Offsets<Vec<u8>>, i64);
    list!(Validity<Offsets<Vec<u8>>>, i32);
    list!(FixedSizePrimitive<i32, Nullable>, i32);
    list!(Boolean<Nullable>, i64);
    vh::run::main(Plan {
        id: "C19",
        rule: "a case = two collections of the same type, physical oddities and periodic contents, one of 64 rows and one of up to a million (or two rows with as many items, or two imported arrays), every kind of access timed on both at rows with the same contents: length, borrowed and owned rows, rows that are not there, null queries, new iterators, first rows, remaining lengths; complete iterations of up to 65536 rows against as many in collections of 64; and batches of appends, reservations and truncations; an operation that in each of six measurements (two, if far too long) (each the shortest of several runs, in processor time of the thread) takes more than twenty times as long plus 400 ns is a violation; distinct = by contents",
        subjects,
        exhaustive: false,
    });
}
