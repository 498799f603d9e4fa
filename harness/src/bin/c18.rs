//! C18: storage follows the contents and is given back.
vh::zoo_uses!();
use narrow::collection::{CollectionAllocIn, CollectionRealloc};
use narrow::length::Length;
use vh::coll::{Coll, check_all};
use vh::identity::{Parts, Place, places};
use vh::items::tidy;
use vh::rehouse::{Odd, Rehouse};
use vh::rng::Rng;
use vh::run::{Case, Plan, Res, Subject, caught, forget_panic};
use vh::source::Source;
use vh::storage::{FaultBuf, FaultVec, Handle, set_current};
use vh::val::{Dist, Val, fp_all, sample_n, sample_small, show};
use vh::{ensure, meter};

fn live() -> i64 {
    meter::get().live_bytes
}
fn bytes<C: Parts>(c: &C) -> i64 {
    places(c).iter().map(|p| p.bytes as i64).sum()
}

/// How often storage that at least doubles grows to hold these buffers.
fn growths(parts: &[Place]) -> u64 {
    parts.iter().map(|p| u64::from((p.bytes as u64 + 1).ilog2()) + 5).sum()
}

/// The least memory a collection needs, and has needed.
struct Need {
    /// Memory held before the collection existed.
    base: i64,
    /// Most bytes the contents and the room asked for ever took.
    peak: i64,
    buffers: i64,
    /// Bytes of 64 items with one item in each list.
    many: i64,
}
impl Need {
    fn room(&self, n: usize) -> i64 {
        self.many * n as i64 / 64 + self.many
    }
    fn see(&mut self, b: i64) {
        self.peak = self.peak.max(b);
    }
    /// Runs `f` without counting the memory it keeps.
    fn aside<R>(&mut self, f: impl FnOnce() -> R) -> R {
        let before = live();
        let r = f();
        self.base += live() - before;
        r
    }
    fn check<C: Coll + Parts>(&mut self, c: &C, case: &mut Case, what: &str) -> Res {
        self.see(bytes(c));
        let held = live() - self.base;
        let most = 3 * self.peak + self.buffers * 512;
        ensure!(held >= bytes(c), "{what}: {held} bytes held for {} bytes of buffers", bytes(c));
        ensure!(
            held <= most,
            "{what}: {held} bytes held at length {}, the contents take {} bytes, contents and room never took more than {} in {} buffers",
            Length::len(c),
            bytes(c),
            self.peak,
            self.buffers
        );
        self.aside(|| {
            case.count("states_measured", 1);
            case.count("bytes_needed", bytes(c) as u64);
            case.count("bytes_held", held as u64);
        });
        Ok(())
    }
}

fn portion<T: Val>(rng: &mut Rng, d: &Dist) -> Vec<T> {
    let n = if rng.below(40) == 0 && T::COST <= 6 && !cfg!(miri) { *rng.pick(&[600, 1023, 1025, 2060]) } else { sample_small(rng) };
    sample_n(rng, d, n)
}

fn collected<C: Coll + CollectionAllocIn<Alloc: Default>>(items: Vec<C::Owned>) -> C {
    C::from_iter_in(items, C::Alloc::default())
}

/// Any history of operations, some of which fail or panic.
fn history<C>(case: &mut Case, build: fn(Vec<C::Owned>, &mut Odd) -> C, clone: Option<fn(&C) -> C>) -> Res
where
    C: Coll + Parts + CollectionRealloc + CollectionAllocIn<Alloc = ()>,
{
    let _ = caught(|| std::panic::panic_any(vh::run::PLANNED));
    forget_panic();
    let d = Dist { giants: false, ..Dist::random(&mut case.rng) };
    // Room for a list may include room for an item in it.
    let single = Dist { null: 0.0, empty: 0.0, list_max: 1, giants: false, ..Dist::plain() };
    let mut rng = case.rng.fork();
    let many = bytes(&collected::<C>(sample_n(&mut rng, &single, 64)));
    let start: Vec<C::Owned> = portion(&mut rng, &d);
    let kind = rng.below(4);
    let steps = rng.range(3, 10);
    fp_all(&start, case.fp_mut());
    case.fp((kind * 100 + steps) as u64);
    drop(start);
    case.nontrivial();
    let mut need = Need { base: live(), peak: 0, buffers: 0, many };
    let start: Vec<C::Owned> = portion(&mut rng, &d);
    let mut c: C = match kind {
        0 => {
            drop(start);
            let n = rng.below(300);
            need.see(need.room(n));
            if rng.coin() { C::with_capacity_in(n, ()) } else { C::try_with_capacity_in(n, ()).map_err(|e| e.to_string())? }
        }
        1 => collected(start),
        2 => C::try_from_iter_in(Source::random_hint(start, &mut rng), ()).map_err(|e| e.to_string())?,
        _ => build(start, &mut Odd::random(&mut rng)),
    };
    // A late validity counts as a buffer from the start.
    need.buffers = 1 + places(&collected::<C>(Vec::new())).len() as i64;
    need.see(bytes(&c) + need.room(8));
    need.check(&c, case, "at the start")?;
    for step in 0..steps {
        let before = bytes(&c);
        let op = rng.below(9);
        case.fp(op as u64);
        let name = match op {
            0 | 1 => {
                let k = rng.range(1, 4);
                for _ in 0..k {
                    let src = Source::random_hint(portion::<C::Owned>(&mut rng, &d), &mut rng);
                    if rng.coin() {
                        c.extend(src);
                    } else {
                        c.try_extend(src).map_err(|e| e.to_string())?;
                    }
                    need.see(bytes(&c));
                }
                "appending"
            }
            2 => {
                // Asking again for room that is there.
                let n = rng.below(400);
                for _ in 0..rng.range(1, 12) {
                    if rng.coin() {
                        c.reserve(n);
                    } else {
                        c.try_reserve(n).map_err(|e| e.to_string())?;
                    }
                }
                need.see(before + need.room(n));
                "reserving"
            }
            3 => {
                let to = rng.below(Length::len(&c) + 1);
                for _ in 0..rng.range(1, 12) {
                    let n = Length::len(&c) - to;
                    c.truncate(to);
                    let items: Vec<C::Owned> = sample_n(&mut rng, &d, n);
                    c.extend(items);
                    need.see(bytes(&c));
                }
                "refilling"
            }
            4 => {
                c.truncate(rng.below(Length::len(&c) + 2));
                "truncating"
            }
            5 => {
                // Memory runs out.
                let items: Vec<C::Owned> = portion(&mut rng, &d);
                let n = items.len();
                need.see(before + bytes(&collected::<C>(items.clone())) + need.room(n));
                let (k, persistent) = (rng.range(1, 4) as u64, rng.coin());
                let how = rng.below(4);
                let src = Source::random_hint(items, &mut rng);
                meter::arm(k, persistent);
                let failed = match how {
                    0 => c.try_extend(src).is_err(),
                    1 => c.try_reserve(n).is_err(),
                    2 => C::try_from_iter_in(src, ()).is_err(),
                    _ => C::try_with_capacity_in(n, ()).is_err(),
                };
                meter::disarm();
                need.aside(|| case.count("operations_out_of_memory", u64::from(failed)));
                "running out of memory"
            }
            6 => {
                let items: Vec<C::Owned> = portion(&mut rng, &d);
                need.see(before + bytes(&collected::<C>(items.clone())));
                let at = rng.below(items.len() + 1);
                let how = rng.below(3);
                let src = Source::random_hint(items, &mut rng).panic_at(at);
                let r = caught(|| match how {
                    0 => c.extend(src),
                    1 => drop(c.try_extend(src)),
                    _ => drop(C::from_iter_in(src, ())),
                });
                let panicked = r.is_err();
                drop(r);
                forget_panic();
                need.aside(|| case.count("panicking_sources", u64::from(panicked)));
                "a panicking source"
            }
            7 => {
                if let Some(clone) = clone {
                    let other = clone(&c);
                    if rng.coin() {
                        c = other;
                    }
                    need.aside(|| case.count("clones", 1));
                }
                "cloning"
            }
            _ => {
                c = c.rewrap()?;
                "taking apart and putting together"
            }
        };
        need.check(&c, case, name).map_err(|e| format!("step {step}, {e}"))?;
    }
    given_back(case, c, &mut rng, need.base)
}

/// Whatever the end of a collection, nothing but `base` bytes remain.
fn given_back<C: Coll>(case: &mut Case, c: C, rng: &mut Rng, base: i64) -> Res {
    let n = Length::len(&c);
    let end = match rng.below(5) {
        0 => {
            drop(c);
            "dropping"
        }
        1 => {
            let k = rng.below(n + 2);
            drop(c.into_iter_owned().take(k).collect::<Vec<_>>());
            "consuming a part of"
        }
        2 => {
            let mut it = c.into_iter_owned();
            let first = it.next();
            drop(it);
            drop(first);
            "consuming one row of"
        }
        3 => {
            drop(c.into_iter_owned());
            "starting to consume"
        }
        _ => {
            let seen = c.into_iter_owned().count();
            ensure!(seen == n, "{seen} of {n} items consumed");
            "consuming all of"
        }
    };
    // Borrowed storage belongs to the harness.
    vh::run::cleanup();
    let left = live() - base;
    ensure!(left == 0, "{left} bytes are still held after {end} a collection of {n} rows");
    case.count("collections_given_back", 1);
    Ok(())
}

/// Any storage, read and consumed.
fn housed<C: Coll + Parts>(case: &mut Case, build: fn(Vec<C::Owned>, &mut Odd) -> C) -> Res {
    let d = Dist { giants: false, ..Dist::random(&mut case.rng) };
    let mut rng = case.rng.fork();
    let (mut again, mut odd) = (rng.clone(), Odd::random(&mut case.rng));
    fp_all(&portion::<C::Owned>(&mut again, &d), case.fp_mut());
    case.nontrivial();
    case.count("collections_given_back", 0);
    // The first handle of a thread is kept.
    drop(Handle::default());
    let mut need = Need { base: live(), peak: 0, buffers: 0, many: 0 };
    let c = build(portion(&mut rng, &d), &mut odd);
    for i in 0..Length::len(&c) {
        ensure!(c.view(i).is_some() && c.owned(i).is_some(), "row {i} is missing");
    }
    let c = if rng.coin() { c.rewrap()? } else { c };
    if rng.coin() {
        need.aside(|| {
            let rows = c.decode(&mut case.obs)?;
            check_all(&c, &rows, &mut case.obs)
        })?;
    }
    given_back(case, c, &mut rng, need.base)
}

/// Constructions that succeed, run out of memory or are abandoned by their source.
fn made<C>(case: &mut Case) -> Res
where
    C: Coll + CollectionAllocIn<Alloc = ()>,
{
    let _ = caught(|| std::panic::panic_any(vh::run::PLANNED));
    forget_panic();
    let d = Dist { giants: false, ..Dist::random(&mut case.rng) };
    let mut rng = case.rng.fork();
    case.nontrivial();
    for k in ["constructions", "constructions_out_of_memory", "constructions_abandoned", "collections_given_back"] {
        case.count(k, 0);
    }
    let base = live();
    for _ in 0..4 {
        let items: Vec<C::Owned> = portion(&mut rng, &d);
        fp_all(&items, case.fp_mut());
        let n = items.len();
        let how = rng.below(6);
        let src = Source::random_hint(items, &mut rng);
        let (k, persistent) = (rng.range(1, 5) as u64, rng.coin());
        let at = rng.below(n + 1);
        let c: Option<C> = match how {
            0 => Some(C::from_iter_in(src, ())),
            1 => Some(C::try_from_iter_in(src, ()).map_err(|e| e.to_string())?),
            2 | 3 => {
                let ask = if how == 2 {
                    Some(src)
                } else {
                    drop(src);
                    None
                };
                meter::arm(k, persistent);
                let r = match ask {
                    Some(src) => C::try_from_iter_in(src, ()),
                    None => C::try_with_capacity_in(n, ()),
                };
                meter::disarm();
                case.count("constructions_out_of_memory", u64::from(r.is_err()));
                r.ok()
            }
            _ => {
                let src = src.panic_at(at);
                let r = caught(|| if how == 4 { Some(C::from_iter_in(src, ())) } else { C::try_from_iter_in(src, ()).ok() });
                forget_panic();
                case.count("constructions_abandoned", u64::from(r.is_err()));
                r.ok().flatten()
            }
        };
        case.count("constructions", 1);
        if let Some(c) = c {
            given_back(case, c, &mut rng, base)?;
        }
        let left = live() - base;
        ensure!(left == 0, "{left} bytes are still held after a construction of {n} rows that failed (way {how})");
    }
    Ok(())
}

/// Rows appended in small portions: how often the storage grows.
fn growth<C>(case: &mut Case) -> Res
where
    C: Coll + Parts + CollectionRealloc + CollectionAllocIn<Alloc = ()>,
{
    let d = Dist { giants: false, ..Dist::random(&mut case.rng) };
    let most = *case.rng.pick(&[1, 1, 2, 7]);
    let way = case.rng.below(4);
    let mut c: C = collected(Vec::new());
    let mut grown = 0;
    for _ in 0..rows::<C>(case) {
        let before = live();
        let n = case.rng.range(1, most);
        let items: Vec<C::Owned> = sample_n(&mut case.rng, &d, n);
        let src = Source::random_hint(items, &mut case.rng);
        append(case, &mut c, src, n, way)?;
        // The items are gone, what remains is storage.
        grown += u64::from(live() > before);
        if bytes(&c) > ENOUGH {
            break;
        }
    }
    judge(case, &c, grown, "append grew the storage")
}

/// The same, counting every request of every buffer.
fn asked<C>(case: &mut Case) -> Res
where
    C: Coll + Parts + CollectionRealloc + CollectionAllocIn<Alloc = Handle>,
{
    let h = Handle::new(1);
    let d = Dist { giants: false, ..Dist::random(&mut case.rng) };
    let most = *case.rng.pick(&[1, 1, 2, 7]);
    let way = case.rng.below(4);
    let mut c = C::from_iter_in(Vec::new(), h.clone());
    let before = h.requests() + Handle::default().requests();
    for _ in 0..rows::<C>(case) {
        let n = case.rng.range(1, most);
        let items: Vec<C::Owned> = sample_n(&mut case.rng, &d, n);
        let src = Source::random_hint(items, &mut case.rng);
        append(case, &mut c, src, n, way)?;
        if bytes(&c) > ENOUGH {
            break;
        }
    }
    let asked = h.requests() + Handle::default().requests() - before;
    judge(case, &c, asked, "storage requests were made")
}

/// One way of appending for the whole case, or any of them.
fn append<C: Coll + CollectionRealloc>(case: &mut Case, c: &mut C, src: Source<C::Owned>, n: usize, way: usize) -> Res {
    match if way < 3 { way } else { case.rng.below(4) } {
        0 => c.extend(src),
        1 => c.try_extend(src).map_err(|e| e.to_string())?,
        2 => {
            if case.rng.coin() {
                c.reserve(n);
            } else {
                c.try_reserve(n).map_err(|e| e.to_string())?;
            }
            c.extend(src);
        }
        _ => {
            c.reserve(n);
            c.try_extend(src).map_err(|e| e.to_string())?;
        }
    }
    Ok(())
}

/// Bytes after which no more is appended.
const ENOUGH: i64 = 300_000;

fn rows<C: Coll>(case: &mut Case) -> usize {
    let cost = C::Owned::COST;
    let n = if cfg!(miri) { 60 } else { (6000 / cost).clamp(300, 3000) };
    case.rng.range(n / 2, n)
}

fn judge<C: Coll + Parts>(case: &mut Case, c: &C, grown: u64, what: &str) -> Res {
    let parts = places(c);
    let most = 2 * growths(&parts);
    case.fp(grown);
    parts.iter().for_each(|p| case.fp(p.bytes as u64));
    case.count("growths", grown);
    case.count("rows_appended", Length::len(c) as u64);
    case.nontrivial();
    ensure!(
        grown <= most,
        "{grown} times {what} while reaching {} rows in buffers of {:?} bytes, doubling takes at most {most}",
        Length::len(c),
        parts.iter().map(|p| p.bytes).collect::<Vec<_>>()
    );
    let rows = c.decode(&mut case.obs)?;
    check_all(c, &rows, &mut case.obs).map_err(|e| format!("{} {e}", show(&rows)))
}

fn main() {
    let mut subjects = Vec::new();
    macro_rules! hist {
        ($cases:expr, $t:ty, $clone:expr) => {
            subjects.push(Subject::new(tidy(stringify!($t)), $cases, |case| {
                history::<$t>(case, |items, odd| Rehouse::<VecBuffer>::rehouse(items.into_iter().collect::<$t>(), odd), $clone)
            }));
            subjects.push(Subject::new(format!("growth of {}", tidy(stringify!($t))), ($cases as u64).div_ceil(30), growth::<$t>));
        };
    }
    macro_rules! arr {
        ($t:ty) => {
            hist!(60, Array<$t, VecBuffer>, None);
        };
    }
    macro_rules! asks {
        ($t:ty) => {
            subjects.push(Subject::new(format!("requests of {}", tidy(stringify!($t))), 2, |case| {
                Handle::default().reset();
                let r = asked::<$t>(case);
                set_current(None);
                r
            }));
        };
    }
    macro_rules! fault {
        ($t:ty) => {
            asks!(Array<$t, FaultBuf>);
        };
    }
    vh::all_items!(arr);
    vh::all_items!(fault);
    macro_rules! house {
        ($name:expr, $w:expr, $t:ty, $build:expr) => {
            let build = $build;
            subjects.push(Subject::new(format!("housed {}", $name), (60.0 * $w) as u64, move |c| housed::<$t>(c, build)));
        };
    }
    vh::zoo!(house);
    macro_rules! makes {
        ($t:ty) => {
            subjects.push(Subject::new(format!("made {}", tidy(stringify!($t))), 20, made::<$t>));
        };
    }
    macro_rules! makes_vec {
        ($t:ty) => {
            makes!(Array<$t, VecBuffer>);
        };
    }
    vh::few_items!(makes_vec);
    makes!(Array<i32, BoxBuffer>);
    makes!(Array<u8, BoxBuffer>);
    makes!(Array<FixedSizeArray<u8, 3>, BoxBuffer>);
    makes!(Array<[i32; 3], BoxBuffer>);
    makes!(Box<[u32]>);
    hist!(100, Bitmap, Some(|c| c.clone()));
    hist!(100, Vec<i32>, Some(|c| c.clone()));
    hist!(100, Flatten<Bitmap, 3>, Some(|c| c.clone()));
    hist!(100, Validity<Vec<u16>>, None);
    hist!(100, Validity<Bitmap>, None);
    hist!(100, Validity<Flatten<Bitmap, 3>>, None);
    hist!(100, Offsets<Vec<u8>, i64>, None);
    hist!(100, Offsets<Vec<u16>, i32, VecBuffer, Box<[u16]>>, None);
    hist!(100, Offsets<Validity<Bitmap>, i64>, None);
    hist!(100, Flatten<Validity<Vec<u8>>, 2>, None);
    hist!(100, Flatten<Offsets<Vec<u8>>, 2>, None);
    hist!(100, VariableSizeList<Option<i32>, NonNullable, i64>, None);
    hist!(100, VariableSizeList<Vec<bool>, Nullable, i64>, None);
    hist!(100, VariableSizeBinary<Nullable, i64>, None);
    asks!(Bitmap<FaultBuf>);
    asks!(Validity<FaultVec<u16>, FaultBuf>);
    asks!(Validity<Bitmap<FaultBuf>, FaultBuf>);
    asks!(Offsets<FaultVec<u8>, i64, FaultBuf>);
    asks!(Offsets<Validity<Bitmap<FaultBuf>, FaultBuf>, i64, FaultBuf>);
    asks!(VariableSizeList<Vec<bool>, Nullable, i64, FaultBuf>);
    vh::run::main(Plan {
        id: "C18",
        rule: "a case = a history of appends, repeated equal reservations, truncations and refills, operations that run out of memory at any request, panicking sources, clones and rewrapping on any start, the memory held compared after every operation with what contents and requested room ever needed, ending in a drop or a full or partial consumption after which every byte must be back; or hundreds to thousands of appends of 1-7 rows, counting how often the storage grows (by the global allocator) or is asked for (by the allocator of every buffer) against doubling; or a collection in any storage read, rewrapped and ended; or constructions that succeed, run out of memory or are abandoned by their source, after which every byte must be back; distinct = by start, operations and buffer sizes",
        subjects,
        exhaustive: false,
    });
}
