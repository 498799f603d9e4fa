//! C17: reading asks for no memory.
vh::zoo_uses!();
use narrow::collection::Collection;
use narrow_ffi::Import;
use vh::cdata::{CVal, Imported, Style, dyns, import, produce, Ledger, Dyn};
use vh::coll::{Coll, check_all};
use vh::ensure;
use vh::meter;
use vh::rehouse::{Odd, Rehouse};
use vh::rng::Fp;
use vh::run::{Case, Plan, Res, Subject, forever};
use vh::scan::{Read, Scan, scan};
use vh::storage::{Handle, set_current};
use vh::val::{Dist, Val, fp_all, sample_len, sample_n, sample_small, show, vast_len};

/// Requests of this thread and of the harness's allocators while `f` runs.
fn requests<R>(h: &Handle, f: impl FnOnce() -> R) -> (R, u64) {
    let before = h.requests() + Handle::default().requests();
    meter::arm(0, false);
    let r = f();
    let seen = meter::disarm().requests;
    (r, seen + h.requests() + Handle::default().requests() - before)
}

/// Reads `c` several times over.
fn reads<C: Read>(case: &mut Case, c: &C, items: &[C::Owned], h: &Handle) -> Res {
    let mut want = Fp::default();
    fp_all(items, &mut want);
    let rounds = case.rng.range(1, 4);
    for round in 0..rounds {
        let mut s = Scan::new(case.rng.fork());
        let ((), made) = requests(h, || scan(c, &mut s));
        ensure!(s.fp.0 == want.0, "round {round} reads other rows than {}", show(items));
        ensure!(made == 0, "round {round} of reading {} rows ({} values, walks {:?}) makes {made} storage requests", items.len(), s.reads, s.walks);
        case.count("values_read_without_request", s.reads);
        case.count("null_and_part_queries", s.queries);
        case.count("buffers_read", s.buffers);
        case.count("walks_by_index", s.walks[0]);
        case.count("walks_by_next", s.walks[1]);
        case.count("walks_by_fold", s.walks[2]);
        case.count("walks_by_nth", s.walks[3]);
        case.count("walks_mixed", s.walks[4]);
        case.count("walks_by_many_iterators", s.walks[5]);
    }
    check_all(c, items, &mut case.obs).map_err(|e| format!("after reading: {e}"))
}

fn rows<T: Val>(case: &mut Case) -> Vec<T> {
    let d = Dist::random(&mut case.rng);
    let n = vast_len(&mut case.rng, 400, T::COST).unwrap_or_else(|| sample_len(&mut case.rng, T::COST * 2));
    let items: Vec<T> = sample_n(&mut case.rng, &d, n);
    fp_all(&items, case.fp_mut());
    if n > 0 {
        case.nontrivial();
    }
    items
}

fn subject<C: Read>(case: &mut Case, build: fn(Vec<C::Owned>, &mut Odd) -> C) -> Res {
    let h = Handle::new(1);
    set_current(Some(h.clone()));
    let items: Vec<C::Owned> = rows(case);
    let mut odd = Odd::random(&mut case.rng);
    case.trace(|| format!("{odd:?} rows {}", show(&items)));
    let c = build(items.clone(), &mut odd);
    let r = reads(case, &c, &items, &h);
    drop(c);
    set_current(None);
    r
}

/// Arrays over foreign memory.
fn imported<T>(case: &mut Case) -> Res
where
    T: CVal + narrow::layout::ArrayItem,
    Imported<T>: Import<'static> + Coll<Owned = T> + Read,
{
    let items: Vec<T> = rows(case);
    let l = Ledger::default();
    let st = Style::any(&mut case.rng);
    let some: Vec<Option<Dyn>> = dyns(&items).into_iter().map(Some).collect();
    let mut rng = case.rng.fork();
    let (a, s) = produce(&l, &T::ty(), &some, &st, &mut rng);
    case.trace(|| format!("producer {st:?} of {}", show(&items)));
    let c = unsafe { import::<T>(a, s) }.map_err(|e| format!("well-formed data is refused: {e:?}"))?;
    case.count("imports_read", 1);
    reads(case, &c, &items, &Handle::default())
}

/// Comparing the rows of one collection with lists and with other rows.
fn compared<C: Collection<Owned = Vec<I>>, I: Val + PartialEq, W>(
    case: &mut Case,
    c: &'static C,
    lists: fn(&[I]) -> W,
    eq: fn(C::View<'static>, &W) -> bool,
    between: fn(C::View<'static>, C::View<'static>) -> bool,
    rows: &[Vec<I>],
) -> Res {
    let h = Handle::default();
    let mut others: Vec<Vec<I>> = rows.to_vec();
    for row in others.iter_mut() {
        match case.rng.below(4) {
            0 => drop(row.pop()),
            1 => row.reverse(),
            2 if !row.is_empty() => {
                let i = case.rng.below(row.len());
                row[i] = I::sample(&mut case.rng, &Dist::plain());
            }
            _ => {}
        }
    }
    let made: Vec<W> = others.iter().map(|o| lists(o)).collect();
    for (i, row) in rows.iter().enumerate() {
        for (o, w) in others.iter().zip(&made) {
            let v = c.view(i).ok_or("missing row")?;
            let (got, made) = requests(&h, || eq(v, w));
            ensure!(got == (row == o), "row {row:?} compares {got} with {o:?}");
            ensure!(made == 0, "comparing {row:?} with {o:?} makes {made} storage requests");
            case.count("comparisons_without_request", 1);
        }
        for (j, o) in rows.iter().enumerate() {
            let (v, w) = (c.view(i).ok_or("missing row")?, c.view(j).ok_or("missing row")?);
            let (got, made) = requests(&h, || between(v, w));
            ensure!(got == (row == o), "row {row:?} compares {got} with the row {o:?}");
            ensure!(made == 0, "comparing the rows {row:?} and {o:?} makes {made} storage requests");
            case.count("row_comparisons_without_request", 1);
        }
    }
    Ok(())
}

fn lists<I: Val>(case: &mut Case) -> Vec<Vec<I>> {
    let mut d = Dist::random(&mut case.rng);
    if case.rng.coin() {
        d.special = 1.0;
    }
    let n = sample_small(&mut case.rng).clamp(1, 9);
    let mut rows: Vec<Vec<I>> = sample_n(&mut case.rng, &d, n);
    let again = case.rng.pick(&rows).clone();
    rows.push(again);
    fp_all(&rows, case.fp_mut());
    case.nontrivial();
    rows
}

fn main() {
    let mut subjects = Vec::new();
    macro_rules! sub {
        ($name:expr, $w:expr, $t:ty, $build:expr) => {
            let build = $build;
            subjects.push(Subject::new($name, (100.0 * $w) as u64, move |c| subject::<$t>(c, build)));
        };
    }
    vh::zoo!(sub);
    macro_rules! ffi {
        ($t:ty) => {
            subjects.push(Subject::new(format!("imported {}", vh::items::tidy(stringify!($t))), 60, imported::<$t>));
        };
    }
    vh::ffi_items!(ffi);
    macro_rules! eqs {
        ($item:ty, $o:ty, $t:ty, [$($other:ty),*]) => { $(
            subjects.push(Subject::new(format!("{} {} rows against {}", vh::items::tidy(stringify!($t)), stringify!($o), vh::items::tidy(stringify!($other))), 60, |case| {
                let rows: Vec<Vec<$item>> = lists(case);
                let mut odd = Odd::random(&mut case.rng);
                let c: Offsets<$t, $o, VecBuffer> = Rehouse::<VecBuffer>::rehouse(rows.iter().cloned().collect::<Offsets<$t, $o, VecBuffer>>(), &mut odd);
                compared::<_, $item, $other>(
                    case,
                    forever(c),
                    |l| l.iter().cloned().collect::<Vec<$item>>().into_iter().collect(),
                    |v, w| <_ as PartialEq<$other>>::eq(&v, w),
                    |v, w| <_ as PartialEq<narrow::offset::OffsetView<'static, $t, $o, VecBuffer, Vec<$item>>>>::eq(&v, &w),
                    &rows,
                )
            }));
        )* };
    }
    eqs!(i32, i32, Vec<i32>, [Vec<i32>, Box<[i32]>]);
    eqs!(f64, i64, Vec<f64>, [Vec<f64>]);
    eqs!(i64, i32, FixedSizePrimitive<i64, NonNullable, VecBuffer>, [Vec<i64>, FixedSizePrimitive<i64, NonNullable, VecBuffer>]);
    eqs!(bool, i64, Bitmap, [Bitmap, Vec<bool>]);
    eqs!(Option<i32>, i32, Validity<Vec<i32>>, [Validity<Vec<i32>>, Vec<Option<i32>>]);
    eqs!(Option<bool>, i64, Validity<Bitmap>, [Validity<Bitmap>, Boolean<Nullable, VecBuffer>]);
    vh::run::main(Plan {
        id: "C17",
        rule: "a case = a collection over any storage with legal physical oddities (bit offsets, garbage, unreferenced data, omitted validity) or an array imported from a foreign producer, read completely 1-4 times (length, every row and nested row by index, next, fold, nth and mixtures, counts, skips past the end, null queries, buffers) while all storage requests of the thread and of every buffer's allocator are counted and the rows are fingerprinted in place; or list rows compared with lists and rows that are equal, shorter, reversed or different; then all contents are compared again; non-trivial = at least one row; distinct = by rows",
        subjects,
        exhaustive: false,
    });
}
