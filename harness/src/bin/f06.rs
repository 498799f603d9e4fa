//! F06: imported nulls are exactly those the producer declared.
use narrow::bitmap::ValidityBitmap;
use narrow::array::Array;
use narrow::buffer::{Buffer, BufferRef};
use narrow::fixed_size::FixedSize;
use narrow::layout::ArrayItem;
use narrow::layout::boolean::Boolean;
use narrow::layout::fixed_size_list::FixedSizeList;
use narrow::layout::fixed_size_primitive::FixedSizePrimitive;
use narrow::layout::variable_size_list::VariableSizeList;
use narrow::nullability::Nullable;
use narrow::offset::Offset;
use narrow_ffi::{Import, ImportError};
use vh::cdata::*;
use vh::coll::Coll;
use vh::consumer;
use vh::ensure;
use vh::identity::Parts;
use vh::programs::rows_len;
use vh::rng::Rng;
use vh::run::{Case, Plan, Res, Subject, caught};

/// How one level presents its nulls.
#[derive(Clone, Debug)]
struct Plot {
    declared: i64,
    omitted: bool,
}

/// Random validity for every level, with rows that agree with it.
fn redeclare(ty: &Ty, a: *mut CArray, rng: &mut Rng, wild: &mut bool) -> Plot {
    let a = unsafe { &mut *a };
    let n = a.length;
    let nulls = if ty.nullable && n > 0 && !unsafe { a.buffers.read() }.is_null() {
        let p = unsafe { a.buffers.read() }.cast::<u8>();
        (0..n as usize).filter(|i| unsafe { p.add(i / 8).read() } >> (i % 8) & 1 == 0).count() as i64
    } else {
        0
    };
    if *wild || rng.below(3) > 0 {
        a.null_count = *rng.pick(&[nulls, nulls, -1]);
        if a.null_count == -1 && n > 0 && unsafe { a.buffers.read() }.is_null() {
            a.null_count = 0;
        }
    } else {
        // Anything, once per tree.
        *wild = true;
        a.null_count = match rng.below(5) {
            0 => nulls + 1,
            1 => nulls - 1,
            2 => n + 1,
            3 => rng.below(n as usize + 3) as i64 - 2,
            _ => -2,
        };
        if rng.below(3) == 0 {
            unsafe { a.buffers.write(std::ptr::null()) };
        }
    }
    Plot { declared: a.null_count, omitted: unsafe { a.buffers.read() }.is_null() }
}

/// Random validity patterns, including the sparse and the nearly full.
fn pattern(rng: &mut Rng, n: usize) -> Vec<bool> {
    let mut v = match rng.below(5) {
        0 => vec![true; n],
        1 => vec![false; n],
        2 => (0..n).map(|_| rng.coin()).collect(),
        3 => (0..n).map(|i| i % 2 == 0).collect(),
        _ => (0..n).map(|_| rng.chance(0.05)).collect(),
    };
    if n > 0 && rng.coin() {
        // The edges of bytes are where mistakes hide.
        let i = *rng.pick(&[0, n - 1, n / 8 * 8, (n / 8 * 8).saturating_sub(1)]);
        if i < n {
            v[i] = !v[i];
        }
    }
    v
}

/// The validity behind the layouts of an array.
trait HasValidity {
    fn validity(&self) -> &impl ValidityBitmap;
}
macro_rules! has {
    ($([$($g:tt)*] $t:ty);* $(;)?) => { $(
        impl<$($g)*> HasValidity for $t {
            fn validity(&self) -> &impl ValidityBitmap { self.buffer_ref() }
        }
    )* };
}
has! {
    [S: Buffer] Boolean<Nullable, S>;
    [T: FixedSize, S: Buffer] FixedSizePrimitive<T, Nullable, S>;
    [T: ArrayItem, const N: usize, S: Buffer] FixedSizeList<T, N, Nullable, S>;
    [T: ArrayItem, O: Offset, S: Buffer] VariableSizeList<T, Nullable, O, S>;
}
impl<T: ArrayItem, S: Buffer> HasValidity for Array<T, S> where T::Memory<S>: HasValidity {
    fn validity(&self) -> &impl ValidityBitmap { self.buffer_ref().validity() }
}

fn subject<T>(case: &mut Case) -> Res
where
    T: CVal + ArrayItem,
    Option<T>: CVal + ArrayItem,
    Imported<Option<T>>: Import<'static> + Coll<Owned = Option<T>> + Parts + HasValidity,
{
    let ty = <Option<T>>::ty();
    let n = if cfg!(miri) { case.rng.below(18) } else { *case.rng.pick(&[0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 33, 63, 64, 65, 100, 129]) };
    let n = vh::val::vast_len(&mut case.rng, 1500, T::COST).unwrap_or(n);
    let n = if T::COST <= 4 && case.rng.below(150) == 0 { rows_len(&mut case.rng, T::COST) } else { n };
    let ok = pattern(&mut case.rng, n);
    let d = vh::val::Dist { list_max: 3, ..vh::val::Dist::random(&mut case.rng) };
    let items: Vec<Option<T>> = ok.iter().map(|ok| ok.then(|| T::sample(&mut case.rng, &d))).collect();
    let mut rng = case.rng.fork();
    let st = Style { omit: *rng.pick(&[0.0, 0.5, 1.0]), ..Style::any(&mut rng) };
    let l = Ledger::default();
    let want = dyns(&items);
    let some: Vec<Option<Dyn>> = want.iter().cloned().map(Some).collect();
    let (a, s) = produce(&l, &ty, &some, &st, &mut rng);
    let mut wild = rng.below(3) == 0;
    let mut plots = Vec::new();
    let mut all = unsafe { nodes(&ty, a, s) };
    if rng.coin() {
        all.reverse();
    }
    for (t, na, _) in all {
        plots.push(redeclare(&t, na, &mut rng, &mut wild));
    }
    case.trace(|| format!("valid {ok:?} declared {plots:?}"));
    for (p, b) in plots.iter().zip(&ok) {
        case.fp((p.declared as u64) << 2 | u64::from(p.omitted) << 1 | u64::from(*b));
    }
    vh::val::fp_all(&items, case.fp_mut());
    let mut defects = Vec::new();
    unsafe { judge(&ty, &*a, &*s, &mut defects) };
    let got = caught(|| unsafe { import::<Option<T>>(a, s) }).map_err(|e| format!("{plots:?}: import panics: {e}"))?;
    match got {
        Err(e) => {
            ensure!(defects.contains(&e), "{plots:?} of {n} rows: refused with {e:?}, expected {defects:?}");
            let key = match e {
                ImportError::UnexpectedNullCount { .. } => "refused_null_count",
                ImportError::NullCountMismatch { .. } => "refused_mismatch",
                ImportError::MissingValidityBuffer => "refused_missing_bits",
                e => return Err(format!("{plots:?}: refused with {e:?}")),
            };
            case.count(key, 1);
            case.nontrivial();
        }
        Ok(got) => {
            ensure!(defects.is_empty(), "{plots:?} of {n} rows: accepted despite {defects:?}");
            let top = unsafe { (*(*a).buffers).is_null() };
            let valid: Vec<bool> = (0..n).map(|i| top || ok[i]).collect();
            let bits = got.validity();
            for (i, v) in valid.iter().enumerate() {
                ensure!(ValidityBitmap::is_valid(bits, i) == Some(*v), "row {i} of {n}: is_valid is {:?}, declared {v}", ValidityBitmap::is_valid(bits, i));
                ensure!(ValidityBitmap::is_null(bits, i) == Some(!*v), "row {i} of {n}: is_null is {:?}, declared {v}", ValidityBitmap::is_null(bits, i));
            }
            let nulls = valid.iter().filter(|v| !**v).count();
            ensure!(ValidityBitmap::null_count(bits) == nulls, "null_count is {} of {nulls}", ValidityBitmap::null_count(bits));
            ensure!(ValidityBitmap::any_null(bits) == (nulls > 0), "any_null is wrong with {nulls} nulls");
            ensure!(ValidityBitmap::valid_count(bits) == n - nulls, "valid_count is {} of {}", ValidityBitmap::valid_count(bits), n - nulls);
            drop(got);
            let rows = unsafe { read_all(&ty, &*a) };
            if let Some(e) = consumer::probe::<Option<T>>(a, s, &rows, &mut || {}, &mut case.obs, !cfg!(miri))? {
                return Err(format!("a second import is refused: {e:?}"));
            }
            case.count("accepted_with_nulls_checked", 1);
            if n > 0 {
                case.nontrivial();
            }
        }
    }
    Ok(())
}

/// Imports whose validity lies in one piece of memory that its producer
/// writes again once the previous import was released.
fn reused(case: &mut Case) -> Res {
    let n = if cfg!(miri) { case.rng.range(1, 20) } else { *case.rng.pick(&[8, 64, 1000, 4095, 4096, 4097, 5000, 8192, 20_000]) };
    let l = Ledger::default();
    let st = Style { omit: 0.0, uncounted: 0.0, spare: 1.0, extra: 0.0, decorated: 0.0, tight: 1.0, bare: 1.0 };
    let mut memory = vec![0u8; n.div_ceil(8)];
    let ty = <Option<u8>>::ty();
    for round in 0..case.rng.range(2, 5) {
        let ok = pattern(&mut case.rng, n);
        vh::val::fp_all(&ok, case.fp_mut());
        let items: Vec<Option<u8>> = ok.iter().map(|ok| ok.then_some(round as u8)).collect();
        let rows: Vec<Option<Dyn>> = dyns(&items).into_iter().map(Some).collect();
        let (a, s) = produce(&l, &ty, &rows, &st, &mut case.rng.fork());
        memory.fill(0);
        for (i, ok) in ok.iter().enumerate() {
            memory[i / 8] |= u8::from(*ok) << (i % 8);
        }
        let nulls = ok.iter().filter(|v| !**v).count();
        let declared = *case.rng.pick(&[nulls as i64, nulls as i64, -1, nulls as i64 + 1, 0]);
        unsafe {
            (*a).buffers.write(memory.as_ptr().cast());
            (*a).null_count = declared;
        }
        let want = if declared > n as i64 {
            Some(ImportError::UnexpectedNullCount { null_count: declared })
        } else if declared >= 0 && declared != nulls as i64 {
            Some(ImportError::NullCountMismatch { declared, actual: nulls })
        } else {
            None
        };
        let what = format!("round {round} of {n} rows, {nulls} null, declared {declared}");
        case.trace(|| what.clone());
        match unsafe { import::<Option<u8>>(a, s) } {
            Ok(got) => {
                ensure!(want.is_none(), "{what}: accepted");
                let bits = got.validity();
                ensure!(ValidityBitmap::null_count(bits) == nulls, "{what}: null_count is {}", ValidityBitmap::null_count(bits));
                ensure!(ValidityBitmap::valid_count(bits) == n - nulls, "{what}: valid_count is {}", ValidityBitmap::valid_count(bits));
                ensure!(ValidityBitmap::any_null(bits) == (nulls > 0), "{what}: any_null is wrong");
                ensure!(ValidityBitmap::all_null(bits) == (nulls == n), "{what}: all_null is wrong");
                for (i, v) in ok.iter().enumerate() {
                    ensure!(ValidityBitmap::is_valid(bits, i) == Some(*v), "{what}: row {i} is wrong");
                }
                case.count("accepted_over_reused_memory", 1);
            }
            Err(e) => {
                ensure!(Some(&e) == want.as_ref(), "{what}: refused with {e:?}, expected {want:?}");
                case.count("refused_over_reused_memory", 1);
            }
        }
    }
    case.nontrivial();
    Ok(())
}

/// Every pattern of up to 5 rows with every declared count, bits present or not.
fn every_count(case: &mut Case) -> Res {
    let l = Ledger::default();
    let mut rng = Rng::new(5);
    let n = (case.idx % 6) as usize;
    let st = Style { omit: 0.0, uncounted: 0.0, spare: 1.0, extra: 0.0, decorated: 0.0, tight: 1.0, bare: 1.0 };
    for bits in 0..1_u32 << n {
        let items: Vec<Option<u16>> = (0..n).map(|i| (bits >> i & 1 == 1).then_some(i as u16 + 9)).collect();
        let rows: Vec<Option<Dyn>> = dyns(&items).into_iter().map(Some).collect();
        for declared in -3..=n as i64 + 2 {
            for omitted in [false, true] {
                let (a, s) = produce(&l, &<Option<u16>>::ty(), &rows, &st, &mut rng);
                unsafe {
                    (*a).null_count = declared;
                    if omitted {
                        (*a).buffers.write(std::ptr::null());
                    }
                }
                let nulls = items.iter().filter(|v| v.is_none()).count() as i64;
                let want = if declared < -1 || declared > n as i64 {
                    Some(ImportError::UnexpectedNullCount { null_count: declared })
                } else if omitted && n > 0 {
                    (declared != 0).then_some(ImportError::MissingValidityBuffer)
                } else if declared >= 0 && n > 0 && declared != nulls {
                    Some(ImportError::NullCountMismatch { declared, actual: nulls as usize })
                } else {
                    None
                };
                let got = caught(|| unsafe { import::<Option<u16>>(a, s) }.err()).map_err(|e| format!("import panics: {e}"))?;
                ensure!(got == want, "{items:?} declared {declared}, omitted {omitted}: {got:?} instead of {want:?}");
                case.count("exhaustive_declarations", 1);
                // The same rows as a non-nullable field.
                let flat: Vec<Option<Dyn>> = (0..n).map(|i| Some(9_u16.wrapping_add(i as u16).to_dyn())).collect();
                let (a, s) = produce(&l, &u16::ty(), &flat, &st, &mut rng);
                unsafe { (*a).null_count = declared };
                let want = (declared != 0 && declared != -1).then_some(ImportError::UnexpectedNullCount { null_count: declared });
                let got = caught(|| unsafe { import::<u16>(a, s) }.err()).map_err(|e| format!("import panics: {e}"))?;
                ensure!(got == want, "non-nullable of {n} declared {declared}: {got:?} instead of {want:?}");
            }
        }
    }
    case.fp(n as u64);
    case.nontrivial();
    Ok(())
}

fn main() {
    let mut subjects = Vec::new();
    macro_rules! sub {
        ($($t:ty),* $(,)?) => { $(
            subjects.push(Subject::new(format!("nulls of {}", vh::items::tidy(stringify!($t))), 200, subject::<$t>));
        )* };
    }
    sub!(bool, i32, u8, f64, Vec<u8>, [bool; 3], [Option<u8>; 2], Vec<Option<i32>>, Vec<Option<Vec<Option<bool>>>>);
    sub!([Option<Vec<Option<i64>>>; 3], [Option<[Option<bool>; 3]>; 2], Vec<Vec<Option<u8>>>, [i32; 4], Vec<[Option<bool>; 2]>);
    subjects.push(Subject::new("reused memory", 150, reused));
    subjects.push(Subject::new("every count", 6, every_count));
    vh::run::main(Plan {
        id: "F06",
        rule: "a case = rows whose validity follows a pattern (none, all, alternating, sparse, flipped at byte edges) laid out by an independent producer, null counts declared at every level as exact, unknown or wrong, bits present or omitted; also every pattern of up to 5 rows with every declared count; judged by an oracle and read back through validity accessors and views; non-trivial = refused, or accepted with rows; distinct = by rows and declarations",
        subjects,
        exhaustive: false,
    });
}
