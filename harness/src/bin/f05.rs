//! F05: import accepts well-formed data and rejects every malformed description.
use narrow::array::Array;
use narrow::buffer::SliceBuffer;
use narrow::layout::ArrayItem;
use narrow_ffi::Import;
use vh::cdata::*;
use vh::coll::Coll;
use vh::consumer::{self};
use vh::corrupt::damage;
use vh::identity::Parts;
use vh::run::{Case, Plan, Res, Subject};
use vh::val::{Dist, fp_all, sample_n, show};
use vh::{ensure, programs::rows_len};

fn rows<T>(a: *const CArray, s: *const CSchema) -> Res<Result<Vec<Dyn>, narrow_ffi::ImportError>>
where
    T: CVal + ArrayItem,
    Imported<T>: Import<'static> + Coll<Owned = T>,
{
    use narrow::collection::Collection;
    Ok(vh::run::caught(|| unsafe { import::<T>(a, s) })
        .map_err(|e| format!("import panics: {e}"))?
        .map(|got| got.into_iter_owned().map(|v| v.to_dyn()).collect()))
}

fn subject<T>(case: &mut Case) -> Res
where
    T: CVal + ArrayItem,
    Array<T, SliceBuffer<'static>>: Import<'static> + Coll<Owned = T> + Parts,
{
    let ty = T::ty();
    let d = Dist::random(&mut case.rng);
    let n = rows_len(&mut case.rng, T::COST);
    let items: Vec<T> = sample_n(&mut case.rng, &d, n);
    fp_all(&items, case.fp_mut());
    let st = Style::any(&mut case.rng);
    let want = dyns(&items);
    let l = Ledger::default();
    let mut rng = case.rng.fork();
    let some: Vec<Option<Dyn>> = want.iter().cloned().map(Some).collect();
    let (a, s) = produce(&l, &ty, &some, &st, &mut rng);
    case.trace(|| format!("producer {st:?} of {}", show(&items)));
    let deep = !cfg!(miri) && case.rng.below(3) == 0;
    // Well-formed, as laid out by the producer.
    if let Some(e) = consumer::probe::<T>(a, s, &want, &mut || {}, &mut case.obs, deep)? {
        return Err(format!("well-formed data is refused: {e:?}"));
    }
    case.count("well_formed_accepted", 1);
    // One or several defects.
    let wanted = *case.rng.pick(&[1, 1, 1, 1, 1, 2, 3]);
    let mut done = Vec::new();
    for _ in 0..40 {
        if done.len() == wanted {
            break;
        }
        let all = reachable(&ty, a, s);
        let k = case.rng.below(all.len());
        let (t, na, ns) = &all[k];
        if let Some(what) = unsafe { damage(&l, t, *na, *ns, &mut rng) } {
            case.fp(vh::rng::hash_str(&what));
            done.push(format!("level {k}: {what}"));
        }
    }
    case.trace(|| format!("damage {done:?}"));
    let mut defects = Vec::new();
    unsafe { judge(&ty, &*a, &*s, &mut defects) };
    let before = l.snapshot();
    let got = rows::<T>(a, s).map_err(|e| format!("after {done:?}: {e}"))?;
    ensure!(l.snapshot() == before, "after {done:?}: import changes the producer's structures");
    ensure!(l.owners().iter().all(|o| o.released.get() == 0), "after {done:?}: import releases something");
    match got {
        Err(e) => {
            ensure!(defects.contains(&e), "after {done:?}: refused with {e:?}, expected {defects:?}");
            let text = e.to_string();
            ensure!(!text.is_empty(), "{e:?} has no message");
            case.count(kind_of(&e), 1);
            if done.iter().any(|d| !d.starts_with("level 0")) {
                case.count("refused_for_a_nested_defect", 1);
            }
        }
        Ok(rows) => {
            ensure!(defects.is_empty(), "after {done:?}: accepted despite {defects:?}");
            let now = unsafe { read_all(&ty, &*a) };
            ensure!(rows == now, "after {done:?}: presents {rows:?}, the producer's rows are {now:?}");
            case.count("harmless_changes_accepted", 1);
        }
    }
    case.nontrivial();
    Ok(())
}

/// Lists of width zero are outside the supported subset, at every level.
fn zero_width(case: &mut Case) -> Res {
    let l = Ledger::default();
    let mut rng = case.rng.fork();
    let st = Style::any(&mut rng);
    let n = case.rng.below(5);
    case.fp(n as u64);
    let empty = || Some(Dyn::List(Vec::new()));
    macro_rules! refuse {
        ($t:ty, $row:expr) => {{
            let (a, s) = produce(&l, &<$t>::ty(), &vec![$row; n], &st, &mut rng);
            let got = vh::run::caught(|| unsafe { import::<$t>(a, s) }.err()).map_err(|e| format!("import of {} panics: {e}", stringify!($t)))?;
            ensure!(got == Some(narrow_ffi::ImportError::UnsupportedFixedSizeListSize { size: 0 }), "{} x {n} gives {got:?}", stringify!($t));
        }};
    }
    refuse!([u8; 0], empty());
    refuse!(Option<[bool; 0]>, empty());
    refuse!(Vec<[i32; 0]>, empty());
    refuse!([[i64; 0]; 2], Some(Dyn::List(vec![Dyn::List(Vec::new()), Dyn::List(Vec::new())])));
    refuse!([Vec<u8>; 0], empty());
    case.count("refused_zero_width", 5);
    case.nontrivial();
    Ok(())
}

/// Nodes that can still be found by following the structures.
fn reachable(ty: &Ty, a: *mut CArray, s: *mut CSchema) -> Vec<(Ty, *mut CArray, *mut CSchema)> {
    let mut out = vec![(ty.clone(), a, s)];
    unsafe {
        if let Some(c) = ty.child() {
            if !(*a).children.is_null() && !(*s).children.is_null() {
                let (ca, cs) = (child(&*a), child_schema(&*s));
                if !ca.is_null() && !cs.is_null() {
                    out.extend(reachable(c, ca, cs));
                }
            }
        }
    }
    out
}

fn kind_of(e: &narrow_ffi::ImportError) -> &'static str {
    use narrow_ffi::ImportError::*;
    match e {
        ReleasedArray => "refused_released_array",
        ReleasedSchema => "refused_released_schema",
        MissingFormat => "refused_missing_format",
        UnexpectedFormat => "refused_format",
        UnexpectedFlags { .. } => "refused_flags",
        InvalidLength { .. } => "refused_length",
        NonZeroOffset { .. } => "refused_offset",
        UnexpectedNullCount { .. } => "refused_null_count",
        MissingValidityBuffer => "refused_missing_validity",
        NullCountMismatch { .. } => "refused_null_count_mismatch",
        UnexpectedBufferCount { .. } => "refused_buffer_count",
        UnexpectedChildCount { .. } => "refused_child_count",
        UnexpectedDictionary => "refused_dictionary",
        MissingBufferPointers => "refused_missing_buffers",
        MissingArrayChildren => "refused_missing_children",
        MissingSchemaChildren => "refused_missing_child_schemas",
        UnsupportedFixedSizeListSize { .. } => "refused_zero_width",
        FixedSizeListLengthMismatch { .. } => "refused_child_length",
        MissingOffsetsBuffer => "refused_missing_offsets",
        MisalignedOffsetsBuffer { .. } => "refused_misaligned_offsets",
        InvalidOffsets { .. } => "refused_offsets",
        MissingValuesBuffer => "refused_missing_values",
        MisalignedValuesBuffer { .. } => "refused_misaligned_values",
        _ => "refused_otherwise",
    }
}

fn main() {
    let mut subjects = Vec::new();
    macro_rules! sub {
        ($t:ty) => {
            subjects.push(Subject::new(format!("import as {}", vh::items::tidy(stringify!($t))), 200, subject::<$t>));
        };
    }
    if cfg!(miri) {
        vh::ffi_few!(sub);
    } else {
        vh::ffi_items!(sub);
    }
    subjects.push(Subject::new("zero width", 10, zero_width));
    vh::run::main(Plan {
        id: "F05",
        rule: "a case = random rows laid out by an independent producer (omitted or present validity, computed or unknown null counts, garbage padding, spare bytes, unreferenced child rows, lists under nulls, names, metadata, unrelated flags, minimal alignment, dangling pointers for empty data), imported and read; then 1-3 damages to random fields at random levels, judged by an oracle listing every defect present; non-trivial = damaged and judged; distinct = by rows and damage",
        subjects,
        exhaustive: false,
    });
}
