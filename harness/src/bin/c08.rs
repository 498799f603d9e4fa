//! C08: null accounting is exact.
vh::zoo_uses!();
use narrow::bitmap::ValidityBitmap;
use narrow::buffer::BufferRef;
use narrow::collection::CollectionRealloc;
use vh::coll::{Coll, check_nulls};
use vh::rehouse::{Odd, Rehouse, pack};
use vh::run::{Case, Plan, Res, Subject};
use vh::storage::{FaultBuf, House};
use vh::val::{Dist, Val, fp_all, sample_len, sample_n, show, vast_len};

/// Nested validities anywhere in the collection.
fn nested<C: Coll>(case: &mut Case, build: fn(Vec<C::Owned>, &mut Odd) -> C) -> Res {
    let d = Dist::random(&mut case.rng);
    let n = sample_len(&mut case.rng, C::Owned::COST * 3);
    let items: Vec<C::Owned> = sample_n(&mut case.rng, &d, n);
    fp_all(&items, case.fp_mut());
    let mut odd = Odd::random(&mut case.rng);
    case.trace(|| format!("{odd:?} items {}", show(&items)));
    let c = build(items, &mut odd);
    case.nontrivial();
    c.audit(&mut case.obs)
}

fn flags(case: &mut Case) -> Vec<bool> {
    let n = match vast_len(&mut case.rng, 300, 1).map_or_else(|| case.rng.below(4), |n| n) {
        n @ 4.. => n,
        0 => case.rng.below(20),
        1 => sample_len(&mut case.rng, 1),
        _ => case.rng.below(200),
    };
    let p = *case.rng.pick(&[0.0, 0.02, 0.5, 0.5, 0.98, 1.0]);
    (0..n).map(|_| case.rng.chance(p)).collect()
}

/// One validity over any storage with any bit offset and garbage around it.
fn raw<S: House>(case: &mut Case) -> Res {
    let nulls = flags(case);
    let n = nulls.len();
    let offset = case.rng.below(40);
    let spare = case.rng.below(4);
    let valid: Vec<bool> = nulls.iter().map(|x| !x).collect();
    let bytes = pack(&valid, offset, spare, Some(&mut case.rng.fork()));
    fp_all(&nulls, case.fp_mut());
    case.fp(offset as u64);
    case.nontrivial();
    case.trace(|| format!("bit offset {offset}, nulls {}", show(&nulls)));
    let bitmap = Bitmap::<S>::try_from_parts(S::house(bytes), n, offset).map_err(|e| e.to_string())?;
    let v = match Validity::try_from_parts(S::house(vec![7u8; n]), bitmap) {
        Ok(v) => v,
        Err(e) => return Err(e.to_string()),
    };
    check_nulls(&v, &nulls, &mut case.obs)?;
    let v = Validity::<S::For<u8>, S>::from_collection(S::house(vec![7u8; n]));
    check_nulls(&v, &vec![false; n], &mut case.obs)
}

/// Accounting along a history of mutations, including the layouts' own
/// validity queries.
fn moving<T>(case: &mut Case) -> Res
where
    Array<Option<T>, VecBuffer>: Coll<Owned = Option<T>>
        + CollectionRealloc
        + FromIterator<Option<T>>
        + Rehouse<VecBuffer, Out = Array<Option<T>, VecBuffer>>
        + BufferRef,
    Option<T>: narrow::layout::ArrayItem,
    T: Val,
    <Array<Option<T>, VecBuffer> as BufferRef>::Buffer: BufferRef,
    <<Array<Option<T>, VecBuffer> as BufferRef>::Buffer as BufferRef>::Buffer: ValidityBitmap,
{
    let d = Dist::random(&mut case.rng);
    let n = case.rng.below(40);
    let mut model: Vec<Option<T>> = sample_n(&mut case.rng, &d, n);
    let mut odd = Odd::random(&mut case.rng);
    let mut c = model.iter().cloned().collect::<Array<Option<T>, VecBuffer>>().rehouse(&mut odd);
    for _ in 0..case.rng.range(2, 8) {
        match case.rng.below(4) {
            0 | 1 => {
                let d = Dist::random(&mut case.rng);
                let k = case.rng.below(30);
                let more: Vec<Option<T>> = sample_n(&mut case.rng, &d, k);
                c.extend(more.iter().cloned());
                model.extend(more);
            }
            2 => {
                let k = case.rng.below(model.len() + 3);
                CollectionRealloc::truncate(&mut c, k);
                model.truncate(k);
            }
            _ => CollectionRealloc::reserve(&mut c, 9),
        }
        fp_all(&model, case.fp_mut());
        case.trace(|| format!("rows {}", show(&model)));
        let nulls: Vec<bool> = model.iter().map(Option::is_none).collect();
        check_nulls(c.buffer_ref().buffer_ref(), &nulls, &mut case.obs)?;
        case.nontrivial();
    }
    c.audit(&mut case.obs)
}

/// Many rows counted again and again while the memory under them changes:
/// collections rewritten in place, and windows rebuilt over one allocation.
fn reused(case: &mut Case) -> Res {
    let n = if cfg!(miri) { case.rng.range(1, 40) } else { *case.rng.pick(&[64, 512, 1000, 4095, 4096, 4097, 5000, 8192, 20_000, 65_536]) };
    let flags = |rng: &mut vh::rng::Rng| -> Vec<bool> {
        let p = *rng.pick(&[0.0, 0.01, 0.5, 0.99, 1.0]);
        (0..n).map(|_| rng.chance(p)).collect()
    };
    let offset = case.rng.below(20);
    let mut memory = vec![0u8; (n + offset).div_ceil(8)];
    let mut nulls = flags(&mut case.rng);
    let items = |nulls: &[bool]| nulls.iter().map(|x| (!x).then_some(7u8)).collect::<Vec<_>>();
    let mut c: Array<Option<u8>, VecBuffer> = items(&nulls).into_iter().collect();
    fp_all(&nulls, case.fp_mut());
    for round in 0..case.rng.range(2, 5) {
        let obs = &mut case.obs;
        check_nulls(c.buffer_ref().buffer_ref(), &nulls, obs).map_err(|e| format!("round {round} of {n}: {e}"))?;
        // The tail is replaced without moving the buffer.
        let keep = *case.rng.pick(&[0, 1, n / 2, n - 1, n]);
        CollectionRealloc::truncate(&mut c, keep);
        nulls.truncate(keep);
        let more = flags(&mut case.rng);
        nulls.extend(&more[keep..]);
        c.extend(items(&more[keep..]));
        check_nulls(c.buffer_ref().buffer_ref(), &nulls, &mut case.obs).map_err(|e| format!("round {round} of {n}, rewritten from {keep}: {e}"))?;
        // A window over memory that held other bits before.
        let valid: Vec<bool> = nulls.iter().map(|x| !x).collect();
        memory.copy_from_slice(&pack(&valid, offset, 0, None));
        let bitmap = Bitmap::<SliceBuffer<'_>>::try_from_parts(&memory[..], n, offset).map_err(|e| e.to_string())?;
        let rows = vec![3u8; n];
        let v: Validity<&[u8], SliceBuffer<'_>> = Validity::try_from_parts(&rows[..], bitmap).map_err(|e| e.to_string())?;
        check_nulls(&v, &nulls, &mut case.obs).map_err(|e| format!("round {round} of {n} over reused memory: {e}"))?;
        // A new collection, likely where the old one was.
        if case.rng.coin() {
            drop(c);
            nulls = flags(&mut case.rng);
            c = items(&nulls).into_iter().collect();
        }
        fp_all(&nulls, case.fp_mut());
        case.trace(|| format!("kept {keep} of {n}"));
    }
    case.nontrivial();
    Ok(())
}

fn main() {
    let mut subjects = Vec::new();
    macro_rules! sub {
        ($name:expr, $w:expr, $t:ty, $build:expr) => {
            let build = $build;
            if $name.contains("Option") || $name.contains("Validity") || $name.contains("Nullable") {
                subjects.push(Subject::new($name, (60.0 * $w) as u64, move |c| nested::<$t>(c, build)));
            }
        };
    }
    vh::zoo!(sub);
    subjects.push(Subject::new("raw vec", 600, raw::<VecBuffer>));
    subjects.push(Subject::new("raw box", 600, raw::<BoxBuffer>));
    subjects.push(Subject::new("raw rc", 200, raw::<RcBuffer>));
    subjects.push(Subject::new("raw arc", 200, raw::<ArcBuffer>));
    subjects.push(Subject::new("raw slice", 200, raw::<SliceBuffer<'static>>));
    subjects.push(Subject::new("raw fault", 200, raw::<FaultBuf>));
    subjects.push(Subject::new("reused memory", 150, reused));
    subjects.push(Subject::new("moving u8", 300, moving::<u8>));
    subjects.push(Subject::new("moving bool", 300, moving::<bool>));
    subjects.push(Subject::new("moving list", 200, moving::<Vec<Option<u8>>>));
    subjects.push(Subject::new("moving fixed list", 200, moving::<[Option<bool>; 3]>));
    vh::run::main(Plan {
        id: "C08",
        rule: "a case = nullable data with explicit validity at any bit offset with garbage around it, or omitted validity, at any nesting level and along mutation histories; null_count, valid_count, any/all null/valid, is_null and is_valid at every index are compared with the decoded rows; distinct = by items, offsets and operations",
        subjects,
        exhaustive: false,
    });
}
