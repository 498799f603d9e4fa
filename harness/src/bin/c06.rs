//! C06: raw parts are accepted exactly when valid and returned untouched.
vh::zoo_uses!();
use narrow::bitmap::BitmapError;
use narrow::collection::Collection;
use narrow::collection::flatten::FlattenError;
use narrow::length::Length;
use narrow::offset::{Offset, OffsetsError};
use narrow::validity::ValidityError;
use std::fmt::Debug;
use vh::coll::{Coll, check_all};
use vh::ensure;
use vh::identity::{Parts, places};
use vh::rehouse::{Odd, pack};
use vh::run::{Case, Plan, Res, Subject};
use vh::storage::House;
use vh::val::{Dist, Val, fp_all, sample_len, sample_n, show};
use vh::virt::Virt;

/// Exact agreement of an answer with the specification.
fn agree<T, E: PartialEq + Debug>(got: Result<T, E>, want: Result<(), E>, what: impl Fn() -> String) -> Res<Option<T>> {
    match (got, want) {
        (Ok(v), Ok(())) => Ok(Some(v)),
        (Err(a), Err(b)) if a == b => Ok(None),
        (Ok(_), Err(e)) => Err(format!("{}: accepted, expected {e:?}", what())),
        (Err(e), Ok(())) => Err(format!("{}: rejected with {e:?}, expected acceptance", what())),
        (Err(a), Err(b)) => Err(format!("{}: rejected with {a:?}, expected {b:?}", what())),
    }
}

// ---- bitmaps ----

fn bitmap_spec(bytes: usize, bits: usize, offset: usize) -> Result<(), BitmapError> {
    if (offset as u128) + (bits as u128) <= (bytes as u128) * 8 {
        Ok(())
    } else {
        Err(BitmapError::OutOfBounds { offset, bits, bytes })
    }
}

fn one_bitmap<S: House>(case: &mut Case, bytes: Vec<u8>, bits: usize, offset: usize) -> Res {
    let n = bytes.len();
    let want = bitmap_spec(n, bits, offset);
    let buffer = S::house(bytes.clone());
    let addr = std::borrow::Borrow::<[u8]>::borrow(&buffer).as_ptr() as usize;
    let got = agree(Bitmap::<S>::try_from_parts(buffer, bits, offset), want, || {
        format!("bitmap of {n} bytes, {bits} bits at {offset}")
    })?;
    match got {
        None => case.count("bitmaps_rejected", 1),
        Some(b) => {
            case.count("bitmaps_accepted", 1);
            ensure!(Length::len(&b) == bits && b.bit_offset() == offset, "accepted bitmap has other metadata");
            let model = vh::coll::bits_of(&bytes, offset, bits)?;
            check_all(&b, &model, &mut case.obs)?;
            let (buffer, n2, o2) = b.into_parts();
            let back: &[u8] = std::borrow::Borrow::borrow(&buffer);
            ensure!(
                back == bytes && back.as_ptr() as usize == addr && n2 == bits && o2 == offset,
                "bitmap parts come back changed"
            );
        }
    }
    Ok(())
}

fn bitmap_all(case: &mut Case) -> Res {
    // 0..=4 bytes x 0..=40 bits x 0..=40 offset.
    let i = case.idx as usize % 205;
    let (bytes, bits) = (i / 41, i % 41);
    case.fp(i as u64);
    case.nontrivial();
    let fill: Vec<u8> = (0..bytes).map(|_| case.rng.u64() as u8).collect();
    for offset in 0..=40 {
        one_bitmap::<VecBuffer>(case, fill.clone(), bits, offset)?;
        if offset % 5 == 0 {
            one_bitmap::<SliceBuffer<'static>>(case, fill.clone(), bits, offset)?;
            one_bitmap::<ArcBuffer>(case, fill.clone(), bits, offset)?;
        }
    }
    Ok(())
}

fn extreme(case: &mut Case, near: usize) -> usize {
    let d = case.rng.below(20);
    match case.rng.below(7) {
        0 => near.wrapping_add(d),
        1 => near.wrapping_sub(d),
        2 => usize::MAX - d,
        3 => (usize::MAX / 2).wrapping_add(d),
        4 => (usize::MAX / 8).wrapping_add(d).wrapping_sub(9),
        5 => 0usize.wrapping_sub(near).wrapping_add(d),
        _ => (1usize << case.rng.below(64)).wrapping_add(d).wrapping_sub(9),
    }
}

fn bitmap_extreme(case: &mut Case) -> Res {
    let bytes = case.rng.below(40);
    let fill: Vec<u8> = (0..bytes).map(|_| case.rng.u64() as u8).collect();
    case.nontrivial();
    for _ in 0..20 {
        let bits = if case.rng.coin() { extreme(case, bytes * 8) } else { case.rng.below(bytes * 8 + 9) };
        let offset = if case.rng.coin() {
            extreme(case, (bytes * 8).wrapping_sub(bits))
        } else {
            case.rng.below(bytes * 8 + 9)
        };
        case.fp(bits as u64);
        case.fp(offset as u64);
        case.trace(|| format!("{bytes} bytes, {bits} bits at {offset}"));
        one_bitmap::<VecBuffer>(case, fill.clone(), bits, offset)?;
    }
    Ok(())
}

// ---- validity ----

fn validity_all(case: &mut Case) -> Res {
    let i = case.idx as usize % 441;
    let (child, bits) = (i / 21, i % 21);
    case.fp(i as u64);
    case.nontrivial();
    for offset in [0, 1, 3, 7, 8, 9] {
        let flags: Vec<bool> = (0..bits).map(|_| case.rng.coin()).collect();
        let bytes = pack(&flags, offset, case.rng.below(2), Some(&mut case.rng.fork()));
        let b = Bitmap::<VecBuffer>::try_from_parts(bytes, bits, offset).map_err(|e| e.to_string())?;
        let data: Vec<u8> = (0..child).map(|x| x as u8).collect();
        let want = if child == bits {
            Ok(())
        } else {
            Err(ValidityError::LengthMismatch { collection: child, bitmap: bits })
        };
        let before = (data.as_ptr() as usize, places(&b));
        match agree(Validity::try_from_parts(data, b), want, || format!("validity of {bits} bits over {child} rows"))? {
            None => case.count("validities_rejected", 1),
            Some(v) => {
                let model: Vec<Option<u8>> = flags.iter().enumerate().map(|(i, f)| f.then_some(i as u8)).collect();
                check_all(&v, &model, &mut case.obs)?;
                let (c, b) = v.into_parts();
                let b = b.ok_or("explicit validity comes back omitted")?;
                ensure!(before == (c.as_ptr() as usize, places(&b)), "validity parts come back changed");
                case.count("validities_accepted", 1);
            }
        }
    }
    Ok(())
}

fn validity_virtual(case: &mut Case) -> Res {
    // Lengths that only exist virtually.
    let bits = case.rng.below(30);
    let len = extreme(case, bits);
    case.fp(len as u64);
    case.nontrivial();
    let b = Bitmap::<VecBuffer>::try_from_parts(vec![0xa5; 4], bits, 0).map_err(|e| e.to_string())?;
    let want = if len == bits {
        Ok(())
    } else {
        Err(ValidityError::LengthMismatch { collection: len, bitmap: bits })
    };
    agree(Validity::try_from_parts(Virt { len }, b), want, || format!("validity of {bits} bits over {len} rows"))?;
    Ok(())
}

// ---- fixed-size lists ----

fn flatten_spec(len: usize, n: usize) -> Result<(), FlattenError> {
    if n == 0 {
        Err(FlattenError::ZeroChunkSize)
    } else if len % n != 0 {
        Err(FlattenError::NotMultiple { len, n })
    } else {
        Ok(())
    }
}

fn flatten<const N: usize>(case: &mut Case) -> Res {
    case.fp(N as u64);
    case.nontrivial();
    for len in 0..=64usize {
        let data: Vec<u16> = (0..len).map(|x| x as u16 ^ 0x1234).collect();
        let addr = data.as_ptr() as usize;
        match agree(Flatten::<_, N>::try_from_parts(data.clone()), flatten_spec(len, N), || {
            format!("width {N} over {len} slots")
        })? {
            None => case.count("fixed_lists_rejected", 1),
            Some(f) => {
                let model: Vec<[u16; N]> = data.chunks_exact(N).map(|c| std::array::from_fn(|i| c[i])).collect();
                check_all(&f, &model, &mut case.obs)?;
                case.count("fixed_lists_accepted", 1);
            }
        }
        if let Ok(f) = Flatten::<_, N>::try_from_parts(data) {
            let back = f.into_parts();
            ensure!(back.as_ptr() as usize == addr, "fixed-size list child comes back elsewhere");
        }
    }
    for _ in 0..60 {
        let len = extreme(case, N);
        case.fp(len as u64);
        if let Some(f) = agree(Flatten::<_, N>::try_from_parts(Virt { len }), flatten_spec(len, N), || {
            format!("width {N} over {len} slots")
        })? {
            ensure!(Length::len(&f) == len / N, "length {} of {len} slots of width {N}", Length::len(&f));
            ensure!(f.view(len / N).is_none(), "view past the end answers");
            ensure!(f.view(usize::MAX).is_none(), "view of the largest index answers");
            if len > 0 {
                ensure!(f.view(len / N - 1).is_some(), "last row is missing");
            }
        }
    }
    Ok(())
}

// ---- offsets ----

fn offsets_spec(raw: &[i128], data: usize) -> Result<(), OffsetsError> {
    let Some(first) = raw.first() else {
        return Err(OffsetsError::Empty);
    };
    if *first < 0 {
        return Err(OffsetsError::Negative { index: 0 });
    }
    if *first != 0 {
        return Err(OffsetsError::NonZeroFirst { first: *first as usize });
    }
    for (index, w) in raw.windows(2).enumerate() {
        if w[1] < 0 {
            return Err(OffsetsError::Negative { index: index + 1 });
        }
        if w[1] < w[0] {
            return Err(OffsetsError::NonMonotonic { index: index + 1 });
        }
    }
    let last = *raw.last().expect("non-empty") as usize;
    if last > data {
        return Err(OffsetsError::OutOfBounds { last, data });
    }
    Ok(())
}

fn one_offsets<O: Offset + Debug + Into<i128>, S: House>(case: &mut Case, raw: &[O], data: usize) -> Res {
    let wide: Vec<i128> = raw.iter().map(|x| (*x).into()).collect();
    let child: Vec<u16> = (0..data).map(|x| (x * 7) as u16).collect();
    let want = offsets_spec(&wide, data);
    let c = S::house(child.clone());
    let o = S::house(raw.to_vec());
    let before = (
        std::borrow::Borrow::<[u16]>::borrow(&c).as_ptr() as usize,
        std::borrow::Borrow::<[O]>::borrow(&o).as_ptr() as usize,
    );
    match agree(Offsets::<S::For<u16>, O, S>::try_from_parts(c, o), want, || {
        format!("offsets {} over {data} items", show(raw))
    })? {
        None => case.count("offsets_rejected", 1),
        Some(v) => {
            case.count("offsets_accepted", 1);
            ensure!(Length::len(&v) == raw.len() - 1, "length {} with {} offsets", Length::len(&v), raw.len());
            for i in 0..raw.len() - 1 {
                let row: Vec<u16> = v.owned(i).ok_or("row is missing")?;
                let (a, b) = (wide[i] as usize, wide[i + 1] as usize);
                ensure!(row == child[a..b], "row {i} is {row:?}, expected {:?}", &child[a..b]);
            }
            ensure!(v.view(raw.len() - 1).is_none(), "a row past the end answers");
            let (c, o) = v.into_parts();
            let after = (
                std::borrow::Borrow::<[u16]>::borrow(&c).as_ptr() as usize,
                std::borrow::Borrow::<[O]>::borrow(&o).as_ptr() as usize,
            );
            ensure!(before == after, "offset parts come back elsewhere");
            ensure!(
                std::borrow::Borrow::<[u16]>::borrow(&c) == child
                    && std::borrow::Borrow::<[O]>::borrow(&o).iter().map(|x| (*x).into()).collect::<Vec<i128>>() == wide,
                "offset parts come back changed"
            );
        }
    }
    Ok(())
}

/// Every offset sequence of up to five entries over a small alphabet.
fn offsets_all<O: Offset + Debug + Into<i128>>(case: &mut Case, alphabet: &[O]) -> Res {
    let k = alphabet.len();
    // idx selects the first two symbols; the rest is enumerated here.
    let i = case.idx as usize % (k * k);
    case.fp(i as u64);
    case.nontrivial();
    let head = [alphabet[i / k], alphabet[i % k]];
    for data in [0, 1, 2, 3, 4] {
        one_offsets::<O, VecBuffer>(case, &[], data)?;
        one_offsets::<O, VecBuffer>(case, &head[..1], data)?;
        one_offsets::<O, VecBuffer>(case, &head, data)?;
        for a in alphabet {
            one_offsets::<O, VecBuffer>(case, &[head[0], head[1], *a], data)?;
            for b in alphabet {
                one_offsets::<O, VecBuffer>(case, &[head[0], head[1], *a, *b], data)?;
                if data == 3 {
                    for c in alphabet {
                        one_offsets::<O, SliceBuffer<'static>>(case, &[head[0], head[1], *a, *b, *c], data)?;
                    }
                }
            }
        }
    }
    Ok(())
}

/// Long sequences with one (or no) rule broken somewhere.
fn offsets_long<O: Offset + Debug + Into<i128> + TryFrom<i128>>(case: &mut Case, max: i128) -> Res {
    let n = case.rng.below(200);
    let mut at = 0usize;
    let mut raw: Vec<i128> = vec![0];
    for _ in 0..n {
        at += *case.rng.pick(&[0, 0, 1, 2, 5]);
        raw.push(at as i128);
    }
    let data = match case.rng.below(4) {
        0 => at.saturating_sub(1),
        1 => at + case.rng.below(5),
        _ => at,
    };
    let hits = case.rng.below(3);
    for _ in 0..hits {
        let i = case.rng.below(raw.len());
        raw[i] = match case.rng.below(6) {
            0 => -1,
            1 => -max - 1,
            2 => max,
            3 => raw[i] - 1,
            4 => raw[i] + 1,
            _ => data as i128 + 1,
        };
    }
    case.nontrivial();
    raw.iter().for_each(|x| case.fp(*x as u64));
    case.fp(data as u64);
    let raw: Vec<O> = raw.into_iter().map(|x| O::try_from(x.clamp(-max - 1, max)).ok().expect("fits")).collect();
    case.trace(|| format!("offsets {} over {data}", show(&raw)));
    one_offsets::<O, VecBuffer>(case, &raw, data)?;
    one_offsets::<O, BoxBuffer>(case, &raw, data)?;
    one_offsets::<O, ArcBuffer>(case, &raw, data)
}

/// Offsets over data as large as they can address.
fn offsets_virtual<O: Offset + Debug + Into<i128> + TryFrom<i128>>(case: &mut Case, max: i128) -> Res {
    let mut raw = vec![0i128];
    let mut at = 0i128;
    for _ in 0..case.rng.range(1, 5) {
        let step = match case.rng.below(4) {
            0 => 0,
            1 => max - at,
            2 => (max - at) / 2,
            _ => case.rng.below(100) as i128,
        };
        at = (at + step).min(max);
        raw.push(at);
    }
    let data = match case.rng.below(5) {
        0 => (at as usize).saturating_sub(1),
        1 => at as usize,
        2 => at as usize + 1,
        3 => usize::MAX,
        _ => extreme(case, at as usize),
    };
    case.nontrivial();
    raw.iter().for_each(|x| case.fp(*x as u64));
    case.fp(data as u64);
    case.trace(|| format!("offsets {} over {data}", show(&raw)));
    let want = offsets_spec(&raw, data);
    let items: Vec<O> = raw.iter().map(|x| O::try_from(*x).ok().expect("fits")).collect();
    if let Some(v) = agree(
        Offsets::<Virt, O, VecBuffer, Virt>::try_from_parts(Virt { len: data }, items),
        want,
        || format!("offsets {} over {data} items", show(&raw)),
    )? {
        case.count("offsets_accepted", 1);
        for (i, w) in raw.windows(2).enumerate() {
            let row = v.view(i).ok_or("row is missing")?;
            let len = (w[1] - w[0]) as usize;
            ensure!(Length::len(&row) == len, "row {i} has length {}, expected {len}", Length::len(&row));
            ensure!(row.view(len).is_none() && row.view(usize::MAX).is_none(), "row {i} answers past its end");
            ensure!(len == 0 || row.view(len - 1).is_some(), "row {i} misses its last item");
        }
        ensure!(v.view(raw.len() - 1).is_none(), "row past the end answers");
    }
    Ok(())
}

// ---- identity through every wrapper ----

fn identity<C: Coll + Parts>(case: &mut Case, build: fn(Vec<C::Owned>, &mut Odd) -> C) -> Res {
    let d = Dist::random(&mut case.rng);
    let n = sample_len(&mut case.rng, C::Owned::COST);
    let items: Vec<C::Owned> = sample_n(&mut case.rng, &d, n);
    fp_all(&items, case.fp_mut());
    let mut odd = Odd::random(&mut case.rng);
    case.trace(|| format!("{odd:?} items {}", show(&items)));
    let mut c = build(items.clone(), &mut odd);
    case.nontrivial();
    let before = places(&c);
    let content = c.decode(&mut case.obs)?;
    for _ in 0..2 {
        let stats = vh::meter::get();
        c = c.rewrap().map_err(|e| format!("own parts rejected: {e}"))?;
        let after = vh::meter::get();
        ensure!(
            cfg!(miri) || stats.requests == after.requests,
            "taking apart and rebuilding requested memory {} times",
            after.requests - stats.requests
        );
    }
    ensure!(places(&c) == before, "buffers moved: {:?} became {:?}", before, places(&c));
    let again = c.decode(&mut case.obs)?;
    ensure!(
        content.len() == again.len() && content.iter().zip(&again).all(|(a, b)| a.same(b)),
        "contents changed"
    );
    case.count("buffers_tracked", before.len() as u64);
    check_all(&c, &items, &mut case.obs)
}

fn inline(case: &mut Case) -> Res {
    use narrow::buffer::ArrayBuffer;
    case.nontrivial();
    let bytes: [u8; 3] = std::array::from_fn(|_| case.rng.u64() as u8);
    for bits in 0..=30 {
        for offset in 0..=30 {
            if let Some(b) =
                agree(Bitmap::<ArrayBuffer<3>>::try_from_parts(bytes, bits, offset), bitmap_spec(3, bits, offset), || {
                    format!("inline bitmap, {bits} bits at {offset}")
                })?
            {
                check_all(&b, &vh::coll::bits_of(&bytes, offset, bits)?, &mut case.obs)?;
                ensure!(b.into_parts() == (bytes, bits, offset), "inline parts come back changed");
            }
        }
    }
    bytes.iter().for_each(|b| case.fp(u64::from(*b)));
    for raw in [[0, 1, 3], [0, 0, 0], [0, 3, 2], [1, 1, 1], [0, 1, 4], [0, -1, 2], [0, 2, 3]] {
        let wide: Vec<i128> = raw.iter().map(|x| i128::from(*x)).collect();
        if let Some(v) = agree(Offsets::<[u8; 3], i32, ArrayBuffer<3>>::try_from_parts(bytes, raw), offsets_spec(&wide, 3), || {
            format!("inline offsets {raw:?}")
        })? {
            let rows: Vec<Vec<u8>> = raw.windows(2).map(|w| bytes[w[0] as usize..w[1] as usize].to_vec()).collect();
            check_all(&v, &rows, &mut case.obs)?;
            ensure!(v.into_parts() == (bytes, raw), "inline offset parts come back changed");
        }
    }
    Ok(())
}

fn main() {
    let mut subjects = vec![
        Subject::new("bitmap grid", 205, bitmap_all),
        Subject::new("bitmap extremes", 300, bitmap_extreme),
        Subject::new("validity grid", 441, validity_all),
        Subject::new("validity virtual", 300, validity_virtual),
        Subject::new("fixed list 0", 6, |c| {
            for len in (0..50).chain([usize::MAX, usize::MAX / 2]) {
                agree(Flatten::<_, 0>::try_from_parts(Virt { len }), flatten_spec(len, 0), || format!("width 0 over {len}"))?;
            }
            c.nontrivial();
            Ok(())
        }),
        Subject::new("fixed list 1", 20, flatten::<1>),
        Subject::new("fixed list 2", 20, flatten::<2>),
        Subject::new("fixed list 3", 20, flatten::<3>),
        Subject::new("fixed list 5", 20, flatten::<5>),
        Subject::new("fixed list 7", 20, flatten::<7>),
        Subject::new("fixed list 8", 20, flatten::<8>),
        Subject::new("fixed list 64", 20, flatten::<64>),
        Subject::new("fixed list 65", 20, flatten::<65>),
        Subject::new("offsets i32 grid", 49, |c| offsets_all::<i32>(c, &[i32::MIN, -1, 0, 1, 2, 3, i32::MAX])),
        Subject::new("offsets i64 grid", 64, |c| {
            offsets_all::<i64>(c, &[i64::MIN, -1, 0, 1, 2, 3, 1 << 32, i64::MAX])
        }),
        Subject::new("offsets i32 long", 400, |c| offsets_long::<i32>(c, i128::from(i32::MAX))),
        Subject::new("offsets i64 long", 400, |c| offsets_long::<i64>(c, i128::from(i64::MAX))),
        Subject::new("offsets i32 virtual", 400, |c| offsets_virtual::<i32>(c, i128::from(i32::MAX))),
        Subject::new("offsets i64 virtual", 400, |c| offsets_virtual::<i64>(c, i128::from(i64::MAX))),
        Subject::new("inline", 50, inline),
    ];
    macro_rules! sub {
        ($name:expr, $w:expr, $t:ty, $build:expr) => {
            let build = $build;
            subjects.push(Subject::new(format!("identity {}", $name), (30.0 * $w) as u64, move |c| identity::<$t>(c, build)));
        };
    }
    vh::zoo!(sub);
    vh::run::main(Plan {
        id: "C06",
        rule: "grids enumerated completely: bitmaps of 0-4 bytes x 0-40 bits x 0-40 offset, validities of 0-20 rows x 0-20 bits at six bit offsets, fixed-size lists of nine widths x 0-64 slots, all offset sequences of up to 4 entries (5 over slices) over a seven or eight letter alphabet of signs and extremes x 0-4 items; random: extreme metadata on real and on storage-free children of any length, long offset sequences with up to two broken entries, and taking apart and rebuilding every supported collection while watching buffer addresses and memory requests; every answer is compared with an independent specification including the reported error; distinct = by parts",
        subjects,
        exhaustive: false,
    });
}
