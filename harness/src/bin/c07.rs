//! C07: bitmap windows depend only on the bits inside the window.
vh::zoo_uses!();
use narrow::bitmap::ValidityBitmap;
use narrow::buffer::BufferRef;
use narrow::collection::{Collection, CollectionRealloc};
use narrow::length::Length;
use std::borrow::Borrow;
use vh::coll::{bits_of, check_all, check_consume, check_nulls};
use vh::ensure;
use vh::rehouse::pack;
use vh::run::{Case, Plan, Res, Subject};
use vh::source::Source;
use vh::storage::{FaultBuf, House};
use vh::val::{Dist, fp_all, sample_n};
use vh::virt::Virt;

/// Bytes outside the window.
fn surround(bits: &[bool], offset: usize, spare: usize, fill: usize, case: &mut Case) -> Vec<u8> {
    let mut out = match fill {
        0 => vec![0u8; (offset + bits.len()).div_ceil(8) + spare],
        1 => vec![0xff; (offset + bits.len()).div_ceil(8) + spare],
        _ => (0..(offset + bits.len()).div_ceil(8) + spare).map(|_| case.rng.u64() as u8).collect(),
    };
    for (i, b) in bits.iter().enumerate() {
        let p = offset + i;
        out[p / 8] = (out[p / 8] & !(1 << (p % 8))) | (u8::from(*b) << (p % 8));
    }
    out
}

fn reads<S: House>(case: &mut Case, bytes: &[u8], bits: &[bool], offset: usize) -> Res {
    let make = || Bitmap::<S>::try_from_parts(S::house(bytes.to_vec()), bits.len(), offset).map_err(|e| e.to_string());
    let b = make()?;
    check_all(&b, bits, &mut case.obs)?;
    let by_ref: Vec<bool> = (&b).into_iter().collect();
    ensure!(by_ref == bits, "&Bitmap iteration reads {by_ref:?}, expected {bits:?}");
    let nulls: Vec<bool> = bits.iter().map(|b| !b).collect();
    let v = Validity::try_from_parts(Virt { len: bits.len() }, make()?).map_err(|e| e.to_string())?;
    check_nulls(&v, &nulls, &mut case.obs)?;
    let owned: Vec<bool> = make()?.into_iter().collect();
    ensure!(owned == bits, "Bitmap iteration reads {owned:?}, expected {bits:?}");
    check_consume(b, bits, &mut case.obs)
}

/// The window, and everything before it, in a mutable bitmap.
fn window<S: House>(b: &Bitmap<S>, before: &[bool], bits: &[bool], offset: usize, case: &mut Case) -> Res
where
    S::For<u8>: Clone,
{
    ensure!(b.bit_offset() == offset, "bit offset became {}", b.bit_offset());
    ensure!(Length::len(b) == bits.len(), "length is {}, expected {}", Length::len(b), bits.len());
    let bytes: &[u8] = b.buffer_ref().borrow();
    let all = bits_of(bytes, 0, offset + bits.len())?;
    ensure!(all[..offset] == *before, "bits before the window changed to {:?}", &all[..offset]);
    ensure!(all[offset..] == *bits, "the window holds {:?}, expected {bits:?}", &all[offset..]);
    let by_ref: Vec<bool> = b.iter_views().collect();
    ensure!(by_ref == bits, "iteration reads {by_ref:?}, expected {bits:?}");
    let v = Validity::try_from_parts(Virt { len: bits.len() }, b.clone()).map_err(|e| e.to_string())?;
    ensure!(v.null_count() == bits.iter().filter(|b| !**b).count(), "null_count is {}", v.null_count());
    case.count("windows_checked", 1);
    Ok(())
}

fn writes<S: House>(case: &mut Case, bytes: &[u8], bits: &[bool], offset: usize, ops: usize) -> Res
where
    S::For<u8>: CollectionRealloc + std::borrow::BorrowMut<[u8]> + Clone,
{
    let before = bits_of(bytes, 0, offset)?;
    let mut model = bits.to_vec();
    let mut b = Bitmap::<S>::try_from_parts(S::house(bytes.to_vec()), bits.len(), offset).map_err(|e| e.to_string())?;
    for step in 0..ops {
        let op = case.rng.below(8);
        let k = match case.rng.below(4) {
            0 => case.rng.below(4),
            1 => case.rng.below(26),
            2 => *case.rng.pick(&[7, 8, 9, 15, 16, 17, 64, 65]),
            _ => 8 * case.rng.below(6),
        };
        case.fp((op * 100 + k) as u64);
        let d = Dist::random(&mut case.rng);
        let more: Vec<bool> = sample_n(&mut case.rng, &d, k);
        match op {
            0 => {
                b.extend(Source::random_hint(more.clone(), &mut case.rng));
                model.extend(&more);
            }
            1 => {
                b.extend(&more);
                model.extend(&more);
            }
            2 => {
                b.try_extend(Source::random_hint(more.clone(), &mut case.rng)).map_err(|e| e.to_string())?;
                model.extend(&more);
            }
            3 => {
                for x in &more {
                    if case.rng.coin() {
                        b.extend([*x]);
                    } else {
                        b.try_extend([*x]).map_err(|e| e.to_string())?;
                    }
                    model.push(*x);
                    window(&b, &before, &model, offset, case).map_err(|e| format!("step {step} single bit: {e}"))?;
                }
            }
            4 | 5 => {
                let n = case.rng.below(model.len() + 2);
                CollectionRealloc::truncate(&mut b, n);
                model.truncate(n);
            }
            6 => CollectionRealloc::reserve(&mut b, k),
            _ => b.try_reserve(k).map_err(|e| e.to_string())?,
        }
        case.trace(|| format!("op {op} with {k}: now {} bits", model.len()));
        window(&b, &before, &model, offset, case).map_err(|e| format!("step {step}, operation {op} with {k}: {e}"))?;
    }
    check_all(&b, &model, &mut case.obs)
}

/// Every offset up to 17 with every length up to 24.
fn grid(case: &mut Case) -> Res {
    let i = case.idx as usize % (18 * 25);
    let (offset, n) = (i / 25, i % 25);
    case.fp(case.idx);
    case.nontrivial();
    case.trace(|| format!("bit offset {offset}, {n} bits"));
    for content in 0..5 {
        let bits: Vec<bool> = match content {
            0 => vec![false; n],
            1 => vec![true; n],
            _ => (0..n).map(|_| case.rng.coin()).collect(),
        };
        for fill in 0..3 {
            for spare in [0, 1, 3] {
                let bytes = surround(&bits, offset, spare, fill, case);
                reads::<VecBuffer>(case, &bytes, &bits, offset)?;
                writes::<VecBuffer>(case, &bytes, &bits, offset, 4)?;
                if spare == 1 {
                    reads::<SliceBuffer<'static>>(case, &bytes, &bits, offset)?;
                    reads::<ArcBuffer>(case, &bytes, &bits, offset)?;
                    reads::<BoxBuffer>(case, &bytes, &bits, offset)?;
                    reads::<RcBuffer>(case, &bytes, &bits, offset)?;
                    writes::<FaultBuf>(case, &bytes, &bits, offset, 3)?;
                }
            }
        }
    }
    Ok(())
}

/// Two buffers agreeing only inside the window are indistinguishable.
fn twins(case: &mut Case) -> Res {
    let n = if case.rng.below(40) == 0 { vh::val::sample_len(&mut case.rng, 1) } else { case.rng.below(300) };
    let offset = match case.rng.below(30) {
        0 => *case.rng.pick(&[32_768, 65_535, 65_536, 65_541, 524_287, 524_288, 524_289]),
        1..=9 => case.rng.below(20),
        10..=19 => case.rng.below(600),
        _ => *case.rng.pick(&[7, 8, 9, 63, 64, 65, 1023, 1024, 4095]),
    };
    let d = Dist::random(&mut case.rng);
    let bits: Vec<bool> = sample_n(&mut case.rng, &d, n);
    fp_all(&bits, case.fp_mut());
    case.fp(offset as u64);
    case.nontrivial();
    case.trace(|| format!("bit offset {offset}, {n} bits"));
    let a = pack(&bits, offset, 0, None);
    let spare = case.rng.below(9);
    let b = pack(&bits, offset, spare, Some(&mut case.rng.fork()));
    let c: Vec<u8> = surround(&bits, offset, case.rng.below(5), 1, case);
    for bytes in [&a, &b, &c] {
        reads::<VecBuffer>(case, bytes, &bits, offset)?;
        writes::<VecBuffer>(case, bytes, &bits, offset, 6)?;
        reads::<BoxBuffer>(case, bytes, &bits, offset)?;
    }
    Ok(())
}

fn main() {
    let subjects = vec![
        Subject::new("grid", 450, grid),
        Subject::new("twins", 500, twins),
        Subject::new("collected then windowed", 300, |case| {
            // Bits packed by the library, read back through every sub-window.
            let n = case.rng.below(40);
            let d = Dist::random(&mut case.rng);
            let bits: Vec<bool> = sample_n(&mut case.rng, &d, n);
            fp_all(&bits, case.fp_mut());
            case.nontrivial();
            let (bytes, _, _) = bits.iter().collect::<Bitmap>().into_parts();
            for offset in 0..=n {
                for len in 0..=n - offset {
                    reads::<VecBuffer>(case, &bytes, &bits[offset..offset + len], offset)?;
                }
            }
            Ok(())
        }),
    ];
    vh::run::main(Plan {
        id: "C07",
        rule: "grid enumerated completely: bit offsets 0-17 x lengths 0-24, each with five contents x zero/one/random surroundings x 0, 1 or 3 spare bytes, read through every access path in six storages and then mutated by random extend/try_extend/truncate/reserve programs with the window and the bits before it compared after every step; plus random windows of up to 300 bits at offsets up to 4095 over buffers that agree only inside the window, and every sub-window of collected bitmaps; distinct = by content, offset and operations",
        subjects,
        exhaustive: false,
    });
}
