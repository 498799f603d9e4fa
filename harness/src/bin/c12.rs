//! C12: contents do not depend on the storage backend.
vh::zoo_uses!();
use narrow::buffer::ArrayBuffer;
use narrow::collection::Collection;
use vh::coll::{Coll, check_all, check_consume};
use vh::drive::drive;
use vh::ensure;
use vh::identity::{Parts, places};
use vh::items::tidy;
use vh::rehouse::{Odd, Rehouse};
use vh::run::{Case, Obs, Plan, Res, Subject};
use vh::share::Share;
use vh::storage::{FaultBuf, SmallBuf};
use vh::val::{Dist, Val, fp_all, sample_len, sample_n, show};

fn same_owned<T: Val>(v: T, w: &T, _: &mut Obs) -> Res {
    ensure!(v.same(w), "{v:?} differs from {w:?}");
    Ok(())
}

/// Bytes, bits and bit offset of every buffer: the same whatever the storage.
type Shape = Vec<(usize, usize, usize)>;
fn shape<P: Parts>(p: &P) -> Shape {
    places(p).iter().map(|x| (x.bytes, x.bits, x.offset)).collect()
}

/// Everything a collection presents, against the items.
fn present<C: Coll + Parts>(case: &mut Case, name: &'static str, c: C, items: &[C::Owned], want: &mut Option<Shape>) -> Res {
    let label = |e: String| format!("{name} storage: {e}");
    let s = shape(&c);
    match want {
        Some(w) => ensure!(*w == s, "{name} storage holds parts {s:?}, expected {w:?}"),
        None => *want = Some(s),
    }
    check_all(&c, items, &mut case.obs).map_err(label)?;
    c.audit(&mut case.obs).map_err(label)?;
    let mut rng = case.rng.fork();
    drive(c.iter_views(), items, &mut rng, &mut case.obs, C::check_view).map_err(|e| label(format!("iteration: {e}")))?;
    case.obs.add("presentations", 1);
    if case.rng.coin() {
        check_consume(c, items, &mut case.obs).map_err(label)
    } else {
        drive(c.into_iter_owned(), items, &mut rng, &mut case.obs, same_owned)
            .map_err(|e| label(format!("consuming iteration: {e}")))
    }
}

/// Several handles to one storage: consuming some leaves the others alone.
fn handles<C: Coll + Parts + Share>(case: &mut Case, name: &'static str, c: C, items: &[C::Owned]) -> Res {
    let label = |e: String| format!("{name} handles: {e}");
    let home = places(&c);
    let mut pool = vec![c];
    let steps = case.rng.range(3, 9);
    for step in 0..steps {
        let at = case.rng.below(pool.len());
        match case.rng.below(4) {
            0 | 1 if pool.len() < 5 => {
                let n = pool[at].share();
                ensure!(places(&n) == home, "{name} handles: a further handle lives elsewhere");
                pool.push(n);
            }
            2 if pool.len() > 1 => drop(pool.swap_remove(at)),
            _ if pool.len() > 1 => {
                // Consume part of one handle while the others are read.
                let c = pool.swap_remove(at);
                let n = case.rng.below(items.len() + 2);
                let mut it = c.into_iter_owned();
                for (i, w) in items.iter().take(n).enumerate() {
                    let v = it.next().ok_or_else(|| label(format!("consuming ends at {i}")))?;
                    ensure!(v.same(w), "{name} handles: consumed item {i} is {v:?}, expected {w:?}");
                }
                case.obs.add("partial_consumptions", 1);
                let other = case.rng.below(pool.len());
                check_all(&pool[other], items, &mut case.obs)
                    .map_err(|e| label(format!("while another is consumed: {e}")))?;
                let mut rng = case.rng.fork();
                if case.rng.coin() {
                    let rest = &items[n.min(items.len())..];
                    drive(it, rest, &mut rng, &mut case.obs, same_owned)
                        .map_err(|e| label(format!("rest of a consumed handle: {e}")))?;
                }
            }
            _ => {
                let mut rng = case.rng.fork();
                drive(pool[at].iter_views(), items, &mut rng, &mut case.obs, C::check_view)
                    .map_err(|e| label(format!("iteration: {e}")))?;
            }
        }
        for (i, c) in pool.iter().enumerate() {
            ensure!(places(c) == home, "{name} handles: handle {i} moved at step {step}");
            if i < 2 {
                check_all(c, items, &mut case.obs).map_err(|e| label(format!("step {step}, handle {i}: {e}")))?;
            }
        }
    }
    case.obs.add("handle_histories", 1);
    for c in pool {
        check_consume(c, items, &mut case.obs).map_err(label)?;
    }
    Ok(())
}

fn generate<T: Val>(case: &mut Case) -> Vec<T> {
    let d = Dist::random(&mut case.rng);
    let n = sample_len(&mut case.rng, T::COST * 8);
    let items: Vec<T> = sample_n(&mut case.rng, &d, n);
    fp_all(&items, case.fp_mut());
    if n > 0 {
        case.nontrivial();
    }
    case.trace(|| show(&items));
    items
}

/// In-place storage: every buffer has exactly `N` elements.
fn inline_bits<const N: usize>(case: &mut Case) -> Res {
    let d = Dist::random(&mut case.rng);
    let offset = case.rng.below(8 * N + 1);
    let n = case.rng.below(8 * N - offset + 1);
    let bits: Vec<bool> = sample_n(&mut case.rng, &d, n);
    fp_all(&bits, case.fp_mut());
    case.fp(offset as u64);
    case.nontrivial();
    let mut bytes = [0u8; N];
    bytes.fill_with(|| case.rng.u64() as u8);
    for (i, b) in bits.iter().enumerate() {
        let p = offset + i;
        bytes[p / 8] = bytes[p / 8] & !(1 << (p % 8)) | u8::from(*b) << (p % 8);
    }
    let mut want = None;
    macro_rules! each {
        ($name:expr, $s:ty, $bytes:expr) => {
            present(case, $name, Bitmap::<$s>::try_from_parts($bytes, n, offset).map_err(|e| e.to_string())?, &bits, &mut want)?;
        };
    }
    each!("vec", VecBuffer, bytes.to_vec());
    each!("box", BoxBuffer, bytes.to_vec().into());
    each!("rc", RcBuffer, bytes.to_vec().into());
    each!("arc", ArcBuffer, bytes.to_vec().into());
    each!("slice", SliceBuffer<'static>, vh::storage::leak(bytes.to_vec()));
    let inline = Bitmap::<ArrayBuffer<N>>::try_from_parts(bytes, n, offset).map_err(|e| e.to_string())?;
    check_all(&inline, &bits, &mut case.obs).map_err(|e| format!("inline storage: {e}"))?;
    let mut rng = case.rng.fork();
    drive(inline.iter_views(), &bits, &mut rng, &mut case.obs, same_owned)?;
    check_consume(inline, &bits, &mut case.obs).map_err(|e| format!("inline storage: {e}"))?;
    case.obs.add("inline_presentations", 1);
    Ok(())
}

fn inline_nullable<const N: usize>(case: &mut Case) -> Res {
    let d = Dist::random(&mut case.rng);
    let items: [Option<u16>; N] = std::array::from_fn(|_| Option::sample(&mut case.rng, &d));
    fp_all(&items, case.fp_mut());
    case.nontrivial();
    let offset = case.rng.below(7 * N + 1);
    let mut bytes = [0u8; N];
    bytes.fill_with(|| case.rng.u64() as u8);
    for (i, x) in items.iter().enumerate() {
        let p = offset + i;
        bytes[p / 8] = bytes[p / 8] & !(1 << (p % 8)) | u8::from(x.is_some()) << (p % 8);
    }
    let values: [u16; N] = items.map(|x| x.unwrap_or(0xabcd));
    let bitmap = Bitmap::<ArrayBuffer<N>>::try_from_parts(bytes, N, offset).map_err(|e| e.to_string())?;
    let v = Validity::<[u16; N], ArrayBuffer<N>>::try_from_parts(values, bitmap).map_err(|e| e.to_string())?;
    let c = Array::<Option<u16>, ArrayBuffer<N>>::from_buffer(FixedSizePrimitive::from_buffer(v));
    check_all(&c, &items, &mut case.obs).map_err(|e| format!("inline storage: {e}"))?;
    c.audit(&mut case.obs).map_err(|e| format!("inline storage: {e}"))?;
    check_consume(c, &items, &mut case.obs).map_err(|e| format!("inline storage: {e}"))?;
    case.obs.add("inline_presentations", 1);
    Ok(())
}

/// Lists in place: `M` offsets over `N` items.
fn inline_lists<const N: usize, const M: usize>(case: &mut Case) -> Res {
    let data: [u8; N] = std::array::from_fn(|_| case.rng.u64() as u8);
    let mut ends: Vec<usize> = (1..M).map(|_| case.rng.below(N + 1)).collect();
    ends.sort_unstable();
    let offsets: [i32; M] = std::array::from_fn(|i| if i == 0 { 0 } else { ends[i - 1] as i32 });
    let items: Vec<Vec<u8>> = offsets.windows(2).map(|w| data[w[0] as usize..w[1] as usize].to_vec()).collect();
    fp_all(&items, case.fp_mut());
    case.nontrivial();
    let c = Offsets::<[u8; N], i32, ArrayBuffer<M>>::try_from_parts(data, offsets).map_err(|e| e.to_string())?;
    check_all(&c, &items, &mut case.obs).map_err(|e| format!("inline storage: {e}"))?;
    check_consume(c, &items, &mut case.obs).map_err(|e| format!("inline storage: {e}"))?;
    let c = Flatten::<[u8; N], 1>::try_from_parts(data).map_err(|e| e.to_string())?;
    let items: Vec<[u8; 1]> = data.iter().map(|x| [*x]).collect();
    check_all(&c, &items, &mut case.obs).map_err(|e| format!("inline storage: {e}"))?;
    check_consume(c, &items, &mut case.obs).map_err(|e| format!("inline storage: {e}"))?;
    case.obs.add("inline_presentations", 2);
    Ok(())
}

fn main() {
    let mut subjects = Vec::new();
    macro_rules! sub {
        ($name:expr, $cases:expr, $item:ty, $base:ty, |$s:ident| $t:ty) => {{
            // One type alias per storage.
            type In<$s> = $t;
            subjects.push(Subject::new($name, $cases, |case| {
                let items: Vec<$item> = generate(case);
                let odd = Odd::random(&mut case.rng);
                let base = || items.iter().cloned().collect::<$base>();
                let mut want = None;
                macro_rules! build {
                    ($st:ty) => {{
                        let c: In<$st> = Rehouse::<$st>::rehouse(base(), &mut odd.clone());
                        c
                    }};
                }
                present(case, "vec", build!(VecBuffer), &items, &mut want)?;
                present(case, "box", build!(BoxBuffer), &items, &mut want)?;
                present(case, "rc", build!(RcBuffer), &items, &mut want)?;
                present(case, "arc", build!(ArcBuffer), &items, &mut want)?;
                present(case, "slice", build!(SliceBuffer<'static>), &items, &mut want)?;
                present(case, "fault", build!(FaultBuf), &items, &mut want)?;
                present(case, "small", build!(SmallBuf), &items, &mut want)?;
                handles(case, "rc", build!(RcBuffer), &items)?;
                handles(case, "arc", build!(ArcBuffer), &items)?;
                handles(case, "slice", build!(SliceBuffer<'static>), &items)
            }));
        }};
    }
    macro_rules! arr {
        ($t:ty) => {
            sub!(format!("Array<{}>", tidy(stringify!($t))), 60, $t, Array<$t, VecBuffer>, |S| Array<$t, S>);
        };
    }
    vh::all_items!(arr);
    sub!("Bitmap", 200, bool, Bitmap, |S| Bitmap<S>);
    sub!("VariableSizeList<Vec<bool>,Nullable,i64>", 60, Option<Vec<Vec<bool>>>, VariableSizeList<Vec<bool>, Nullable, i64>, |S| VariableSizeList<Vec<bool>, Nullable, i64, S>);
    sub!("VariableSizeBinary<Nullable,i64>", 60, Option<Vec<u8>>, VariableSizeBinary<Nullable, i64>, |S| VariableSizeBinary<Nullable, i64, S>);
    sub!("Validity<Flatten<Bitmap,3>>", 60, Option<[bool; 3]>, Validity<Flatten<Bitmap, 3>>, |S| Validity<Flatten<Bitmap<S>, 3>, S>);
    subjects.push(Subject::new("inline bits 1", 100, inline_bits::<1>));
    subjects.push(Subject::new("inline bits 4", 200, inline_bits::<4>));
    subjects.push(Subject::new("inline bits 19", 200, inline_bits::<19>));
    subjects.push(Subject::new("inline nullable 1", 100, inline_nullable::<1>));
    subjects.push(Subject::new("inline nullable 9", 200, inline_nullable::<9>));
    subjects.push(Subject::new("inline nullable 40", 100, inline_nullable::<40>));
    subjects.push(Subject::new("inline lists 7/4", 200, inline_lists::<7, 4>));
    subjects.push(Subject::new("inline lists 0/3", 20, inline_lists::<0, 3>));
    subjects.push(Subject::new("inline lists 30/12", 200, inline_lists::<30, 12>));
    vh::run::main(Plan {
        id: "C12",
        rule: "a case = the same items and the same physical parts (bit offsets, spare bytes, unreferenced data, values under nulls, omitted validity) held by Vec, Box, Rc, Arc, borrowed and instrumented storage, each compared with the items through every access path and with the parts of the first, then 3-9 steps of cloning, dropping, reading and partly consuming several Rc, Arc and slice handles to one storage; in-place storage separately; non-trivial = at least one item; distinct = by items",
        subjects,
        exhaustive: false,
    });
}
