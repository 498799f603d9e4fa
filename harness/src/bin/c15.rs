//! C15: list offsets never wrap or truncate.
use narrow::array::Array;
use narrow::bitmap::{Bitmap, ValidityBitmap};
use narrow::buffer::{BufferRef, VecBuffer};
use narrow::collection::flatten::Flatten;
use narrow::collection::{ChildRef, Collection, CollectionAllocIn, CollectionRealloc};
use narrow::fixed_size::FixedSizeArray;
use narrow::layout::variable_size_list::VariableSizeList;
use narrow::length::Length;
use narrow::nullability::NonNullable;
use narrow::offset::{Offset, Offsets};
use narrow::validity::Validity;
use std::fmt::Debug;
use vh::coll::shl;
use vh::ensure;
use vh::run::{Case, Plan, Res, Subject, caught};
use vh::source::{HINTS, Source};
use vh::virt::Virt;

trait Width: Offset + Debug + Into<i128> + TryFrom<i128> {
    const MAX: i128;
}
impl Width for i32 {
    const MAX: i128 = i32::MAX as i128;
}
impl Width for i64 {
    const MAX: i128 = i64::MAX as i128;
}
fn narrow<O: Width>(v: i128) -> O {
    O::try_from(v).ok().expect("fits")
}

/// A collection of lists of which only the lengths matter.
trait Lists: CollectionRealloc + Sized {
    type O: Width;
    /// Starts with these end positions.
    fn start(ends: &[i128]) -> Self;
    fn item(len: usize) -> Self::Owned;
    fn offsets(&self) -> Vec<i128>;
    fn child_len(&self) -> usize;
    /// Lengths of the rows as seen through views.
    fn rows(&self) -> Res<Vec<usize>>;
    /// Longest list that can be built as an item.
    const LONGEST: usize;
}

fn with_ends<O: Width>(ends: &[i128]) -> (usize, Vec<O>) {
    let last = *ends.last().unwrap_or(&0);
    (last as usize, std::iter::once(0).chain(ends.iter().copied()).map(narrow).collect())
}
fn wide<O: Width>(o: &[O]) -> Vec<i128> {
    o.iter().map(|x| (*x).into()).collect()
}
fn row_len(len: usize, first: bool, last: bool, past: bool) -> Res<usize> {
    ensure!(first == (len > 0) && last == (len > 0) && !past, "row of length {len} misses or invents items");
    Ok(len)
}

type Plain<O> = Offsets<Virt, O, VecBuffer, Virt>;
fn plain_rows<O: Width>(c: &Plain<O>) -> Res<Vec<usize>> {
    (0..Length::len(c))
        .map(|i| {
            let v = c.view(i).ok_or("missing row")?;
            let n = Length::len(&v);
            row_len(n, v.view(0).is_some(), n > 0 && v.view(n - 1).is_some(), v.view(n).is_some())
        })
        .collect()
}
impl<O: Width> Lists for Plain<O> {
    type O = O;
    const LONGEST: usize = usize::MAX;
    fn start(ends: &[i128]) -> Self {
        let (len, o) = with_ends(ends);
        Offsets::try_from_parts(Virt { len }, o).expect("start")
    }
    fn item(len: usize) -> Virt {
        Virt { len }
    }
    fn offsets(&self) -> Vec<i128> {
        wide(self.buffer_ref())
    }
    fn child_len(&self) -> usize {
        self.child_ref().len
    }
    fn rows(&self) -> Res<Vec<usize>> {
        plain_rows(self)
    }
}

/// Nullable rows; every third row is null, holding an empty list.
type Nulls<O> = Validity<Plain<O>, VecBuffer>;
impl<O: Width> Lists for Nulls<O> {
    type O = O;
    const LONGEST: usize = usize::MAX;
    fn start(ends: &[i128]) -> Self {
        let b: Bitmap = ends.iter().map(|_| true).collect();
        match Validity::try_from_parts(Plain::<O>::start(ends), b) {
            Ok(v) => v,
            Err(e) => panic!("start: {e}"),
        }
    }
    fn item(len: usize) -> Option<Virt> {
        (len > 0).then_some(Virt { len })
    }
    fn offsets(&self) -> Vec<i128> {
        // Rows beyond the committed validity do not count.
        let mut o = wide(self.child_ref().buffer_ref());
        o.truncate(Length::len(self) + 1);
        o
    }
    fn child_len(&self) -> usize {
        self.child_ref().child_ref().len
    }
    fn rows(&self) -> Res<Vec<usize>> {
        (0..Length::len(self))
            .map(|i| {
                let row = self.view(i).ok_or("missing row")?;
                ensure!(self.is_valid(i) == Some(row.is_some()), "nullness of row {i} differs");
                Ok(row.map_or(0, |v| Length::len(&v)))
            })
            .collect()
    }
}

/// Pairs of lists: the second of each pair is empty.
type Pairs<O> = Flatten<Plain<O>, 2>;
impl<O: Width> Lists for Pairs<O> {
    type O = O;
    const LONGEST: usize = usize::MAX;
    fn start(ends: &[i128]) -> Self {
        let twice: Vec<i128> = ends.iter().flat_map(|e| [*e, *e]).collect();
        Flatten::try_from_parts(Plain::<O>::start(&twice)).expect("start")
    }
    fn item(len: usize) -> [Virt; 2] {
        [Virt { len }, Virt { len: 0 }]
    }
    fn offsets(&self) -> Vec<i128> {
        wide(self.child_ref().buffer_ref()).into_iter().step_by(2).collect()
    }
    fn child_len(&self) -> usize {
        self.child_ref().child_ref().len
    }
    fn rows(&self) -> Res<Vec<usize>> {
        (0..Length::len(self))
            .map(|i| {
                let row = self.view(i).ok_or("missing row")?;
                ensure!(Length::len(&row[1]) == 0, "second list of pair {i} is not empty");
                Ok(Length::len(&row[0]))
            })
            .collect()
    }
}

/// The real layout over items without bytes, which also exist in any number.
type Zst = FixedSizeArray<u8, 0>;
fn zsts(len: usize) -> Vec<Zst> {
    let mut v: Vec<Zst> = Vec::new();
    // Sound: the type has no bytes and is inhabited.
    unsafe { v.set_len(len) };
    v
}
impl Lists for Array<Vec<Zst>, VecBuffer> {
    type O = i32;
    const LONGEST: usize = 1000;
    fn start(ends: &[i128]) -> Self {
        let (len, o) = with_ends::<i32>(ends);
        let child = narrow::layout::fixed_size_primitive::FixedSizePrimitive::<Zst, NonNullable, VecBuffer>::from_buffer(zsts(len));
        Array::from_buffer(VariableSizeList::from_buffer(
            Offsets::try_from_parts(child, o).unwrap_or_else(|e| panic!("{e}")),
        ))
    }
    fn item(len: usize) -> Vec<Zst> {
        zsts(len)
    }
    fn offsets(&self) -> Vec<i128> {
        wide(self.buffer_ref().buffer_ref().buffer_ref())
    }
    fn child_len(&self) -> usize {
        Length::len(self.buffer_ref().buffer_ref().child_ref())
    }
    fn rows(&self) -> Res<Vec<usize>> {
        (0..Length::len(self))
            .map(|i| {
                let v = self.view(i).ok_or("missing row")?;
                let n = Length::len(&v);
                row_len(n, v.view(0).is_some(), n > 0 && v.view(n - 1).is_some(), v.view(n).is_some())
            })
            .collect()
    }
}
/// Wide lists of real, byte-less items.
impl Lists for Offsets<Vec<Zst>, i64> {
    type O = i64;
    const LONGEST: usize = 1000;
    fn start(ends: &[i128]) -> Self {
        let (len, o) = with_ends::<i64>(ends);
        Offsets::try_from_parts(zsts(len), o).unwrap_or_else(|e| panic!("{e}"))
    }
    fn item(len: usize) -> Vec<Zst> {
        zsts(len)
    }
    fn offsets(&self) -> Vec<i128> {
        wide(self.buffer_ref())
    }
    fn child_len(&self) -> usize {
        self.child_ref().len()
    }
    fn rows(&self) -> Res<Vec<usize>> {
        (0..Length::len(self))
            .map(|i| Ok(Length::len(&self.view(i).ok_or("missing row")?)))
            .collect()
    }
}

fn check<C: Lists>(c: &C, ends: &[i128], committed: bool) -> Res {
    let got = c.offsets();
    let want: Vec<i128> = std::iter::once(0).chain(ends.iter().copied()).collect();
    ensure!(got == want, "offsets are {got:?}, expected {want:?}");
    ensure!(Length::len(c) == ends.len(), "length is {}, expected {}", Length::len(c), ends.len());
    let last = *ends.last().unwrap_or(&0) as usize;
    ensure!(
        c.child_len() == last || (committed && c.child_len() >= last),
        "child holds {} items, lists end at {last}",
        c.child_len()
    );
    let lens: Vec<usize> = want.windows(2).map(|w| (w[1] - w[0]) as usize).collect();
    let rows = c.rows()?;
    ensure!(rows == lens, "row lengths are {rows:?}, expected {lens:?}");
    Ok(())
}

/// A length around what is left.
fn length<C: Lists>(case: &mut Case, left: i128) -> usize {
    let left = left as usize;
    let r = &mut case.rng;
    let n = match r.below(14) {
        0 | 1 => left,
        2 => left.wrapping_add(1),
        3 => left.wrapping_sub(1),
        4 => left.saturating_add(r.below(5)),
        5 => left / 2,
        6 => left - left / 2,
        7 => *r.pick(&[usize::MAX, usize::MAX - 1, usize::MAX / 2, usize::MAX / 2 + 1, usize::MAX / 2 + 2]),
        8 => *r.pick(&[shl(31), shl(31) - 1, shl(32), shl(32) - 1, shl(32) + 1, shl(63)]),
        // Lengths that come back into range when wrapped or cut.
        9 => shl(32).wrapping_add(r.below(9)),
        10 => shl(63).wrapping_add(r.below(9)),
        11 => 0usize.wrapping_sub(r.below(99)),
        _ => r.below(6),
    };
    if n > C::LONGEST { r.below(C::LONGEST.min(40)) } else { n }
}

fn subject<C: Lists>(case: &mut Case) -> Res
where
    C: Extend<<C as Collection>::Owned>,
{
    let max = C::O::MAX;
    // Starts near the limit, usually.
    let mut ends: Vec<i128> = Vec::new();
    let mut at: i128 = 0;
    for _ in 0..case.rng.below(5) {
        at += match case.rng.below(3) {
            0 => 0,
            1 => case.rng.below(9) as i128,
            _ => (max - at) / 2,
        };
        ends.push(at);
    }
    if case.rng.below(5) > 0 {
        at = at.max(max - case.rng.below(60) as i128);
        ends.push(at);
    }
    case.nontrivial();
    ends.iter().for_each(|e| case.fp(*e as u64));
    case.trace(|| format!("start {ends:?}"));
    let mut c = C::start(&ends);
    check(&c, &ends, false).map_err(|e| format!("start: {e}"))?;
    let mut committed = false;
    for step in 0..case.rng.range(2, 8) {
        let mut lens = Vec::new();
        let mut after = ends.clone();
        let mut fits = true;
        let mut chosen_left = max - *ends.last().unwrap_or(&0);
        for _ in 0..case.rng.range(1, 4) {
            let n = length::<C>(case, chosen_left);
            case.fp(n as u64);
            lens.push(n);
            if fits {
                let end = *after.last().unwrap_or(&0) + n as i128;
                if end <= max {
                    after.push(end);
                    chosen_left = max - end;
                } else {
                    fits = false;
                    chosen_left = 3;
                }
            }
        }
        case.trace(|| format!("append {lens:?} at {:?}", ends.last()));
        let items: Vec<C::Owned> = lens.iter().map(|n| C::item(*n)).collect();
        let hint = *case.rng.pick(&HINTS);
        let source = Source::new(items, hint);
        let end = ends.last().copied();
        let at = |e: String| format!("step {step}, appending lists of {lens:?} at {end:?}: {e}");
        if case.rng.coin() {
            let r = c.try_extend(source);
            ensure!(
                r.is_ok() == fits,
                "{}",
                at(format!("try_extend {} although the total {}", if r.is_ok() { "succeeded" } else { "failed" }, if fits { "fits" } else { "does not fit" }))
            );
            if fits {
                ends = after;
            }
            committed &= !fits;
            check(&c, &ends, committed).map_err(at)?;
            case.count(if fits { "fallible_accepted" } else { "fallible_refused" }, 1);
        } else {
            let r = caught(|| c.extend(source));
            if fits {
                r.map_err(|e| format!("step {step}: {e} although the lists of {lens:?} at {:?} fit", ends.last()))?;
                ends = after;
                committed = false;
                check(&c, &ends, false).map_err(|e| format!("step {step}, after lists of {lens:?}: {e}"))?;
                case.count("infallible_accepted", 1);
            } else {
                ensure!(r.is_err(), "{}", at("no panic although the total does not fit".into()));
                // Some prefix of the lists that fit may have been stored.
                let n = Length::len(&c);
                ensure!(n >= ends.len() && n <= after.len(), "{}", at(format!("{n} rows after the panic")));
                after.truncate(n);
                ends = after;
                committed = true;
                check(&c, &ends, true).map_err(|e| format!("step {step}, after the panic on {lens:?}: {e}"))?;
                case.count("infallible_refused", 1);
            }
        }
        if *ends.last().unwrap_or(&0) == max {
            case.count("exactly_full", 1);
        }
        if case.rng.below(3) == 0 {
            let k = case.rng.below(ends.len() + 1);
            let cut = k < ends.len();
            CollectionRealloc::truncate(&mut c, k);
            ends.truncate(k);
            committed &= !cut;
            check(&c, &ends, committed).map_err(|e| format!("step {step}, truncated to {k}: {e}"))?;
        }
    }
    Ok(())
}

/// Constructing whole collections past the limit.
fn construct<O: Width>(case: &mut Case) -> Res {
    let mut lens = Vec::new();
    let mut total = 0i128;
    for _ in 0..case.rng.range(1, 5) {
        let left = (O::MAX - total).max(0);
        let n = length::<Plain<O>>(case, left);
        case.fp(n as u64);
        total += n as i128;
        lens.push(n);
    }
    case.nontrivial();
    case.trace(|| format!("construct {lens:?}"));
    let fits = total <= O::MAX;
    let items: Vec<Virt> = lens.iter().map(|len| Virt { len: *len }).collect();
    let mut ends = Vec::new();
    let mut at = 0;
    for n in &lens {
        at += *n as i128;
        ends.push(at);
    }
    let hint = *case.rng.pick(&HINTS);
    let got: Result<Plain<O>, String> = match case.rng.below(3) {
        0 => caught(|| Source::new(items, hint).collect()),
        1 => caught(|| Plain::<O>::from_iter_in(Source::new(items, hint), ())),
        _ => match caught(|| Plain::<O>::try_from_iter_in(Source::new(items, hint), ())) {
            Ok(r) => r.map_err(|e| e.to_string()),
            Err(e) => return Err(format!("fallible construction panicked: {e}")),
        },
    };
    ensure!(got.is_ok() == fits, "construction of {lens:?}: accepted {}, fits {fits}", got.is_ok());
    case.count(if fits { "constructions_accepted" } else { "constructions_refused" }, 1);
    match got {
        Ok(c) => check(&c, &ends, false),
        Err(_) => Ok(()),
    }
}

/// Real bits: a list of 2^31 - 1 minus a few of them, then appends.
fn real_bits(case: &mut Case) -> Res {
    let max = i32::MAX as usize;
    let missing = case.rng.below(20);
    let start = max - missing;
    case.fp(missing as u64);
    case.nontrivial();
    let b = Bitmap::<VecBuffer>::try_from_parts(vec![0u8; max.div_ceil(8)], start, 0).map_err(|e| e.to_string())?;
    let mut c = Offsets::<Bitmap, i32>::try_from_parts(b, vec![0, start as i32]).map_err(|e| e.to_string())?;
    let mut left = missing;
    let mut rows: Vec<Vec<bool>> = Vec::new();
    for _ in 0..6 {
        let n = match case.rng.below(4) {
            0 => left,
            1 => left + 1,
            2 => left + 1 + case.rng.below(9),
            _ => case.rng.below(left + 1),
        };
        case.fp(n as u64);
        case.trace(|| format!("{left} left, appending {n}"));
        let row: Vec<bool> = (0..n).map(|_| case.rng.coin()).collect();
        let ok = if case.rng.coin() {
            c.try_extend([row.clone()]).is_ok()
        } else {
            caught(|| c.extend([row.clone()])).is_ok()
        };
        ensure!(ok == (n <= left), "appending {n} bits with {left} left: accepted {ok}");
        if ok {
            left -= n;
            rows.push(row);
        }
        ensure!(Length::len(&c) == rows.len() + 1, "length is {}", Length::len(&c));
        for (i, w) in rows.iter().enumerate() {
            let got = c.owned(i + 1).ok_or("missing row")?;
            ensure!(got == *w, "row {} is {got:?}, expected {w:?}", i + 1);
        }
        ensure!(Length::len(&c.view(0).ok_or("missing row")?) == start, "first row changed");
        case.count("real_bit_appends", 1);
    }
    Ok(())
}

fn main() {
    let subjects = vec![
        Subject::new("plain i32", 600, subject::<Plain<i32>>),
        Subject::new("plain i64", 600, subject::<Plain<i64>>),
        Subject::new("nullable i32", 300, subject::<Nulls<i32>>),
        Subject::new("nullable i64", 300, subject::<Nulls<i64>>),
        Subject::new("pairs i32", 300, subject::<Pairs<i32>>),
        Subject::new("pairs i64", 300, subject::<Pairs<i64>>),
        Subject::new("array of byte-less items", 300, subject::<Array<Vec<Zst>, VecBuffer>>),
        Subject::new("wide byte-less items", 300, subject::<Offsets<Vec<Zst>, i64>>),
        Subject::new("construct i32", 300, construct::<i32>),
        Subject::new("construct i64", 300, construct::<i64>),
        Subject::new("real bits", 1, |c| if c.idx < 12 { real_bits(c) } else { Ok(()) }),
    ];
    vh::run::main(Plan {
        id: "C15",
        rule: "a case = a collection of lists started at or near the largest representable end position (children without storage, children of byte-less items, or real bits) and 2-8 appends of batches whose lengths sit around the room left, around powers of two and at the top of the range, fallible and infallible, from sources with any size hint; after every append offsets, lengths and views are compared with exact 128-bit arithmetic; distinct = by start, lengths and operations",
        subjects,
        exhaustive: false,
    });
}
