//! Logical values: generation, bitwise comparison, fingerprints.

use crate::rng::{Fp, Rng};
use narrow::collection::view::AsView;
use narrow::fixed_size::{FixedSize, FixedSizeArray};
use std::fmt::Debug;

/// Shape of generated values.
#[derive(Clone, Debug)]
pub struct Dist {
    /// Probability of a null.
    pub null: f64,
    /// Probability of an extreme scalar.
    pub special: f64,
    /// Largest list length.
    pub list_max: usize,
    /// Probability of an empty list.
    pub empty: f64,
    /// Probability of `true`.
    pub truth: f64,
    /// Rarely, lists of tens of thousands of items.
    pub giants: bool,
}

impl Dist {
    pub fn random(rng: &mut Rng) -> Self {
        Dist {
            null: *rng.pick(&[0.0, 0.05, 0.3, 0.3, 0.5, 0.9, 1.0]),
            special: *rng.pick(&[0.0, 0.2, 0.6]),
            list_max: *rng.pick(&[1, 2, 3, 3, 5, 9, 20]),
            empty: *rng.pick(&[0.0, 0.1, 0.3, 0.7, 1.0]),
            truth: *rng.pick(&[0.0, 0.1, 0.5, 0.5, 0.9, 1.0]),
            giants: true,
        }
    }
    /// Variable-size parts are always empty.
    pub fn hollow(rng: &mut Rng) -> Self {
        Dist {
            list_max: 0,
            empty: 1.0,
            ..Dist::random(rng)
        }
    }
    pub fn plain() -> Self {
        Dist {
            null: 0.3,
            special: 0.2,
            list_max: 3,
            empty: 0.3,
            truth: 0.5,
            giants: false,
        }
    }
    fn deeper(&self) -> Self {
        Dist {
            list_max: if self.list_max > 3 { self.list_max / 2 } else { self.list_max },
            ..self.clone()
        }
    }
}

pub trait Val: Clone + Debug + 'static {
    fn sample(rng: &mut Rng, d: &Dist) -> Self;
    /// Bit for bit equality.
    fn same(&self, other: &Self) -> bool;
    fn fp(&self, h: &mut Fp);
    /// Rough relative cost of a value, used to bound workloads.
    const COST: usize;
    /// Whether the value contains variable-size lists.
    const LISTS: bool;
}

macro_rules! scalar {
    ($($t:ty: $bits:expr, [$($s:expr),*]);* $(;)?) => { $(
        impl Val for $t {
            fn sample(rng: &mut Rng, d: &Dist) -> Self {
                if rng.chance(d.special) {
                    let s: &[$t] = &[$($s),*];
                    return *rng.pick(s);
                }
                let hi = rng.u64() as u128;
                let lo = rng.u64() as u128;
                let raw: u128 = (hi << 64) | lo;
                #[allow(clippy::redundant_closure_call)]
                ($bits)(raw)
            }
            fn same(&self, other: &Self) -> bool { self.to_ne_bytes() == other.to_ne_bytes() }
            fn fp(&self, h: &mut Fp) { for b in self.to_ne_bytes() { h.add(u64::from(b)); } }
            const COST: usize = 1;
            const LISTS: bool = false;
        }
        impl ViewVal for $t {
            fn same_view<'a>(view: <Self as AsView<'a>>::View, want: &Self) -> bool { view.same(want) }
        }
    )* };
}
scalar! {
    u8: |r| r as u8, [0, 1, 127, 128, 255, 0x55];
    u16: |r| r as u16, [0, 1, 255, 256, u16::MAX];
    u32: |r| r as u32, [0, 1, 65536, u32::MAX];
    u64: |r| r as u64, [0, 1, 1 << 32, u64::MAX];
    u128: |r| r, [0, 1, 1 << 64, u128::MAX];
    usize: |r| r as usize, [0, 1, usize::MAX];
    i8: |r| r as i8, [0, 1, -1, i8::MIN, i8::MAX];
    i16: |r| r as i16, [0, -1, i16::MIN, i16::MAX];
    i32: |r| r as i32, [0, 1, -1, i32::MIN, i32::MAX];
    i64: |r| r as i64, [0, -1, i64::MIN, i64::MAX];
    i128: |r| r as i128, [0, -1, i128::MIN, i128::MAX];
    isize: |r| r as isize, [0, -1, isize::MIN, isize::MAX];
    f32: |r| f32::from_bits(r as u32), [0.0, -0.0, f32::NAN, -f32::NAN, f32::INFINITY, f32::MIN_POSITIVE, f32::from_bits(0x7f80_0001), f32::from_bits(1)];
    f64: |r| f64::from_bits(r as u64), [0.0, -0.0, f64::NAN, -f64::NAN, f64::NEG_INFINITY, f64::MIN_POSITIVE, f64::from_bits(0x7ff0_0000_0000_0001), f64::from_bits(1)];
}

impl Val for bool {
    fn sample(rng: &mut Rng, d: &Dist) -> Self {
        rng.chance(d.truth)
    }
    fn same(&self, other: &Self) -> bool {
        self == other
    }
    fn fp(&self, h: &mut Fp) {
        h.add(u64::from(*self) + 7);
    }
    const COST: usize = 1;
    const LISTS: bool = false;
}

impl<T: FixedSize + Val, const N: usize> Val for FixedSizeArray<T, N> {
    fn sample(rng: &mut Rng, d: &Dist) -> Self {
        std::array::from_fn(|_| T::sample(rng, d)).into()
    }
    fn same(&self, other: &Self) -> bool {
        (0..N).all(|i| self[i].same(&other[i]))
    }
    fn fp(&self, h: &mut Fp) {
        for i in 0..N {
            self[i].fp(h);
        }
    }
    const COST: usize = 1 + N;
    const LISTS: bool = false;
}

impl<T: Val> Val for Option<T> {
    fn sample(rng: &mut Rng, d: &Dist) -> Self {
        if rng.chance(d.null) {
            None
        } else {
            Some(T::sample(rng, d))
        }
    }
    fn same(&self, other: &Self) -> bool {
        match (self, other) {
            (None, None) => true,
            (Some(a), Some(b)) => a.same(b),
            _ => false,
        }
    }
    fn fp(&self, h: &mut Fp) {
        match self {
            None => h.add(3),
            Some(v) => {
                h.add(5);
                v.fp(h);
            }
        }
    }
    const COST: usize = T::COST + 1;
    const LISTS: bool = T::LISTS;
}

impl<T: Val, const N: usize> Val for [T; N] {
    fn sample(rng: &mut Rng, d: &Dist) -> Self {
        std::array::from_fn(|_| T::sample(rng, d))
    }
    fn same(&self, other: &Self) -> bool {
        self.iter().zip(other).all(|(a, b)| a.same(b))
    }
    fn fp(&self, h: &mut Fp) {
        h.add(11);
        self.iter().for_each(|v| v.fp(h));
    }
    const COST: usize = 1 + N * T::COST;
    const LISTS: bool = T::LISTS;
}

fn sample_list<T: Val>(rng: &mut Rng, d: &Dist) -> Vec<T> {
    let n = if d.list_max == 0 || rng.chance(d.empty) {
        0
    } else {
        match rng.below(50_000) {
            // Lists longer than any short counter.
            0 if d.giants && !cfg!(miri) && T::COST <= 2 => *rng.pick(&[65_535, 65_536, 65_537, 70_000]),
            1..=30 if d.giants && !cfg!(miri) && T::COST <= 6 => *rng.pick(&[127, 128, 255, 256, 257, 300, 1023, 1024, 1025]),
            _ => rng.range(1, d.list_max),
        }
    };
    let d = d.deeper();
    (0..n).map(|_| T::sample(rng, &d)).collect()
}

fn same_list<T: Val>(a: &[T], b: &[T]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a.same(b))
}

impl<T: Val> Val for Vec<T> {
    fn sample(rng: &mut Rng, d: &Dist) -> Self {
        sample_list(rng, d)
    }
    fn same(&self, other: &Self) -> bool {
        same_list(self, other)
    }
    fn fp(&self, h: &mut Fp) {
        h.add(13 + self.len() as u64);
        self.iter().for_each(|v| v.fp(h));
    }
    const COST: usize = 2 + 3 * T::COST;
    const LISTS: bool = true;
}

impl<T: Val> Val for Box<[T]> {
    fn sample(rng: &mut Rng, d: &Dist) -> Self {
        sample_list(rng, d).into_boxed_slice()
    }
    fn same(&self, other: &Self) -> bool {
        same_list(self, other)
    }
    fn fp(&self, h: &mut Fp) {
        h.add(17 + self.len() as u64);
        self.iter().for_each(|v| v.fp(h));
    }
    const COST: usize = 2 + 3 * T::COST;
    const LISTS: bool = true;
}

/// A list-like owned value.
pub trait ListVal: Val {
    type Item: Val;
    fn items(&self) -> &[Self::Item];
}
impl<T: Val> ListVal for Vec<T> {
    type Item = T;
    fn items(&self) -> &[T] {
        self
    }
}
impl<T: Val> ListVal for Box<[T]> {
    type Item = T;
    fn items(&self) -> &[T] {
        self
    }
}

/// Values that live directly in contiguous storage.
pub trait ViewVal: Val + for<'a> AsView<'a> {
    fn same_view<'a>(view: <Self as AsView<'a>>::View, want: &Self) -> bool;
}
impl ViewVal for bool {
    fn same_view<'a>(view: <Self as AsView<'a>>::View, want: &Self) -> bool {
        view == *want
    }
}
impl<T: FixedSize + Val, const N: usize> ViewVal for FixedSizeArray<T, N> {
    fn same_view<'a>(view: <Self as AsView<'a>>::View, want: &Self) -> bool {
        view.same(want)
    }
}
impl<T: ViewVal> ViewVal for Option<T> {
    fn same_view<'a>(view: <Self as AsView<'a>>::View, want: &Self) -> bool {
        match (view, want) {
            (None, None) => true,
            (Some(v), Some(w)) => T::same_view(v, w),
            _ => false,
        }
    }
}
impl<T: Val, const N: usize> ViewVal for [T; N] {
    fn same_view<'a>(view: <Self as AsView<'a>>::View, want: &Self) -> bool {
        view.same(want)
    }
}
impl<T: Val> ViewVal for Vec<T> {
    fn same_view<'a>(view: <Self as AsView<'a>>::View, want: &Self) -> bool {
        same_list(view, want)
    }
}

pub fn sample_n<T: Val>(rng: &mut Rng, d: &Dist, n: usize) -> Vec<T> {
    (0..n).map(|_| T::sample(rng, d)).collect()
}

pub fn fp_all<T: Val>(items: &[T], h: &mut Fp) {
    h.add(items.len() as u64);
    items.iter().for_each(|v| v.fp(h));
}

/// A number of rows, biased towards word, byte and chunk boundaries and scaled
/// by the cost of a value.
pub fn sample_len(rng: &mut Rng, cost: usize) -> usize {
    let r = rng.below(100);
    let n = match r {
        0..=7 => 0,
        8..=14 => 1,
        15..=54 => rng.range(2, 12),
        55..=64 => *rng.pick(&[7, 8, 9, 15, 16, 17]),
        65..=84 => rng.range(13, 70),
        85..=92 => *rng.pick(&[63, 64, 65, 127, 128, 129]),
        93..=96 => *rng.pick(&[1023, 1024, 1025, 255, 256, 257, 511, 513]),
        97 => *rng.pick(&[2047, 2048, 2049]),
        98 if !cfg!(miri) && cost <= 12 && rng.below(12) == 0 => {
            // More rows than any short counter counts.
            let n = *rng.pick(&[4095, 4096, 4097, 8191, 8192, 8193, 16_384, 16_385, 32_767, 32_768, 32_769, 65_535, 65_536, 65_537, 70_001, 131_073]);
            return if n * cost > 300_000 { 65_600 / cost } else { n };
        }
        _ => rng.range(100, 600),
    };
    if n * cost > 20_000 { n % 64 } else { n }
}

/// Rarely, more rows than a short count of the bytes of their bits.
pub fn vast_len(rng: &mut Rng, one_in: usize, cost: usize) -> Option<usize> {
    (!cfg!(miri) && cost <= 2 && rng.below(one_in) == 0).then(|| *rng.pick(&[524_280, 524_287, 524_288, 524_297, 530_001, 600_000]))
}

/// Short rows count.
pub fn sample_small(rng: &mut Rng) -> usize {
    match rng.below(10) {
        0 => 0,
        1 => 1,
        2..=6 => rng.range(2, 10),
        7 => *rng.pick(&[7, 8, 9, 15, 16, 17]),
        _ => rng.range(5, 40),
    }
}

pub fn show<T: Debug>(items: &[T]) -> String {
    let s = format!("{items:?}");
    if s.len() > 400 {
        let mut cut = 400;
        while !s.is_char_boundary(cut) {
            cut -= 1;
        }
        format!("{}… ({} items)", &s[..cut], items.len())
    } else {
        s
    }
}
