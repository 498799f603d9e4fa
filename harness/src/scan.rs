//! Reading collections to the last byte without asking for any memory, so
//! that every request seen meanwhile is the library's.

use crate::coll::{Coll, Opt, SameView};
use crate::rng::{Fp, Rng};
use crate::storage::{FaultVec, SmallVec};
use crate::val::{Val, ViewVal};
use narrow::array::Array;
use narrow::bitmap::{Bitmap, ValidityBitmap};
use narrow::buffer::{Buffer, BufferRef};
use narrow::collection::flatten::Flatten;
use narrow::collection::view::AsView;
use narrow::collection::{ChildRef, Collection};
use narrow::fixed_size::{FixedSize, FixedSizeArray};
use narrow::layout::ArrayItem;
use narrow::layout::boolean::Boolean;
use narrow::layout::fixed_size_list::FixedSizeList;
use narrow::layout::fixed_size_primitive::FixedSizePrimitive;
use narrow::layout::variable_size_list::VariableSizeList;
use narrow::length::Length;
use narrow::nullability::Nullability;
use narrow::offset::{Offset, Offsets};
use narrow::validity::Validity;
use std::borrow::Borrow;
use std::rc::Rc;
use std::sync::Arc;

/// A read under way.
#[derive(Debug)]
pub struct Scan {
    pub rng: Rng,
    pub fp: Fp,
    pub reads: u64,
    pub walks: [u64; WALKS],
    pub queries: u64,
    pub buffers: u64,
}
impl Scan {
    pub fn new(rng: Rng) -> Self {
        Scan { rng, fp: Fp::default(), reads: 0, walks: [0; WALKS], queries: 0, buffers: 0 }
    }
}
const WALKS: usize = 6;

/// Views whose items can be fingerprinted where they are.
pub trait FpView: ViewVal {
    fn fp_view<'a>(view: <Self as AsView<'a>>::View, s: &mut Scan);
}
macro_rules! scalar {
    ($($t:ty),*) => { $( impl FpView for $t {
        fn fp_view<'a>(view: <Self as AsView<'a>>::View, s: &mut Scan) { s.reads += 1; view.fp(&mut s.fp); }
    } )* };
}
scalar!(bool, u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, f32, f64);
impl<T: FixedSize + Val, const N: usize> FpView for FixedSizeArray<T, N> {
    fn fp_view<'a>(view: <Self as AsView<'a>>::View, s: &mut Scan) {
        s.reads += 1;
        view.fp(&mut s.fp);
    }
}
impl<T: FpView> FpView for Option<T> {
    fn fp_view<'a>(view: <Self as AsView<'a>>::View, s: &mut Scan) {
        match view {
            None => s.fp.add(3),
            Some(v) => {
                s.fp.add(5);
                T::fp_view(v, s);
            }
        }
    }
}
impl<T: Val, const N: usize> FpView for [T; N] {
    fn fp_view<'a>(view: <Self as AsView<'a>>::View, s: &mut Scan) {
        s.reads += 1;
        view.fp(&mut s.fp);
    }
}
impl<T: Val> FpView for Vec<T> {
    fn fp_view<'a>(view: <Self as AsView<'a>>::View, s: &mut Scan) {
        s.reads += 1;
        s.fp.add(13 + view.len() as u64);
        view.iter().for_each(|v| v.fp(&mut s.fp));
    }
}

/// What a list of this kind adds to a fingerprint before its items.
pub trait Tag {
    const TAG: u64;
}
impl<T> Tag for Vec<T> {
    const TAG: u64 = 13;
}
impl<T> Tag for Box<[T]> {
    const TAG: u64 = 17;
}

/// A collection that can be read without memory.
pub trait Read: Coll {
    /// Fingerprints a row as [`Val::fp`] does.
    fn scan_view<'a>(view: Self::View<'a>, s: &mut Scan)
    where
        Self: 'a;
    /// Asks for everything besides the rows.
    fn scan_parts(&self, s: &mut Scan);
    /// Asks for everything besides the contents of row `i`.
    fn touch(&self, _i: usize) {}
}

/// Every row through `view` or an iterator, in order.
fn walk<'a, V, I: Iterator<Item = V>>(
    len: usize,
    view: impl Fn(usize) -> Option<V>,
    iter: impl Fn() -> I,
    s: &mut Scan,
    each: impl Fn(V, &mut Scan) + 'a,
) {
    let how = s.rng.below(WALKS);
    s.walks[how] += 1;
    match how {
        0 => {
            for i in 0..len {
                each(view(i).expect("a row"), s);
            }
        }
        1 => {
            for v in iter() {
                each(v, s);
            }
        }
        2 => iter().fold((), |(), v| each(v, s)),
        3 => {
            let mut it = iter();
            assert_eq!(it.size_hint(), (len, Some(len)));
            while let Some(v) = it.nth(0) {
                each(v, s);
            }
            assert_eq!(it.size_hint(), (0, Some(0)));
        }
        4 => {
            // The first rows one way, the others another.
            let k = s.rng.below(len + 1);
            let mut it = iter();
            for _ in 0..k {
                each(it.next().expect("a row"), s);
            }
            it.for_each(|v| each(v, s));
        }
        _ => {
            // By an iterator for each of some rows.
            let step = 1 + len / 8;
            let mut i = 0;
            while i < len {
                let mut it = iter();
                let mut next = it.nth(i);
                for _ in 0..step {
                    let Some(v) = next else { break };
                    each(v, s);
                    i += 1;
                    next = it.next();
                }
            }
        }
    }
    match s.rng.below(5) {
        0 => assert_eq!(iter().count(), len),
        1 => assert_eq!(iter().last().is_some(), len > 0),
        2 => assert!(iter().nth(len).is_none()),
        3 => assert!(view(len).is_none() && view(usize::MAX).is_none()),
        _ => {}
    }
}

/// Fingerprints a collection as [`crate::val::fp_all`] does its items.
pub fn scan<C: Read>(c: &C, s: &mut Scan) {
    let len = Length::len(c);
    assert_eq!(c.is_empty(), len == 0);
    s.fp.add(len as u64);
    walk(len, |i| c.view(i), || c.iter_views(), s, |v, s| C::scan_view(v, s));
    c.scan_parts(s);
}

fn bytes<T>(b: &[T], s: &mut Scan) {
    s.buffers += 1;
    std::hint::black_box(b.as_ptr());
    s.queries += b.len().min(1) as u64;
}

macro_rules! leaf {
    ($([$($g:tt)*] $t:ty, $item:ty);* $(;)?) => { $(
        impl<$($g)*> Read for $t where $t: Coll, for<'x> $t: Collection<View<'x> = <$item as AsView<'x>>::View> {
            fn scan_view<'a>(view: Self::View<'a>, s: &mut Scan) where Self: 'a {
                <$item as FpView>::fp_view(view, s)
            }
            fn scan_parts(&self, s: &mut Scan) {
                let b: &[$item] = self.borrow();
                bytes(b, s);
            }
        }
    )* };
}
leaf! {
    [T: FpView] Vec<T>, T;
    [T: FpView] Box<[T]>, T;
    [T: FpView] Rc<[T]>, T;
    [T: FpView] Arc<[T]>, T;
    [T: FpView, const N: usize] [T; N], T;
}
impl<T: FpView> Read for &'static [T] {
    fn scan_view<'a>(view: Self::View<'a>, s: &mut Scan)
    where
        Self: 'a,
    {
        T::fp_view(view, s);
    }
    fn scan_parts(&self, s: &mut Scan) {
        bytes(self, s);
    }
}
macro_rules! own {
    ($($t:ident),*) => { $(
        impl<T: FixedSize + Val> Read for $t<T> {
            fn scan_view<'a>(view: Self::View<'a>, s: &mut Scan) where Self: 'a {
                s.reads += 1;
                view.fp(&mut s.fp);
            }
            fn scan_parts(&self, s: &mut Scan) {
                let b: &[T] = self.borrow();
                bytes(b, s);
            }
        }
    )* };
}
own!(FaultVec, SmallVec);

impl<S: Buffer> Read for Bitmap<S> {
    fn scan_view<'a>(view: bool, s: &mut Scan)
    where
        Self: 'a,
    {
        s.reads += 1;
        view.fp(&mut s.fp);
    }
    fn scan_parts(&self, s: &mut Scan) {
        bytes::<u8>(self.buffer_ref().borrow(), s);
        std::hint::black_box(self.bit_offset());
    }
}

impl<C: Read + 'static, S: Buffer + 'static> Read for Validity<C, S>
where
    Validity<C, S>: Coll + Collection<Owned = Option<C::Owned>>,
{
    fn scan_view<'a>(view: Self::View<'a>, s: &mut Scan)
    where
        Self: 'a,
    {
        match <Self as Opt<'a, C>>::opt(view) {
            None => s.fp.add(3),
            Some(v) => {
                s.fp.add(5);
                C::scan_view(v, s);
            }
        }
    }
    fn touch(&self, i: usize) {
        std::hint::black_box((self.is_null(i), self.is_valid(i), self.bitmap_ref().is_some()));
        self.child_ref().touch(i);
    }
    fn scan_parts(&self, s: &mut Scan) {
        let n = Length::len(self);
        let nulls = self.null_count();
        assert_eq!(self.valid_count() + nulls, n);
        assert_eq!(self.any_null(), nulls > 0);
        assert_eq!(self.all_null(), nulls == n);
        assert_eq!(self.any_valid(), nulls < n);
        assert_eq!(self.all_valid(), nulls == 0);
        let step = 1 + n / 64;
        for i in (0..n).step_by(step) {
            assert_eq!(self.is_null(i), self.is_valid(i).map(|v| !v));
        }
        assert!(self.is_null(n).is_none() && self.is_valid(usize::MAX).is_none());
        s.queries += 9 + (n / step) as u64;
        if let Some(b) = self.bitmap_ref() {
            b.scan_parts(s);
        }
        self.child_ref().scan_parts(s);
    }
}

impl<C: Read + 'static, const N: usize> Read for Flatten<C, N> {
    fn scan_view<'a>(view: Self::View<'a>, s: &mut Scan)
    where
        Self: 'a,
    {
        s.fp.add(11);
        for i in 0..N {
            C::scan_view(view[i], s);
        }
    }
    fn touch(&self, i: usize) {
        self.child_ref().touch(i);
    }
    fn scan_parts(&self, s: &mut Scan) {
        self.child_ref().scan_parts(s);
    }
}

impl<T: Read + 'static, O: Offset, S: Buffer + 'static, U: Tag> Read for Offsets<T, O, S, U>
where
    U: crate::val::ListVal<Item = T::Owned> + FromIterator<T::Owned>,
{
    fn scan_view<'a>(view: Self::View<'a>, s: &mut Scan)
    where
        Self: 'a,
    {
        let len = Length::len(&view);
        assert_eq!(view.is_empty(), len == 0);
        s.fp.add(U::TAG + len as u64);
        let copy = view;
        walk(len, |i| copy.view(i), || view.iter_views(), s, |v, s| T::scan_view(v, s));
    }
    fn touch(&self, i: usize) {
        self.child_ref().touch(i);
    }
    fn scan_parts(&self, s: &mut Scan) {
        bytes::<O>(self.buffer_ref().borrow(), s);
        self.child_ref().scan_parts(s);
    }
}

macro_rules! wrapper {
    ($([$($g:tt)*] $t:ty, $inner:ty);* $(;)?) => { $(
        impl<$($g)*> Read for $t
        where
            $inner: Read,
            $t: Coll + Collection<Owned = <$inner as Collection>::Owned>,
            for<'x> $t: SameView<'x, $inner>,
        {
            fn scan_view<'a>(view: Self::View<'a>, s: &mut Scan) where Self: 'a {
                <$inner as Read>::scan_view(<$t as SameView<'a, $inner>>::inner(view), s)
            }
            fn touch(&self, i: usize) {
                self.buffer_ref().touch(i);
            }
            fn scan_parts(&self, s: &mut Scan) {
                self.buffer_ref().scan_parts(s);
            }
        }
    )* };
}
wrapper! {
    [Nulls: Nullability + 'static, S: Buffer + 'static] Boolean<Nulls, S>, Nulls::Collection<Bitmap<S>, S>;
    [T: FixedSize, Nulls: Nullability + 'static, S: Buffer + 'static] FixedSizePrimitive<T, Nulls, S>, Nulls::Collection<S::For<T>, S>;
    [T: ArrayItem + 'static, const N: usize, Nulls: Nullability + 'static, S: Buffer + 'static] FixedSizeList<T, N, Nulls, S>, Nulls::Collection<Flatten<T::Memory<S>, N>, S>;
    [T: ArrayItem + 'static, Nulls: Nullability + 'static, O: Offset, S: Buffer + 'static] VariableSizeList<T, Nulls, O, S>, Nulls::Collection<Offsets<T::Memory<S>, O, S>, S>;
    [T: ArrayItem + 'static, S: Buffer + 'static] Array<T, S>, T::Memory<S>;
}
