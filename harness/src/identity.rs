//! Memory identity: where every buffer of a collection lives, and taking a
//! collection apart and putting it together again.

use crate::run::Res;
use crate::storage::{FaultVec, SmallVec};
use narrow::array::Array;
use narrow::bitmap::{Bitmap, ValidityBitmap};
use narrow::buffer::{Buffer, BufferRef};
use narrow::collection::flatten::Flatten;
use narrow::collection::{ChildRef, Collection};
use narrow::fixed_size::FixedSize;
use narrow::layout::ArrayItem;
use narrow::layout::boolean::Boolean;
use narrow::layout::fixed_size_list::FixedSizeList;
use narrow::layout::fixed_size_primitive::FixedSizePrimitive;
use narrow::layout::variable_size_binary::VariableSizeBinary;
use narrow::layout::variable_size_list::VariableSizeList;
use narrow::length::Length;
use narrow::nullability::Nullability;
use narrow::offset::{Offset, Offsets};
use narrow::validity::Validity;
use std::borrow::Borrow;
use std::rc::Rc;
use std::sync::Arc;

/// One buffer: address, bytes, and for bitmaps the bits and bit offset.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Place {
    pub addr: usize,
    pub bytes: usize,
    pub bits: usize,
    pub offset: usize,
}

pub trait Parts: Sized {
    /// Every buffer, outermost first.
    fn places(&self, out: &mut Vec<Place>);
    /// Takes everything apart and builds it again.
    fn rewrap(self) -> Res<Self>;
}

pub fn places<P: Parts>(p: &P) -> Vec<Place> {
    let mut v = Vec::new();
    p.places(&mut v);
    v
}

fn flat<T>(s: &[T], out: &mut Vec<Place>) {
    out.push(Place {
        addr: s.as_ptr() as usize,
        bytes: size_of_val(s),
        bits: 0,
        offset: 0,
    });
}

macro_rules! flat {
    ($([$($g:tt)*] $t:ty);* $(;)?) => { $(
        impl<$($g)*> Parts for $t {
            fn places(&self, out: &mut Vec<Place>) { flat(Borrow::<[T]>::borrow(self), out) }
            fn rewrap(self) -> Res<Self> { Ok(self) }
        }
    )* };
}
flat! { [T: FixedSize] Vec<T>; [T: FixedSize] Box<[T]>; [T: FixedSize] Rc<[T]>; [T: FixedSize] Arc<[T]>; [T: FixedSize] FaultVec<T>; [T: FixedSize] SmallVec<T> }
impl<T: FixedSize> Parts for &'static [T] {
    fn places(&self, out: &mut Vec<Place>) {
        flat(self, out);
    }
    fn rewrap(self) -> Res<Self> {
        Ok(self)
    }
}

impl<S: Buffer> Parts for Bitmap<S> {
    fn places(&self, out: &mut Vec<Place>) {
        let s: &[u8] = self.buffer_ref().borrow();
        out.push(Place {
            addr: s.as_ptr() as usize,
            bytes: s.len(),
            bits: Length::len(self),
            offset: self.bit_offset(),
        });
    }
    fn rewrap(self) -> Res<Self> {
        let (b, n, o) = self.into_parts();
        Bitmap::try_from_parts(b, n, o).map_err(|e| e.to_string())
    }
}
impl<C: Collection + Parts, S: Buffer> Parts for Validity<C, S> {
    fn places(&self, out: &mut Vec<Place>) {
        if let Some(b) = self.bitmap_ref() {
            b.places(out);
        }
        self.child_ref().places(out);
    }
    fn rewrap(self) -> Res<Self> {
        let (c, b) = self.into_parts();
        let c = c.rewrap()?;
        match b {
            Some(b) => Validity::try_from_parts(c, b.rewrap()?).map_err(|e| e.to_string()),
            None => Ok(Validity::from_collection(c)),
        }
    }
}
impl<C: Collection + Parts, const N: usize> Parts for Flatten<C, N> {
    fn places(&self, out: &mut Vec<Place>) {
        self.child_ref().places(out);
    }
    fn rewrap(self) -> Res<Self> {
        Flatten::try_from_parts(self.into_parts().rewrap()?).map_err(|e| e.to_string())
    }
}
impl<C: Collection + Parts, O: Offset, S: Buffer, U> Parts for Offsets<C, O, S, U> {
    fn places(&self, out: &mut Vec<Place>) {
        let s: &[O] = self.buffer_ref().borrow();
        flat(s, out);
        self.child_ref().places(out);
    }
    fn rewrap(self) -> Res<Self> {
        let (c, o) = self.into_parts();
        Offsets::try_from_parts(c.rewrap()?, o).map_err(|e| e.to_string())
    }
}

macro_rules! layout {
    ($([$($g:tt)*] $t:ty, $inner:ty);* $(;)?) => { $(
        impl<$($g)*> Parts for $t where $inner: Parts {
            fn places(&self, out: &mut Vec<Place>) { self.buffer_ref().places(out) }
            fn rewrap(self) -> Res<Self> { Ok(<$t>::from_buffer(self.into_buffer().rewrap()?)) }
        }
    )* };
}
layout! {
    [Nulls: Nullability, S: Buffer] Boolean<Nulls, S>, Nulls::Collection<Bitmap<S>, S>;
    [T: FixedSize, Nulls: Nullability, S: Buffer] FixedSizePrimitive<T, Nulls, S>, Nulls::Collection<S::For<T>, S>;
    [T: ArrayItem, const N: usize, Nulls: Nullability, S: Buffer] FixedSizeList<T, N, Nulls, S>, Nulls::Collection<Flatten<T::Memory<S>, N>, S>;
    [T: ArrayItem, Nulls: Nullability, O: Offset, S: Buffer] VariableSizeList<T, Nulls, O, S>, Nulls::Collection<Offsets<T::Memory<S>, O, S>, S>;
    [T: ArrayItem, S: Buffer] Array<T, S>, T::Memory<S>;
}
#[allow(dead_code)]
type Binary<N, O, S> = VariableSizeBinary<N, O, S>;
