//! Which allocator every buffer of a collection belongs to.

use crate::storage::{FaultBuf, FaultVec};
use narrow::array::Array;
use narrow::bitmap::{Bitmap, ValidityBitmap};
use narrow::buffer::BufferRef;
use narrow::collection::flatten::Flatten;
use narrow::collection::{ChildRef, Collection};
use narrow::fixed_size::FixedSize;
use narrow::layout::ArrayItem;
use narrow::layout::boolean::Boolean;
use narrow::layout::fixed_size_list::FixedSizeList;
use narrow::layout::fixed_size_primitive::FixedSizePrimitive;
use narrow::layout::variable_size_list::VariableSizeList;
use narrow::nullability::Nullability;
use narrow::offset::{Offset, Offsets};
use narrow::validity::Validity;

pub trait Owners {
    /// The allocator of every buffer, outermost first.
    fn owners(&self, out: &mut Vec<u32>);
}
pub fn owners<C: Owners>(c: &C) -> Vec<u32> {
    let mut v = Vec::new();
    c.owners(&mut v);
    v
}

impl<T: FixedSize> Owners for FaultVec<T> {
    fn owners(&self, out: &mut Vec<u32>) {
        out.push(self.handle().0.id);
    }
}
impl Owners for Bitmap<FaultBuf> {
    fn owners(&self, out: &mut Vec<u32>) {
        self.buffer_ref().owners(out);
    }
}
impl<C: Collection + Owners> Owners for Validity<C, FaultBuf> {
    fn owners(&self, out: &mut Vec<u32>) {
        if let Some(b) = self.bitmap_ref() {
            b.owners(out);
        }
        self.child_ref().owners(out);
    }
}
impl<C: Collection + Owners, const N: usize> Owners for Flatten<C, N> {
    fn owners(&self, out: &mut Vec<u32>) {
        self.child_ref().owners(out);
    }
}
impl<C: Collection + Owners, O: Offset, U> Owners for Offsets<C, O, FaultBuf, U> {
    fn owners(&self, out: &mut Vec<u32>) {
        self.buffer_ref().owners(out);
        self.child_ref().owners(out);
    }
}
macro_rules! layout {
    ($([$($g:tt)*] $t:ty, $inner:ty);* $(;)?) => { $(
        impl<$($g)*> Owners for $t where $inner: Owners {
            fn owners(&self, out: &mut Vec<u32>) { self.buffer_ref().owners(out) }
        }
    )* };
}
layout! {
    [Nulls: Nullability] Boolean<Nulls, FaultBuf>, Nulls::Collection<Bitmap<FaultBuf>, FaultBuf>;
    [T: FixedSize, Nulls: Nullability] FixedSizePrimitive<T, Nulls, FaultBuf>, Nulls::Collection<FaultVec<T>, FaultBuf>;
    [T: ArrayItem, const N: usize, Nulls: Nullability] FixedSizeList<T, N, Nulls, FaultBuf>, Nulls::Collection<Flatten<T::Memory<FaultBuf>, N>, FaultBuf>;
    [T: ArrayItem, Nulls: Nullability, O: Offset] VariableSizeList<T, Nulls, O, FaultBuf>, Nulls::Collection<Offsets<T::Memory<FaultBuf>, O, FaultBuf>, FaultBuf>;
    [T: ArrayItem] Array<T, FaultBuf>, T::Memory<FaultBuf>;
}
