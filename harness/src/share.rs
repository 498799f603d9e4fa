//! Further handles to the storage of a collection.

use narrow::array::Array;
use narrow::bitmap::{Bitmap, ValidityBitmap};
use narrow::buffer::{Buffer, BufferRef};
use narrow::collection::flatten::Flatten;
use narrow::collection::{ChildRef, Collection};
use narrow::fixed_size::FixedSize;
use narrow::layout::ArrayItem;
use narrow::layout::boolean::Boolean;
use narrow::layout::fixed_size_list::FixedSizeList;
use narrow::layout::fixed_size_primitive::FixedSizePrimitive;
use narrow::layout::variable_size_list::VariableSizeList;
use narrow::length::Length;
use narrow::nullability::Nullability;
use narrow::offset::{Offset, Offsets};
use narrow::validity::Validity;
use std::rc::Rc;
use std::sync::Arc;

pub trait Share: Sized {
    /// A second collection over the same memory.
    fn share(&self) -> Self;
}
macro_rules! cheap {
    ($($t:ty),*) => { $(
        impl<T: FixedSize> Share for $t {
            fn share(&self) -> Self { self.clone() }
        }
    )* };
}
cheap!(Rc<[T]>, Arc<[T]>, &'static [T]);

fn good<T, E: std::fmt::Display>(r: Result<T, E>) -> T {
    r.unwrap_or_else(|e| panic!("own parts are refused: {e}"))
}
impl<S: Buffer<For<u8>: Share>> Share for Bitmap<S> {
    fn share(&self) -> Self {
        good(Bitmap::try_from_parts(self.buffer_ref().share(), Length::len(self), self.bit_offset()))
    }
}
impl<C: Collection + Share, S: Buffer<For<u8>: Share>> Share for Validity<C, S> {
    fn share(&self) -> Self {
        let c = self.child_ref().share();
        match self.bitmap_ref() {
            Some(b) => good(Validity::try_from_parts(c, b.share())),
            None => Validity::from_collection(c),
        }
    }
}
impl<C: Collection + Share, const N: usize> Share for Flatten<C, N> {
    fn share(&self) -> Self {
        good(Flatten::try_from_parts(self.child_ref().share()))
    }
}
impl<C: Collection + Share, O: Offset, S: Buffer<For<O>: Share>, U> Share for Offsets<C, O, S, U> {
    fn share(&self) -> Self {
        good(Offsets::try_from_parts(self.child_ref().share(), self.buffer_ref().share()))
    }
}
macro_rules! layout {
    ($([$($g:tt)*] $t:ty, $inner:ty);* $(;)?) => { $(
        impl<$($g)*> Share for $t where $inner: Share {
            fn share(&self) -> Self { <$t>::from_buffer(self.buffer_ref().share()) }
        }
    )* };
}
layout! {
    [Nulls: Nullability, S: Buffer] Boolean<Nulls, S>, Nulls::Collection<Bitmap<S>, S>;
    [T: FixedSize, Nulls: Nullability, S: Buffer] FixedSizePrimitive<T, Nulls, S>, Nulls::Collection<S::For<T>, S>;
    [T: ArrayItem, const N: usize, Nulls: Nullability, S: Buffer] FixedSizeList<T, N, Nulls, S>, Nulls::Collection<Flatten<T::Memory<S>, N>, S>;
    [T: ArrayItem, Nulls: Nullability, O: Offset, S: Buffer] VariableSizeList<T, Nulls, O, S>, Nulls::Collection<Offsets<T::Memory<S>, O, S>, S>;
    [T: ArrayItem, S: Buffer] Array<T, S>, T::Memory<S>;
}

/// Owners of the memory of every buffer.
pub trait Strong {
    fn strong(&self, out: &mut Vec<usize>);
}
impl<T> Strong for Rc<[T]> {
    fn strong(&self, out: &mut Vec<usize>) {
        out.push(Rc::strong_count(self));
    }
}
impl<T> Strong for Arc<[T]> {
    fn strong(&self, out: &mut Vec<usize>) {
        out.push(Arc::strong_count(self));
    }
}
impl<S: Buffer<For<u8>: Strong>> Strong for Bitmap<S> {
    fn strong(&self, out: &mut Vec<usize>) {
        self.buffer_ref().strong(out);
    }
}
impl<C: Collection + Strong, S: Buffer<For<u8>: Strong>> Strong for Validity<C, S> {
    fn strong(&self, out: &mut Vec<usize>) {
        self.child_ref().strong(out);
        if let Some(b) = self.bitmap_ref() {
            b.strong(out);
        }
    }
}
impl<C: Collection + Strong, const N: usize> Strong for Flatten<C, N> {
    fn strong(&self, out: &mut Vec<usize>) {
        self.child_ref().strong(out);
    }
}
impl<C: Collection + Strong, O: Offset, S: Buffer<For<O>: Strong>, U> Strong for Offsets<C, O, S, U> {
    fn strong(&self, out: &mut Vec<usize>) {
        self.buffer_ref().strong(out);
        self.child_ref().strong(out);
    }
}
macro_rules! strong_layout {
    ($([$($g:tt)*] $t:ty, $inner:ty);* $(;)?) => { $(
        impl<$($g)*> Strong for $t where $inner: Strong {
            fn strong(&self, out: &mut Vec<usize>) { self.buffer_ref().strong(out) }
        }
    )* };
}
strong_layout! {
    [Nulls: Nullability, S: Buffer] Boolean<Nulls, S>, Nulls::Collection<Bitmap<S>, S>;
    [T: FixedSize, Nulls: Nullability, S: Buffer] FixedSizePrimitive<T, Nulls, S>, Nulls::Collection<S::For<T>, S>;
    [T: ArrayItem, const N: usize, Nulls: Nullability, S: Buffer] FixedSizeList<T, N, Nulls, S>, Nulls::Collection<Flatten<T::Memory<S>, N>, S>;
    [T: ArrayItem, Nulls: Nullability, O: Offset, S: Buffer] VariableSizeList<T, Nulls, O, S>, Nulls::Collection<Offsets<T::Memory<S>, O, S>, S>;
    [T: ArrayItem, S: Buffer] Array<T, S>, T::Memory<S>;
}

/// Counts the owners of the memory of `c` other than the returned closure.
pub fn other_owners<C: Share + Strong + 'static>(c: &C) -> Box<dyn Fn() -> usize> {
    let mine = c.share();
    Box::new(move || {
        let mut v = Vec::new();
        mine.strong(&mut v);
        v.iter().map(|n| n - 1).sum()
    })
}
