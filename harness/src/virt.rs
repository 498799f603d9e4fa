//! A collection of bytes that has a length but no storage, so that lists of
//! any representable size exist.

use narrow::collection::{AllocError, Collection, CollectionAllocIn, CollectionRealloc};
use narrow::length::Length;

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Virt {
    pub len: usize,
}

/// The item at every position.
pub const ITEM: u8 = 0x5a;

#[derive(Clone, Debug)]
pub struct VirtIter(usize);
impl Iterator for VirtIter {
    type Item = u8;
    fn next(&mut self) -> Option<u8> {
        self.0 = self.0.checked_sub(1)?;
        Some(ITEM)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.0, Some(self.0))
    }
    fn count(self) -> usize {
        self.0
    }
}
impl ExactSizeIterator for VirtIter {}

impl Length for Virt {
    fn len(&self) -> usize {
        self.len
    }
}
impl Collection for Virt {
    type View<'collection> = u8;
    type Owned = u8;
    fn view(&self, index: usize) -> Option<u8> {
        (index < self.len).then_some(ITEM)
    }
    type Iter<'collection> = VirtIter;
    fn iter_views(&self) -> VirtIter {
        VirtIter(self.len)
    }
    type IntoIter = VirtIter;
    fn into_iter_owned(self) -> VirtIter {
        VirtIter(self.len)
    }
}
impl Extend<u8> for Virt {
    fn extend<I: IntoIterator<Item = u8>>(&mut self, iter: I) {
        self.len = self.len.checked_add(iter.into_iter().count()).expect("capacity overflow");
    }
}
impl FromIterator<u8> for Virt {
    fn from_iter<I: IntoIterator<Item = u8>>(iter: I) -> Self {
        Virt {
            len: iter.into_iter().count(),
        }
    }
}
impl CollectionAllocIn for Virt {
    type Alloc = ();
    fn with_capacity_in(_: usize, _: ()) -> Self {
        Virt::default()
    }
    fn from_iter_in<I: IntoIterator<Item = u8>>(iter: I, _: ()) -> Self {
        iter.into_iter().collect()
    }
    fn try_with_capacity_in(_: usize, _: ()) -> Result<Self, AllocError> {
        Ok(Virt::default())
    }
    fn try_from_iter_in<I: IntoIterator<Item = u8>>(iter: I, _: ()) -> Result<Self, AllocError> {
        Ok(iter.into_iter().collect())
    }
}
impl CollectionRealloc for Virt {
    fn allocator(&self) {}
    fn try_reserve(&mut self, additional: usize) -> Result<(), AllocError> {
        self.len.checked_add(additional).map(|_| ()).ok_or(AllocError)
    }
    fn try_extend<I: IntoIterator<Item = u8>>(&mut self, iter: I) -> Result<(), AllocError> {
        self.len = self.len.checked_add(iter.into_iter().count()).ok_or(AllocError)?;
        Ok(())
    }
    fn reserve(&mut self, additional: usize) {
        self.len.checked_add(additional).expect("capacity overflow");
    }
    fn truncate(&mut self, len: usize) {
        self.len = self.len.min(len);
    }
}
