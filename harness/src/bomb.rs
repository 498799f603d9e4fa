//! A list whose own iteration can panic part-way.

use crate::rng::{Fp, Rng};
use crate::run::PLANNED;
use crate::val::{Dist, ListVal, Val, ViewVal};
use narrow::collection::view::AsView;
use narrow::collection::{AllocError, Collection, CollectionAllocIn};
use narrow::length::Length;

#[derive(Clone, Debug)]
pub struct Bomb<T> {
    pub items: Vec<T>,
    /// Consuming iteration panics instead of delivering this item.
    pub at: Option<usize>,
}
impl<T> Default for Bomb<T> {
    fn default() -> Self {
        Bomb { items: Vec::new(), at: None }
    }
}
impl<T: Val> Val for Bomb<T> {
    fn sample(rng: &mut Rng, d: &Dist) -> Self {
        Bomb { items: Vec::sample(rng, d), at: None }
    }
    fn same(&self, other: &Self) -> bool {
        self.items.same(&other.items)
    }
    fn fp(&self, h: &mut Fp) {
        self.items.fp(h);
    }
    const COST: usize = <Vec<T> as Val>::COST;
    const LISTS: bool = true;
}
impl<T: Val> ListVal for Bomb<T> {
    type Item = T;
    fn items(&self) -> &[T] {
        &self.items
    }
}
impl<T> Length for Bomb<T> {
    fn len(&self) -> usize {
        self.items.len()
    }
}
#[derive(Debug)]
pub struct BombIter<T> {
    items: std::vec::IntoIter<T>,
    at: Option<usize>,
    pos: usize,
}
impl<T> Iterator for BombIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        if self.at == Some(self.pos) {
            std::panic::panic_any(PLANNED);
        }
        self.pos += 1;
        self.items.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.items.size_hint()
    }
}
impl<T> ExactSizeIterator for BombIter<T> {}
impl<T: ViewVal> Collection for Bomb<T> {
    type View<'collection>
        = <T as AsView<'collection>>::View
    where
        Self: 'collection;
    type Owned = T;
    fn view(&self, index: usize) -> Option<Self::View<'_>> {
        self.items.get(index).map(AsView::as_view)
    }
    type Iter<'collection>
        = std::iter::Map<
        std::slice::Iter<'collection, T>,
        fn(&'collection T) -> <T as AsView<'collection>>::View,
    >
    where
        Self: 'collection;
    fn iter_views(&self) -> Self::Iter<'_> {
        self.items.iter().map(AsView::as_view)
    }
    type IntoIter = BombIter<T>;
    fn into_iter_owned(self) -> BombIter<T> {
        BombIter { items: self.items.into_iter(), at: self.at, pos: 0 }
    }
}
impl<T> FromIterator<T> for Bomb<T> {
    fn from_iter<I: IntoIterator<Item = T>>(iter: I) -> Self {
        Bomb { items: iter.into_iter().collect(), at: None }
    }
}
impl<T: ViewVal> CollectionAllocIn for Bomb<T> {
    type Alloc = ();
    fn with_capacity_in(_: usize, (): ()) -> Self {
        Bomb::default()
    }
    fn from_iter_in<I: IntoIterator<Item = T>>(iter: I, (): ()) -> Self {
        iter.into_iter().collect()
    }
    fn try_with_capacity_in(_: usize, (): ()) -> Result<Self, AllocError> {
        Ok(Bomb::default())
    }
    fn try_from_iter_in<I: IntoIterator<Item = T>>(iter: I, (): ()) -> Result<Self, AllocError> {
        Ok(iter.into_iter().collect())
    }
}
