//! Deep observation of collections: views, iteration and an independent
//! decoding of the physical buffers by the Arrow rules.

use crate::ensure;
use crate::drive::{drive, drive_exact};
use crate::rng::Rng;
use crate::run::{Obs, Res};
use crate::storage::{FaultVec, SmallVec};
use crate::val::{ListVal, Val, ViewVal, show};
use narrow::array::Array;
use narrow::bitmap::{Bitmap, ValidityBitmap};
use narrow::buffer::{Buffer, BufferRef};
use narrow::collection::flatten::Flatten;
use narrow::collection::owned::IntoOwned;
use narrow::collection::{ChildRef, Collection};
use narrow::fixed_size::FixedSize;
use narrow::layout::ArrayItem;
use narrow::layout::boolean::Boolean;
use narrow::layout::fixed_size_list::FixedSizeList;
use narrow::layout::fixed_size_primitive::FixedSizePrimitive;
use narrow::layout::variable_size_list::VariableSizeList;
use narrow::length::Length;
use narrow::nullability::Nullability;
use narrow::offset::{Offset, OffsetView, Offsets};
use narrow::validity::Validity;
use std::borrow::Borrow;
use std::rc::Rc;
use std::sync::Arc;

pub trait Coll: Collection<Owned: Val> {
    /// Checks everything observable through a view.
    fn check_view<'a>(view: Self::View<'a>, want: &Self::Owned, o: &mut Obs) -> Res
    where
        Self: 'a;
    /// Drives the iterators of a view that is itself a collection.
    fn drive_view<'a>(_view: Self::View<'a>, _want: &Self::Owned, _rng: &mut Rng, _o: &mut Obs) -> Res
    where
        Self: 'a,
    {
        Ok(())
    }
    /// Decodes the exposed buffers by the Arrow rules alone.
    fn decode(&self, o: &mut Obs) -> Res<Vec<Self::Owned>>;
    /// Checks this collection and, recursively, every physical child as
    /// collections of their own, including null accounting.
    fn audit(&self, o: &mut Obs) -> Res;
}

/// A collection reads as what its buffers encode.
fn audit_self<C: Coll>(c: &C, o: &mut Obs) -> Res {
    let rows = c.decode(o)?;
    o.add("audited_collections", 1);
    check_reads(c, &rows, o)
}

/// Null accounting of one validity against its decoded rows.
pub fn check_nulls<V: ValidityBitmap>(v: &V, nulls: &[bool], o: &mut Obs) -> Res {
    let n = nulls.len();
    ensure!(Length::len(v) == n, "validity length {} for {n} rows", Length::len(v));
    let count = nulls.iter().filter(|x| **x).count();
    ensure!(v.null_count() == count, "null_count {} of {count} nulls in {n} rows", v.null_count());
    ensure!(
        v.valid_count() == n - count,
        "valid_count {} of {} valid in {n} rows",
        v.valid_count(),
        n - count
    );
    ensure!(v.any_null() == (count > 0), "any_null {} with {count} nulls of {n}", v.any_null());
    ensure!(v.all_null() == (count == n), "all_null {} with {count} nulls of {n}", v.all_null());
    ensure!(v.any_valid() == (count < n), "any_valid {} with {count} nulls of {n}", v.any_valid());
    ensure!(v.all_valid() == (count == 0), "all_valid {} with {count} nulls of {n}", v.all_valid());
    for (i, null) in nulls.iter().enumerate() {
        ensure!(v.is_null(i) == Some(*null), "is_null({i}) is {:?}, expected {null}", v.is_null(i));
        ensure!(v.is_valid(i) == Some(!*null), "is_valid({i}) is {:?}", v.is_valid(i));
    }
    for i in outside(n) {
        ensure!(v.is_null(i).is_none(), "is_null({i}) answers at length {n}");
        ensure!(v.is_valid(i).is_none(), "is_valid({i}) answers at length {n}");
    }
    o.add("validities_audited", 1);
    o.add(if v.bitmap_ref().is_some() { "explicit_validities" } else { "implicit_validities" }, 1);
    o.add("nulls_seen", count as u64);
    Ok(())
}

/// A power of two, or the largest one there is.
pub const fn shl(n: u32) -> usize {
    if n < usize::BITS { 1 << n } else { 1 << (usize::BITS - 1) }
}

/// Indices that are out of range for `len`.
pub fn outside(len: usize) -> Vec<usize> {
    let mut v = vec![
        len,
        len.wrapping_add(1),
        len.wrapping_add(7),
        len.wrapping_add(8),
        len.wrapping_mul(2),
        len.wrapping_add(64),
        i32::MAX as usize,
        1 << 31,
        u32::MAX as usize,
        shl(32),
        shl(61),
        (usize::MAX / 8) + 1,
        usize::MAX / 3,
        usize::MAX / 3 + 1,
        usize::MAX / 2,
        usize::MAX / 2 + 1,
        usize::MAX - 8,
        usize::MAX - 1,
        usize::MAX,
        usize::MAX.wrapping_sub(len).wrapping_add(1),
        0usize.wrapping_sub(len),
    ];
    v.retain(|i| *i >= len);
    v.sort_unstable();
    v.dedup();
    v
}

fn check_leaf<T: ViewVal>(view: <T as narrow::collection::view::AsView<'_>>::View, want: &T, o: &mut Obs) -> Res {
    o.add("leaf_views", 1);
    ensure!(T::same_view(view, want), "leaf view differs from {want:?}");
    let owned: T = view.into_owned();
    ensure!(owned.same(want), "leaf into_owned {owned:?} differs from {want:?}");
    Ok(())
}

macro_rules! leaf {
    ($([$($g:tt)*] $t:ty, $item:ty);* $(;)?) => { $(
        impl<$($g)*> Coll for $t {
            fn check_view<'a>(view: Self::View<'a>, want: &Self::Owned, o: &mut Obs) -> Res where Self: 'a {
                check_leaf::<$item>(view, want, o)
            }
            fn decode(&self, o: &mut Obs) -> Res<Vec<Self::Owned>> {
                let s: &[$item] = self.borrow();
                o.add("decoded_values", s.len() as u64);
                Ok(s.to_vec())
            }
            fn audit(&self, o: &mut Obs) -> Res { audit_self(self, o) }
        }
    )* };
}
leaf! {
    [T: ViewVal] Vec<T>, T;
    [T: ViewVal] Box<[T]>, T;
    [T: ViewVal] Rc<[T]>, T;
    [T: ViewVal] Arc<[T]>, T;
    [T: ViewVal, const N: usize] [T; N], T;
}
impl<T: ViewVal> Coll for &'static [T] {
    fn check_view<'a>(view: Self::View<'a>, want: &Self::Owned, o: &mut Obs) -> Res
    where
        Self: 'a,
    {
        check_leaf::<T>(view, want, o)
    }
    fn decode(&self, o: &mut Obs) -> Res<Vec<Self::Owned>> {
        o.add("decoded_values", self.iter().len() as u64);
        Ok(self.to_vec())
    }
    fn audit(&self, o: &mut Obs) -> Res {
        audit_self(self, o)
    }
}
macro_rules! own {
    ($($t:ident),*) => { $(
        impl<T: FixedSize + Val> Coll for $t<T> {
            fn check_view<'a>(view: Self::View<'a>, want: &Self::Owned, o: &mut Obs) -> Res
            where
                Self: 'a,
            {
                o.add("leaf_views", 1);
                ensure!(view.same(want), "leaf view {view:?} differs from {want:?}");
                Ok(())
            }
            fn decode(&self, o: &mut Obs) -> Res<Vec<Self::Owned>> {
                let s: &[T] = self.borrow();
                o.add("decoded_values", s.len() as u64);
                Ok(s.to_vec())
            }
            fn audit(&self, o: &mut Obs) -> Res {
                audit_self(self, o)
            }
        }
    )* };
}
own!(FaultVec, SmallVec);

/// Bits `offset..offset + bits` of LSB-first `bytes`.
pub fn bits_of(bytes: &[u8], offset: usize, bits: usize) -> Res<Vec<bool>> {
    let end = offset.checked_add(bits).ok_or("bit range overflows")?;
    ensure!(
        end <= bytes.len().saturating_mul(8),
        "bit range {offset}..{end} exceeds {} bytes",
        bytes.len()
    );
    Ok((offset..end).map(|i| (bytes[i / 8] >> (i % 8)) & 1 == 1).collect())
}

impl<S: Buffer> Coll for Bitmap<S> {
    fn check_view<'a>(view: bool, want: &bool, o: &mut Obs) -> Res
    where
        Self: 'a,
    {
        o.add("bit_views", 1);
        ensure!(view == *want, "bit {view} differs from {want}");
        Ok(())
    }
    fn decode(&self, o: &mut Obs) -> Res<Vec<bool>> {
        o.add("decoded_bitmaps", 1);
        bits_of(self.buffer_ref().borrow(), self.bit_offset(), Length::len(self))
    }
    fn audit(&self, o: &mut Obs) -> Res {
        audit_self(self, o)
    }
}

impl<C: Coll, S: Buffer> Coll for Validity<C, S>
where
    Validity<C, S>: Collection<Owned = Option<C::Owned>>,
    for<'a> Validity<C, S>: 'a,
    C: 'static,
    S: 'static,
{
    fn check_view<'a>(view: Self::View<'a>, want: &Self::Owned, o: &mut Obs) -> Res
    where
        Self: 'a,
    {
        let view = <Self as Opt<'a, C>>::opt(view);
        match (view, want) {
            (None, None) => {
                o.add("null_views", 1);
                Ok(())
            }
            (Some(v), Some(w)) => C::check_view(v, w, o),
            (None, Some(w)) => Err(format!("null view where {w:?} is stored")),
            (Some(_), None) => Err("non-null view where null is stored".into()),
        }
    }
    fn drive_view<'a>(view: Self::View<'a>, want: &Self::Owned, rng: &mut Rng, o: &mut Obs) -> Res
    where
        Self: 'a,
    {
        match (<Self as Opt<'a, C>>::opt(view), want) {
            (Some(v), Some(w)) => C::drive_view(v, w, rng, o),
            (None, None) => Ok(()),
            _ => Err("nullness differs".into()),
        }
    }
    fn decode(&self, o: &mut Obs) -> Res<Vec<Self::Owned>> {
        o.add("decoded_validities", 1);
        let child = self.child_ref().decode(o)?;
        match self.bitmap_ref() {
            None => {
                o.add("omitted_validities", 1);
                Ok(child.into_iter().map(Some).collect())
            }
            Some(b) => {
                let bits = b.decode(o)?;
                ensure!(
                    child.len() == bits.len(),
                    "validity has {} bits for {} slots",
                    bits.len(),
                    child.len()
                );
                Ok(child
                    .into_iter()
                    .zip(bits)
                    .map(|(v, valid)| valid.then_some(v))
                    .collect())
            }
        }
    }
    fn audit(&self, o: &mut Obs) -> Res {
        self.child_ref().audit(o)?;
        if let Some(b) = self.bitmap_ref() {
            b.audit(o)?;
        }
        let mut rows = self.decode(o)?;
        rows.truncate(Length::len(self));
        let nulls: Vec<bool> = rows.iter().map(Option::is_none).collect();
        check_nulls(self, &nulls, o)?;
        check_reads(self, &rows, o)
    }
}

/// Names the view of a validity as an option.
pub trait Opt<'a, C: Collection + 'a>: Collection
where
    Self: 'a,
{
    fn opt(view: Self::View<'a>) -> Option<C::View<'a>>;
}
impl<'a, C: Collection + 'a, S: Buffer + 'a> Opt<'a, C> for Validity<C, S> {
    fn opt(view: Self::View<'a>) -> Option<C::View<'a>> {
        view
    }
}

impl<C: Coll + 'static, const N: usize> Coll for Flatten<C, N> {
    fn check_view<'a>(view: Self::View<'a>, want: &Self::Owned, o: &mut Obs) -> Res
    where
        Self: 'a,
    {
        o.add("fixed_list_views", 1);
        for i in 0..N {
            C::check_view(view[i], &want[i], o).map_err(|e| format!("[{i}] {e}"))?;
        }
        #[allow(clippy::clone_on_copy)]
        let again = view.clone();
        let owned: [C::Owned; N] = view.into_owned();
        ensure!(owned.same(want), "fixed list into_owned {owned:?} differs from {want:?}");
        let owned: [C::Owned; N] = again.into_owned();
        ensure!(owned.same(want), "clone of a fixed list reads {owned:?}, expected {want:?}");
        Ok(())
    }
    fn drive_view<'a>(view: Self::View<'a>, want: &Self::Owned, rng: &mut Rng, o: &mut Obs) -> Res
    where
        Self: 'a,
    {
        for i in 0..N {
            C::drive_view(view[i], &want[i], rng, o)?;
        }
        Ok(())
    }
    fn decode(&self, o: &mut Obs) -> Res<Vec<Self::Owned>> {
        let child = self.child_ref().decode(o)?;
        ensure!(
            child.len().is_multiple_of(N),
            "fixed-size list child has {} slots, not a multiple of {N}",
            child.len()
        );
        ensure!(
            child.len() / N == Length::len(self),
            "fixed-size list of {} rows has {} child slots",
            Length::len(self),
            child.len()
        );
        Ok(child
            .chunks_exact(N)
            .map(|c| std::array::from_fn(|i| c[i].clone()))
            .collect())
    }
    fn audit(&self, o: &mut Obs) -> Res {
        self.child_ref().audit(o)?;
        audit_self(self, o)
    }
}

/// Everything a list view exposes must be the row.
pub fn check_list_view<'a, T: Coll, O: Offset, S: Buffer, U>(
    view: OffsetView<'a, T, O, S, U>,
    want: &U,
    o: &mut Obs,
) -> Res
where
    U: ListVal<Item = T::Owned> + FromIterator<T::Owned>,
{
    o.add("list_views", 1);
    let items = want.items();
    ensure!(
        Length::len(&view) == items.len(),
        "list view has length {}, row has {}",
        Length::len(&view),
        items.len()
    );
    ensure!(view.is_empty() == items.is_empty(), "list view is_empty differs");
    for (i, w) in items.iter().enumerate() {
        let v = view.view(i).ok_or_else(|| format!("list view({i}) is None"))?;
        T::check_view(v, w, o).map_err(|e| format!("[{i}] {e}"))?;
        let got = view.owned(i).ok_or_else(|| format!("list owned({i}) is None"))?;
        ensure!(got.same(w), "list owned({i}) {got:?} differs from {w:?}");
    }
    // Every one of the first views of a case, then a sample.
    let seen = o.counts["list_views"];
    if seen < 64 || seen.is_multiple_of(16) {
        for i in outside(items.len()) {
            ensure!(view.view(i).is_none(), "list view of {} items answers view({i})", items.len());
            ensure!(view.owned(i).is_none(), "list view of {} items answers owned({i})", items.len());
        }
        o.add("list_out_of_range", 1);
    }
    let copy = view;
    let mut it = copy.iter_views();
    for (i, w) in items.iter().enumerate() {
        let left = items.len() - i;
        ensure!(
            it.size_hint() == (left, Some(left)),
            "list iterator hint {:?} with {left} left",
            it.size_hint()
        );
        let v = it.next().ok_or_else(|| format!("list iterator ends at {i}"))?;
        T::check_view(v, w, o).map_err(|e| format!("iter [{i}] {e}"))?;
    }
    ensure!(it.size_hint() == (0, Some(0)), "list iterator hint {:?} at the end", it.size_hint());
    ensure!(it.next().is_none(), "list iterator yields too many items");
    let mut it = view.into_iter_owned();
    for (i, w) in items.iter().enumerate() {
        let left = items.len() - i;
        ensure!(
            it.size_hint() == (left, Some(left)),
            "list consuming iterator hint {:?} with {left} left",
            it.size_hint()
        );
        let v = it.next().ok_or_else(|| format!("list consuming iterator ends at {i}"))?;
        ensure!(v.same(w), "list consuming iterator item {i} {v:?} differs from {w:?}");
    }
    ensure!(it.next().is_none(), "list consuming iterator yields too many items");
    let owned: U = view.into_owned();
    ensure!(owned.same(want), "list into_owned {owned:?} differs from {want:?}");
    Ok(())
}

impl<T: Coll + 'static, O: Offset, S: Buffer + 'static, U> Coll for Offsets<T, O, S, U>
where
    U: ListVal<Item = T::Owned> + FromIterator<T::Owned>,
{
    fn check_view<'a>(view: Self::View<'a>, want: &Self::Owned, o: &mut Obs) -> Res
    where
        Self: 'a,
    {
        check_list_view(view, want, o)
    }
    fn drive_view<'a>(view: Self::View<'a>, want: &Self::Owned, rng: &mut Rng, o: &mut Obs) -> Res
    where
        Self: 'a,
    {
        let items = want.items();
        let mut nested = rng.fork();
        drive(view.iter_views(), items, rng, o, |v, w, o| {
            T::check_view(v, w, o)?;
            T::drive_view(v, w, &mut nested, o)
        })
        .map_err(|e| format!("list view iteration: {e}"))?;
        drive_exact(view.into_iter_owned(), items, rng, o, |v, w, _| {
            ensure!(v.same(w), "{v:?} differs from {w:?}");
            Ok(())
        })
        .map_err(|e| format!("consuming list view iteration: {e}"))?;
        o.add("list_views_driven", 1);
        Ok(())
    }
    fn decode(&self, o: &mut Obs) -> Res<Vec<Self::Owned>> {
        o.add("decoded_lists", 1);
        let raw: &[O] = self.buffer_ref().borrow();
        ensure!(!raw.is_empty(), "offsets buffer is empty");
        let child = self.child_ref().decode(o)?;
        let mut rows = Vec::with_capacity(raw.len() - 1);
        let mut prev: Option<usize> = None;
        for (i, x) in raw.iter().enumerate() {
            let x: usize = (*x).try_into().map_err(|_| format!("offset {i} is negative"))?;
            match prev {
                None => ensure!(x == 0, "first offset is {x}"),
                Some(p) => {
                    ensure!(x >= p, "offset {i} decreases from {p} to {x}");
                    ensure!(x <= child.len(), "offset {i} is {x}, child has {}", child.len());
                    rows.push(child[p..x].iter().cloned().collect());
                }
            }
            prev = Some(x);
        }
        ensure!(
            rows.len() == Length::len(self),
            "{} offsets for {} rows",
            raw.len(),
            Length::len(self)
        );
        Ok(rows)
    }
    fn audit(&self, o: &mut Obs) -> Res {
        self.child_ref().audit(o)?;
        audit_self(self, o)
    }
}

macro_rules! wrapper {
    ($([$($g:tt)*] $t:ty, $inner:ty);* $(;)?) => { $(
        impl<$($g)*> Coll for $t
        where
            $inner: Coll,
            $t: Collection<Owned = <$inner as Collection>::Owned>,
            for<'x> $t: SameView<'x, $inner>,
        {
            fn check_view<'a>(view: Self::View<'a>, want: &Self::Owned, o: &mut Obs) -> Res where Self: 'a {
                <$inner as Coll>::check_view(<$t as SameView<'a, $inner>>::inner(view), want, o)
            }
            fn drive_view<'a>(view: Self::View<'a>, want: &Self::Owned, rng: &mut Rng, o: &mut Obs) -> Res where Self: 'a {
                <$inner as Coll>::drive_view(<$t as SameView<'a, $inner>>::inner(view), want, rng, o)
            }
            fn decode(&self, o: &mut Obs) -> Res<Vec<Self::Owned>> {
                self.buffer_ref().decode(o)
            }
            fn audit(&self, o: &mut Obs) -> Res {
                self.buffer_ref().audit(o)?;
                audit_self(self, o)
            }
        }
    )* };
}

/// The wrapper's view is its inner collection's view.
pub trait SameView<'a, I: Collection>: Collection {
    fn inner(view: Self::View<'a>) -> I::View<'a>
    where
        Self: 'a,
        I: 'a;
}
macro_rules! same_view {
    ($([$($g:tt)*] $t:ty, $inner:ty);* $(;)?) => { $(
        impl<'x, $($g)*> SameView<'x, $inner> for $t {
            fn inner(view: Self::View<'x>) -> <$inner as Collection>::View<'x> where Self: 'x, $inner: 'x { view }
        }
    )* };
}
macro_rules! both {
    ($($tt:tt)*) => { same_view! { $($tt)* } wrapper! { $($tt)* } };
}
both! {
    [Nulls: Nullability + 'static, S: Buffer + 'static] Boolean<Nulls, S>, Nulls::Collection<Bitmap<S>, S>;
    [T: FixedSize, Nulls: Nullability + 'static, S: Buffer + 'static] FixedSizePrimitive<T, Nulls, S>, Nulls::Collection<S::For<T>, S>;
    [T: ArrayItem + 'static, const N: usize, Nulls: Nullability + 'static, S: Buffer + 'static] FixedSizeList<T, N, Nulls, S>, Nulls::Collection<Flatten<T::Memory<S>, N>, S>;
    [T: ArrayItem + 'static, Nulls: Nullability + 'static, O: Offset, S: Buffer + 'static] VariableSizeList<T, Nulls, O, S>, Nulls::Collection<Offsets<T::Memory<S>, O, S>, S>;
    [T: ArrayItem + 'static, S: Buffer + 'static] Array<T, S>, T::Memory<S>;
}

/// Checks every borrowed access path and the physical buffers against `model`.
pub fn check_all<C: Coll>(c: &C, model: &[C::Owned], o: &mut Obs) -> Res {
    check_reads(c, model, o)?;
    let phys = c.decode(o).map_err(|e| format!("physical buffers: {e}"))?;
    ensure!(
        phys.len() == model.len(),
        "physical buffers hold {} rows, expected {}",
        phys.len(),
        model.len()
    );
    for (i, w) in model.iter().enumerate() {
        ensure!(phys[i].same(w), "physical row {i} is {:?}, expected {w:?}", phys[i]);
    }
    Ok(())
}

fn probe_indices(len: usize) -> Vec<usize> {
    if len <= 300 {
        (0..len).collect()
    } else {
        let mut v: Vec<usize> = (0..70).chain(len - 70..len).collect();
        let step = (len / 97).max(1);
        v.extend((70..len - 70).step_by(step));
        v.extend([127, 128, 129, 255, 256, 257].iter().filter(|i| **i < len));
        for k in (1024..len).step_by(1024) {
            v.extend([k - 1, k, (k + 1).min(len - 1)]);
        }
        v
    }
}

/// Checks length, random access, out-of-range access and borrowed iteration.
pub fn check_reads<C: Coll>(c: &C, model: &[C::Owned], o: &mut Obs) -> Res {
    ensure!(
        Length::len(c) == model.len(),
        "length is {}, expected {} ({})",
        Length::len(c),
        model.len(),
        show(model)
    );
    ensure!(c.is_empty() == model.is_empty(), "is_empty is wrong at length {}", model.len());
    o.add("rows_checked", model.len() as u64);
    for i in probe_indices(model.len()) {
        let v = c.view(i).ok_or_else(|| format!("view({i}) is None of {}", model.len()))?;
        C::check_view(v, &model[i], o).map_err(|e| format!("view({i}): {e}"))?;
        let got = c.owned(i).ok_or_else(|| format!("owned({i}) is None"))?;
        ensure!(got.same(&model[i]), "owned({i}) is {got:?}, expected {:?}", model[i]);
    }
    for i in outside(model.len()) {
        ensure!(c.view(i).is_none(), "view({i}) answers at length {}", model.len());
        ensure!(c.owned(i).is_none(), "owned({i}) answers at length {}", model.len());
    }
    o.add("out_of_range_probes", 1);
    let mut it = c.iter_views();
    for (i, w) in model.iter().enumerate() {
        let left = model.len() - i;
        ensure!(
            it.size_hint() == (left, Some(left)),
            "iterator hint is {:?} with {left} items left",
            it.size_hint()
        );
        let v = it
            .next()
            .ok_or_else(|| format!("iteration ends after {i} of {}", model.len()))?;
        C::check_view(v, w, o).map_err(|e| format!("iteration item {i}: {e}"))?;
    }
    ensure!(it.size_hint() == (0, Some(0)), "iterator hint is {:?} at the end", it.size_hint());
    ensure!(it.next().is_none(), "iteration yields more than {} items", model.len());
    Ok(())
}

/// Checks consuming iteration.
pub fn check_consume<C: Coll>(c: C, model: &[C::Owned], o: &mut Obs) -> Res {
    let mut it = c.into_iter_owned();
    for (i, w) in model.iter().enumerate() {
        let left = model.len() - i;
        ensure!(it.len() == left, "consuming iterator len is {} with {left} left", it.len());
        ensure!(
            it.size_hint() == (left, Some(left)),
            "consuming iterator hint is {:?} with {left} left",
            it.size_hint()
        );
        let v = it
            .next()
            .ok_or_else(|| format!("consuming iteration ends after {i} of {}", model.len()))?;
        ensure!(v.same(w), "consuming iteration item {i} is {v:?}, expected {w:?}");
    }
    ensure!(it.len() == 0, "consuming iterator len is {} at the end", it.len());
    ensure!(it.next().is_none(), "consuming iteration yields more than {} items", model.len());
    o.add("consumed_rows", model.len() as u64);
    Ok(())
}
