//! Storage backends of the harness: converting grown buffers into every kind
//! of storage, and a storage with an observable, failing allocator.

use crate::run::at_end;
use crate::val::Val;
use narrow::buffer::{ArcBuffer, BoxBuffer, Buffer, RcBuffer, SliceBuffer, VecBuffer};
use narrow::collection::{AllocError, Collection, CollectionAllocIn, CollectionRealloc};
use narrow::fixed_size::FixedSize;
use narrow::length::Length;
use std::borrow::{Borrow, BorrowMut};
use std::cell::{Cell, RefCell};
use std::mem::MaybeUninit;
use std::rc::Rc;
use std::sync::Arc;

/// Storage that a grown buffer can be moved into.
pub trait House: Buffer + 'static {
    const NAME: &'static str;
    fn house<T: FixedSize>(v: Vec<T>) -> Self::For<T>;
}
impl House for VecBuffer {
    const NAME: &'static str = "vec";
    fn house<T: FixedSize>(v: Vec<T>) -> Vec<T> {
        v
    }
}
impl House for BoxBuffer {
    const NAME: &'static str = "box";
    fn house<T: FixedSize>(v: Vec<T>) -> Box<[T]> {
        v.into_boxed_slice()
    }
}
impl House for RcBuffer {
    const NAME: &'static str = "rc";
    fn house<T: FixedSize>(v: Vec<T>) -> Rc<[T]> {
        v.into()
    }
}
impl House for ArcBuffer {
    const NAME: &'static str = "arc";
    fn house<T: FixedSize>(v: Vec<T>) -> Arc<[T]> {
        v.into()
    }
}
impl House for SliceBuffer<'static> {
    const NAME: &'static str = "slice";
    fn house<T: FixedSize>(v: Vec<T>) -> &'static [T] {
        leak(v)
    }
}
impl House for FaultBuf {
    const NAME: &'static str = "fault";
    fn house<T: FixedSize>(v: Vec<T>) -> FaultVec<T> {
        FaultVec {
            cap: v.len(),
            v,
            handle: current(),
        }
    }
}

impl House for SmallBuf {
    const NAME: &'static str = "small";
    fn house<T: FixedSize>(v: Vec<T>) -> SmallVec<T> {
        SmallVec::new(v)
    }
}

/// A slice that lives until the end of the current case.
pub fn leak<T: FixedSize>(v: Vec<T>) -> &'static [T] {
    let raw: *mut [T] = Box::into_raw(v.into_boxed_slice());
    at_end(move || drop(unsafe { Box::from_raw(raw) }));
    unsafe { &*raw }
}

/// One storage request seen by an allocator.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Request {
    pub elem: usize,
    pub items: usize,
    pub fallible: bool,
}

/// State of one allocator.
#[derive(Debug)]
pub struct Ctl {
    pub id: u32,
    pub requests: Cell<u64>,
    pub log: RefCell<Vec<Request>>,
    pub fail_at: Cell<u64>,
    pub persistent: Cell<bool>,
    pub failures: Cell<u64>,
    /// Infallible requests while a fallible operation was running.
    pub trying: Cell<bool>,
    pub infallible_in_try: Cell<u64>,
    pub amortized: Cell<bool>,
}

/// A handle to an allocator. The default handle stands for "the default
/// allocator" of the current thread.
#[derive(Clone, Debug)]
pub struct Handle(pub Rc<Ctl>);

thread_local! {
    static DEFAULT: Handle = Handle::new(0);
    static CURRENT: RefCell<Option<Handle>> = const { RefCell::new(None) };
}

impl Default for Handle {
    fn default() -> Self {
        DEFAULT.with(Clone::clone)
    }
}

pub fn current() -> Handle {
    CURRENT.with(|c| c.borrow().clone()).unwrap_or_default()
}
/// The handle given to buffers moved into [`FaultBuf`] storage.
pub fn set_current(h: Option<Handle>) {
    CURRENT.with(|c| *c.borrow_mut() = h);
}

impl Handle {
    pub fn new(id: u32) -> Self {
        Handle(Rc::new(Ctl {
            id,
            requests: Cell::new(0),
            log: RefCell::new(Vec::new()),
            fail_at: Cell::new(0),
            persistent: Cell::new(false),
            failures: Cell::new(0),
            trying: Cell::new(false),
            infallible_in_try: Cell::new(0),
            amortized: Cell::new(true),
        }))
    }
    pub fn requests(&self) -> u64 {
        self.0.requests.get()
    }
    pub fn reset(&self) {
        self.0.requests.set(0);
        self.0.failures.set(0);
        self.0.fail_at.set(0);
        self.0.infallible_in_try.set(0);
        self.0.trying.set(false);
        self.0.log.borrow_mut().clear();
    }
    pub fn arm(&self, nth: u64, persistent: bool) {
        self.0.requests.set(0);
        self.0.failures.set(0);
        self.0.infallible_in_try.set(0);
        self.0.fail_at.set(nth);
        self.0.persistent.set(persistent);
        self.0.trying.set(true);
    }
    pub fn disarm(&self) {
        self.0.fail_at.set(0);
        self.0.trying.set(false);
    }
    fn request(&self, elem: usize, items: usize, fallible: bool) -> Result<(), AllocError> {
        let c = &self.0;
        let n = c.requests.get() + 1;
        c.requests.set(n);
        {
            let mut log = c.log.borrow_mut();
            if log.len() < 10_000 {
                log.push(Request { elem, items, fallible });
            }
        }
        if c.trying.get() && !fallible {
            c.infallible_in_try.set(c.infallible_in_try.get() + 1);
        }
        let at = c.fail_at.get();
        if at != 0 && (n == at || (c.persistent.get() && n >= at)) {
            c.failures.set(c.failures.get() + 1);
            return Err(AllocError);
        }
        if items.saturating_mul(elem.max(1)) > (1 << 28) {
            return Err(AllocError);
        }
        Ok(())
    }
}

/// Storage whose requests for room are visible and can be refused.
#[derive(Clone, Copy, Debug, Default)]
pub struct FaultBuf;
impl Buffer for FaultBuf {
    type For<T: FixedSize> = FaultVec<T>;
}

pub struct FaultVec<T> {
    v: Vec<T>,
    cap: usize,
    handle: Handle,
}

impl<T> std::fmt::Debug for FaultVec<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "FaultVec(len {}, cap {}, alloc {})", self.v.len(), self.cap, self.handle.0.id)
    }
}
impl<T: Clone> Clone for FaultVec<T> {
    fn clone(&self) -> Self {
        FaultVec {
            v: self.v.clone(),
            cap: self.v.len(),
            handle: self.handle.clone(),
        }
    }
}
impl<T> Default for FaultVec<T> {
    fn default() -> Self {
        FaultVec {
            v: Vec::new(),
            cap: 0,
            handle: Handle::default(),
        }
    }
}

impl<T> FaultVec<T> {
    pub fn from_vec(v: Vec<T>, handle: Handle) -> Self {
        FaultVec {
            cap: v.len(),
            v,
            handle,
        }
    }
    pub fn handle(&self) -> &Handle {
        &self.handle
    }
    pub fn spare(&self) -> usize {
        self.cap - self.v.len()
    }
    fn grow(&mut self, additional: usize, fallible: bool) -> Result<(), AllocError> {
        let Some(need) = self.v.len().checked_add(additional) else {
            if fallible {
                return Err(AllocError);
            }
            panic!("capacity overflow");
        };
        if need <= self.cap {
            return Ok(());
        }
        let cap = if self.handle.0.amortized.get() {
            need.max(self.cap.saturating_mul(2))
        } else {
            need
        };
        match self.handle.request(size_of::<T>(), cap, fallible) {
            Ok(()) => {
                self.cap = cap;
                Ok(())
            }
            Err(e) if fallible => Err(e),
            Err(_) => panic!("infallible storage request refused"),
        }
    }
    fn with_cap(cap: usize, handle: Handle, fallible: bool) -> Result<Self, AllocError> {
        if cap > 0 {
            match handle.request(size_of::<T>(), cap, fallible) {
                Ok(()) => {}
                Err(e) if fallible => return Err(e),
                Err(_) => panic!("infallible storage request refused"),
            }
        }
        Ok(FaultVec {
            v: Vec::new(),
            cap,
            handle,
        })
    }
}

impl<T> Length for FaultVec<T> {
    fn len(&self) -> usize {
        self.v.len()
    }
}
impl<T> Borrow<[T]> for FaultVec<T> {
    fn borrow(&self) -> &[T] {
        &self.v
    }
}
impl<T> BorrowMut<[T]> for FaultVec<T> {
    fn borrow_mut(&mut self) -> &mut [T] {
        &mut self.v
    }
}
impl<T: FixedSize> Collection for FaultVec<T> {
    type View<'collection>
        = T
    where
        Self: 'collection;
    type Owned = T;
    fn view(&self, index: usize) -> Option<T> {
        self.v.get(index).copied()
    }
    type Iter<'collection>
        = std::iter::Copied<std::slice::Iter<'collection, T>>
    where
        Self: 'collection;
    fn iter_views(&self) -> Self::Iter<'_> {
        self.v.iter().copied()
    }
    type IntoIter = std::vec::IntoIter<T>;
    fn into_iter_owned(self) -> Self::IntoIter {
        self.v.into_iter()
    }
}
impl<T: FixedSize> Extend<T> for FaultVec<T> {
    fn extend<I: IntoIterator<Item = T>>(&mut self, iter: I) {
        let it = iter.into_iter();
        let (lower, _) = it.size_hint();
        let _ = self.grow(lower, false);
        for x in it {
            let _ = self.grow(1, false);
            self.v.push(x);
        }
    }
}
impl<T: FixedSize> FromIterator<T> for FaultVec<T> {
    fn from_iter<I: IntoIterator<Item = T>>(iter: I) -> Self {
        let mut s = Self::default();
        s.extend(iter);
        s
    }
}
impl<T: FixedSize> CollectionAllocIn for FaultVec<T> {
    type Alloc = Handle;
    fn with_capacity_in(capacity: usize, alloc: Handle) -> Self {
        Self::with_cap(capacity, alloc, false).expect("infallible")
    }
    fn from_iter_in<I: IntoIterator<Item = T>>(iter: I, alloc: Handle) -> Self {
        let it = iter.into_iter();
        let mut s = Self::with_cap(it.size_hint().0, alloc, false).expect("infallible");
        s.extend(it);
        s
    }
    fn try_with_capacity_in(capacity: usize, alloc: Handle) -> Result<Self, AllocError> {
        Self::with_cap(capacity, alloc, true)
    }
    fn try_from_iter_in<I: IntoIterator<Item = T>>(iter: I, alloc: Handle) -> Result<Self, AllocError> {
        let it = iter.into_iter();
        let mut s = Self::with_cap(it.size_hint().0, alloc, true)?;
        for x in it {
            s.grow(1, true)?;
            s.v.push(x);
        }
        Ok(s)
    }
}
impl<T: FixedSize> CollectionRealloc for FaultVec<T> {
    fn allocator(&self) -> Handle {
        self.handle.clone()
    }
    fn try_reserve(&mut self, additional: usize) -> Result<(), AllocError> {
        self.grow(additional, true)
    }
    fn try_extend<I: IntoIterator<Item = T>>(&mut self, iter: I) -> Result<(), AllocError> {
        let len = self.v.len();
        let it = iter.into_iter();
        self.grow(it.size_hint().0, true)?;
        for x in it {
            if self.grow(1, true).is_err() {
                self.v.truncate(len);
                return Err(AllocError);
            }
            self.v.push(x);
        }
        Ok(())
    }
    fn reserve(&mut self, additional: usize) {
        let _ = self.grow(additional, false);
    }
    fn truncate(&mut self, len: usize) {
        self.v.truncate(len);
    }
}

/// Storage of a user: few items are kept in the collection itself, and move
/// with it; more are on the heap.
#[derive(Clone, Copy, Debug, Default)]
pub struct SmallBuf;
impl Buffer for SmallBuf {
    type For<T: FixedSize> = SmallVec<T>;
}

/// Items kept in place.
const FEW: usize = 6;

pub enum SmallVec<T> {
    Here { len: usize, items: [MaybeUninit<T>; FEW] },
    Heap(Vec<T>),
}
impl<T: FixedSize> Clone for SmallVec<T> {
    fn clone(&self) -> Self {
        SmallVec::new(self.slice().to_vec())
    }
}
impl<T: FixedSize> SmallVec<T> {
    pub fn new(v: Vec<T>) -> Self {
        if v.len() > FEW {
            return SmallVec::Heap(v);
        }
        let mut items = [const { MaybeUninit::uninit() }; FEW];
        for (to, x) in items.iter_mut().zip(&v) {
            to.write(*x);
        }
        SmallVec::Here { len: v.len(), items }
    }
}
impl<T> SmallVec<T> {
    fn slice(&self) -> &[T] {
        match self {
            // The first `len` items are written.
            SmallVec::Here { len, items } => unsafe { std::slice::from_raw_parts(items.as_ptr().cast(), *len) },
            SmallVec::Heap(v) => v,
        }
    }
}
impl<T> std::fmt::Debug for SmallVec<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "SmallVec(len {}, {})", self.slice().len(), if matches!(self, SmallVec::Here { .. }) { "in place" } else { "on the heap" })
    }
}
impl<T> Length for SmallVec<T> {
    fn len(&self) -> usize {
        self.slice().len()
    }
}
impl<T> Borrow<[T]> for SmallVec<T> {
    fn borrow(&self) -> &[T] {
        self.slice()
    }
}
impl<T: FixedSize> Collection for SmallVec<T> {
    type View<'collection>
        = T
    where
        Self: 'collection;
    type Owned = T;
    fn view(&self, index: usize) -> Option<T> {
        self.slice().get(index).copied()
    }
    type Iter<'collection>
        = std::iter::Copied<std::slice::Iter<'collection, T>>
    where
        Self: 'collection;
    fn iter_views(&self) -> Self::Iter<'_> {
        self.slice().iter().copied()
    }
    type IntoIter = std::vec::IntoIter<T>;
    fn into_iter_owned(self) -> Self::IntoIter {
        self.slice().to_vec().into_iter()
    }
}

pub fn bytes_of<T: Val>(items: &[T]) -> Vec<u8> {
    let p = items.as_ptr().cast::<u8>();
    (0..std::mem::size_of_val(items)).map(|i| unsafe { p.add(i).read() }).collect()
}
