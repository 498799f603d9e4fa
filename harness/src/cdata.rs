//! The Arrow C data interface from the other side: structure layouts, a
//! consumer, a judge of what may be imported and a producer, all written from
//! the specification and sharing nothing with the crate under test.

use crate::rng::Rng;
use crate::run::Res;
use crate::val::Val;
use narrow::buffer::SliceBuffer;
use narrow::offset::OffsetsError;
use narrow_ffi::{ArrowArray, ArrowSchema, Import, ImportError};
use std::alloc::{Layout, alloc, dealloc};
use std::cell::{Cell, RefCell};
use std::ffi::{CStr, c_char, c_void};
use std::ptr;

pub type Free<T> = Option<unsafe extern "C" fn(*mut T)>;

#[repr(C)]
#[derive(Clone, Copy, Debug)]
pub struct CSchema {
    pub format: *const c_char,
    pub name: *const c_char,
    pub metadata: *const c_char,
    pub flags: i64,
    pub n_children: i64,
    pub children: *mut *mut CSchema,
    pub dictionary: *mut CSchema,
    pub release: Free<CSchema>,
    pub private_data: *mut c_void,
}

#[repr(C)]
#[derive(Clone, Copy, Debug)]
pub struct CArray {
    pub length: i64,
    pub null_count: i64,
    pub offset: i64,
    pub n_buffers: i64,
    pub n_children: i64,
    pub buffers: *mut *const c_void,
    pub children: *mut *mut CArray,
    pub dictionary: *mut CArray,
    pub release: Free<CArray>,
    pub private_data: *mut c_void,
}

impl CSchema {
    /// Equal in everything but the address of the callback.
    pub fn same(&self, o: &Self) -> bool {
        let k = |s: &Self| (s.format, s.name, s.metadata, s.flags, s.n_children, s.children, s.dictionary, s.private_data);
        k(self) == k(o) && self.release.is_some() == o.release.is_some()
    }
}
impl CArray {
    pub fn same(&self, o: &Self) -> bool {
        let k = |a: &Self| (a.length, a.null_count, a.offset, a.n_buffers, a.n_children, a.buffers, a.children, a.dictionary, a.private_data);
        k(self) == k(o) && self.release.is_some() == o.release.is_some()
    }
}

const _: () = assert!(cfg!(not(target_pointer_width = "64")) || size_of::<CSchema>() == 72 && size_of::<CArray>() == 80);
const _: () = assert!(size_of::<ArrowSchema>() == size_of::<CSchema>() && size_of::<ArrowArray>() == size_of::<CArray>());

pub fn take_array(a: ArrowArray) -> CArray {
    unsafe { std::mem::transmute(a) }
}
pub fn take_schema(a: ArrowSchema) -> CSchema {
    unsafe { std::mem::transmute(a) }
}
pub fn give_array(a: CArray) -> ArrowArray {
    unsafe { std::mem::transmute(a) }
}
pub fn give_schema(a: CSchema) -> ArrowSchema {
    unsafe { std::mem::transmute(a) }
}

// ------------------------------------------------------------------ types

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Ty {
    pub nullable: bool,
    pub kind: Kind,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Kind {
    Bool,
    Prim(&'static str, usize),
    List(Box<Ty>),
    Fsl(usize, Box<Ty>),
}
impl Ty {
    pub fn format(&self) -> String {
        match &self.kind {
            Kind::Bool => "b".into(),
            Kind::Prim(f, _) => (*f).into(),
            Kind::List(_) => "+l".into(),
            Kind::Fsl(n, _) => format!("+w:{n}"),
        }
    }
    pub fn n_buffers(&self) -> i64 {
        if matches!(self.kind, Kind::Fsl(..)) { 1 } else { 2 }
    }
    pub fn child(&self) -> Option<&Ty> {
        match &self.kind {
            Kind::List(c) | Kind::Fsl(_, c) => Some(c),
            _ => None,
        }
    }
    pub fn n_children(&self) -> i64 {
        i64::from(self.child().is_some())
    }
    pub fn align(&self) -> usize {
        match &self.kind {
            Kind::Prim(_, size) => *size,
            Kind::List(_) => 4,
            _ => 1,
        }
    }
}

/// A value without its Rust type; scalars by their bytes.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Dyn {
    Null,
    Bool(bool),
    Raw(Vec<u8>),
    List(Vec<Dyn>),
}

/// Items with an Arrow C data representation.
pub trait CVal: Val {
    fn ty() -> Ty;
    fn to_dyn(&self) -> Dyn;
    fn from_dyn(d: &Dyn) -> Self;
}
macro_rules! prim {
    ($($t:ty: $f:expr),*) => { $(
        impl CVal for $t {
            fn ty() -> Ty { Ty { nullable: false, kind: Kind::Prim($f, size_of::<$t>()) } }
            fn to_dyn(&self) -> Dyn { Dyn::Raw(self.to_ne_bytes().to_vec()) }
            fn from_dyn(d: &Dyn) -> Self {
                let Dyn::Raw(b) = d else { panic!("harness: {d:?}") };
                <$t>::from_ne_bytes(b.as_slice().try_into().expect("size"))
            }
        }
    )* };
}
prim!(i8: "c", u8: "C", i16: "s", u16: "S", i32: "i", u32: "I", i64: "l", u64: "L", f32: "f", f64: "g");
impl CVal for bool {
    fn ty() -> Ty {
        Ty { nullable: false, kind: Kind::Bool }
    }
    fn to_dyn(&self) -> Dyn {
        Dyn::Bool(*self)
    }
    fn from_dyn(d: &Dyn) -> Self {
        *d == Dyn::Bool(true)
    }
}
impl<T: CVal> CVal for Option<T> {
    fn ty() -> Ty {
        Ty { nullable: true, ..T::ty() }
    }
    fn to_dyn(&self) -> Dyn {
        self.as_ref().map_or(Dyn::Null, T::to_dyn)
    }
    fn from_dyn(d: &Dyn) -> Self {
        (*d != Dyn::Null).then(|| T::from_dyn(d))
    }
}
impl<T: CVal> CVal for Vec<T> {
    fn ty() -> Ty {
        Ty { nullable: false, kind: Kind::List(Box::new(T::ty())) }
    }
    fn to_dyn(&self) -> Dyn {
        Dyn::List(self.iter().map(T::to_dyn).collect())
    }
    fn from_dyn(d: &Dyn) -> Self {
        let Dyn::List(v) = d else { panic!("harness: {d:?}") };
        v.iter().map(T::from_dyn).collect()
    }
}
impl<T: CVal, const N: usize> CVal for [T; N] {
    fn ty() -> Ty {
        Ty { nullable: false, kind: Kind::Fsl(N, Box::new(T::ty())) }
    }
    fn to_dyn(&self) -> Dyn {
        Dyn::List(self.iter().map(T::to_dyn).collect())
    }
    fn from_dyn(d: &Dyn) -> Self {
        let Dyn::List(v) = d else { panic!("harness: {d:?}") };
        std::array::from_fn(|i| T::from_dyn(&v[i]))
    }
}
pub fn dyns<T: CVal>(items: &[T]) -> Vec<Dyn> {
    items.iter().map(T::to_dyn).collect()
}

/// Invokes `$m!(Type);` for every item type driven across the interface.
#[macro_export]
macro_rules! ffi_items {
    ($m:ident) => {
        $crate::ffi_few!($m);
        $m!(u8);
        $m!(i8);
        $m!(u16);
        $m!(i16);
        $m!(u32);
        $m!(u64);
        $m!(i64);
        $m!(f32);
        $m!(Option<i8>);
        $m!(Option<u16>);
        $m!(Option<u64>);
        $m!(Option<f64>);
        $m!(Option<Vec<u8>>);
        $m!(Vec<Vec<u16>>);
        $m!([u8; 1]);
        $m!([f64; 8]);
        $m!([[u8; 2]; 3]);
        $m!([Vec<u8>; 2]);
        $m!([Option<u8>; 2]);
        $m!([i32; 4]);
        $m!([Vec<[bool; 3]>; 2]);
        $m!([Option<[Option<bool>; 3]>; 2]);
        $m!([u16; 10]);
        $m!([bool; 130]);
        $m!(Vec<[u8; 257]>);
        $m!([Option<u8>; 1000]);
        $m!(Option<Vec<Option<[Option<bool>; 2]>>>);
        $m!(Vec<Vec<Vec<Option<u8>>>>);
        $m!(Option<Vec<Vec<Option<i32>>>>);
    };
}
/// A selection covering every layout, nullability and nesting.
#[macro_export]
macro_rules! ffi_few {
    ($m:ident) => {
        $m!(bool);
        $m!(Option<bool>);
        $m!(i32);
        $m!(f64);
        $m!(Option<i32>);
        $m!(Vec<u8>);
        $m!(Vec<bool>);
        $m!(Vec<Option<i32>>);
        $m!([i32; 3]);
        $m!([bool; 3]);
        $m!(Option<[bool; 5]>);
        $m!(Vec<[u16; 2]>);
        $m!([[Option<u8>; 2]; 2]);
        $m!(Vec<Option<Vec<Option<bool>>>>);
        $m!(Option<[Option<Vec<Option<i64>>>; 3]>);
    };
}

// --------------------------------------------------------------- consumer

pub const NULLABLE: i64 = 2;

unsafe fn bit(p: *const c_void, i: usize) -> bool {
    unsafe { p.cast::<u8>().add(i / 8).read() >> (i % 8) & 1 == 1 }
}
unsafe fn buffer(a: &CArray, i: usize) -> *const c_void {
    unsafe { a.buffers.add(i).read() }
}
pub unsafe fn child(a: &CArray) -> *mut CArray {
    unsafe { a.children.read() }
}
pub unsafe fn child_schema(a: &CSchema) -> *mut CSchema {
    unsafe { a.children.read() }
}
fn us(n: i64) -> usize {
    usize::try_from(n).expect("harness: negative")
}
unsafe fn valid(ty: &Ty, a: &CArray, row: usize) -> bool {
    if !ty.nullable {
        return true;
    }
    let p = unsafe { buffer(a, 0) };
    p.is_null() || unsafe { bit(p, us(a.offset) + row) }
}

/// Reads one row as a consumer would.
pub unsafe fn read(ty: &Ty, a: &CArray, row: usize) -> Dyn {
    unsafe {
        if !valid(ty, a, row) {
            return Dyn::Null;
        }
        let at = us(a.offset) + row;
        match &ty.kind {
            Kind::Bool => Dyn::Bool(bit(buffer(a, 1), at)),
            Kind::Prim(_, size) => {
                let p = buffer(a, 1).cast::<u8>().add(at * size);
                Dyn::Raw((0..*size).map(|i| p.add(i).read()).collect())
            }
            Kind::List(c) => {
                let o = buffer(a, 1).cast::<i32>().add(at);
                let (from, to) = (o.read() as usize, o.add(1).read() as usize);
                let kid = &*child(a);
                Dyn::List((from..to).map(|i| read(c, kid, i)).collect())
            }
            Kind::Fsl(n, c) => {
                let kid = &*child(a);
                Dyn::List((at * n..(at + 1) * n).map(|i| read(c, kid, i)).collect())
            }
        }
    }
}
pub unsafe fn read_all(ty: &Ty, a: &CArray) -> Vec<Dyn> {
    (0..us(a.length)).map(|i| unsafe { read(ty, a, i) }).collect()
}

/// Whether encoded metadata is well-formed: a count, then that many keys and
/// values, each a length and UTF-8 text. Nothing of narrow is near the limits.
unsafe fn metadata(p: *const c_char) -> bool {
    unsafe fn number(p: &mut *const u8, most: i32) -> Option<usize> {
        unsafe {
            let n = p.cast::<i32>().read_unaligned();
            *p = p.add(4);
            (0..=most).contains(&n).then_some(n as usize)
        }
    }
    unsafe {
        let mut p = p.cast::<u8>();
        let Some(pairs) = number(&mut p, 1 << 10) else { return false };
        (0..2 * pairs).all(|_| {
            let Some(len) = number(&mut p, 1 << 12) else { return false };
            let text = std::str::from_utf8(std::slice::from_raw_parts(p, len));
            p = p.add(len);
            text.is_ok()
        })
    }
}

/// What the specification demands of an exported pair, recursively.
pub unsafe fn conforms(ty: &Ty, a: &CArray, s: &CSchema) -> Res<u64> {
    let at = |m: String| format!("{} ({}): {m}", ty.format(), if ty.nullable { "nullable" } else { "non-nullable" });
    macro_rules! need {
        ($c:expr, $($m:tt)*) => { if !$c { return Err(at(format!($($m)*))); } };
    }
    unsafe {
        need!(a.release.is_some(), "the array has no release callback");
        need!(s.release.is_some(), "the schema has no release callback");
        need!(!s.format.is_null(), "the schema has no format");
        let format = CStr::from_ptr(s.format);
        need!(format.to_bytes() == ty.format().as_bytes(), "the format is {format:?}");
        need!(s.name.is_null() || CStr::from_ptr(s.name).to_str().is_ok(), "the name is not UTF-8");
        need!(s.metadata.is_null() || metadata(s.metadata), "the metadata is malformed");
        need!(s.flags == if ty.nullable { NULLABLE } else { 0 }, "the flags are {}", s.flags);
        need!(a.dictionary.is_null() && s.dictionary.is_null(), "there is a dictionary");
        need!(a.length >= 0, "the length is {}", a.length);
        need!(a.offset == 0, "the offset is {}", a.offset);
        need!(a.n_buffers == ty.n_buffers(), "there are {} buffers", a.n_buffers);
        need!(!a.buffers.is_null() && a.buffers.is_aligned(), "the buffer pointers are at {:?}", a.buffers);
        need!(a.n_children == ty.n_children() && s.n_children == ty.n_children(), "there are {} and {} children", a.n_children, s.n_children);
        let n = us(a.length);
        let nulls = (0..n).filter(|i| !valid(ty, a, *i)).count();
        need!(a.null_count == nulls as i64, "the null count is {} for {nulls} nulls", a.null_count);
        if n > 0 && ty.n_buffers() == 2 {
            let p = buffer(a, 1);
            need!(!p.is_null(), "the values are missing");
        }
        if ty.n_buffers() == 2 {
            let p = buffer(a, 1);
            need!(p.addr() % ty.align() == 0, "the values at {p:?} are not aligned");
        }
        if let Some(c) = ty.child() {
            need!(!a.children.is_null() && a.children.is_aligned(), "the child pointers are at {:?}", a.children);
            need!(!s.children.is_null() && s.children.is_aligned(), "the child schema pointers are at {:?}", s.children);
            let (ca, cs) = (child(a), child_schema(s));
            need!(!ca.is_null() && ca.is_aligned() && !cs.is_null() && cs.is_aligned(), "the child is at {ca:?}, its schema at {cs:?}");
            let mut last = n as i64 * if let Kind::Fsl(w, _) = ty.kind { w as i64 } else { 0 };
            if let Kind::List(_) = ty.kind {
                let o = buffer(a, 1).cast::<i32>();
                need!(!o.is_null(), "the offsets are missing");
                let first = o.read();
                need!(first == 0, "the first offset is {first}");
                last = i64::from(first);
                for i in 1..=n {
                    let next = i64::from(o.add(i).read());
                    need!(next >= last, "offset {i} is {next} after {last}");
                    last = next;
                }
            }
            need!((*ca).length >= last, "the child has {} rows, {last} are referenced", (*ca).length);
            if let Kind::Fsl(..) = ty.kind {
                need!((*ca).length == last, "the child has {} rows instead of {last}", (*ca).length);
            }
            return conforms(c, &*ca, &*cs).map(|k| k + 1);
        }
        Ok(1)
    }
}

/// Addresses of the buffers of an exported tree in the order of
/// `identity::places`; the number of bytes the rows need.
pub unsafe fn exposed(ty: &Ty, a: &CArray, out: &mut Vec<(usize, usize)>) {
    unsafe {
        let n = us(a.length);
        if ty.nullable && !buffer(a, 0).is_null() {
            out.push((buffer(a, 0).addr(), n.div_ceil(8)));
        }
        match &ty.kind {
            Kind::Bool => out.push((buffer(a, 1).addr(), n.div_ceil(8))),
            Kind::Prim(_, size) => out.push((buffer(a, 1).addr(), n * size)),
            Kind::List(_) => out.push((buffer(a, 1).addr(), (n + 1) * 4)),
            Kind::Fsl(..) => {}
        }
        if let Some(c) = ty.child() {
            exposed(c, &*child(a), out);
        }
    }
}

// ------------------------------------------------------------------ judge

/// Every defect that keeps a pair from being importable as `ty`. Tells whether
/// the length can be relied on: only fixed-size lists get lengths beyond their
/// rows, which their children then tell.
pub unsafe fn judge(ty: &Ty, a: &CArray, s: &CSchema, out: &mut Vec<ImportError>) -> bool {
    let mut sound = true;
    let mut bad = |sound: &mut bool, e: ImportError| {
        *sound = false;
        out.push(e);
    };
    unsafe {
        if a.release.is_none() {
            bad(&mut sound, ImportError::ReleasedArray);
        }
        if s.release.is_none() {
            bad(&mut sound, ImportError::ReleasedSchema);
        }
        let mut shape = true;
        if s.release.is_none() {
            // Nothing a released schema points to may be looked at.
            shape = false;
        } else if s.format.is_null() {
            bad(&mut sound, ImportError::MissingFormat);
            shape = false;
        } else if CStr::from_ptr(s.format).to_bytes() != ty.format().as_bytes() {
            bad(&mut sound, ImportError::UnexpectedFormat);
            shape = false;
        }
        if (s.flags & NULLABLE != 0) != ty.nullable {
            bad(&mut sound, ImportError::UnexpectedFlags { flags: s.flags });
        }
        if a.length < 0 {
            bad(&mut sound, ImportError::InvalidLength { length: a.length });
        }
        if a.offset != 0 {
            bad(&mut sound, ImportError::NonZeroOffset { offset: a.offset });
        }
        if a.null_count < -1 || a.null_count > a.length || (!ty.nullable && a.null_count > 0) {
            bad(&mut sound, ImportError::UnexpectedNullCount { null_count: a.null_count });
        }
        if a.n_buffers != ty.n_buffers() {
            bad(&mut sound, ImportError::UnexpectedBufferCount { count: a.n_buffers });
        }
        if a.n_children != ty.n_children() || s.n_children != ty.n_children() {
            bad(&mut sound, ImportError::UnexpectedChildCount { array: a.n_children, schema: s.n_children });
            shape = false;
        }
        if !a.dictionary.is_null() || !s.dictionary.is_null() {
            bad(&mut sound, ImportError::UnexpectedDictionary);
        }
        if a.buffers.is_null() {
            bad(&mut sound, ImportError::MissingBufferPointers);
        }
        if let Kind::Fsl(0, _) = ty.kind {
            bad(&mut sound, ImportError::UnsupportedFixedSizeListSize { size: 0 });
        }
        let mut kid = None;
        let mut child_covered = false;
        if let (Some(c), true, true) = (ty.child(), shape, a.release.is_some()) {
            let ca = if a.children.is_null() { ptr::null_mut() } else { child(a) };
            let cs = if s.children.is_null() { ptr::null_mut() } else { child_schema(s) };
            if ca.is_null() {
                bad(&mut sound, ImportError::MissingArrayChildren);
            }
            if cs.is_null() {
                bad(&mut sound, ImportError::MissingSchemaChildren);
            }
            if !ca.is_null() && !cs.is_null() {
                child_covered = judge(c, &*ca, &*cs, out);
                if (*ca).length >= 0 {
                    kid = Some((*ca).length as usize);
                }
            }
        }
        let mut bad = |e: ImportError| out.push(e);
        if !sound && (a.release.is_none() || a.buffers.is_null() || a.n_buffers != ty.n_buffers() || a.length < 0 || !shape) {
            return a.length >= 0 && !matches!(ty.kind, Kind::Fsl(..));
        }
        let n = us(a.length);
        // Whether the bits cover the length.
        let mut covered = true;
        match &ty.kind {
            Kind::Bool | Kind::Prim(..) if n > 0 => {
                let p = buffer(a, 1);
                if p.is_null() {
                    bad(ImportError::MissingValuesBuffer);
                } else if p.addr() % ty.align() != 0 {
                    bad(ImportError::MisalignedValuesBuffer { alignment: ty.align() });
                }
            }
            Kind::List(_) => {
                let p = buffer(a, 1);
                if p.is_null() {
                    bad(ImportError::MissingOffsetsBuffer);
                } else if p.addr() % 4 != 0 {
                    bad(ImportError::MisalignedOffsetsBuffer { alignment: 4 });
                } else {
                    let o: Vec<i32> = (0..=n).map(|i| p.cast::<i32>().add(i).read()).collect();
                    for error in offset_errors(&o, kid) {
                        bad(ImportError::InvalidOffsets { error });
                    }
                }
            }
            Kind::Fsl(w, _) => {
                if let Some(k) = kid.filter(|k| n.checked_mul(*w) != Some(*k)) {
                    bad(ImportError::FixedSizeListLengthMismatch { length: n, child_length: k, size: *w });
                    covered = false;
                }
                // Nothing but the child says that the length is right.
                covered &= child_covered && kid.is_some();
            }
            _ => {}
        }
        if ty.nullable && n > 0 {
            if buffer(a, 0).is_null() {
                if a.null_count != 0 {
                    bad(ImportError::MissingValidityBuffer);
                }
            } else if covered {
                let actual = (0..n).filter(|i| !bit(buffer(a, 0), *i)).count();
                if a.null_count >= 0 && a.null_count as usize != actual {
                    out.push(ImportError::NullCountMismatch { declared: a.null_count, actual });
                }
            }
        }
        covered
    }
}

/// Every rule the offsets break, each with its place.
pub fn offset_errors(o: &[i32], data: Option<usize>) -> Vec<OffsetsError> {
    let mut out = Vec::new();
    if o[0] > 0 {
        out.push(OffsetsError::NonZeroFirst { first: o[0] as usize });
    }
    for (index, v) in o.iter().enumerate() {
        if *v < 0 {
            out.push(OffsetsError::Negative { index });
        } else if index > 0 && *v < o[index - 1] {
            out.push(OffsetsError::NonMonotonic { index });
        }
    }
    let last = *o.last().expect("an offset");
    if let Some(data) = data.filter(|d| last >= 0 && last as usize > *d) {
        out.push(OffsetsError::OutOfBounds { last: last as usize, data });
    }
    out
}

// --------------------------------------------------------------- importing

pub type Imported<T> = narrow::array::Array<T, SliceBuffer<'static>>;

/// Imports, leaving it to the caller that the result does not outlive `a`.
pub unsafe fn import<T>(a: *const CArray, s: *const CSchema) -> Result<Imported<T>, ImportError>
where
    T: narrow::layout::ArrayItem,
    Imported<T>: Import<'static>,
{
    unsafe { Import::import(&*a.cast::<ArrowArray>(), &*s.cast::<ArrowSchema>()) }
}

// ---------------------------------------------------------------- producer

/// Memory with an exact size and alignment.
#[derive(Debug)]
struct Block {
    ptr: *mut u8,
    layout: Layout,
}
impl Drop for Block {
    fn drop(&mut self) {
        unsafe { dealloc(self.ptr, self.layout) }
    }
}

#[derive(Debug)]
pub struct Owner {
    pub id: usize,
    pub what: &'static str,
    pub released: Cell<u32>,
    /// Released by the callback of its parent.
    pub nested: Cell<u32>,
    array: Cell<Option<CArray>>,
    schema: Cell<Option<CSchema>>,
    wrong: RefCell<Vec<String>>,
    /// The callbacks currently running, across one ledger.
    depth: *const Cell<u32>,
}

/// Everything one producer handed out. Frees it all when dropped.
#[derive(Debug)]
pub struct Ledger {
    blocks: RefCell<Vec<Block>>,
    owners: RefCell<Vec<*mut Owner>>,
    arrays: RefCell<Vec<*mut CArray>>,
    schemas: RefCell<Vec<*mut CSchema>>,
    /// What was written: buffers, texts and pointer tables.
    written: RefCell<Vec<(*mut u8, usize)>>,
    depth: Box<Cell<u32>>,
}
impl Drop for Ledger {
    fn drop(&mut self) {
        unsafe {
            self.owners.borrow().iter().for_each(|p| drop(Box::from_raw(*p)));
            self.arrays.borrow().iter().for_each(|p| drop(Box::from_raw(*p)));
            self.schemas.borrow().iter().for_each(|p| drop(Box::from_raw(*p)));
        }
    }
}
impl Default for Ledger {
    fn default() -> Self {
        Ledger {
            blocks: RefCell::default(),
            owners: RefCell::default(),
            arrays: RefCell::default(),
            schemas: RefCell::default(),
            written: RefCell::default(),
            depth: Box::new(Cell::new(0)),
        }
    }
}

unsafe extern "C" fn release_array(a: *mut CArray) {
    unsafe {
        let o = &*(*a).private_data.cast::<Owner>();
        let depth = &*o.depth;
        o.released.set(o.released.get() + 1);
        if depth.get() > 0 {
            o.nested.set(o.nested.get() + 1);
        }
        let mut now = *a;
        if now.release.is_none() {
            o.wrong.borrow_mut().push("called for a structure already marked as released".into());
            now.release = Some(release_array);
        }
        if let Some(was) = o.array.get().filter(|was| !was.same(&now)) {
            o.wrong.borrow_mut().push(format!("handed {now:?} instead of {was:?}"));
        }
        depth.set(depth.get() + 1);
        for i in 0..(*a).n_children.max(0) {
            let c = (*a).children.add(i as usize).read();
            if let Some(r) = (*c).release {
                r(c);
            }
        }
        depth.set(depth.get() - 1);
        (*a).release = None;
    }
}
unsafe extern "C" fn release_schema(s: *mut CSchema) {
    unsafe {
        let o = &*(*s).private_data.cast::<Owner>();
        let depth = &*o.depth;
        o.released.set(o.released.get() + 1);
        if depth.get() > 0 {
            o.nested.set(o.nested.get() + 1);
        }
        let mut now = *s;
        if now.release.is_none() {
            o.wrong.borrow_mut().push("called for a schema already marked as released".into());
            now.release = Some(release_schema);
        }
        if let Some(was) = o.schema.get().filter(|was| !was.same(&now)) {
            o.wrong.borrow_mut().push(format!("handed {now:?} instead of {was:?}"));
        }
        depth.set(depth.get() + 1);
        for i in 0..(*s).n_children.max(0) {
            let c = (*s).children.add(i as usize).read();
            if let Some(r) = (*c).release {
                r(c);
            }
        }
        depth.set(depth.get() - 1);
        (*s).release = None;
    }
}

/// Callbacks of producers that own nothing and need no private data.
unsafe extern "C" fn release_bare_array(a: *mut CArray) {
    unsafe {
        for i in 0..(*a).n_children.max(0) {
            let c = (*a).children.add(i as usize).read();
            if let Some(r) = (*c).release {
                r(c);
            }
        }
        (*a).release = None;
    }
}
unsafe extern "C" fn release_bare_schema(s: *mut CSchema) {
    unsafe {
        for i in 0..(*s).n_children.max(0) {
            let c = (*s).children.add(i as usize).read();
            if let Some(r) = (*c).release {
                r(c);
            }
        }
        (*s).release = None;
    }
}

impl Ledger {
    /// Memory of exactly `bytes`, aligned to `align` and to nothing more if `tight`.
    pub fn block(&self, bytes: &[u8], align: usize, tight: bool) -> *mut u8 {
        let room = bytes.len() + if tight { align } else { 0 };
        let layout = Layout::from_size_align(room.max(1), if tight { 2 * align } else { 64.max(align) }).expect("layout");
        let ptr = unsafe { alloc(layout) };
        assert!(!ptr.is_null(), "harness: out of memory");
        let at = if tight { unsafe { ptr.add(align) } } else { ptr };
        unsafe { ptr::copy_nonoverlapping(bytes.as_ptr(), at, bytes.len()) };
        self.written.borrow_mut().push((at, bytes.len()));
        self.blocks.borrow_mut().push(Block { ptr, layout });
        at
    }
    fn table<T: Copy>(&self, items: &[T]) -> *mut T {
        let bytes = size_of_val(items);
        let layout = Layout::from_size_align(bytes.max(1), align_of::<T>()).expect("layout");
        let ptr = unsafe { alloc(layout) };
        assert!(!ptr.is_null(), "harness: out of memory");
        unsafe { ptr::copy_nonoverlapping(items.as_ptr(), ptr.cast(), items.len()) };
        self.written.borrow_mut().push((ptr, bytes));
        self.blocks.borrow_mut().push(Block { ptr, layout });
        ptr.cast()
    }
    pub fn text(&self, s: &[u8]) -> *const c_char {
        let mut v = s.to_vec();
        v.push(0);
        self.block(&v, 1, false).cast::<c_char>()
    }
    fn owner(&self, what: &'static str) -> *mut Owner {
        let id = self.owners.borrow().len();
        let p = Box::into_raw(Box::new(Owner {
            id,
            what,
            released: Cell::new(0),
            nested: Cell::new(0),
            array: Cell::new(None),
            schema: Cell::new(None),
            wrong: RefCell::default(),
            depth: &raw const *self.depth,
        }));
        self.owners.borrow_mut().push(p);
        p
    }
    /// Records the structures as they now are, to compare with what callbacks get.
    pub fn seal(&self) {
        unsafe {
            for a in self.arrays.borrow().iter().filter(|a| (***a).release.is_some() && !(***a).private_data.is_null()) {
                (*(**a).private_data.cast::<Owner>()).array.set(Some(**a));
            }
            for s in self.schemas.borrow().iter().filter(|s| (***s).release.is_some() && !(***s).private_data.is_null()) {
                (*(**s).private_data.cast::<Owner>()).schema.set(Some(**s));
            }
        }
    }
    pub fn owners(&self) -> Vec<&Owner> {
        self.owners.borrow().iter().map(|p| unsafe { &**p }).collect()
    }
    pub fn complaints(&self) -> Vec<String> {
        self.owners()
            .iter()
            .flat_map(|o| o.wrong.borrow().iter().map(|w| format!("{} {}: {w}", o.what, o.id)).collect::<Vec<_>>())
            .collect()
    }
    /// Bytes of everything handed out.
    pub fn snapshot(&self) -> Vec<u8> {
        let mut out = Vec::new();
        unsafe {
            for a in self.arrays.borrow().iter() {
                out.extend(std::slice::from_raw_parts(a.cast::<usize>(), 10).iter().flat_map(|x| x.to_ne_bytes()));
            }
            for s in self.schemas.borrow().iter() {
                out.extend(std::slice::from_raw_parts(s.cast::<usize>(), 9).iter().flat_map(|x| x.to_ne_bytes()));
            }
        }
        out
    }
    /// Bytes of every buffer, text and pointer table handed out.
    pub fn contents(&self) -> Vec<u8> {
        let mut out = Vec::new();
        for (p, n) in self.written.borrow().iter() {
            // Pointers are compared by address only.
            out.extend((0..*n).map(|i| unsafe { p.add(i).cast::<std::mem::MaybeUninit<u8>>().read().assume_init() }));
        }
        out
    }
    /// A dictionary that the types driven here cannot have.
    pub fn dictionary_array(&self) -> *mut CArray {
        self.array(0, 0, &[ptr::null(), ptr::null()], &[])
    }
    pub fn dictionary_schema(&self) -> *mut CSchema {
        self.schema(self.text(b"i"), 0, ptr::null(), ptr::null(), &[])
    }
    fn array(&self, length: i64, null_count: i64, buffers: &[*const c_void], children: &[*mut CArray]) -> *mut CArray {
        let p = Box::into_raw(Box::new(CArray {
            length,
            null_count,
            offset: 0,
            n_buffers: buffers.len() as i64,
            n_children: children.len() as i64,
            buffers: self.table(buffers),
            children: if children.is_empty() { ptr::null_mut() } else { self.table(children) },
            dictionary: ptr::null_mut(),
            release: Some(release_array),
            private_data: self.owner("array").cast(),
        }));
        self.arrays.borrow_mut().push(p);
        p
    }
    fn schema(&self, format: *const c_char, flags: i64, name: *const c_char, metadata: *const c_char, children: &[*mut CSchema]) -> *mut CSchema {
        let p = Box::into_raw(Box::new(CSchema {
            format,
            name,
            metadata,
            flags,
            n_children: children.len() as i64,
            children: if children.is_empty() { ptr::null_mut() } else { self.table(children) },
            dictionary: ptr::null_mut(),
            release: Some(release_schema),
            private_data: self.owner("schema").cast(),
        }));
        self.schemas.borrow_mut().push(p);
        p
    }
}

/// Habits of a producer.
#[derive(Clone, Debug)]
pub struct Style {
    /// Omit validity that records no nulls (probability).
    pub omit: f64,
    /// Leave null counts uncomputed.
    pub uncounted: f64,
    /// Garbage in padding, spare bytes after buffers.
    pub spare: f64,
    /// Unreferenced child rows, lists under nulls.
    pub extra: f64,
    /// Names, metadata and unrelated flags.
    pub decorated: f64,
    /// Buffers aligned to their type and nothing more.
    pub tight: f64,
    /// No private data.
    pub bare: f64,
}
impl Style {
    pub fn random(rng: &mut Rng) -> Self {
        let p = |rng: &mut Rng| *rng.pick(&[0.0, 0.5, 1.0]);
        Style { omit: p(rng), uncounted: p(rng), spare: p(rng), extra: p(rng), decorated: p(rng), tight: p(rng), bare: 0.0 }
    }
    /// As `random`, also structures without private data, which the ledger cannot tell apart.
    pub fn any(rng: &mut Rng) -> Self {
        let bare = *rng.pick(&[0.0, 0.0, 0.5, 1.0]);
        Style { bare, ..Style::random(rng) }
    }
}

/// Lays rows out; `None` is a row nobody may look at.
pub fn produce(l: &Ledger, ty: &Ty, rows: &[Option<Dyn>], st: &Style, rng: &mut Rng) -> (*mut CArray, *mut CSchema) {
    let n = rows.len();
    let valid: Vec<bool> = rows
        .iter()
        .map(|r| match r {
            Some(d) => *d != Dyn::Null,
            None => rng.coin(),
        })
        .collect();
    let live: Vec<Option<&Dyn>> = rows.iter().map(|r| r.as_ref().filter(|d| **d != Dyn::Null)).collect();
    let nulls = if ty.nullable { valid.iter().filter(|v| !**v).count() } else { 0 };
    let bits = |set: &[bool], rng: &mut Rng| -> *const c_void {
        let spare = rng.chance(st.spare);
        let extra = if spare { rng.below(3) } else { 0 };
        let bytes = crate::rehouse::pack(set, 0, extra, spare.then_some(&mut *rng));
        // Bytes that do not exist may not be looked at.
        l.block(&bytes, 1, rng.chance(st.tight)).cast_const().cast()
    };
    let nowhere = |align: usize, rng: &mut Rng| -> *const c_void {
        match rng.below(3) {
            0 => ptr::null(),
            1 => ptr::without_provenance(align),
            _ => ptr::without_provenance(align * 8),
        }
    };
    let mut null_count = nulls as i64;
    let mut v: *const c_void = ptr::null();
    if ty.nullable {
        if nulls > 0 || (n > 0 && !rng.chance(st.omit)) {
            v = bits(&valid, rng);
        } else if n == 0 {
            v = nowhere(1, rng);
        }
        if rng.chance(st.uncounted) && (!v.is_null() || n == 0) {
            null_count = -1;
        }
    } else {
        if rng.chance(st.extra) {
            v = bits(&vec![true; n], rng);
        }
        if rng.chance(st.uncounted) {
            null_count = -1;
        }
    }
    let mut buffers = vec![v];
    let mut kids = None;
    match &ty.kind {
        Kind::Bool => {
            let set: Vec<bool> = live.iter().map(|d| d.map_or_else(|| rng.coin(), |d| *d == Dyn::Bool(true))).collect();
            buffers.push(if n == 0 { nowhere(1, rng) } else { bits(&set, rng) });
        }
        Kind::Prim(_, size) => {
            let mut bytes = Vec::with_capacity(n * size);
            for d in &live {
                match d {
                    Some(Dyn::Raw(b)) => bytes.extend_from_slice(b),
                    Some(d) => panic!("harness: {d:?}"),
                    None => bytes.extend((0..*size).map(|_| rng.u64() as u8)),
                }
            }
            if rng.chance(st.spare) {
                bytes.extend((0..rng.below(2 * size + 1)).map(|_| 0xa5));
            }
            buffers.push(if n == 0 { nowhere(*size, rng) } else { l.block(&bytes, *size, rng.chance(st.tight)).cast_const().cast() });
        }
        Kind::List(c) => {
            let mut offsets: Vec<i32> = vec![0];
            let mut data: Vec<Option<Dyn>> = Vec::new();
            for d in &live {
                match d {
                    Some(Dyn::List(v)) => data.extend(v.iter().cloned().map(Some)),
                    Some(d) => panic!("harness: {d:?}"),
                    None if rng.chance(st.extra) => data.extend((0..rng.below(4)).map(|_| None)),
                    None => {}
                }
                offsets.push(data.len() as i32);
            }
            if rng.chance(st.extra) {
                data.extend((0..rng.below(6)).map(|_| None));
            }
            let bytes: Vec<u8> = offsets.iter().flat_map(|o| o.to_ne_bytes()).collect();
            buffers.push(l.block(&bytes, 4, rng.chance(st.tight)).cast_const().cast());
            kids = Some(produce(l, c, &data, st, rng));
        }
        Kind::Fsl(w, c) => {
            let mut data: Vec<Option<Dyn>> = Vec::new();
            for d in &live {
                match d {
                    Some(Dyn::List(v)) => data.extend(v.iter().cloned().map(Some)),
                    Some(d) => panic!("harness: {d:?}"),
                    None => data.extend((0..*w).map(|_| None)),
                }
            }
            kids = Some(produce(l, c, &data, st, rng));
        }
    }
    let a = l.array(n as i64, null_count, &buffers, &kids.iter().map(|k| k.0).collect::<Vec<_>>());
    if rng.chance(st.bare) {
        unsafe {
            (*a).private_data = ptr::null_mut();
            (*a).release = Some(release_bare_array);
        }
    }
    if kids.is_none() && rng.chance(st.extra) {
        // A pointer to no children at all.
        unsafe { (*a).children = l.table::<*mut CArray>(&[]) };
    }
    let mut flags = if ty.nullable { NULLABLE } else { 0 };
    let (mut name, mut metadata) = (ptr::null(), ptr::null());
    if rng.chance(st.decorated) {
        flags |= *rng.pick(&[0, 1, 4, 5, 8, 1 << 40, i64::MIN]);
        name = l.text(rng.pick(&["", "x", "värde", "+l", "a very long field name with spaces"]).as_bytes());
        let mut m: Vec<u8> = Vec::new();
        m.extend(1_i32.to_ne_bytes());
        m.extend(3_i32.to_ne_bytes());
        m.extend(b"key");
        m.extend(2_i32.to_ne_bytes());
        m.extend([0xff, 0]);
        metadata = l.block(&m, 4, false).cast_const().cast::<c_char>();
    }
    let s = l.schema(l.text(ty.format().as_bytes()), flags, name, metadata, &kids.iter().map(|k| k.1).collect::<Vec<_>>());
    if rng.chance(st.bare) {
        unsafe {
            (*s).private_data = ptr::null_mut();
            (*s).release = Some(release_bare_schema);
        }
    }
    if kids.is_none() && rng.chance(st.extra) {
        unsafe { (*s).children = l.table::<*mut CSchema>(&[]) };
    }
    (a, s)
}

/// Every node of a pair, outermost first.
pub unsafe fn nodes(ty: &Ty, a: *mut CArray, s: *mut CSchema) -> Vec<(Ty, *mut CArray, *mut CSchema)> {
    let mut out = vec![(ty.clone(), a, s)];
    if let Some(c) = ty.child() {
        unsafe { out.extend(nodes(c, child(&*a), child_schema(&*s))) };
    }
    out
}
