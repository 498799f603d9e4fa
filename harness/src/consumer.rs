//! A lawful consumer of exported structures: owns array and schema structures,
//! moves them about, reads and imports them, takes children out and releases
//! everything in some order.

use crate::cdata::*;
use crate::coll::{Coll, check_all, check_consume};
use crate::rng::Rng;
use crate::run::{Obs, Res, caught};
use narrow::layout::ArrayItem;
use narrow_ffi::{Import, ImportError};
use std::rc::Rc;

/// Imports as one item type and checks what is presented.
pub struct Importer {
    pub ty: Ty,
    pub probe: fn(*const CArray, *const CSchema, &[Dyn], &mut dyn FnMut(), &mut Obs, bool) -> Res<Option<ImportError>>,
    /// The rows presented, or the refusal.
    pub rows: fn(*const CArray, *const CSchema) -> Res<Result<Vec<Dyn>, ImportError>>,
}

/// `Some(error)` if refused, otherwise everything presented has been checked.
pub fn probe<T>(a: *const CArray, s: *const CSchema, rows: &[Dyn], mid: &mut dyn FnMut(), obs: &mut Obs, deep: bool) -> Res<Option<ImportError>>
where
    T: CVal + ArrayItem,
    Imported<T>: Import<'static> + Coll<Owned = T> + crate::identity::Parts,
{
    let got = match caught(|| unsafe { import::<T>(a, s) }).map_err(|e| format!("import panics: {e}"))? {
        Ok(got) => got,
        Err(e) => return Ok(Some(e)),
    };
    mid();
    let model: Vec<T> = rows.iter().map(T::from_dyn).collect();
    obs.add("imports_read", 1);
    // Nothing is copied: every buffer is where the producer put it.
    let mut given = Vec::new();
    unsafe { exposed(&T::ty(), &*a, &mut given) };
    let given: Vec<_> = given.into_iter().filter(|(_, n)| *n > 0).collect();
    let seen: Vec<(usize, usize)> = crate::identity::places(&got).into_iter().filter(|p| p.bytes > 0).map(|p| (p.addr, p.bytes)).collect();
    if given.len() != seen.len() || given.iter().zip(&seen).any(|(g, s)| g.0 != s.0 || g.1 < s.1) {
        return Err(format!("the import reads {seen:x?}, the producer's buffers are {given:x?}"));
    }
    obs.add("import_buffers_in_place", seen.len() as u64);
    if deep {
        check_all(&got, &model, obs).map_err(|e| format!("import: {e}"))?;
        got.audit(obs).map_err(|e| format!("import: {e}"))?;
    } else {
        crate::ensure!(narrow::length::Length::len(&got) == model.len(), "import has {} rows, expected {}", narrow::length::Length::len(&got), model.len());
        for (i, (v, w)) in got.iter_views().zip(&model).enumerate() {
            <Imported<T> as Coll>::check_view(v, w, obs).map_err(|e| format!("import row {i}: {e}"))?;
        }
    }
    check_consume(got, &model, obs).map_err(|e| format!("import: {e}"))?;
    Ok(None)
}

fn rows<T>(a: *const CArray, s: *const CSchema) -> Res<Result<Vec<Dyn>, ImportError>>
where
    T: CVal + ArrayItem,
    Imported<T>: Import<'static> + Coll<Owned = T>,
{
    Ok(caught(|| unsafe { import::<T>(a, s) })
        .map_err(|e| format!("import panics: {e}"))?
        .map(|got| got.into_iter_owned().map(|v| v.to_dyn()).collect()))
}

use narrow::collection::Collection;

/// Importers of every driven item type.
pub fn importers() -> Vec<Importer> {
    let mut v = Vec::new();
    macro_rules! add {
        ($t:ty) => {
            v.push(Importer { ty: <$t>::ty(), probe: probe::<$t>, rows: rows::<$t> });
        };
    }
    crate::ffi_items!(add);
    add!(Vec<[bool; 3]>);
    add!(Vec<Option<bool>>);
    add!(Option<[Option<bool>; 3]>);
    add!(Option<[Option<bool>; 2]>);
    add!(Option<Vec<Option<bool>>>);
    add!(Option<Vec<Option<i64>>>);
    add!(Vec<u16>);
    add!([u16; 2]);
    v
}

/// One array structure the consumer owns.
pub struct Held {
    pub ty: Ty,
    pub at: Box<CArray>,
    /// Rows of every level below and including this one, outermost first.
    pub rows: Rc<Vec<Vec<Dyn>>>,
    /// Level of this structure in `rows`.
    pub depth: usize,
}
/// One schema structure the consumer owns.
pub struct HeldSchema {
    pub ty: Ty,
    pub at: Box<CSchema>,
    /// Everything said at this level and below when it was exported.
    told: Rc<Vec<Told>>,
    depth: usize,
}

/// What one schema structure says.
#[derive(Clone, Debug, PartialEq, Eq)]
struct Told {
    format: Vec<u8>,
    name: Option<Vec<u8>>,
    metadata: Option<i32>,
    flags: i64,
    children: i64,
    dictionary: bool,
}
unsafe fn told(s: &CSchema) -> Told {
    unsafe {
        let text = |p| std::ffi::CStr::from_ptr(p).to_bytes().to_vec();
        Told {
            format: text(s.format),
            name: (!s.name.is_null()).then(|| text(s.name)),
            metadata: (!s.metadata.is_null()).then(|| s.metadata.cast::<i32>().read_unaligned()),
            flags: s.flags,
            children: s.n_children,
            dictionary: !s.dictionary.is_null(),
        }
    }
}

/// All that can be read of a parent without one of its children.
unsafe fn trunk(ty: &Ty, a: &CArray, rows: &[Dyn]) -> Res {
    crate::ensure!(a.length == rows.len() as i64, "a level has length {} instead of {}", a.length, rows.len());
    let nulls = rows.iter().filter(|r| **r == Dyn::Null).count() as i64;
    crate::ensure!(a.null_count == nulls, "a level has null count {} instead of {nulls}", a.null_count);
    crate::ensure!(a.n_buffers == ty.n_buffers() && a.n_children == ty.n_children(), "a level has {} buffers and {} children", a.n_buffers, a.n_children);
    if ty.nullable {
        let p = unsafe { a.buffers.read() };
        for (i, r) in rows.iter().enumerate() {
            let valid = p.is_null() || unsafe { p.cast::<u8>().add(i / 8).read() >> (i % 8) & 1 == 1 };
            crate::ensure!(valid == (*r != Dyn::Null), "row {i} of a parent without child is {valid}, exported as {r:?}");
        }
    }
    if let Kind::List(_) = ty.kind {
        let p = unsafe { a.buffers.add(1).read() }.cast::<i32>();
        for (i, r) in rows.iter().enumerate() {
            if let Dyn::List(v) = r {
                let n = unsafe { p.add(i + 1).read() - p.add(i).read() };
                crate::ensure!(n as usize == v.len(), "row {i} of a parent without child has {n} items, exported as {r:?}");
            }
        }
    }
    Ok(())
}

/// Levels that are still in place, outermost first.
unsafe fn chain(ty: &Ty, a: *mut CArray) -> Vec<(Ty, *mut CArray)> {
    let mut out = Vec::new();
    let (mut ty, mut a) = (Some(ty), a);
    while let (Some(t), true) = (ty, unsafe { (*a).release.is_some() }) {
        out.push((t.clone(), a));
        ty = t.child();
        if ty.is_some() {
            a = unsafe { child(&*a) };
        }
    }
    out
}
unsafe fn schema_chain(ty: &Ty, s: *mut CSchema) -> Vec<(Ty, *mut CSchema)> {
    let mut out = Vec::new();
    let (mut ty, mut s) = (Some(ty), s);
    while let (Some(t), true) = (ty, unsafe { (*s).release.is_some() }) {
        out.push((t.clone(), s));
        ty = t.child();
        if ty.is_some() {
            s = unsafe { child_schema(&*s) };
        }
    }
    out
}
fn levels(ty: &Ty) -> usize {
    1 + ty.child().map_or(0, levels)
}

/// What a program did.
#[derive(Clone, Copy, Debug, Default)]
pub struct Did {
    pub exports: u64,
    pub reads: u64,
    pub moves: u64,
    pub imports: u64,
    pub refused: u64,
    pub children_out: u64,
    pub schemas_out: u64,
    pub released: u64,
    pub dropped: u64,
    pub orphans_read: u64,
    pub described: u64,
}
impl Did {
    pub fn tell(&self, o: &mut Obs) {
        for (k, n) in [
            ("exports", self.exports),
            ("structures_read", self.reads),
            ("structures_moved", self.moves),
            ("imports", self.imports),
            ("imports_refused", self.refused),
            ("children_moved_out", self.children_out),
            ("child_schemas_moved_out", self.schemas_out),
            ("released_by_callback", self.released),
            ("released_by_drop", self.dropped),
            ("children_read_after_parent_release", self.orphans_read),
            ("schemas_read", self.described),
        ] {
            o.add(k, n);
        }
    }
}

pub struct World<'a> {
    pub arrays: Vec<Held>,
    pub schemas: Vec<HeldSchema>,
    pub did: Did,
    pub importers: &'a [Importer],
    /// Read imports through every access path.
    pub deep: bool,
    /// Take children out.
    pub split: bool,
}

impl World<'_> {
    /// Takes over one exported pair.
    pub fn adopt(&mut self, ty: &Ty, a: CArray, s: CSchema, rows: &[Dyn]) -> Res {
        self.did.exports += 1;
        let at = Box::new(a);
        unsafe { conforms(ty, &at, &s) }?;
        let mut all = vec![rows.to_vec()];
        let mut at_level = &*at;
        let mut t = ty;
        while let Some(c) = t.child() {
            at_level = unsafe { &*child(at_level) };
            all.push(unsafe { read_all(c, at_level) });
            t = c;
        }
        let place = Box::new(s);
        let mut said = vec![unsafe { told(&place) }];
        let mut at_level = &*place;
        let mut t = ty;
        while let Some(c) = t.child() {
            at_level = unsafe { &*child_schema(at_level) };
            said.push(unsafe { told(at_level) });
            t = c;
        }
        self.schemas.push(HeldSchema { ty: ty.clone(), at: place, told: Rc::new(said), depth: 0 });
        self.arrays.push(Held { ty: ty.clone(), at, rows: Rc::new(all), depth: 0 });
        Ok(())
    }

    fn read(&mut self, i: usize) -> Res {
        let h = &self.arrays[i];
        let rows = &h.rows[h.depth];
        let c = unsafe { chain(&h.ty, (&raw const *h.at).cast_mut()) };
        crate::ensure!(h.at.length == rows.len() as i64, "a held structure has length {} instead of {}", h.at.length, rows.len());
        if c.len() == levels(&h.ty) {
            let now = unsafe { read_all(&h.ty, &h.at) };
            crate::ensure!(now == *rows, "level {} now reads {now:?}, exported as {rows:?}", h.depth);
            if h.depth > 0 {
                self.did.orphans_read += 1;
            }
        }
        for (k, (ty, a)) in c.iter().enumerate() {
            unsafe { trunk(ty, &**a, &h.rows[h.depth + k]) }?;
        }
        self.did.reads += 1;
        Ok(())
    }

    fn describe(&mut self, j: usize) -> Res {
        let h = &self.schemas[j];
        for (k, (_, s)) in unsafe { schema_chain(&h.ty, (&raw const *h.at).cast_mut()) }.iter().enumerate() {
            let now = unsafe { told(&**s) };
            crate::ensure!(now == h.told[h.depth + k], "a held schema now says {now:?}, exported as {:?}", h.told[h.depth + k]);
        }
        self.did.described += 1;
        Ok(())
    }

    fn import(&mut self, i: usize, rng: &mut Rng, obs: &mut Obs) -> Res {
        let h = &self.arrays[i];
        let fits: Vec<usize> = (0..self.schemas.len()).filter(|j| self.schemas[*j].ty == h.ty).collect();
        if fits.is_empty() {
            return Ok(());
        }
        let j = *rng.pick(&fits);
        let matching: Vec<&Importer> = self.importers.iter().filter(|m| m.ty == h.ty).collect();
        let m = if matching.is_empty() || rng.below(5) == 0 { rng.pick(self.importers) } else { matching[0] };
        let s = &raw mut *self.schemas[j].at;
        let mut want = Vec::new();
        unsafe { judge(&m.ty, &h.at, &*s, &mut want) };
        let mut gone = false;
        let drop_schema = rng.below(8) == 0;
        let mut mid = || {
            if drop_schema {
                gone = true;
                unsafe { ((*s).release.expect("live"))(s) };
            }
        };
        let got = (m.probe)(&raw const *h.at, s, &h.rows[h.depth], &mut mid, obs, self.deep)?;
        match got {
            None => {
                crate::ensure!(want.is_empty(), "import as {:?} succeeds despite {want:?}", m.ty);
                self.did.imports += 1;
            }
            Some(e) => {
                crate::ensure!(want.contains(&e), "import as {:?} is refused with {e:?}, expected {want:?}", m.ty);
                self.did.refused += 1;
            }
        }
        if gone {
            let s = self.schemas.swap_remove(j);
            crate::ensure!(s.at.release.is_none(), "a released schema is not marked as released");
            self.did.released += 1;
        }
        Ok(())
    }

    fn relocate(&mut self, i: usize, j: usize, rng: &mut Rng) {
        if !self.arrays.is_empty() {
            let old = &mut self.arrays[i].at;
            let new = Box::new(**old);
            old.release = None;
            let husk = std::mem::replace(old, new);
            if rng.coin() {
                drop(give_array(*husk));
            }
            self.did.moves += 1;
        }
        if !self.schemas.is_empty() {
            let old = &mut self.schemas[j].at;
            let new = Box::new(**old);
            old.release = None;
            let husk = std::mem::replace(old, new);
            if rng.coin() {
                drop(give_schema(*husk));
            }
            self.did.moves += 1;
        }
    }

    fn take_child(&mut self, i: usize, rng: &mut Rng) {
        let h = &mut self.arrays[i];
        let c = unsafe { chain(&h.ty, &raw mut *h.at) };
        if c.len() < 2 {
            return;
        }
        let k = rng.range(1, c.len() - 1);
        let (ty, p) = c[k].clone();
        let at = unsafe {
            let at = Box::new(p.read());
            (*p).release = None;
            at
        };
        let held = Held { ty, at, rows: h.rows.clone(), depth: h.depth + k };
        self.arrays.push(held);
        self.did.children_out += 1;
    }

    fn take_schema(&mut self, j: usize, rng: &mut Rng) {
        let h = &mut self.schemas[j];
        let c = unsafe { schema_chain(&h.ty, &raw mut *h.at) };
        if c.len() < 2 {
            return;
        }
        let k = rng.range(1, c.len() - 1);
        let (ty, p) = c[k].clone();
        let at = unsafe {
            let at = Box::new(p.read());
            (*p).release = None;
            at
        };
        let held = HeldSchema { ty, at, told: h.told.clone(), depth: h.depth + k };
        self.schemas.push(held);
        self.did.schemas_out += 1;
    }

    fn release_array(&mut self, i: usize, rng: &mut Rng) -> Res {
        let mut h = self.arrays.swap_remove(i);
        if rng.coin() {
            let p = &raw mut *h.at;
            unsafe {
                ((*p).release.expect("live"))(p);
                crate::ensure!((*p.cast::<narrow_ffi::ArrowArray>()).is_released(), "a released array is not marked as released");
            }
            // A released structure has nothing left to release.
            drop(give_array(*h.at));
            self.did.released += 1;
        } else {
            drop(give_array(*h.at));
            self.did.dropped += 1;
        }
        Ok(())
    }

    fn release_schema(&mut self, j: usize, rng: &mut Rng) -> Res {
        let mut h = self.schemas.swap_remove(j);
        if rng.coin() {
            let p = &raw mut *h.at;
            unsafe {
                ((*p).release.expect("live"))(p);
                crate::ensure!((*p.cast::<narrow_ffi::ArrowSchema>()).is_released(), "a released schema is not marked as released");
            }
            drop(give_schema(*h.at));
            self.did.released += 1;
        } else {
            drop(give_schema(*h.at));
            self.did.dropped += 1;
        }
        Ok(())
    }

    pub fn step(&mut self, rng: &mut Rng, obs: &mut Obs) -> Res {
        let (n, m) = (self.arrays.len(), self.schemas.len());
        match rng.below(12) {
            0..=2 if n > 0 => self.read(rng.below(n))?,
            3..=4 if n > 0 && m > 0 => self.import(rng.below(n), rng, obs)?,
            5 => {
                let (i, j) = (rng.below(n.max(1)), rng.below(m.max(1)));
                self.relocate(i, j, rng);
            }
            6..=7 if n > 0 && self.split => self.take_child(rng.below(n), rng),
            8 if m > 0 && self.split => self.take_schema(rng.below(m), rng),
            9 if n > 1 => self.release_array(rng.below(n), rng)?,
            10 if m > 0 && rng.coin() => self.release_schema(rng.below(m), rng)?,
            _ => {
                for j in 0..m {
                    self.describe(j)?;
                }
            }
        }
        Ok(())
    }

    /// Releases everything in some order, watching the storage.
    pub fn finish(&mut self, rng: &mut Rng, owners: Option<&dyn Fn() -> usize>) -> Res {
        while !self.arrays.is_empty() || !self.schemas.is_empty() {
            let (n, m) = (self.arrays.len(), self.schemas.len());
            if n == 0 || (m > 0 && rng.coin()) {
                self.release_schema(rng.below(m), rng)?;
            } else {
                self.release_array(rng.below(n), rng)?;
            }
            if let Some(o) = owners {
                let k = o();
                crate::ensure!(
                    (k == 0) == self.arrays.is_empty(),
                    "the storage has {k} owners while {} array structures are live",
                    self.arrays.len()
                );
            }
            for i in 0..self.arrays.len() {
                self.read(i)?;
            }
            for j in 0..self.schemas.len() {
                self.describe(j)?;
            }
        }
        Ok(())
    }
}
impl Drop for World<'_> {
    fn drop(&mut self) {
        // After a complaint: let go of what is left.
        for h in self.arrays.drain(..) {
            drop(give_array(*h.at));
        }
        for h in self.schemas.drain(..) {
            drop(give_schema(*h.at));
        }
    }
}
