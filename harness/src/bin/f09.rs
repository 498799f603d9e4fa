//! F09: release callbacks run exactly once and only for live structures.
use narrow::layout::ArrayItem;
use narrow_ffi::{ArrowArray, ArrowSchema};
use std::collections::HashMap;
use vh::cdata::*;
use vh::consumer::{Importer, importers};
use vh::corrupt::damage;
use vh::ensure;
use vh::programs::rows_len;
use vh::run::{Case, PLANNED, Plan, Res, Subject, caught};
use vh::val::{Dist, fp_all, sample_n, show};

/// What has become of one structure.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Fate {
    /// In a handle, or in place under a parent.
    Live,
    /// Released as the outermost structure, or by the callback of its parent.
    Gone { nested: bool },
    /// Forgotten without release.
    Lost,
}

struct World<'a> {
    l: &'a Ledger,
    arrays: Vec<ArrowArray>,
    schemas: Vec<ArrowSchema>,
    fates: HashMap<*const Owner, (Fate, Ty)>,
    importers: &'a [Importer],
}

fn ca(a: &ArrowArray) -> &CArray {
    unsafe { &*(&raw const *a).cast() }
}
fn cs(s: &ArrowSchema) -> &CSchema {
    unsafe { &*(&raw const *s).cast() }
}
/// Live structures below this one.
unsafe fn below_array(a: &CArray, out: &mut Vec<*const Owner>) {
    for i in 0..a.n_children as usize {
        let c = unsafe { &*a.children.add(i).read() };
        if c.release.is_some() {
            out.push(c.private_data.cast_const().cast());
            unsafe { below_array(c, out) };
        }
    }
}
unsafe fn below_schema(s: &CSchema, out: &mut Vec<*const Owner>) {
    for i in 0..s.n_children as usize {
        let c = unsafe { &*s.children.add(i).read() };
        if c.release.is_some() {
            out.push(c.private_data.cast_const().cast());
            unsafe { below_schema(c, out) };
        }
    }
}

impl World<'_> {
    fn array_falls(&mut self, a: &CArray, lost: bool) {
        if a.release.is_none() {
            return;
        }
        let mut v = Vec::new();
        unsafe { below_array(a, &mut v) };
        self.fall(a.private_data.cast_const().cast(), &v, lost);
    }
    fn schema_falls(&mut self, s: &CSchema, lost: bool) {
        if s.release.is_none() {
            return;
        }
        let mut v = Vec::new();
        unsafe { below_schema(s, &mut v) };
        self.fall(s.private_data.cast_const().cast(), &v, lost);
    }
    fn fall(&mut self, top: *const Owner, below: &[*const Owner], lost: bool) {
        let fate = |nested| if lost { Fate::Lost } else { Fate::Gone { nested } };
        self.fates.get_mut(&top).expect("known").0 = fate(false);
        for o in below {
            self.fates.get_mut(o).expect("known").0 = fate(true);
        }
    }

    /// Every callback has run as often as it should have by now.
    fn check(&self, after: &str) -> Res {
        for (o, (fate, _)) in &self.fates {
            let o = unsafe { &**o };
            let (released, nested) = (o.released.get(), o.nested.get());
            let want = match fate {
                Fate::Live | Fate::Lost => (0, 0),
                Fate::Gone { nested } => (1, u32::from(*nested)),
            };
            ensure!(
                (released, nested) == want,
                "after {after}: the callback of {} {} ({fate:?}) has run {released} times, {nested} of them for its parent",
                o.what,
                o.id
            );
        }
        let c = self.l.complaints();
        ensure!(c.is_empty(), "after {after}: {c:?}");
        Ok(())
    }

    fn image(&self) -> (Vec<u8>, Vec<u8>, Vec<[usize; 10]>, Vec<[usize; 9]>) {
        let a = self.arrays.iter().map(|a| unsafe { (&raw const *a).cast::<[usize; 10]>().read() }).collect();
        let s = self.schemas.iter().map(|a| unsafe { (&raw const *a).cast::<[usize; 9]>().read() }).collect();
        // Under Miri pointers cannot be read as bytes without losing them.
        let contents = if cfg!(miri) { Vec::new() } else { self.l.contents() };
        (self.l.snapshot(), contents, a, s)
    }

    fn import(&mut self, case: &mut Case) -> Res {
        if self.arrays.is_empty() || self.schemas.is_empty() {
            return Ok(());
        }
        let i = case.rng.below(self.arrays.len());
        let a = &raw const self.arrays[i];
        let mut j = case.rng.below(self.schemas.len());
        let ty_of = |p: *const Owner| self.fates.get(&p).map(|f| f.1.clone());
        let ty = ty_of(ca(&self.arrays[i]).private_data.cast_const().cast());
        // Usually a schema that fits.
        if case.rng.below(4) > 0
            && let Some(k) = (0..self.schemas.len()).find(|k| ty_of(cs(&self.schemas[*k]).private_data.cast_const().cast()) == ty)
        {
            j = k;
        }
        let s = &raw const self.schemas[j];
        let m = match self.importers.iter().find(|m| Some(&m.ty) == ty.as_ref()) {
            Some(m) if case.rng.below(6) > 0 => m,
            _ => case.rng.pick(self.importers),
        };
        let (a, s): (*const CArray, *const CSchema) = (a.cast(), s.cast());
        let mut why = Vec::new();
        unsafe { judge(&m.ty, &*a, &*s, &mut why) };
        let before = self.image();
        let got = (m.rows)(a, s)?;
        ensure!(self.image() == before, "an import with the outcome {:?} has changed the producer's structures", got.map(|_| ()));
        match got {
            Ok(_) => {
                ensure!(why.is_empty(), "import as {:?} succeeds despite {why:?}", m.ty);
                case.count("imports", 1);
            }
            Err(e) => {
                ensure!(why.contains(&e), "import as {:?} is refused with {e:?}, expected {why:?}", m.ty);
                case.count("imports_refused", 1);
            }
        }
        self.check("an import")
    }

    /// Imports a damaged pair and repairs it.
    fn damaged(&mut self, case: &mut Case) -> Res {
        let live: Vec<(usize, usize)> = (0..self.arrays.len())
            .flat_map(|i| (0..self.schemas.len()).map(move |j| (i, j)))
            .filter(|(i, j)| {
                let (a, s) = (ca(&self.arrays[*i]), cs(&self.schemas[*j]));
                let ty = |p: *const Owner| self.fates.get(&p).map(|f| &f.1);
                a.release.is_some() && s.release.is_some() && ty(a.private_data.cast_const().cast()) == ty(s.private_data.cast_const().cast())
            })
            .collect();
        if live.is_empty() {
            return Ok(());
        }
        let (i, j) = *case.rng.pick(&live);
        let ty = self.fates[&ca(&self.arrays[i]).private_data.cast_const().cast()].1.clone();
        let Some(m) = self.importers.iter().find(|m| m.ty == ty) else { return Ok(()) };
        // Straight from the vectors, so that looking at the handles does not
        // end the right to write to them.
        let a: *mut CArray = unsafe { self.arrays.as_mut_ptr().add(i) }.cast();
        let s: *mut CSchema = unsafe { self.schemas.as_mut_ptr().add(j) }.cast();
        unsafe {
            let nodes = nodes(&ty, a, s);
            let was: Vec<(CArray, CSchema)> = nodes.iter().map(|(_, a, s)| (**a, **s)).collect();
            let (t, na, ns) = case.rng.pick(&nodes).clone();
            // Only the structures themselves are damaged, and repaired after.
            let tables: Vec<Vec<*const std::ffi::c_void>> =
                nodes.iter().map(|(_, a, _)| (0..(**a).n_buffers as usize).map(|k| (**a).buffers.add(k).read()).collect()).collect();
            let kids: Vec<_> = nodes
                .iter()
                .map(|(_, a, s)| ((**a).n_children > 0).then(|| ((**a).children.read(), (**s).children.read())))
                .collect();
            let what = damage(self.l, &t, na, ns, &mut case.rng);
            case.trace(|| format!("damage {what:?}"));
            let mut why = Vec::new();
            judge(&ty, &*a, &*s, &mut why);
            let before = self.image();
            let got = (m.rows)(a, s);
            let same = self.image() == before;
            for ((((_, a, s), w), t), k) in nodes.iter().zip(&was).zip(&tables).zip(&kids) {
                (**a, **s) = *w;
                for (k, p) in t.iter().enumerate() {
                    (**a).buffers.add(k).write(*p);
                }
                if let Some((ka, ks)) = k {
                    (**a).children.write(*ka);
                    (**s).children.write(*ks);
                }
            }
            let got = got?;
            ensure!(same, "an import of a pair with {what:?} and the outcome {:?} has changed the producer's structures", got.map(|_| ()));
            match got {
                Ok(_) => ensure!(why.is_empty(), "a pair with {what:?} is imported despite {why:?}"),
                Err(e) => {
                    ensure!(why.contains(&e), "a pair with {what:?} is refused with {e:?}, expected {why:?}");
                    case.count("damaged_imports_refused", 1);
                }
            }
        }
        self.check("an import of a damaged pair")
    }

    fn step(&mut self, case: &mut Case) -> Res {
        let (n, m) = (self.arrays.len(), self.schemas.len());
        let kind = case.rng.below(16);
        case.trace(|| format!("step {kind} with {n} arrays, {m} schemas"));
        match kind {
            0..=3 => self.import(case)?,
            4..=5 => self.damaged(case)?,
            6 if n > 1 => {
                // Handles change places.
                let (i, j) = (case.rng.below(n), case.rng.below(n));
                self.arrays.swap(i, j);
                let a = self.arrays.remove(i);
                let a = *Box::new(a);
                self.arrays.push(a);
                self.arrays.shrink_to_fit();
                case.count("moves", 1);
            }
            7 if m > 1 => {
                let (i, j) = (case.rng.below(m), case.rng.below(m));
                self.schemas.swap(i, j);
                let s = self.schemas.remove(i);
                self.schemas.insert(0, *Box::new(s));
                self.schemas.shrink_to_fit();
                case.count("moves", 1);
            }
            8 if n > 0 && m > 0 => {
                // What is left behind is released.
                let (i, j) = (case.rng.below(n), case.rng.below(m));
                let a = std::mem::take(&mut self.arrays[i]);
                let s = std::mem::take(&mut self.schemas[j]);
                ensure!(self.arrays[i].is_released() && self.schemas[j].is_released(), "a default structure is not released");
                self.check("taking")?;
                drop(std::mem::replace(&mut self.arrays[i], a));
                self.schemas[j] = s;
                case.count("moves", 2);
            }
            9..=10 if n > 0 => {
                // A child moves out.
                let i = case.rng.below(n);
                let mut at: *mut CArray = (&raw mut self.arrays[i]).cast();
                unsafe {
                    for _ in 0..case.rng.range(1, 3) {
                        if (*at).release.is_none() || (*at).n_children == 0 {
                            break;
                        }
                        let c = child(&*at);
                        if (*c).release.is_none() {
                            break;
                        }
                        at = c;
                    }
                    if at != (&raw mut self.arrays[i]).cast() {
                        let moved = at.read();
                        (*at).release = None;
                        self.arrays.push(give_array(moved));
                        case.count("children_moved_out", 1);
                    }
                }
            }
            11 if m > 0 => {
                let j = case.rng.below(m);
                let top: *mut CSchema = (&raw mut self.schemas[j]).cast();
                unsafe {
                    if (*top).release.is_some() && (*top).n_children > 0 {
                        let c = child_schema(&*top);
                        if (*c).release.is_some() {
                            let moved = c.read();
                            (*c).release = None;
                            self.schemas.push(give_schema(moved));
                            case.count("child_schemas_moved_out", 1);
                        }
                    }
                }
            }
            12 if n > 0 => {
                let i = case.rng.below(n);
                let a = self.arrays.swap_remove(i);
                self.drop_array(a, case)?;
            }
            13 if m > 0 => {
                let j = case.rng.below(m);
                let s = self.schemas.swap_remove(j);
                self.drop_schema(s, case)?;
            }
            14 if n > 0 && case.rng.coin() => {
                // Released by hand; the handle stays.
                let i = case.rng.below(n);
                let a = *ca(&self.arrays[i]);
                if let Some(r) = a.release {
                    self.array_falls(&a, false);
                    unsafe { r((&raw mut self.arrays[i]).cast()) };
                    ensure!(self.arrays[i].is_released(), "an array released by hand is not marked");
                    case.count("released_by_hand", 1);
                }
            }
            15 if m > 0 && case.rng.coin() => {
                let j = case.rng.below(m);
                let s = *cs(&self.schemas[j]);
                if let Some(r) = s.release {
                    self.schema_falls(&s, false);
                    unsafe { r((&raw mut self.schemas[j]).cast()) };
                    ensure!(self.schemas[j].is_released(), "a schema released by hand is not marked");
                    case.count("released_by_hand", 1);
                }
            }
            _ => {}
        }
        self.check(&format!("step of kind {kind}"))
    }

    fn drop_array(&mut self, a: ArrowArray, case: &mut Case) -> Res {
        let c = *ca(&a);
        let lost = case.rng.below(12) == 0;
        self.array_falls(&c, lost);
        if lost {
            std::mem::forget(a);
            case.count("forgotten", 1);
        } else if case.rng.below(4) == 0 {
            let r = caught(move || {
                let _a = a;
                panic!("{PLANNED}");
            });
            ensure!(r.is_err(), "harness: no panic");
            case.count("dropped_while_unwinding", 1);
        } else {
            drop(a);
            case.count("dropped", 1);
        }
        self.check("dropping an array")
    }
    fn drop_schema(&mut self, s: ArrowSchema, case: &mut Case) -> Res {
        let c = *cs(&s);
        let lost = case.rng.below(12) == 0;
        self.schema_falls(&c, lost);
        if lost {
            std::mem::forget(s);
            case.count("forgotten", 1);
        } else if case.rng.below(4) == 0 {
            let r = caught(move || {
                let _s = s;
                panic!("{PLANNED}");
            });
            ensure!(r.is_err(), "harness: no panic");
            case.count("dropped_while_unwinding", 1);
        } else {
            drop(s);
            case.count("dropped", 1);
        }
        self.check("dropping a schema")
    }
}

fn subject<T>(case: &mut Case) -> Res
where
    T: ArrayItem + CVal,
{
    thread_local! { static IMPORTERS: Vec<Importer> = importers(); }
    IMPORTERS.with(|m| {
        let l = Ledger::default();
        let mut w = World { l: &l, arrays: Vec::new(), schemas: Vec::new(), fates: HashMap::new(), importers: m };
        for _ in 0..case.rng.range(1, 2) {
            let mut d = Dist::random(&mut case.rng);
            d.list_max = d.list_max.min(4);
            let n = rows_len(&mut case.rng, T::COST).min(40);
            let items: Vec<T> = sample_n(&mut case.rng, &d, n);
            fp_all(&items, case.fp_mut());
            case.trace(|| format!("produce {}", show(&items)));
            let rows: Vec<Option<Dyn>> = dyns(&items).into_iter().map(Some).collect();
            let mut rng = case.rng.fork();
            let st = Style::random(&mut rng);
            let (a, s) = produce(&l, &T::ty(), &rows, &st, &mut rng);
            unsafe {
                for (t, a, s) in nodes(&T::ty(), a, s) {
                    w.fates.insert((*a).private_data.cast_const().cast(), (Fate::Live, t.clone()));
                    w.fates.insert((*s).private_data.cast_const().cast(), (Fate::Live, t));
                }
                l.seal();
                let (ha, hs) = (a.read(), s.read());
                (*a).release = None;
                (*s).release = None;
                w.arrays.push(give_array(ha));
                w.schemas.push(give_schema(hs));
            }
        }
        let structures = w.fates.len() as u64;
        let steps = case.rng.range(4, if cfg!(miri) { 12 } else { 40 });
        let seed = case.rng.u64();
        case.fp(seed);
        for k in 0..steps {
            w.step(case).map_err(|e| format!("step {k}: {e}"))?;
        }
        while let Some(a) = w.arrays.pop() {
            w.drop_array(a, case)?;
        }
        while let Some(s) = w.schemas.pop() {
            w.drop_schema(s, case)?;
        }
        let live = w.fates.values().filter(|f| f.0 == Fate::Live).count();
        ensure!(live == 0, "harness: {live} structures are unaccounted for");
        let callbacks: u64 = l.owners().iter().map(|o| u64::from(o.released.get())).sum();
        case.count("structures_watched", structures);
        case.count("callbacks_counted", callbacks);
        case.nontrivial();
        Ok(())
    })
}

thread_local! {
    /// Calls by structure: arrays carry their number as length, schemas as flags.
    static CALLS: std::cell::RefCell<HashMap<(bool, i64), u32>> = std::cell::RefCell::default();
}
unsafe extern "C" fn plain_array(a: *mut CArray) {
    unsafe {
        CALLS.with_borrow_mut(|c| *c.entry((true, (*a).length)).or_insert(0) += 1);
        (*a).release = None;
    }
}
unsafe extern "C" fn plain_schema(s: *mut CSchema) {
    unsafe {
        CALLS.with_borrow_mut(|c| *c.entry((false, (*s).flags)).or_insert(0) += 1);
        (*s).release = None;
    }
}

/// Structures with next to nothing in them: only the callback says that they are live.
fn plain(case: &mut Case) -> Res {
    CALLS.with_borrow_mut(HashMap::clear);
    let mut want: HashMap<(bool, i64), u32> = HashMap::new();
    let mut arrays: Vec<ArrowArray> = Vec::new();
    let mut schemas: Vec<ArrowSchema> = Vec::new();
    let l = Ledger::default();
    let data = l.block(&[1; 64], 8, false);
    let own = data.cast();
    let names: Vec<_> = [&b"C"[..], b"b", b"+l", b"", b"junk"].iter().map(|f| l.text(f)).collect();
    let mut next = 0;
    let mut tables: Vec<Box<[*const std::ffi::c_void; 3]>> = Vec::new();
    for step in 0..case.rng.range(3, 30) {
        let op = case.rng.below(9);
        case.fp(op as u64);
        match op {
            0 | 1 => {
                next += 1;
                tables.push(Box::new([std::ptr::null(), data.cast_const().cast(), data.cast_const().cast()]));
                let buffers = match case.rng.below(3) {
                    0 => std::ptr::null_mut(),
                    _ => tables.last_mut().expect("a table").as_mut_ptr(),
                };
                arrays.push(give_array(CArray {
                    length: next,
                    null_count: *case.rng.pick(&[0, -1, 1]),
                    offset: *case.rng.pick(&[0, 0, 1]),
                    n_buffers: *case.rng.pick(&[0, 1, 2, 3]),
                    n_children: *case.rng.pick(&[0, 0, 0, -1]),
                    buffers,
                    children: std::ptr::null_mut(),
                    dictionary: std::ptr::null_mut(),
                    release: Some(plain_array),
                    private_data: *case.rng.pick(&[std::ptr::null_mut(), own]),
                }));
                want.insert((true, next), 0);
            }
            2 => {
                next += 1;
                schemas.push(give_schema(CSchema {
                    format: *case.rng.pick(&[std::ptr::null(), names[0], names[0], names[1], names[2], names[3], names[4]]),
                    name: *case.rng.pick(&[std::ptr::null(), names[0]]),
                    metadata: std::ptr::null(),
                    flags: next,
                    n_children: 0,
                    children: std::ptr::null_mut(),
                    dictionary: std::ptr::null_mut(),
                    release: Some(plain_schema),
                    private_data: *case.rng.pick(&[std::ptr::null_mut(), own]),
                }));
                want.insert((false, next), 0);
            }
            3 => {
                if arrays.is_empty() || schemas.is_empty() {
                    continue;
                }
                let (a, s) = (case.rng.below(arrays.len()), case.rng.below(schemas.len()));
                let was = (*ca(&arrays[a]), *cs(&schemas[s]));
                let by = case.rng.coin();
                let got = caught(|| unsafe {
                    if by {
                        import::<u8>(ca(&arrays[a]), cs(&schemas[s])).map(drop)
                    } else {
                        import::<Option<bool>>(ca(&arrays[a]), cs(&schemas[s])).map(drop)
                    }
                })
                .map_err(|e| format!("step {step}: import panics: {e}"))?;
                case.count(if got.is_ok() { "plain_imports_accepted" } else { "plain_imports_refused" }, 1);
                ensure!(was.0.same(ca(&arrays[a])) && was.1.same(cs(&schemas[s])), "step {step}: import changes a structure");
            }
            4 => {
                arrays.push(ArrowArray::default());
                schemas.push(ArrowSchema::default());
            }
            5 => {
                // Moved away: the old place is marked as released.
                if let Some(a) = arrays.pop() {
                    let mut old = take_array(a);
                    let new = old;
                    old.release = None;
                    arrays.push(give_array(new));
                    drop(give_array(old));
                }
            }
            6 => {
                if arrays.is_empty() {
                    continue;
                }
                let a = arrays.swap_remove(case.rng.below(arrays.len()));
                let id = (true, ca(&a).length);
                let live = ca(&a).release.is_some();
                if case.rng.below(4) == 0 {
                    let mut raw = take_array(a);
                    if let Some(r) = raw.release {
                        unsafe { r(&raw mut raw) };
                    }
                    drop(give_array(raw));
                } else {
                    drop(a);
                }
                if live {
                    want.insert(id, 1);
                }
            }
            7 => {
                if schemas.is_empty() {
                    continue;
                }
                let s = schemas.swap_remove(case.rng.below(schemas.len()));
                let id = (false, cs(&s).flags);
                let live = cs(&s).release.is_some();
                drop(s);
                if live {
                    want.insert(id, 1);
                }
            }
            _ => {
                if let Some(s) = schemas.pop() {
                    let mut slot = schemas.pop().unwrap_or_default();
                    // Assigning over a handle drops what was there.
                    if cs(&slot).release.is_some() {
                        want.insert((false, cs(&slot).flags), 1);
                    }
                    slot = s;
                    schemas.push(slot);
                }
            }
        }
        for (id, n) in &want {
            let got = CALLS.with_borrow(|c| c.get(id).copied().unwrap_or(0));
            ensure!(got == *n, "step {step}: the callback of {id:?} has run {got} times instead of {n}");
        }
    }
    for a in &arrays {
        if ca(a).release.is_some() {
            want.insert((true, ca(a).length), 1);
        }
    }
    for s in &schemas {
        if cs(s).release.is_some() {
            want.insert((false, cs(s).flags), 1);
        }
    }
    drop((arrays, schemas));
    let got = CALLS.with_borrow(|c| c.clone());
    ensure!(got == want, "in the end the callbacks have run {got:?} times instead of {want:?}");
    case.count("plain_structures", want.len() as u64);
    case.nontrivial();
    Ok(())
}

fn main() {
    let mut subjects = Vec::new();
    subjects.push(Subject::new("plain structures", 200, plain));
    macro_rules! sub {
        ($t:ty) => {
            subjects.push(Subject::new(vh::items::tidy(stringify!($t)), 120, subject::<$t>));
        };
    }
    if cfg!(miri) {
        vh::ffi_few!(sub);
    } else {
        vh::ffi_items!(sub);
    }
    vh::run::main(Plan {
        id: "F09",
        rule: "a case = one or two trees of structures from a foreign producer that counts and compares every call of every release callback, driven through random imports (as the right and as other types, undamaged and damaged), moves, replacements, children moved out, drops (also while unwinding), releases by hand and forgotten handles; after every step the callbacks of every structure have run exactly as often as its fate demands, and after every import every byte of the producer is as before; also structures holding next to nothing, without private data; non-trivial = all; distinct = by items and program",
        subjects,
        exhaustive: false,
    });
}
