//! F10: exports over thread-safe storage can be read and released on any thread.
use narrow::array::Array;
use narrow::buffer::{ArcBuffer, BoxBuffer, SliceBuffer, VecBuffer};
use narrow::collection::Collection;
use narrow::layout::ArrayItem;
use narrow_ffi::Export;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use vh::cdata::*;
use vh::consumer::{Importer, importers, probe};
use vh::ensure;
use vh::identity::Parts;
use vh::meter;
use vh::programs::rows_len;
use vh::rehouse::{Odd, Rehouse};
use vh::rng::Rng;
use vh::run::{Case, Plan, Res, Subject, caught, cleanup};
use vh::share::{Share, other_owners};
use vh::storage::House;
use vh::val::{Dist, fp_all, sample_n, show};

/// An array structure some thread owns.
struct Piece {
    ty: Ty,
    at: Box<CArray>,
    rows: Arc<Vec<Vec<Dyn>>>,
    depth: usize,
    /// Everything below is still in place.
    whole: bool,
    by_callback: bool,
}
// The property: structures over such storage may be handed to other threads.
unsafe impl Send for Piece {}
unsafe impl Sync for Piece {}
impl Drop for Piece {
    fn drop(&mut self) {
        if self.by_callback
            && let Some(r) = self.at.release
        {
            unsafe { r(&raw mut *self.at) };
        }
        drop(give_array(*self.at));
    }
}
struct Form(Ty, Box<CSchema>);
unsafe impl Send for Form {}
unsafe impl Sync for Form {}
impl Drop for Form {
    fn drop(&mut self) {
        drop(give_schema(*self.1));
    }
}

impl Piece {
    fn read(&self) -> Res {
        if self.whole {
            let now = unsafe { read_all(&self.ty, &self.at) };
            ensure!(now == self.rows[self.depth], "level {} reads {now:?}, exported as {:?}", self.depth, self.rows[self.depth]);
        } else {
            ensure!(self.at.length == self.rows[self.depth].len() as i64, "level {} has {} rows", self.depth, self.at.length);
        }
        Ok(())
    }
    fn import(&self, f: &Form, all: &[Importer]) -> Res<bool> {
        if f.0 != self.ty {
            return Ok(false);
        }
        let Some(m) = all.iter().find(|m| m.ty == self.ty) else { return Ok(false) };
        let mut why = Vec::new();
        unsafe { judge(&m.ty, &self.at, &f.1, &mut why) };
        match (m.rows)(&raw const *self.at, &raw const *f.1)? {
            Ok(got) => {
                ensure!(why.is_empty(), "imported despite {why:?}");
                ensure!(got == self.rows[self.depth], "import of level {} reads {got:?} instead of {:?}", self.depth, self.rows[self.depth]);
            }
            Err(e) => ensure!(why.contains(&e), "refused with {e:?}, expected {why:?}"),
        }
        Ok(true)
    }
}

/// Splits children off at random; every piece can be released on its own.
fn split(mut p: Piece, rng: &mut Rng, out: &mut Vec<Piece>) {
    let mut levels = vec![];
    let (mut t, mut at): (Option<&Ty>, *mut CArray) = (Some(&p.ty), &raw mut *p.at);
    while let Some(ty) = t {
        levels.push((ty.clone(), at));
        t = ty.child();
        if t.is_some() {
            at = unsafe { child(&*at) };
        }
    }
    let cut: Vec<usize> = (1..levels.len()).filter(|_| rng.below(3) > 0).collect();
    for (i, k) in cut.iter().enumerate() {
        let (ty, at) = levels[*k].clone();
        let moved = unsafe {
            let m = Box::new(at.read());
            (*at).release = None;
            m
        };
        // The deepest one keeps everything below it.
        let whole = i + 1 == cut.len();
        out.push(Piece { ty, at: moved, rows: p.rows.clone(), depth: p.depth + k, whole, by_callback: rng.coin() });
    }
    p.whole = cut.is_empty();
    out.push(p);
}

fn delay(rng: &mut Rng) {
    match rng.below(if cfg!(miri) { 3 } else { 6 }) {
        0 => std::thread::yield_now(),
        1 => (0..rng.below(if cfg!(miri) { 4 } else { 400 })).for_each(|_| std::hint::spin_loop()),
        _ => {}
    }
}

/// What one thread is given.
struct Job {
    mine: Vec<Piece>,
    forms: Vec<Form>,
    shared: Vec<Arc<Piece>>,
    shared_forms: Vec<Arc<Form>>,
    seed: u64,
    /// Lets go of further handles to the storage.
    handles: Vec<Box<dyn std::any::Any + Send>>,
    /// Exports one of them on this thread.
    late: Vec<Late>,
}
type Late = Box<dyn FnOnce() -> Res<(Piece, Form)> + Send>;

#[derive(Default)]
struct Seen {
    reads: AtomicUsize,
    imports: AtomicUsize,
    releases: AtomicUsize,
    overlaps: AtomicUsize,
    handed_on: AtomicUsize,
    exported: AtomicUsize,
    inside: AtomicUsize,
}

fn work(mut j: Job, all: &[Importer], pool: &Mutex<Vec<Piece>>, seen: &Seen, start: &AtomicUsize, threads: usize) -> Res {
    let mut rng = Rng::new(j.seed);
    // Everybody at once.
    start.fetch_add(1, Ordering::Relaxed);
    while start.load(Ordering::Relaxed) < threads {
        std::thread::yield_now();
    }
    let steps = if cfg!(miri) { 6 } else { 16 };
    for _ in 0..steps {
        delay(&mut rng);
        match rng.below(8) {
            0 | 1 if !j.shared.is_empty() => {
                let p = rng.pick(&j.shared).clone();
                if seen.inside.fetch_add(1, Ordering::Relaxed) > 0 {
                    seen.overlaps.fetch_add(1, Ordering::Relaxed);
                }
                let r = p.read();
                seen.inside.fetch_sub(1, Ordering::Relaxed);
                r?;
                seen.reads.fetch_add(1, Ordering::Relaxed);
            }
            2 | 3 if !j.shared.is_empty() && !j.shared_forms.is_empty() => {
                let (p, f) = (rng.pick(&j.shared).clone(), rng.pick(&j.shared_forms).clone());
                if p.import(&f, all)? {
                    seen.imports.fetch_add(1, Ordering::Relaxed);
                }
            }
            4 if !j.mine.is_empty() => {
                let p = &j.mine[rng.below(j.mine.len())];
                p.read()?;
                if let Some(f) = j.forms.iter().find(|f| f.0 == p.ty)
                    && p.import(f, all)?
                {
                    seen.imports.fetch_add(1, Ordering::Relaxed);
                }
                seen.reads.fetch_add(1, Ordering::Relaxed);
            }
            5 if !j.mine.is_empty() => {
                let p = j.mine.swap_remove(rng.below(j.mine.len()));
                if rng.below(4) == 0 {
                    pool.lock().expect("pool").push(p);
                    seen.handed_on.fetch_add(1, Ordering::Relaxed);
                } else {
                    drop(p);
                    seen.releases.fetch_add(1, Ordering::Relaxed);
                }
            }
            6 => match rng.below(4) {
                0 => drop(j.forms.pop()),
                1 => drop(j.shared.pop()),
                2 => drop(j.shared_forms.pop()),
                _ => drop(j.handles.pop()),
            },
            7 if rng.coin() && !j.late.is_empty() => {
                let (p, f) = j.late.pop().expect("one is left")()?;
                seen.exported.fetch_add(1, Ordering::Relaxed);
                if rng.coin() {
                    p.read()?;
                }
                j.mine.push(p);
                j.forms.push(f);
            }
            7 if rng.below(4) == 0 => {
                let p = pool.lock().expect("pool").pop();
                if let Some(p) = p {
                    p.read()?;
                    j.mine.push(p);
                }
            }
            _ => {}
        }
    }
    // The rest at once, in any order.
    while !j.mine.is_empty() || !j.shared.is_empty() || !j.forms.is_empty() || !j.shared_forms.is_empty() || !j.handles.is_empty() || !j.late.is_empty() {
        match rng.below(6) {
            0 if !j.mine.is_empty() => {
                let i = rng.below(j.mine.len());
                drop(j.mine.swap_remove(i));
                seen.releases.fetch_add(1, Ordering::Relaxed);
            }
            1 => drop(j.shared.pop()),
            2 => drop(j.forms.pop()),
            3 => drop(j.shared_forms.pop()),
            4 => drop(j.handles.pop()),
            5 => {
                if let Some(late) = j.late.pop() {
                    let (p, f) = late()?;
                    seen.exported.fetch_add(1, Ordering::Relaxed);
                    drop((p, f));
                }
            }
            _ => {}
        }
    }
    Ok(())
}

fn program<T, S>(case: &mut Case, all: &[Importer], twin: Option<fn(&Array<T, S>) -> Array<T, S>>, watch: Option<fn(&Array<T, S>) -> Box<dyn Fn() -> usize>>) -> Res
where
    S: House,
    T: ArrayItem + CVal,
    Array<T, VecBuffer>: FromIterator<T> + Rehouse<S, Out = Array<T, S>>,
    Array<T, S>: Export + Collection<Owned = T> + Send + Sync + 'static,
    Imported<T>: narrow_ffi::Import<'static> + vh::coll::Coll<Owned = T> + Parts,
{
    let mut d = Dist::random(&mut case.rng);
    if cfg!(miri) {
        d.list_max = d.list_max.min(3);
    }
    let n = rows_len(&mut case.rng, T::COST).min(60);
    let account = AtomicI64::new(0);
    let threads = case.rng.range(2, if cfg!(miri) { 3 } else { 4 });
    let seen = Seen::default();
    let pool: Mutex<Vec<Piece>> = Mutex::new(Vec::new());
    let start = AtomicUsize::new(0);
    let failed = AtomicBool::new(false);
    // Built on this thread, given to the others.
    let (mut jobs, owners) = meter::on_account(&account, || -> Res<_> {
        let items: Vec<T> = sample_n(&mut case.rng, &d, n);
        fp_all(&items, case.fp_mut());
        case.trace(|| format!("{threads} threads share {}", show(&items)));
        let rows = dyns(&items);
        let a: Array<T, S> = items.into_iter().collect::<Array<T, VecBuffer>>().rehouse(&mut Odd::unshifted(&mut case.rng));
        let owners = watch.map(|w| w(&a));
        let mut arrays = Vec::new();
        let mut handles: Vec<Box<dyn std::any::Any + Send>> = Vec::new();
        let mut spare: Vec<Array<T, S>> = Vec::new();
        if let Some(t) = twin {
            for _ in 0..case.rng.below(3) {
                arrays.push(t(&a));
            }
            for _ in 0..case.rng.below(3) {
                handles.push(Box::new(t(&a)));
            }
            for _ in 0..case.rng.below(4) {
                spare.push(t(&a));
            }
        }
        arrays.push(a);
        let (mut pieces, mut forms) = (Vec::new(), Vec::new());
        let mut every = None;
        for a in arrays {
            let (a, s) = a.export().map_err(|e| format!("export fails: {e}"))?;
            let (a, s) = (take_array(a), take_schema(s));
            let mut levels = vec![rows.clone()];
            let mut at = &a;
            let ty = T::ty();
            let mut t = &ty;
            while let Some(c) = t.child() {
                at = unsafe { &*child(at) };
                levels.push(unsafe { read_all(c, at) });
                t = c;
            }
            let levels = every.get_or_insert_with(|| Arc::new(levels)).clone();
            let p = Piece { ty: T::ty(), at: Box::new(a), rows: levels, depth: 0, whole: true, by_callback: case.rng.coin() };
            if case.rng.coin() {
                split(p, &mut case.rng, &mut pieces);
            } else {
                pieces.push(p);
            }
            forms.push(Form(T::ty(), Box::new(s)));
            if case.rng.coin() {
                let f = forms.last_mut().expect("just pushed");
                if f.0.child().is_some() {
                    let c = unsafe { child_schema(&f.1) };
                    let moved = unsafe { c.read() };
                    unsafe { (*c).release = None };
                    let ty = f.0.child().expect("child").clone();
                    forms.push(Form(ty, Box::new(moved)));
                }
            }
        }
        let mut jobs: Vec<Job> = (0..threads)
            .map(|_| Job { mine: Vec::new(), forms: Vec::new(), shared: Vec::new(), shared_forms: Vec::new(), seed: case.rng.u64(), handles: Vec::new(), late: Vec::new() })
            .collect();
        for p in pieces {
            if case.rng.coin() {
                let i = case.rng.below(threads);
                jobs[i].mine.push(p);
            } else {
                let p = Arc::new(p);
                jobs.iter_mut().for_each(|j| j.shared.push(p.clone()));
            }
        }
        for f in forms {
            if case.rng.coin() {
                let i = case.rng.below(threads);
                jobs[i].forms.push(f);
            } else {
                let f = Arc::new(f);
                jobs.iter_mut().for_each(|j| j.shared_forms.push(f.clone()));
            }
        }
        for h in handles {
            let i = case.rng.below(threads);
            jobs[i].handles.push(h);
        }
        let every = every.expect("an export");
        for a in spare {
            let (rows, by_callback) = (every.clone(), case.rng.coin());
            let i = case.rng.below(threads);
            jobs[i].late.push(Box::new(move || {
                let (a, s) = a.export().map_err(|e| format!("export on a thread fails: {e}"))?;
                let (a, s) = (take_array(a), take_schema(s));
                Ok((Piece { ty: T::ty(), at: Box::new(a), rows, depth: 0, whole: true, by_callback }, Form(T::ty(), Box::new(s))))
            }));
        }
        Ok((jobs, owners))
    })?;
    let alive = owners.as_ref().map(|o| o());
    ensure!(alive.is_none_or(|k| k > 0), "harness: nothing watched");
    let results: Vec<Res> = std::thread::scope(|sc| {
        let spawned: Vec<_> = jobs
            .drain(..)
            .map(|j| {
                let (pool, seen, start, account, failed) = (&pool, &seen, &start, &account, &failed);
                sc.spawn(move || {
                    meter::on_account(account, || {
                        let r = caught(|| work(j, all, pool, seen, start, threads)).unwrap_or_else(|e| Err(format!("unexpected {e}")));
                        if r.is_err() {
                            failed.store(true, Ordering::Relaxed);
                        }
                        r
                    })
                })
            })
            .collect();
        spawned.into_iter().map(|t| t.join().unwrap_or_else(|_| Err("a thread died".into()))).collect()
    });
    meter::on_account(&account, || {
        drop(jobs);
        let mut p = pool.into_inner().expect("pool");
        // Whatever was handed on last is released here.
        while let Some(p) = p.pop() {
            drop(p);
        }
        drop(p);
    });
    for r in results {
        r?;
    }
    if let Some(o) = &owners {
        let k = o();
        ensure!(k == 0, "{k} owners of the storage remain after the last release");
        case.count("owners_zero_at_the_end", 1);
    }
    meter::on_account(&account, || drop(owners));
    // Memory lent for good is the business of the monitor.
    meter::on_account(&account, cleanup);
    let left = account.load(Ordering::Relaxed);
    let exact = S::NAME != "slice" && !case.tracing();
    ensure!(left == 0 || !exact, "{left} bytes remain allocated after the last release");
    for (k, v) in [
        ("concurrent_reads", &seen.reads),
        ("concurrent_imports", &seen.imports),
        ("releases", &seen.releases),
        ("reads_begun_during_another", &seen.overlaps),
        ("handed_to_another_thread", &seen.handed_on),
        ("exported_on_a_thread", &seen.exported),
    ] {
        case.count(k, v.load(Ordering::Relaxed) as u64);
    }
    case.count("threads", threads as u64);
    case.nontrivial();
    Ok(())
}

fn main() {
    let mut subjects = Vec::new();
    macro_rules! sub {
        ($t:ty, $s:ty, $cases:expr, $twin:expr, $watch:expr) => {
            subjects.push(Subject::new(format!("Array<{},{}>", vh::items::tidy(stringify!($t)), <$s as House>::NAME), $cases, |case| {
                static IMPORTERS: std::sync::OnceLock<Vec<Importer>> = std::sync::OnceLock::new();
                let _ = probe::<$t>;
                program::<$t, $s>(case, IMPORTERS.get_or_init(importers), $twin, $watch)
            }));
        };
    }
    macro_rules! arc { ($t:ty) => { sub!($t, ArcBuffer, 60, Some(Share::share), Some(other_owners)); }; }
    macro_rules! vec { ($t:ty) => { sub!($t, VecBuffer, 40, None, None); }; }
    macro_rules! boxed { ($t:ty) => { sub!($t, BoxBuffer, 20, None, None); }; }
    macro_rules! slice { ($t:ty) => { sub!($t, SliceBuffer<'static>, 20, None, None); }; }
    macro_rules! small { ($t:ty) => { sub!($t, vh::storage::SmallBuf, 20, None, None); }; }
    if cfg!(miri) {
        small!(Vec<Option<i32>>);
        arc!(Option<i32>);
        arc!(Vec<Option<i32>>);
        arc!(Option<[bool; 5]>);
        arc!(Vec<Option<Vec<Option<bool>>>>);
        vec!(Vec<[u16; 2]>);
        vec!(Option<bool>);
    } else {
        vh::ffi_items!(arc);
        vh::ffi_few!(vec);
        vh::ffi_few!(boxed);
        vh::ffi_few!(slice);
        vh::ffi_few!(small);
    }
    vh::run::main(Plan {
        id: "F10",
        rule: "a case = exports over shared or owned thread-safe storage, with children and child schemas moved out, handed to two to four threads that start together and read and import shared structures, release, hand on and drop their own pieces, schemas and further handles, and export further handles, in random order with random delays; every value read is compared, the owners of the storage and the memory of all threads together are read at the end; non-trivial = all; distinct = by items",
        subjects,
        exhaustive: false,
    });
}
