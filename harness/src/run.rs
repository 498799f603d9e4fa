//! Case runner: drives subjects, records what was observed, writes the summary.

use crate::rng::{Fp, Rng, hash_str, mix};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::time::{Duration, Instant};

pub type Res<T = ()> = Result<T, String>;

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => {
        if !$cond { return Err(format!($($arg)*)); }
    };
}

/// What the oracles observed.
#[derive(Clone, Debug, Default)]
pub struct Obs {
    pub counts: BTreeMap<&'static str, u64>,
}
impl Obs {
    pub fn add(&mut self, key: &'static str, n: u64) {
        *self.counts.entry(key).or_insert(0) += n;
    }
}

#[derive(Debug)]
pub struct Case {
    pub rng: Rng,
    pub idx: u64,
    pub obs: Obs,
    pub thorough: bool,
    fp: Fp,
    trivial: bool,
    tracing: bool,
    trace: Vec<String>,
}

impl Case {
    /// Mixes into the fingerprint of this case.
    pub fn fp(&mut self, v: u64) {
        self.fp.add(v);
    }
    pub fn fp_mut(&mut self) -> &mut Fp {
        &mut self.fp
    }
    /// Marks the case as non-trivial.
    pub fn nontrivial(&mut self) {
        self.trivial = false;
    }
    pub fn tracing(&self) -> bool {
        self.tracing
    }
    /// Records a step of the history (only while replaying).
    pub fn trace(&mut self, f: impl FnOnce() -> String) {
        if self.tracing {
            let mut s = f();
            if s.len() > 2000 {
                let mut cut = 2000;
                while !s.is_char_boundary(cut) {
                    cut -= 1;
                }
                s.truncate(cut);
                s.push('…');
            }
            self.trace.push(s);
        }
    }
    pub fn count(&mut self, key: &'static str, n: u64) {
        self.obs.add(key, n);
    }
}

type Run = Box<dyn Fn(&mut Case) -> Res + Send + Sync>;

pub struct Subject {
    pub name: String,
    pub cases: u64,
    pub run: Run,
}

impl Subject {
    pub fn new(
        name: impl Into<String>,
        cases: u64,
        run: impl Fn(&mut Case) -> Res + Send + Sync + 'static,
    ) -> Self {
        Subject {
            name: name.into(),
            cases,
            run: Box::new(run),
        }
    }
}

pub struct Plan {
    pub id: &'static str,
    pub rule: &'static str,
    pub subjects: Vec<Subject>,
    pub exhaustive: bool,
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static CLEANUP: RefCell<Vec<Box<dyn FnOnce()>>> = const { RefCell::new(Vec::new()) };
    static SILENT: Cell<bool> = const { Cell::new(true) };
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

/// Gives back what the last panic's message takes.
pub fn forget_panic() {
    LAST_PANIC.with(|p| *p.borrow_mut() = String::new());
}

/// Runs `f` when the current case is over and all its values are dropped.
pub fn at_end(f: impl FnOnce() + 'static) {
    CLEANUP.with(|c| c.borrow_mut().push(Box::new(f)));
}
pub fn cleanup() {
    let all = CLEANUP.with(|c| std::mem::take(&mut *c.borrow_mut()));
    for f in all {
        f();
    }
}

/// A reference valid until the end of the case.
pub fn forever<T: 'static>(v: T) -> &'static T {
    let raw = Box::into_raw(Box::new(v));
    at_end(move || drop(unsafe { Box::from_raw(raw) }));
    unsafe { &*raw }
}

/// Runs `f`, turning a panic into `Err(message)`.
pub fn caught<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
}

/// The payload of panics the harness raises on purpose.
pub const PLANNED: &str = "vh-planned-panic";

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| (*s).to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("panic at {loc}: {msg}"));
    }));
}

pub fn thorough() -> bool {
    std::env::var("VERIF_TIER").as_deref() == Ok("thorough")
}
pub fn seed() -> u64 {
    std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1)
}
fn env_f64(k: &str, d: f64) -> f64 {
    std::env::var(k).ok().and_then(|s| s.parse().ok()).unwrap_or(d)
}

fn run_case(id: &str, s: &Subject, idx: u64, tracing: bool) -> (Res, Case) {
    let case_seed = mix(mix(seed() ^ hash_str(id)) ^ hash_str(&s.name)) ^ mix(idx);
    let mut case = Case {
        rng: Rng::new(case_seed),
        idx,
        obs: Obs::default(),
        thorough: thorough(),
        fp: Fp::default(),
        trivial: true,
        tracing,
        trace: Vec::new(),
    };
    case.fp.add(hash_str(&s.name));
    let res = match catch_unwind(AssertUnwindSafe(|| (s.run)(&mut case))) {
        Ok(r) => r,
        Err(_) => Err(format!("unexpected {}", last_panic())),
    };
    let _ = catch_unwind(AssertUnwindSafe(cleanup));
    (res, case)
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[derive(Default)]
struct Tally {
    evaluations: u64,
    nontrivial: u64,
    fps: HashSet<u64>,
    obs: BTreeMap<&'static str, u64>,
    per_subject: BTreeMap<usize, u64>,
}

struct Violation {
    subject: usize,
    idx: u64,
    message: String,
}

/// Runs the plan and exits: 0 held, 1 violated, 3 inconclusive.
pub fn main(plan: Plan) -> ! {
    install_hook();
    let miri = cfg!(miri);
    // Every subject is repeated `cases` times scaled by tier and budget.
    let scale = env_f64("VH_SCALE", if miri { 0.01 } else if thorough() { 20.0 } else { 1.0 });
    let budget = Duration::from_secs_f64(env_f64("VH_BUDGET", 600.0));
    let only = std::env::var("VH_ONLY").ok();
    if let Ok(replay) = std::env::var("VH_REPLAY") {
        let (name, idx) = replay.rsplit_once('#').expect("subject#index");
        let s = plan
            .subjects
            .iter()
            .find(|s| s.name == name)
            .expect("unknown subject");
        let (res, case) = run_case(plan.id, s, idx.parse().expect("index"), true);
        for line in &case.trace {
            println!("  {line}");
        }
        println!("replay {replay}: {res:?}");
        std::process::exit(if res.is_err() { 1 } else { 0 });
    }
    // Work units: index-major, so every subject is driven early.
    let mut max = 0;
    // "k/n": every n-th subject, from the k-th on.
    let shard = std::env::var("VH_SHARD").ok().map(|s| {
        let (k, n) = s.split_once('/').expect("k/n");
        (k.parse::<usize>().expect("k"), n.parse::<usize>().expect("n"))
    });
    let counts: Vec<u64> = plan
        .subjects
        .iter()
        .enumerate()
        .map(|(i, s)| {
            if only.as_ref().is_some_and(|o| !s.name.contains(o.as_str())) || shard.is_some_and(|(k, n)| i % n != k % n) {
                return 0;
            }
            let n = if s.cases == 0 {
                0
            } else {
                ((s.cases as f64 * scale).ceil() as u64).max(1)
            };
            max = max.max(n);
            n
        })
        .collect();
    let total: u64 = counts.iter().sum();
    // Blocks of indices keep scheduling cheap.
    const BLOCK: u64 = if cfg!(miri) { 1 } else { 8 };
    let mut units: Vec<(usize, u64)> = Vec::new();
    let mut b = 0;
    while b < max {
        for (i, n) in counts.iter().enumerate() {
            if b < *n {
                units.push((i, b));
            }
        }
        b += BLOCK;
    }
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let out_of_time = AtomicBool::new(false);
    let violations: Mutex<Vec<Violation>> = Mutex::new(Vec::new());
    let start = Instant::now();
    let threads = if miri {
        1
    } else {
        env_f64("VH_THREADS", 8.0) as usize
    };
    let crumbs = std::env::var("VH_CRUMBS").ok();
    let merged: Mutex<Tally> = Mutex::new(Tally::default());

    // When the running case of each worker began (milliseconds, 0: idle).
    let running: Vec<(std::sync::atomic::AtomicU64, AtomicUsize, std::sync::atomic::AtomicU64)> =
        (0..threads).map(|_| Default::default()).collect();
    let finished = AtomicBool::new(false);
    let hang = env_f64("VH_HANG", 180.0);

    let slow: Option<f64> = std::env::var("VH_SLOW").ok().and_then(|x| x.parse().ok());
    let worker = |tid: usize| {
        let mut tally = Tally::default();
        let mut crumb = crumbs.as_ref().filter(|_| !miri).and_then(|d| {
            std::fs::File::create(format!("{d}/crumb-{tid}")).ok()
        });
        'outer: loop {
            let u = next.fetch_add(1, Ordering::Relaxed);
            let Some(&(si, base)) = units.get(u) else { break };
            let s = &plan.subjects[si];
            for idx in base..(base + BLOCK).min(counts[si]) {
                if stop.load(Ordering::Relaxed) {
                    break 'outer;
                }
                if start.elapsed() > budget {
                    out_of_time.store(true, Ordering::Relaxed);
                    break 'outer;
                }
                if let Some(f) = crumb.as_mut() {
                    use std::os::unix::fs::FileExt;
                    let line = format!("{:<240}\n", format!("{}#{}", s.name, idx));
                    let _ = f.write_all_at(line.as_bytes(), 0);
                }
                let began = Instant::now();
                running[tid].1.store(si, Ordering::Relaxed);
                running[tid].2.store(idx, Ordering::Relaxed);
                running[tid].0.store(start.elapsed().as_millis() as u64 + 1, Ordering::Release);
                let (res, case) = run_case(plan.id, s, idx, false);
                running[tid].0.store(0, Ordering::Release);
                if slow.is_some_and(|limit| began.elapsed().as_secs_f64() > limit) {
                    eprintln!("slow case {}#{idx}: {:.1}s", s.name, began.elapsed().as_secs_f64());
                }
                tally.evaluations += 1;
                *tally.per_subject.entry(si).or_insert(0) += 1;
                if !case.trivial {
                    tally.nontrivial += 1;
                    tally.fps.insert(case.fp.0);
                }
                for (k, v) in &case.obs.counts {
                    *tally.obs.entry(k).or_insert(0) += v;
                }
                if let Err(message) = res {
                    let mut v = violations.lock().expect("lock");
                    v.push(Violation {
                        subject: si,
                        idx,
                        message,
                    });
                    if v.len() >= 20 {
                        stop.store(true, Ordering::Relaxed);
                    }
                }
            }
        }
        if let Some(f) = crumb.as_mut() {
            let _ = f.set_len(0);
            let _ = f.flush();
        }
        let mut m = merged.lock().expect("lock");
        m.evaluations += tally.evaluations;
        m.nontrivial += tally.nontrivial;
        m.fps.extend(tally.fps);
        for (k, v) in tally.obs {
            *m.obs.entry(k).or_insert(0) += v;
        }
        for (k, v) in tally.per_subject {
            *m.per_subject.entry(k).or_insert(0) += v;
        }
    };
    if threads <= 1 {
        worker(0);
    } else {
        std::thread::scope(|sc| {
            let workers: Vec<_> = (0..threads)
                .map(|tid| {
                    let worker = &worker;
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(sc, move || worker(tid))
                        .expect("thread")
                })
                .collect();
            let (running, finished, plan) = (&running, &finished, &plan);
            sc.spawn(move || {
                // Ends the process when a case runs a thousand times longer than it should.
                while !finished.load(Ordering::Relaxed) {
                    std::thread::park_timeout(Duration::from_millis(200));
                    let now = start.elapsed().as_millis() as u64;
                    for (began, si, idx) in running {
                        let began = began.load(Ordering::Acquire);
                        if began == 0 || (now.saturating_sub(began) as f64) < hang * 1e3 {
                            continue;
                        }
                        let name = format!("{}#{}", plan.subjects[si.load(Ordering::Relaxed)].name, idx.load(Ordering::Relaxed));
                        let json = format!(
                            "{{\"id\":{},\"rule\":{},\"planned\":{total},\"evaluations\":1,\"nontrivial\":1,\"distinct_nontrivial\":1,\"exhaustive\":false,\"truncated\":true,\"wall_s\":{hang},\"subjects\":1,\"observed\":{{}},\"samples\":[],\"violations\":[{{\"case\":{},\"message\":\"an operation does not return within {hang} seconds\",\"trace\":[]}}]}}",
                            esc(plan.id), esc(plan.rule), esc(&name)
                        );
                        println!("  hanging case {name}");
                        if let Ok(path) = std::env::var("VH_OUT") {
                            let _ = std::fs::write(path, json);
                        }
                        std::process::exit(1);
                    }
                }
            });
            for w in workers {
                w.join().expect("worker");
            }
            finished.store(true, Ordering::Relaxed);
        });
    }
    let wall = start.elapsed().as_secs_f64();
    let m = merged.into_inner().expect("lock");
    let mut v = violations.into_inner().expect("lock");
    v.sort_by_key(|v| (v.idx, v.subject));

    // Samples: rerun a few cases with tracing on.
    let mut samples: Vec<String> = Vec::new();
    if v.is_empty() && total > 0 {
        let n = plan.subjects.len();
        for k in 0..if miri { 1 } else { 4 } {
            let si = (k * 7 + 3) % n;
            for idx in 0..counts[si].min(6) {
                let (_, case) = run_case(plan.id, &plan.subjects[si], idx, true);
                if !case.trivial && !case.trace.is_empty() {
                    let mut line = format!("{}#{}: ", plan.subjects[si].name, idx);
                    line.push_str(&case.trace.join(" ; "));
                    if line.len() > 700 {
                        let mut cut = 700;
                        while !line.is_char_boundary(cut) {
                            cut -= 1;
                        }
                        line.truncate(cut);
                        line.push('…');
                    }
                    samples.push(line);
                    break;
                }
            }
        }
    }
    let mut json = String::new();
    let _ = write!(
        json,
        "{{\"id\":{},\"rule\":{},\"planned\":{total},\"evaluations\":{},\"nontrivial\":{},\"distinct_nontrivial\":{},\"exhaustive\":{},\"truncated\":{},\"wall_s\":{wall:.3},\"subjects\":{},\"observed\":{{",
        esc(plan.id),
        esc(plan.rule),
        m.evaluations,
        m.nontrivial,
        m.fps.len(),
        plan.exhaustive,
        out_of_time.load(Ordering::Relaxed),
        m.per_subject.len(),
    );
    for (i, (k, n)) in m.obs.iter().enumerate() {
        let _ = write!(json, "{}{}:{n}", if i > 0 { "," } else { "" }, esc(k));
    }
    json.push_str("},\"samples\":[");
    for (i, s) in samples.iter().enumerate() {
        let _ = write!(json, "{}{}", if i > 0 { "," } else { "" }, esc(s));
    }
    json.push_str("],\"violations\":[");
    for (i, x) in v.iter().enumerate() {
        let name = format!("{}#{}", plan.subjects[x.subject].name, x.idx);
        let trace = if i < 3 && !miri {
            run_case(plan.id, &plan.subjects[x.subject], x.idx, true).1.trace
        } else {
            Vec::new()
        };
        let _ = write!(
            json,
            "{}{{\"case\":{},\"message\":{},\"trace\":[{}]}}",
            if i > 0 { "," } else { "" },
            esc(&name),
            esc(&x.message),
            trace.iter().map(|t| esc(t)).collect::<Vec<_>>().join(",")
        );
    }
    json.push_str("]}");
    if let (Ok(path), false) = (std::env::var("VH_OUT"), miri) {
        let _ = std::fs::File::create(path).and_then(|mut f| f.write_all(json.as_bytes()));
    } else {
        println!("VHJSON {json}");
    }
    for x in v.iter().take(5) {
        println!(
            "  failing case {}#{}: {}",
            plan.subjects[x.subject].name, x.idx, x.message
        );
    }
    println!(
        "{}: {} evaluations, {} distinct non-trivial, {} subjects, {} violations, {wall:.1}s",
        plan.id,
        m.evaluations,
        m.fps.len(),
        m.per_subject.len(),
        v.len()
    );
    let code = if !v.is_empty() {
        1
    } else if m.evaluations == 0 || m.fps.is_empty() {
        3
    } else {
        0
    };
    std::process::exit(code)
}
