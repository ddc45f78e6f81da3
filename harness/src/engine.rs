//! The exploration engine: every check is a list of *sections*, every section is a finite indexable
//! space `0..count`, and every index is run (no sampling). Work is spread over threads by chunks;
//! results do not depend on the schedule: the violation reported is the one with the lowest
//! (section, index).

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{BuildHasherDefault, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Debug, Clone)]
pub struct Viol {
    /// Identifies the specific failing input; matched against the known-findings file.
    pub key: String,
    pub msg: String,
}

pub type Res = Result<(), Viol>;

pub fn viol<T>(key: impl Into<String>, msg: impl Into<String>) -> Result<T, Viol> {
    Err(Viol {
        key: key.into(),
        msg: msg.into(),
    })
}

type CaseFn = dyn Fn(u64, &mut Ctx) -> Res + Send + Sync;

pub struct Section {
    pub name: String,
    pub bound: String,
    pub count: u64,
    pub chunk: u64,
    pub f: Box<CaseFn>,
}

pub fn section(
    name: &str,
    bound: impl Into<String>,
    count: u64,
    f: impl Fn(u64, &mut Ctx) -> Res + Send + Sync + 'static,
) -> Section {
    let chunk = (count / 2000).clamp(1, 4096);
    Section {
        name: name.to_string(),
        bound: bound.into(),
        count,
        chunk,
        f: Box::new(f),
    }
}

#[derive(Default)]
pub struct IdHasher(u64);
impl Hasher for IdHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = x;
    }
}
type U64Set = HashSet<u64, BuildHasherDefault<IdHasher>>;

const SHARDS: usize = 256;
const SET_CAP: u64 = 40_000_000;

pub struct SharedSet {
    shards: Vec<Mutex<U64Set>>,
    len: AtomicU64,
    capped: AtomicBool,
}

impl SharedSet {
    fn new() -> Self {
        SharedSet {
            shards: (0..SHARDS).map(|_| Mutex::new(U64Set::default())).collect(),
            len: AtomicU64::new(0),
            capped: AtomicBool::new(false),
        }
    }
    fn insert(&self, h: u64) -> bool {
        if self.len.load(Relaxed) >= SET_CAP {
            self.capped.store(true, Relaxed);
            return false;
        }
        let new = self.shards[(h >> 56) as usize % SHARDS]
            .lock()
            .unwrap()
            .insert(h);
        if new {
            self.len.fetch_add(1, Relaxed);
        }
        new
    }
    fn len(&self) -> u64 {
        self.len.load(Relaxed)
    }
}

/// 64-bit FNV-1a folded through a finaliser; only used to count distinct states.
pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for c in b.chunks(8) {
        let mut w = [0u8; 8];
        w[..c.len()].copy_from_slice(c);
        h = (h ^ u64::from_le_bytes(w) ^ ((c.len() as u64) << 59)).wrapping_mul(0x9E3779B97F4A7C15);
        h ^= h >> 29;
    }
    mix(h)
}
pub fn mix(mut h: u64) -> u64 {
    h ^= h >> 33;
    h = h.wrapping_mul(0xff51afd7ed558ccd);
    h ^= h >> 33;
    h = h.wrapping_mul(0xc4ceb9fe1a85ec53);
    h ^ (h >> 33)
}

pub struct Shared {
    states: SharedSet,
    outcomes: Mutex<U64Set>,
}

pub struct Ctx<'s> {
    shared: Option<&'s Shared>,
    /// implementation operations executed
    pub transitions: u64,
    /// complete cases whose result was compared with the model
    pub traces: u64,
    /// states that are distinct by construction of the enumeration (not hashed)
    pub direct_states: u64,
    outcomes: U64Set,
    samples: Vec<String>,
    pub verbose: bool,
}

impl<'s> Ctx<'s> {
    fn new(shared: Option<&'s Shared>) -> Self {
        Ctx {
            shared,
            transitions: 0,
            traces: 0,
            direct_states: 0,
            outcomes: U64Set::default(),
            samples: Vec::new(),
            verbose: false,
        }
    }
    /// Record a state (input text, tree, formatter state...) reached by the exploration.
    pub fn state(&mut self, b: &[u8]) {
        if let Some(s) = self.shared {
            s.states.insert(hash_bytes(b));
        }
    }
    pub fn state_hash(&mut self, h: u64) {
        if let Some(s) = self.shared {
            s.states.insert(mix(h));
        }
    }
    /// Record an observed outcome class (how many *different* things the code did).
    pub fn outcome(&mut self, b: &[u8]) {
        if self.outcomes.len() < 200_000 {
            self.outcomes.insert(hash_bytes(b));
        }
    }
    pub fn op(&mut self) {
        self.transitions += 1;
    }
    pub fn ops(&mut self, n: u64) {
        self.transitions += n;
    }
    pub fn trace(&mut self) {
        self.traces += 1;
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 1 {
            self.samples.push(f());
        }
    }
}

pub struct Outcome {
    pub violation: Option<(usize, u64, Viol)>,
    pub known: BTreeMap<String, (u64, String)>,
    pub states: u64,
    pub states_capped: bool,
    pub transitions: u64,
    pub traces: u64,
    pub distinct_outcomes: u64,
    pub samples: Vec<String>,
    pub completed: Vec<u64>,
    pub time_capped: bool,
}

thread_local! {
    static PANIC: RefCell<Option<String>> = RefCell::new(None);
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let s = format!("{info}");
        PANIC.with(|p| *p.borrow_mut() = Some(s));
    }));
}

pub fn run_case(sec: &Section, i: u64, cx: &mut Ctx) -> Res {
    match catch_unwind(AssertUnwindSafe(|| (sec.f)(i, cx))) {
        Ok(r) => r,
        Err(_) => {
            let m = PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or_else(|| "panic".into());
            viol(format!("panic:{}:{}", sec.name, i), format!("panic: {m}"))
        }
    }
}

/// Runs `f`, turning a panic of the code under test into an `Err` with its message.
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or_else(|| "panic".into())
    })
}

/// A shared memory table with the case each thread is executing, so that the supervisor can find the
/// culprit after the worker process has died.
pub struct Cases {
    base: *mut u64,
    n: usize,
}
unsafe impl Send for Cases {}
unsafe impl Sync for Cases {}

pub const IDLE: u64 = u64::MAX;

impl Cases {
    pub fn map(path: &str, n: usize) -> std::io::Result<Cases> {
        use std::os::unix::io::AsRawFd;
        let f = std::fs::OpenOptions::new()
            .read(true)
            .write(true)
            .create(true)
            .open(path)?;
        f.set_len((n * 32) as u64)?;
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                n * 32,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                f.as_raw_fd(),
                0,
            )
        };
        if p == libc::MAP_FAILED {
            return Err(std::io::Error::last_os_error());
        }
        Ok(Cases {
            base: p as *mut u64,
            n,
        })
    }
    fn slot(&self, t: usize, k: usize) -> &AtomicU64 {
        assert!(t < self.n && k < 4);
        unsafe { &*(self.base.add(t * 4 + k) as *const AtomicU64) }
    }
    pub fn set(&self, t: usize, sec: u64, idx: u64) {
        self.slot(t, 0).store(sec, Relaxed);
        self.slot(t, 1).store(idx, Relaxed);
        self.slot(t, 2).fetch_add(1, Relaxed);
    }
    pub fn get(&self, t: usize) -> (u64, u64, u64) {
        (
            self.slot(t, 0).load(Relaxed),
            self.slot(t, 1).load(Relaxed),
            self.slot(t, 2).load(Relaxed),
        )
    }
    pub fn n(&self) -> usize {
        self.n
    }
}

pub const STACK: usize = 64 << 20;

pub fn run_sections(
    sections: &[Section],
    known: &HashSet<String>,
    threads: usize,
    wall: Duration,
    cases: &Cases,
) -> Outcome {
    let start = Instant::now();
    let shared = Shared {
        states: SharedSet::new(),
        outcomes: Mutex::new(U64Set::default()),
    };
    let mut out = Outcome {
        violation: None,
        known: BTreeMap::new(),
        states: 0,
        states_capped: false,
        transitions: 0,
        traces: 0,
        distinct_outcomes: 0,
        samples: Vec::new(),
        completed: Vec::new(),
        time_capped: false,
    };
    let mut direct = 0u64;
    // development aid: list every violation instead of stopping at the first
    let survey = std::env::var_os("MC_SURVEY").is_some();
    for t in 0..cases.n() {
        cases.set(t, IDLE, 0);
    }

    for (si, sec) in sections.iter().enumerate() {
        let next = AtomicU64::new(0);
        let limit = AtomicU64::new(u64::MAX); // lowest violating index so far
        let done = AtomicU64::new(0);
        let capped = AtomicBool::new(false);
        let best: Mutex<Option<(u64, Viol)>> = Mutex::new(None);
        let known_hits: Mutex<BTreeMap<String, (u64, String)>> = Mutex::new(BTreeMap::new());
        let totals = Mutex::new((0u64, 0u64, 0u64));
        let samples: Mutex<Vec<(u64, String)>> = Mutex::new(Vec::new());
        let tno = AtomicUsize::new(0);

        std::thread::scope(|s| {
            for _ in 0..threads {
                std::thread::Builder::new()
                    .stack_size(STACK)
                    .spawn_scoped(s, || {
                        let t = tno.fetch_add(1, Relaxed);
                        let mut cx = Ctx::new(Some(&shared));
                        let mut first = None;
                        loop {
                            let lo = next.fetch_add(sec.chunk, Relaxed);
                            if lo >= sec.count || lo > limit.load(Relaxed) {
                                break;
                            }
                            if start.elapsed() > wall {
                                capped.store(true, Relaxed);
                                break;
                            }
                            let hi = (lo + sec.chunk).min(sec.count);
                            for i in lo..hi {
                                if i > limit.load(Relaxed) {
                                    break;
                                }
                                cases.set(t, si as u64, i);
                                first.get_or_insert(i);
                                let r = run_case(sec, i, &mut cx);
                                done.fetch_add(1, Relaxed);
                                if let Err(v) = r {
                                    if survey || known.contains(&v.key) {
                                        let mut k = known_hits.lock().unwrap();
                                        let e = k.entry(v.key).or_insert((0, v.msg));
                                        e.0 += 1;
                                    } else {
                                        let mut b = best.lock().unwrap();
                                        if b.as_ref().map_or(true, |x| i < x.0) {
                                            limit.store(i, Relaxed);
                                            *b = Some((i, v));
                                        }
                                    }
                                }
                            }
                        }
                        cases.set(t, IDLE, 0);
                        let mut g = totals.lock().unwrap();
                        g.0 += cx.transitions;
                        g.1 += cx.traces;
                        g.2 += cx.direct_states;
                        drop(g);
                        shared.outcomes.lock().unwrap().extend(cx.outcomes);
                        let mut sm = samples.lock().unwrap();
                        if let (Some(i), Some(s)) = (first, cx.samples.pop()) {
                            sm.push((i, s));
                        }
                    })
                    .expect("spawn");
            }
        });

        let t = totals.into_inner().unwrap();
        out.transitions += t.0;
        out.traces += t.1;
        direct += t.2;
        out.completed.push(done.load(Relaxed));
        for (k, v) in known_hits.into_inner().unwrap() {
            let e = out.known.entry(k).or_insert((0, v.1));
            e.0 += v.0;
        }
        let mut sm = samples.into_inner().unwrap();
        sm.sort();
        // the case of the lowest and of the highest chunk first seen by a thread
        for (_, s) in sm.iter().take(1).chain(sm.last()) {
            let s = format!("{}: {}", sec.name, s);
            if !out.samples.contains(&s) {
                out.samples.push(s);
            }
        }
        if capped.load(Relaxed) {
            out.time_capped = true;
        }
        if let Some((i, v)) = best.into_inner().unwrap() {
            out.violation = Some((si, i, v));
            break;
        }
        if out.time_capped {
            break;
        }
    }
    out.states = shared.states.len() + direct;
    out.states_capped = shared.states.capped.load(Relaxed);
    out.distinct_outcomes = shared.outcomes.lock().unwrap().len() as u64;
    out
}

pub fn one_ctx() -> Ctx<'static> {
    let mut c = Ctx::new(None);
    c.verbose = true;
    c
}
