//! Exploration engine: parallel sweeps over enumerated spaces, breadth-first search over operation
//! histories, violation records, evidence.
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier { Quick, Thorough }

pub const SLOTS: usize = 64;
pub const SLOT: usize = 16384;

pub struct Violation { pub phase: String, pub what: String, pub case: String }

pub struct Ctx {
    pub id: String,
    pub tier: Tier,
    pub only: Option<(String, u64)>,
    pub states: AtomicU64,
    pub transitions: AtomicU64,
    pub traces: AtomicU64,
    pub outcomes: Mutex<HashSet<u64>>,
    pub samples: Mutex<Vec<String>>,
    pub violations: Mutex<Vec<Violation>>,
    pub known: Mutex<Vec<String>>,
    pub phases: Mutex<BTreeMap<String, u64>>,
    pub bounds: Mutex<Vec<String>>,
    pub stop: AtomicBool,
    pub board: usize, //address of the shared progress board (0 if none)
}

/// Per-case bookkeeping.
pub struct Case {
    worker: usize,
    board: usize,
    pub desc: String,
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    outcomes: HashSet<u64>,
}

pub fn hash<T: std::hash::Hash>(t: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

impl Case {
    /// Describe the case that is about to run (for replay, also if the process dies).
    pub fn describe(&mut self, s: String) {
        if self.board != 0 && self.worker < SLOTS {
            unsafe {
                let base = (self.board + self.worker * SLOT) as *mut u8;
                let n = s.len().min(SLOT - 16);
                std::ptr::copy_nonoverlapping(s.as_ptr(), base.add(16), n);
                *(base.add(8) as *mut u64) = n as u64;
            }
        }
        self.desc = s;
    }
    fn tick(&self) {
        if self.board != 0 && self.worker < SLOTS {
            unsafe {
                let c = (self.board + self.worker * SLOT) as *mut u64;
                let v = *c;
                *c = if v == u64::MAX { 1 } else { v + 1 };
            }
        }
    }
    fn idle(&self) {
        if self.board != 0 && self.worker < SLOTS {
            unsafe { *((self.board + self.worker * SLOT) as *mut u64) = 0; }
        }
    }
    /// Record what was observed in this case (to count distinct outcomes).
    pub fn outcome<T: std::hash::Hash>(&mut self, t: &T) { self.outcomes.insert(hash(t)); }
}

pub fn payload(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() { s.to_string() }
    else if let Some(s) = e.downcast_ref::<String>() { s.clone() }
    else { "panic".to_string() }
}

impl Ctx {
    pub fn new(id: &str, tier: Tier, only: Option<(String, u64)>, board: usize) -> Ctx {
        Ctx { id: id.to_string(), tier, only, states: AtomicU64::new(0), transitions: AtomicU64::new(0), traces: AtomicU64::new(0),
            outcomes: Mutex::new(HashSet::new()), samples: Mutex::new(vec![]), violations: Mutex::new(vec![]), known: Mutex::new(vec![]),
            phases: Mutex::new(BTreeMap::new()), bounds: Mutex::new(vec![]), stop: AtomicBool::new(false), board }
    }
    pub fn quick(&self) -> bool { self.tier == Tier::Quick }
    /// `q` in the quick tier, `t` in the thorough one
    pub fn pick<T>(&self, q: T, t: T) -> T { if self.quick() { q } else { t } }
    pub fn bound(&self, s: &str) { self.bounds.lock().unwrap().push(s.to_string()); }
    pub fn violation(&self, phase: &str, what: String, case: String) {
        let mut v = self.violations.lock().unwrap();
        if v.len() < 20 { v.push(Violation { phase: phase.to_string(), what, case }); }
        if v.len() >= 5 { self.stop.store(true, Relaxed); }
    }
    pub fn workers(&self) -> usize { std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16) }

    /// Runs `f` on each of the cases `0..n` of a phase (in parallel, all of them).
    pub fn sweep<F>(&self, phase: &str, n: u64, f: F) where F: Fn(u64, &mut Case) -> Result<(), String> + Sync {
        self.sweep_stack(phase, n, 16 << 20, f)
    }
    pub fn sweep_stack<F>(&self, phase: &str, n: u64, stack: usize, f: F) where F: Fn(u64, &mut Case) -> Result<(), String> + Sync {
        let t0 = std::time::Instant::now();
        let (lo, hi) = match &self.only {
            Some((p, i)) if p == phase => (*i, *i + 1),
            Some(_) => return,
            None => (0, n),
        };
        let next = AtomicU64::new(lo);
        let done = AtomicU64::new(0);
        let chunk = (((hi - lo) / 512).max(1)).min(64);
        let step = ((hi - lo) / 2).max(1);
        std::thread::scope(|s| {
            for w in 0..self.workers() {
                let (f, next, done) = (&f, &next, &done);
                std::thread::Builder::new().stack_size(stack).spawn_scoped(s, move || {
                    let mut c = Case { worker: w, board: self.board, desc: String::new(), states: 0, transitions: 0, traces: 0, outcomes: HashSet::new() };
                    'outer: loop {
                        let a = next.fetch_add(chunk, Relaxed);
                        if a >= hi { break; }
                        for i in a..(a + chunk).min(hi) {
                            if self.stop.load(Relaxed) { break 'outer; }
                            c.tick();
                            c.desc.clear();
                            c.describe(format!("{}#{}", phase, i));
                            let r = catch_unwind(AssertUnwindSafe(|| f(i, &mut c)));
                            let err = match r { Ok(Ok(())) => None, Ok(Err(e)) => Some(e), Err(p) => Some(format!("panic: {}", payload(p))) };
                            if let Some(e) = err { self.violation(phase, e, format!("{}#{}\n{}", phase, i, c.desc)); }
                            if i % step == step / 2 {
                                let mut s = self.samples.lock().unwrap();
                                if s.len() < 12 { let d: String = c.desc.chars().take(700).collect(); s.push(format!("{}#{}: {}", phase, i, d)); }
                            }
                            done.fetch_add(1, Relaxed);
                            if c.outcomes.len() > 4096 { self.merge(&mut c); }
                        }
                    }
                    c.idle();
                    self.merge(&mut c);
                }).unwrap();
            }
        });
        *self.phases.lock().unwrap().entry(phase.to_string()).or_insert(0) += done.load(Relaxed);
        if std::env::var("MC_VERBOSE").is_ok() { println!("[{}] {} cases {} in {:.1}s", self.id, phase, done.load(Relaxed), t0.elapsed().as_secs_f64()); }
    }
    fn merge(&self, c: &mut Case) {
        self.states.fetch_add(c.states, Relaxed);
        self.transitions.fetch_add(c.transitions, Relaxed);
        self.traces.fetch_add(c.traces, Relaxed);
        c.states = 0; c.transitions = 0; c.traces = 0;
        let mut o = self.outcomes.lock().unwrap();
        if o.len() < 5_000_000 { o.extend(c.outcomes.drain()); } else { c.outcomes.clear(); }
    }

    /// Breadth-first search over histories of operations. `nops` operations are enabled in every state;
    /// `exec(history)` runs a whole history on a fresh system, checks the last step, and returns the
    /// canonical form of the state that is reached (None: the operation was refused or is to be pruned,
    /// in which case no history extends it).
    pub fn bfs<F>(&self, phase: &str, nops: usize, depth: usize, exec: F) where F: Fn(&[u16], &mut Case) -> Result<Option<u64>, String> + Sync {
        if let Some((p, _)) = &self.only { if !p.starts_with(phase) { return; } }
        let mut seen: HashSet<u64> = HashSet::new();
        let mut frontier: Vec<Vec<u16>> = vec![vec![]];
        self.states.fetch_add(1, Relaxed);
        for d in 1..=depth {
            let level: Mutex<std::collections::HashMap<u64, Vec<u16>>> = Mutex::new(Default::default());
            let n = frontier.len() as u64 * nops as u64;
            let name = format!("{}/depth{}", phase, d);
            let only = self.only.as_ref().map(|(p, _)| p.clone());
            let (fr, sn) = (&frontier, &seen);
            let body = |i: u64, c: &mut Case| -> Result<(), String> {
                let mut h = fr[(i / nops as u64) as usize].clone();
                h.push((i % nops as u64) as u16);
                c.transitions += 1;
                c.traces += 1;
                if let Some(k) = exec(&h, c)? {
                    c.outcome(&k);
                    if !sn.contains(&k) {
                        let mut l = level.lock().unwrap();
                        match l.get_mut(&k) { Some(old) => { if h < *old { *old = h; } }, None => { l.insert(k, h); } }
                    }
                }
                Ok(())
            };
            if only.is_some() && only.as_deref() != Some(&name) {
                //replaying a case on a deeper level: rebuild the frontier without reporting
                for i in 0..n {
                    let mut c = Case { worker: 0, board: 0, desc: String::new(), states: 0, transitions: 0, traces: 0, outcomes: HashSet::new() };
                    let _ = catch_unwind(AssertUnwindSafe(|| body(i, &mut c)));
                }
            } else {
                self.sweep(&name, n, body);
            }
            let level = level.into_inner().unwrap();
            self.states.fetch_add(level.len() as u64, Relaxed);
            seen.extend(level.keys());
            frontier = level.into_values().collect();
            frontier.sort();
            if frontier.is_empty() || self.stop.load(Relaxed) { break; }
        }
    }
}
