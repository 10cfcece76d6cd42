//! A small stateless model checker for sequential library code.
//!
//! A *scenario* is a closure that drives the real code.  Everything it does not
//! fix is a choice point: inputs and operations picked by the driver through
//! [`Ch`], and random outcomes drawn by the code under test through the `rand`
//! seam.  The explorer runs the closure once per path of the choice tree
//! (depth first, prefix re-execution), so that every combination within the
//! scenario's alphabet and bound is executed exactly once.

use rand::mc::{self, Alphabet, Kind};
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

pub mod alloc;
pub mod bound;
pub mod util;
pub use bound::{choices, factorial, Bound, Factors};
pub use util::*;

pub type R = Result<(), String>;

// ------------------------------------------------------------------ choices

#[derive(Default)]
struct Path {
    prefix: Vec<u32>,
    taken: Vec<(u32, u32)>,
    divergences: u64,
    // statistics of this execution
    ops: u64,
    states: Vec<u64>,
    notes: Vec<String>,
    key: Option<String>,
    outcome: Option<u64>,
    // inner exploration
    weight_log: Vec<(Kind, u32)>,
    // deviation bounding of random choices
    policy: Option<Policy>,
    random_points: u64,
    /// random draws still allowed (None: unlimited)
    fuel: Option<u64>,
}

struct Cut;
/// Marks the number of alternatives of a draw of raw bits.
pub const BITS: u32 = 1 << 31;

/// Default answers for random integers in deviation-bounded exploration.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Default_ { Zero, Max, Half, Cycle }

/// After so many draws from the same number of alternatives, or in all, the defaults start to rotate, so that code which
/// draws until it gets something new ends.
const PATIENCE: u64 = 400;
const PATIENCE_ALL: u64 = 200_000;
struct Policy { default: Default_, seen: u64, same: u64, last: u32 }

/// Within `deviations`: the default answers start over, so that two models can be given the same random stream.
pub fn restart_random() { PATH.with(|p| if let Some(ref mut p) = p.borrow_mut().policy { p.seen = 0; p.same = 0; p.last = 0; }) }

thread_local!(static PATH: RefCell<Path> = RefCell::new(Path::default()));

fn choose_raw(n: u32) -> u32 {
    assert!(n > 0, "choice point without alternatives");
    PATH.with(|p| {
        let mut p = p.borrow_mut();
        let at = p.taken.len();
        let mut v = if at < p.prefix.len() { p.prefix[at] } else { 0 };
        if v >= n {
            // the code under test offered fewer alternatives than when this
            // prefix was recorded
            p.divergences += 1;
            v %= n;
        }
        p.taken.push((v, n));
        v
    })
}

fn random_choice(k: Kind, n: u64) -> u64 {
    assert!(n < u32::MAX as u64, "random choice point too wide to enumerate: {}", n);
    let n = n as u32;
    let dry = PATH.with(|p| match p.borrow_mut().fuel { None => false, Some(0) => true, Some(ref mut f) => { *f -= 1; false } });
    if dry { std::panic::panic_any(Cut); }
    let r = choose_raw(n);
    PATH.with(|p| {
        let mut p = p.borrow_mut();
        p.random_points += 1;
        p.weight_log.push((k, n));
        match p.policy {
            Some(ref mut pol) => {
                let k = pol.seen;
                pol.seen += 1;
                if pol.last == n { pol.same += 1 } else { pol.same = 0; pol.last = n; }
                let turn = pol.default == Default_::Cycle || pol.same >= PATIENCE || k >= PATIENCE_ALL;
                let d = match pol.default { Default_::Zero => 0, Default_::Max => n - 1, Default_::Half => n / 2, Default_::Cycle => 0 };
                let d = if turn { (d as u64 + k) % n as u64 } else { d as u64 } as u32;
                ((r + d) % n) as u64
            }
            None => r as u64,
        }
    })
}

/// Handle to the choice points of the running execution.
#[derive(Clone, Copy)]
pub struct Ch { thorough: bool, _priv: () }

impl Ch {
    /// Is this the thorough tier?
    pub fn thorough(&self) -> bool { self.thorough }
    /// Pick `q` on quick, `t` on thorough.
    pub fn tier<T>(&self, q: T, t: T) -> T { if self.thorough { t } else { q } }
    /// One of `0..n`.
    pub fn pick(&self, n: usize) -> usize { choose_raw(n as u32) as usize }
    /// One of `lo..=hi`.
    pub fn range(&self, lo: usize, hi: usize) -> usize { lo + self.pick(hi - lo + 1) }
    /// One of the values.
    pub fn of<T: Clone>(&self, xs: &[T]) -> T { xs[self.pick(xs.len())].clone() }
    pub fn bool(&self) -> bool { self.pick(2) == 1 }
    /// A vector of `n` values from the alphabet.
    pub fn vec_of<T: Clone>(&self, n: usize, xs: &[T]) -> Vec<T> { (0..n).map(|_| self.of(xs)).collect() }
    /// A permutation of `0..n`.
    pub fn perm(&self, n: usize) -> Vec<usize> {
        let mut pool: Vec<usize> = (0..n).collect();
        (0..n).map(|_| { let i = self.pick(pool.len()); pool.remove(i) }).collect()
    }
    /// Text for the replay file.
    pub fn note<S: Into<String>>(&self, s: S) { PATH.with(|p| p.borrow_mut().notes.push(s.into())) }
    /// One transition: an operation of the real code.
    pub fn op(&self) { self.ops(1) }
    pub fn ops(&self, n: u64) { PATH.with(|p| p.borrow_mut().ops += n) }
    /// A state of the real code was observed.
    pub fn saw<H: Hash>(&self, h: &H) {
        let mut d = DefaultHasher::new();
        h.hash(&mut d);
        let v = d.finish();
        PATH.with(|p| p.borrow_mut().states.push(v))
    }
    pub fn saw_f(&self, xs: &[f64]) {
        let b: Vec<u64> = xs.iter().map(|x| if x.is_nan() { u64::MAX } else { x.to_bits() }).collect();
        self.saw(&b)
    }
    /// The final observed outcome (to count distinct outcomes).
    pub fn outcome<H: Hash>(&self, h: &H) {
        let mut d = DefaultHasher::new();
        h.hash(&mut d);
        let v = d.finish();
        PATH.with(|p| p.borrow_mut().outcome = Some(v))
    }
    pub fn outcome_f(&self, xs: &[f64]) {
        let b: Vec<u64> = xs.iter().map(|x| if x.is_nan() { u64::MAX } else { x.to_bits() }).collect();
        self.outcome(&b)
    }
    /// Identify what would fail from here on (known-findings key).
    pub fn key<S: Into<String>>(&self, s: S) { PATH.with(|p| p.borrow_mut().key = Some(s.into())) }
    pub fn set_alphabet(&self, a: Alphabet) { mc::set_alphabet(a) }

    /// Explore every random outcome of `f` (inputs fixed): returns each
    /// distinct outcome with the kinds of draws and the probability of its path.
    pub fn distribution<T, F: FnMut() -> T>(&self, f: F) -> Vec<(T, f64, bool)> { self.distribution_fuel(None, f) }
    /// The same for code that may draw without bound (rejection loops): paths
    /// with more than `fuel` random draws are cut off and not returned.
    pub fn distribution_fuel<T, F: FnMut() -> T>(&self, fuel: Option<u64>, mut f: F) -> Vec<(T, f64, bool)> {
        let saved = PATH.with(|p| std::mem::take(&mut *p.borrow_mut()));
        let mut out = Vec::new();
        let mut prefix: Vec<u32> = Vec::new();
        let (mut ops, mut states, mut rp) = (0, Vec::new(), 0);
        let res = catch_unwind(AssertUnwindSafe(|| loop {
            PATH.with(|p| { *p.borrow_mut() = Path { prefix: prefix.clone(), fuel, ..Path::default() } });
            let v = match catch_unwind(AssertUnwindSafe(&mut f)) {
                Ok(v) => Some(v),
                Err(e) => if e.is::<Cut>() { None } else { std::panic::resume_unwind(e) },
            };
            let p = PATH.with(|p| std::mem::take(&mut *p.borrow_mut()));
            let exact = p.weight_log.iter().all(|w| w.0 == Kind::Int);
            let w = p.weight_log.iter().fold(1.0, |a, w| a / w.1 as f64);
            if let Some(v) = v { out.push((v, w, exact)); }
            ops += p.ops + 1;
            rp += p.random_points;
            states.extend(p.states);
            match next_prefix(&p.taken, 0) { Some(n) => prefix = n, None => break }
        }));
        PATH.with(|p| {
            let inner = std::mem::replace(&mut *p.borrow_mut(), saved);
            let mut p = p.borrow_mut();
            p.ops += ops;
            p.random_points += rp;
            p.states.extend(states);
            p.notes.extend(inner.notes);
            if res.is_err() {
                p.notes.push(format!("inner random choices: {:?}", inner.taken));
                if inner.key.is_some() { p.key = inner.key; }
            }
        });
        if let Err(e) = res { std::panic::resume_unwind(e); }
        out
    }

    /// Deviation-bounded exploration of the random outcomes of `f`: all
    /// integer draws answer with the default, except at most `bound` of them.
    pub fn deviations<T, F: FnMut() -> T, G: FnMut(T) -> R>(&self, d: Default_, bound: usize, f: F, mut check: G) -> Result<u64, String> { self.deviations_drawn(d, bound, f, |v, _| check(v)) }
    /// The same; the check also sees the number of alternatives of each draw
    /// of the execution; those that were not uniform integers are marked with
    /// `BITS` and say how many bits they have.
    pub fn deviations_drawn<T, F: FnMut() -> T, G: FnMut(T, Option<&[u32]>) -> R>(&self, d: Default_, bound: usize, f: F, mut check: G) -> Result<u64, String> {
        self.deviations_where(d, bound, |_, _, _, _| true, f, |v, drawn, _| check(v, drawn))
    }
    /// The same for the deviations only that `keep(position, draws, alternative, alternatives)`
    /// accepts (asked with alternative 0 first: whether to deviate at the position
    /// at all); the check also sees where the execution deviates last (position, alternative).
    pub fn deviations_where<T, K: Fn(usize, usize, u32, u32) -> bool, F: FnMut() -> T, G: FnMut(T, Option<&[u32]>, Option<(usize, u32)>) -> R>(&self, d: Default_, bound: usize, keep: K, mut f: F, mut check: G) -> Result<u64, String> {
        let saved = PATH.with(|p| std::mem::take(&mut *p.borrow_mut()));
        let mut stack: Vec<(Vec<u32>, usize)> = vec![(Vec::new(), 0)];
        let mut runs = 0u64;
        let mut err = None;
        let mut last = Vec::new();
        let (mut ops, mut rp) = (0, 0);
        let res = catch_unwind(AssertUnwindSafe(|| {
            while let Some((prefix, used)) = stack.pop() {
                last = prefix.clone();
                PATH.with(|p| { *p.borrow_mut() = Path { prefix: prefix.clone(), policy: Some(Policy { default: d, seen: 0, same: 0, last: 0 }), ..Path::default() } });
                let v = f();
                let p = PATH.with(|p| std::mem::take(&mut *p.borrow_mut()));
                runs += 1;
                ops += p.ops + 1;
                rp += p.random_points;
                let drawn: Option<Vec<u32>> = p.weight_log.iter().map(|w| Some(match w.0 { Kind::Int => w.1, Kind::Raw(b) => b as u32 | BITS, Kind::Unit => 53 | BITS, Kind::Normal | Kind::Exp1 => 64 | BITS })).collect();
                if let Err(e) = check(v, drawn.as_ref().map(|d| &d[..]), prefix.last().map(|a| (prefix.len() - 1, *a))) { err = Some(format!("{} [default {:?}, deviating prefix {:?}]", e, d, prefix)); return; }
                if used < bound {
                    for i in prefix.len()..p.taken.len() {
                        if !keep(i, p.taken.len(), 0, p.taken[i].1) { continue; }
                        for alt in 1..p.taken[i].1 {
                            if !keep(i, p.taken.len(), alt, p.taken[i].1) { continue; }
                            let mut n: Vec<u32> = p.taken[..i].iter().map(|t| t.0).collect();
                            n.push(alt);
                            stack.push((n, used + 1));
                        }
                    }
                }
            }
        }));
        PATH.with(|p| {
            *p.borrow_mut() = saved;
            let mut p = p.borrow_mut();
            p.ops += ops;
            p.random_points += rp;
            if res.is_err() || err.is_some() { p.notes.push(format!("random default {:?}, deviating prefix {:?}", d, last)); }
        });
        if let Err(e) = res { std::panic::resume_unwind(e); }
        match err { Some(e) => Err(e), None => Ok(runs) }
    }
}

fn next_prefix(taken: &[(u32, u32)], floor: usize) -> Option<Vec<u32>> {
    let mut i = taken.len();
    while i > floor {
        i -= 1;
        if taken[i].0 + 1 < taken[i].1 {
            let mut n: Vec<u32> = taken[..i].iter().map(|t| t.0).collect();
            n.push(taken[i].0 + 1);
            return Some(n);
        }
    }
    None
}

/// Run code under test; a panic becomes `Err(message)`.
pub fn guard<T, F: FnOnce() -> T>(f: F) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| panic_text(&e))
}

fn panic_text(e: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<String>() { s.clone() }
    else if let Some(s) = e.downcast_ref::<&str>() { s.to_string() }
    else { "panic".to_string() }
}

// ----------------------------------------------------------------- registry

type Body = Box<dyn Fn(&Ch) -> R + Send + Sync>;

pub struct Scenario { pub name: String, pub body: Body, pub about: String, pub cap: Option<u64> }

pub struct Property { pub id: &'static str, pub scenarios: Vec<Scenario>, pub assumptions: Vec<String> }

impl Property {
    pub fn new(id: &'static str) -> Property { Property { id, scenarios: vec![], assumptions: vec![] } }
    /// Register a scenario; `about` states alphabet, bound and oracle.
    pub fn add<F: Fn(&Ch) -> R + Send + Sync + 'static>(&mut self, name: &str, about: &str, f: F) {
        self.scenarios.push(Scenario { name: name.into(), body: Box::new(f), about: about.into(), cap: None });
    }
    pub fn assume(&mut self, s: &str) { self.assumptions.push(s.into()) }
}

// ----------------------------------------------------------------- explorer

#[derive(Default)]
struct Stats {
    executions: u64,
    ops: u64,
    choice_points: u64,
    random_points: u64,
    divergences: u64,
    states: HashSet<u64>,
    outcomes: HashSet<u64>,
    samples: Vec<String>,
    capped: bool,
}

struct Found { scenario: String, choices: Vec<u32>, notes: Vec<String>, msg: String, key: String }

struct Exec { result: R, path: Path }

fn execute(body: &Body, prefix: &[u32], thorough: bool) -> Exec {
    PATH.with(|p| { *p.borrow_mut() = Path { prefix: prefix.to_vec(), ..Path::default() } });
    mc::install(Alphabet::default(), Box::new(random_choice));
    let ch = Ch { thorough, _priv: () };
    let result = match catch_unwind(AssertUnwindSafe(|| body(&ch))) {
        Ok(r) => r,
        Err(e) => Err(format!("panicked: {}", panic_text(&e))),
    };
    mc::uninstall();
    let path = PATH.with(|p| std::mem::take(&mut *p.borrow_mut()));
    Exec { result, path }
}

struct Slot { since: AtomicU64, what: Mutex<(String, Vec<u32>)> }

struct Shared {
    queue: Mutex<(Vec<Vec<u32>>, usize)>, // pending prefixes, active workers
    cv: Condvar,
    idle: AtomicUsize, queued: AtomicUsize,
    stop: AtomicBool,
    execs: AtomicU64,
}

pub struct Config { pub tier: String, pub seed: i64, pub verif: String, pub threads: usize, pub journal: Option<String>, pub exec_limit: u64, pub mem_limit: u64, pub deadline: u64 }

fn now_ms(t0: &Instant) -> u64 { t0.elapsed().as_millis() as u64 + 1 }

struct Known { entries: Vec<(String, String, String)> }
impl Known {
    // lines: `known: property=<id> key=<key> :: <what fails>`
    fn load(verif: &str) -> Known {
        let mut entries = vec![];
        if let Ok(s) = std::fs::read_to_string(format!("{}/known-findings.txt", verif)) {
            for l in s.lines() {
                if let Some(r) = l.strip_prefix("known: property=") {
                    if let Some((head, what)) = r.split_once(" :: ") {
                        if let Some((id, key)) = head.split_once(" key=") {
                            entries.push((id.trim().to_string(), key.trim().to_string(), what.trim().to_string()));
                        }
                    }
                }
            }
        }
        Known { entries }
    }
    fn get(&self, id: &str, key: &str) -> Option<&str> {
        self.entries.iter().find(|e| e.0 == id && e.1 == key).map(|e| e.2.as_str())
    }
}

fn explore(id: &str, sc: &Scenario, cfg: &Config, t0: &Instant, slots: &Arc<Vec<Slot>>, known: &Known,
           known_seen: &Mutex<BTreeMap<String, u64>>) -> (Stats, Option<Found>) {
    let thorough = cfg.tier == "thorough";
    let sh = Shared { queue: Mutex::new((vec![vec![]], 0)), cv: Condvar::new(), idle: AtomicUsize::new(0), queued: AtomicUsize::new(1), stop: AtomicBool::new(false), execs: AtomicU64::new(0) };
    let total = Mutex::new(Stats::default());
    let found: Mutex<Option<Found>> = Mutex::new(None);
    let threads = cfg.threads;
    std::thread::scope(|s| {
        for w in 0..threads {
            let (sh, total, found, slots) = (&sh, &total, &found, slots.clone());
            std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || {
                let mut st = Stats::default();
                let mut journal = cfg.journal.as_ref().map(|p| std::fs::OpenOptions::new().create(true).write(true).open(p).unwrap());
                'work: loop {
                    let root = {
                        let mut q = sh.queue.lock().unwrap();
                        loop {
                            if sh.stop.load(Ordering::Relaxed) { break 'work; }
                            // the largest parts first: those given away nearest to the root
                            if let Some(i) = (0..q.0.len()).min_by_key(|&i| q.0[i].len()) { let p = q.0.swap_remove(i); sh.queued.store(q.0.len(), Ordering::Relaxed); q.1 += 1; break p; }
                            if q.1 == 0 { sh.cv.notify_all(); break 'work; }
                            sh.idle.fetch_add(1, Ordering::Relaxed);
                            q = sh.cv.wait(q).unwrap();
                            sh.idle.fetch_sub(1, Ordering::Relaxed);
                        }
                    };
                    let mut floor = root.len();
                    let mut prefix = root;
                    loop {
                        if let Some(ref mut j) = journal {
                            use std::os::unix::fs::FileExt;
                            let line = format!("{}\n{:?}\n\n", sc.name, prefix);
                            let _ = j.write_at(line.as_bytes(), 0);
                        }
                        { let mut g = slots[w].what.lock().unwrap(); g.0.clear(); g.0.push_str(&sc.name); g.1.clear(); g.1.extend_from_slice(&prefix); }
                        slots[w].since.store(now_ms(t0), Ordering::Release);
                        let ex = execute(&sc.body, &prefix, thorough);
                        slots[w].since.store(0, Ordering::Release);
                        let p = ex.path;
                        st.executions += 1;
                        st.ops += p.ops;
                        st.choice_points += p.taken.len() as u64;
                        st.random_points += p.random_points;
                        st.divergences += p.divergences;
                        for h in &p.states { st.states.insert(*h); }
                        if let Some(o) = p.outcome { st.outcomes.insert(o); }
                        if st.samples.len() < 2 && !p.notes.is_empty() && (st.executions == 1 || st.executions == 97) {
                            st.samples.push(shorten(format!("{}: {}", sc.name, p.notes.join("; ")), 1500));
                        }
                        if let Err(msg) = ex.result {
                            let key = p.key.clone().unwrap_or_else(|| sc.name.clone());
                            if known.get(id, &key).is_some() {
                                *known_seen.lock().unwrap().entry(key).or_insert(0) += 1;
                            } else {
                                let mut f = found.lock().unwrap();
                                let choices: Vec<u32> = p.taken.iter().map(|t| t.0).collect();
                                let better = match *f { None => true, Some(ref o) => choices < o.choices };
                                if better { *f = Some(Found { scenario: sc.name.clone(), choices, notes: p.notes.clone(), msg, key }); }
                                sh.stop.store(true, Ordering::Relaxed);
                            }
                        }
                        let n = sh.execs.fetch_add(1, Ordering::Relaxed) + 1;
                        if let Some(cap) = sc.cap { if n >= cap { st.capped = true; sh.stop.store(true, Ordering::Relaxed); } }
                        if cfg.deadline > 0 && now_ms(t0) > cfg.deadline * 1000 { st.capped = true; sh.stop.store(true, Ordering::Relaxed); }
                        if sh.stop.load(Ordering::Relaxed) { sh.cv.notify_all(); break; }
                        // give away siblings at the shallowest open choice point
                        if threads > 1 && sh.idle.load(Ordering::Relaxed) > sh.queued.load(Ordering::Relaxed) {
                            if let Some(i) = (floor..p.taken.len()).find(|&i| p.taken[i].0 + 1 < p.taken[i].1) {
                                let mut q = sh.queue.lock().unwrap();
                                let base: Vec<u32> = p.taken[..i].iter().map(|t| t.0).collect();
                                for v in (p.taken[i].0 + 1)..p.taken[i].1 {
                                    let mut b = base.clone();
                                    b.push(v);
                                    q.0.push(b);
                                }
                                sh.queued.store(q.0.len(), Ordering::Relaxed);
                                floor = i + 1;
                                drop(q);
                                sh.cv.notify_all();
                            }
                        }
                        match next_prefix(&p.taken, floor) { Some(n) => prefix = n, None => break }
                    }
                    let mut q = sh.queue.lock().unwrap();
                    q.1 -= 1;
                    if q.1 == 0 { sh.cv.notify_all(); }
                }
                sh.cv.notify_all();
                let mut t = total.lock().unwrap();
                t.executions += st.executions;
                t.ops += st.ops;
                t.choice_points += st.choice_points;
                t.random_points += st.random_points;
                t.divergences += st.divergences;
                t.states.extend(st.states);
                t.outcomes.extend(st.outcomes);
                if t.samples.len() < 2 { t.samples.extend(st.samples); t.samples.truncate(2); }
                t.capped |= st.capped;
            }).unwrap();
        }
    });
    (total.into_inner().unwrap(), found.into_inner().unwrap())
}

// --------------------------------------------------------------- front end

fn replay_path(cfg: &Config, id: &str) -> String { format!("{}/evidence/{}.replay.json", cfg.verif, id) }

fn write_replay(cfg: &Config, id: &str, f: &Found) -> String {
    let path = replay_path(cfg, id);
    let _ = std::fs::create_dir_all(format!("{}/evidence", cfg.verif));
    let s = format!("{{\n \"property\": {},\n \"tier\": {},\n \"scenario\": {},\n \"choices\": {:?},\n \"key\": {},\n \"message\": {},\n \"steps\": [{}],\n \"replay_cmd\": {}\n}}\n",
        js(id), js(&cfg.tier), js(&f.scenario), f.choices, js(&f.key), js(&f.msg),
        f.notes.iter().map(|n| js(n)).collect::<Vec<_>>().join(", "),
        js(&format!("bash /verif/check.sh --replay {}", path)));
    let _ = std::fs::write(&path, s);
    path
}

fn violation(cfg: &Config, id: &str, f: &Found) {
    let p = write_replay(cfg, id, f);
    println!("scenario {}: {}", f.scenario, f.msg);
    println!("  key: {}", f.key);
    for n in f.notes.iter().take(12) { println!("  {}", n); }
    println!("VIOLATION property={} replay={}", id, p);
    let _ = std::io::stdout().flush();
}

fn start_watchdog(cfg: Arc<Config>, id: String, t0: Instant, slots: Arc<Vec<Slot>>) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(50));
        let now = now_ms(&t0);
        let rss = std::fs::read_to_string("/proc/self/statm").ok()
            .and_then(|s| s.split_whitespace().nth(1).and_then(|x| x.parse::<u64>().ok())).unwrap_or(0) * 4096;
        let mut worst: Option<(u64, usize)> = None;
        for (i, s) in slots.iter().enumerate() {
            let since = s.since.load(Ordering::Acquire);
            if since != 0 && now > since {
                let d = now - since;
                if worst.map_or(true, |w| d > w.0) { worst = Some((d, i)); }
            }
        }
        if let Some((d, i)) = worst {
            let mem = rss > cfg.mem_limit && d > 300;
            if d > cfg.exec_limit * 1000 || mem {
                let (scenario, choices) = { let g = slots[i].what.lock().unwrap(); (g.0.clone(), g.1.clone()) };
                let msg = if mem { format!("one execution ran away: {} MB resident after {} ms", rss >> 20, d) }
                          else { format!("one execution did not terminate within {} s", cfg.exec_limit) };
                let f = Found { scenario: scenario.clone(), choices, notes: vec![], msg, key: scenario };
                violation(&cfg, &id, &f);
                write_evidence(&cfg, &id, &t0, &[], 1, &[], &[]);
                std::process::exit(1);
            }
        }
    });
}

fn write_evidence(cfg: &Config, id: &str, t0: &Instant, rows: &[(String, String, Stats)], violations: u64, assumptions: &[String], known: &[(String, u64)]) {
    let mut states = HashSet::new();
    let (mut ops, mut ex, mut cp, mut rp, mut dv) = (0, 0, 0, 0, 0);
    let mut capped = false;
    let mut samples = vec![];
    let mut per = vec![];
    let mut outcomes = 0;
    for (name, about, s) in rows {
        for h in &s.states { let mut d = DefaultHasher::new(); (name, h).hash(&mut d); states.insert(d.finish()); }
        ops += s.ops; ex += s.executions; cp += s.choice_points; rp += s.random_points; dv += s.divergences;
        capped |= s.capped;
        outcomes += s.outcomes.len();
        for x in &s.samples { if samples.len() < 12 { samples.push(js(x)); } }
        per.push(format!("{{\"scenario\": {}, \"about\": {}, \"executions\": {}, \"transitions\": {}, \"states\": {}, \"distinct_outcomes\": {}, \"random_choice_points\": {}, \"complete\": {}}}",
            js(name), js(about), s.executions, s.ops, s.states.len(), s.outcomes.len(), s.random_points, !s.capped));
    }
    let kn = known.iter().map(|(k, n)| format!("{{\"key\": {}, \"executions\": {}}}", js(k), n)).collect::<Vec<_>>().join(", ");
    let s = format!(concat!("{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n",
        "  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"choice_points\": {},\n  \"random_choice_points\": {},\n",
        "  \"distinct_outcomes\": {},\n  \"prefix_divergences\": {},\n  \"exhaustive\": {},\n",
        "  \"rule\": {},\n  \"samples\": [{}],\n  \"scenarios\": [{}],\n  \"known_findings_seen\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n"),
        js(id), js(&cfg.tier), cfg.seed, states.len(), ops, ex, cp, rp, outcomes, dv, !capped && dv == 0 && violations == 0,
        js("states: distinct observed states of the real objects and results (hashed); transitions: operations of the real code executed; traces: complete executions of the real code compared step by step with the reference model; every path of each scenario's choice tree is executed"),
        samples.join(", "), per.join(",\n   "), kn, assumptions.iter().map(|a| js(a)).collect::<Vec<_>>().join(", "),
        t0.elapsed().as_secs_f64(), violations);
    let _ = std::fs::create_dir_all(format!("{}/evidence", cfg.verif));
    std::fs::write(format!("{}/evidence/{}.json", cfg.verif, id), s).expect("evidence");
}

/// `main` of a checker binary.
pub fn main_with(props: Vec<Property>) -> ! {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let verif = std::env::var("MC_VERIF").unwrap_or_else(|_| "/verif".into());
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let tier = if tier == "thorough" { tier } else { "quick".into() };
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let env_u = |k: &str, d: u64| std::env::var(k).ok().and_then(|s| s.parse().ok()).unwrap_or(d);
    let mut cfg = Config { tier, seed, verif, threads: env_u("MC_THREADS", 8) as usize, journal: None,
        exec_limit: env_u("MC_EXEC_LIMIT", 60), mem_limit: env_u("MC_MEM_LIMIT_MB", 12000) << 20, deadline: 0 };
    match args.first().map(|s| s.as_str()) {
        Some("list") => { for p in &props { for s in &p.scenarios { println!("{}\t{}\t{}", p.id, s.name, s.about); } for a in &p.assumptions { println!("{}\tassumption\t{}", p.id, a); } } std::process::exit(0) }
        Some("replay") => replay(&props, &args[1], &mut cfg),
        Some("one") => { // one <id> <scenario> <choices..>: used for crash triage
            std::panic::set_hook(Box::new(|_| {}));
            let p = props.iter().find(|p| p.id == args[1]).expect("property");
            let s = p.scenarios.iter().find(|s| s.name == args[2]).expect("scenario");
            let ch: Vec<u32> = args[3..].iter().map(|x| x.parse().unwrap()).collect();
            let ex = execute(&s.body, &ch, cfg.tier == "thorough");
            println!("{:?}", ex.result);
            std::process::exit(if ex.result.is_err() { 1 } else { 0 })
        }
        Some("run") => {
            if args.get(2).map(|s| s.as_str()) == Some("--journal") { cfg.journal = Some(args[3].clone()); cfg.threads = 1; }
            run(props, &args[1], cfg)
        }
        Some("check") => check(&args[1], cfg),
        _ => { eprintln!("usage: list | check <id> | replay <file>"); std::process::exit(2) }
    }
}

/// Supervise `run` in a child, so that a crash of the code under test is a
/// verdict with a replay rather than a lost check.
fn check(id: &str, cfg: Config) -> ! {
    use std::os::unix::process::ExitStatusExt;
    let me = std::env::current_exe().unwrap();
    let st = std::process::Command::new(&me).args(["run", id]).status().expect("spawn");
    if let Some(c) = st.code() { if c == 0 || c == 1 || c == 2 { std::process::exit(c) } }
    eprintln!("run ended with {:?} (signal {:?}): repeating with a journal", st.code(), st.signal());
    let j = format!("{}/evidence/{}.journal", cfg.verif, id);
    let _ = std::fs::remove_file(&j);
    let st = std::process::Command::new(&me).args(["run", id, "--journal", &j]).status().expect("spawn");
    if let Some(c) = st.code() { if c == 0 || c == 1 || c == 2 { let _ = std::fs::remove_file(&j); std::process::exit(if c == 0 { 2 } else { c }) } }
    let text = std::fs::read_to_string(&j).unwrap_or_default();
    let _ = std::fs::remove_file(&j);
    let mut l = text.lines();
    let scenario = l.next().unwrap_or("").to_string();
    let choices: Vec<u32> = l.next().unwrap_or("").trim_matches(|c| c == '[' || c == ']').split(", ").filter_map(|x| x.parse().ok()).collect();
    if scenario.is_empty() { eprintln!("no journal: engine failure"); std::process::exit(2) }
    // confirm: that one execution alone ends the process again
    let mut a = vec!["one".to_string(), id.to_string(), scenario.clone()];
    a.extend(choices.iter().map(|c| c.to_string()));
    let again = std::process::Command::new(&me).args(&a).status().expect("spawn");
    let f = Found { scenario: scenario.clone(), choices, notes: vec![], key: scenario,
        msg: format!("the process was ended by the code under test (signal {:?}); alone again: code {:?} signal {:?}", st.signal(), again.code(), again.signal()) };
    violation(&cfg, id, &f);
    write_evidence(&cfg, id, &Instant::now(), &[], 1, &[], &[]);
    std::process::exit(1)
}

fn run(props: Vec<Property>, id: &str, cfg: Config) -> ! {
    std::panic::set_hook(Box::new(|_| {}));
    let t0 = Instant::now();
    let p = match props.into_iter().find(|p| p.id == id) { Some(p) => p, None => { eprintln!("unknown property {}", id); std::process::exit(2) } };
    let known = Known::load(&cfg.verif);
    let known_seen = Mutex::new(BTreeMap::new());
    let slots: Arc<Vec<Slot>> = Arc::new((0..cfg.threads).map(|_| Slot { since: AtomicU64::new(0), what: Mutex::new((String::new(), vec![])) }).collect());
    let cfg = Arc::new(cfg);
    start_watchdog(cfg.clone(), id.to_string(), t0, slots.clone());
    let only = std::env::var("MC_ONLY").ok();
    let mut rows = vec![];
    let mut viol = 0;
    let verbose = std::env::var("MC_VERBOSE").is_ok();
    for sc in &p.scenarios {
        if let Some(ref o) = only { if !sc.name.contains(o.as_str()) { continue; } }
        let t1 = Instant::now();
        let (st, found) = explore(id, sc, &cfg, &t0, &slots, &known, &known_seen);
        if verbose { println!("  {:40} exec {:>9} ops {:>10} states {:>8} outcomes {:>7} {:.2}s", sc.name, st.executions, st.ops, st.states.len(), st.outcomes.len(), t1.elapsed().as_secs_f64()); }
        rows.push((sc.name.clone(), sc.about.clone(), st));
        if let Some(f) = found {
            // replay twice: the same choices must give the same verdict
            let a = execute(&sc.body, &f.choices, cfg.tier == "thorough").result;
            let b = execute(&sc.body, &f.choices, cfg.tier == "thorough").result;
            let mut f = f;
            if a.as_ref().err() != Some(&f.msg) || b.as_ref().err() != Some(&f.msg) {
                f.notes.push(format!("the replays differ: {:?} / {:?}: the code under test has nondeterminism outside the random seam", a, b));
            }
            violation(&cfg, id, &f);
            viol += 1;
            break;
        }
    }
    let ks: Vec<(String, u64)> = known_seen.into_inner().unwrap().into_iter().collect();
    for (k, n) in &ks { println!("KNOWN-FINDING: property={} {} [key {}; {} executions]", id, known.get(id, k).unwrap(), k, n); }
    let ex: u64 = rows.iter().map(|r| r.2.executions).sum();
    let ops: u64 = rows.iter().map(|r| r.2.ops).sum();
    let st: usize = rows.iter().map(|r| r.2.states.len()).sum();
    println!("{}: {} scenarios, {} executions, {} transitions, {} states, {:.1}s, {}", id, rows.len(), ex, ops, st, t0.elapsed().as_secs_f64(), if viol == 0 { "held" } else { "VIOLATED" });
    write_evidence(&cfg, id, &t0, &rows, viol, &p.assumptions, &ks);
    std::process::exit(if viol > 0 { 1 } else { 0 })
}

fn replay(props: &[Property], path: &str, cfg: &mut Config) -> ! {
    let text = std::fs::read_to_string(path).expect("replay file");
    let field = |k: &str| -> String {
        let tag = format!("\"{}\": \"", k);
        let i = text.find(&tag).expect("field") + tag.len();
        let mut out = String::new();
        let mut it = text[i..].chars();
        while let Some(c) = it.next() {
            match c { '"' => break, '\\' => { if let Some(d) = it.next() { out.push(d) } } c => out.push(c) }
        }
        out
    };
    let (id, sc) = (field("property"), field("scenario"));
    cfg.tier = field("tier");
    let i = text.find("\"choices\": [").unwrap() + 12;
    let j = text[i..].find(']').unwrap() + i;
    let ch: Vec<u32> = text[i..j].split(',').filter_map(|x| x.trim().parse().ok()).collect();
    let p = match props.iter().find(|p| p.id == id) { Some(p) => p, None => { eprintln!("property {} is not in this binary", id); std::process::exit(2) } };
    let s = p.scenarios.iter().find(|s| s.name == sc).expect("scenario");
    let ex = execute(&s.body, &ch, cfg.tier == "thorough");
    for n in &ex.path.notes { println!("  {}", n); }
    match ex.result {
        Ok(()) => { println!("replay: no violation"); std::process::exit(0) }
        Err(e) => { println!("replay: {}\nVIOLATION property={} replay={}", e, id, path); std::process::exit(1) }
    }
}

/// The text, cut to about `most` bytes.
fn shorten(mut s: String, most: usize) -> String {
    if s.len() > most {
        let whole = s.len();
        let mut at = most;
        while !s.is_char_boundary(at) { at -= 1; }
        s.truncate(at);
        s.push_str(&format!(" … ({} bytes in all)", whole));
    }
    s
}
