//! Exhaustive exploration engine.
//!
//! A *case* is a string that describes one closed execution of the implementation (for most properties it is the
//! word to encode; for rule programs it is the program and its words). The engine enumerates finite spaces of cases
//! completely, in parallel, runs `Prop::check` on each one (real code against reference model) and keeps a bitstate
//! table (as SPIN's supertrace does) of the distinct model states and of the distinct (state, symbol) transitions.
//!
//! The exploration runs in a forked child. Panics are caught per case, hangs are seen by a watchdog, and aborts (stack
//! overflow, out of memory) are seen by the parent, that re-executes the in-flight cases one by one to find the culprit.

use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// Names of what is executed outside of the cases.
pub const CONSTRUCTION: &str = "construction";
pub const BETWEEN: &str = "between two cases";

pub const HANG_SECONDS: u64 = 90;
const MAX_THREADS: usize = 16;
const SLOT: usize = 1 << 17;

/// What was observed on a case that conforms.
pub struct Obs {
    /// Canonical model state reached by this case.
    pub state: u64,
    /// Number of executions of the implementation that were compared with the model.
    pub compared: u64,
}

pub trait Prop: Sync {
    /// Run the implementation and the model on a case. `Err` is a violation.
    fn check(&self, case: &str) -> Result<Obs, String>;
    /// Enumerate all cases of the tier.
    fn explore(&self, ctx: &Ctx);
    /// Seconds after which a case is considered not to end.
    fn hang_seconds(&self) -> u64 {
        HANG_SECONDS
    }
    /// Try to shorten a counterexample by removing characters ?
    fn shrinkable(&self) -> bool {
        true
    }
    /// Size of the bitstate tables, as a power of two.
    fn bits(&self) -> u32 {
        31
    }
    /// Bounds, in words.
    fn bounds(&self, thorough: bool) -> String;
}

pub fn hash<T: Hash + ?Sized>(value: &T) -> u64 {
    let mut h = DefaultHasher::new();
    value.hash(&mut h);
    h.finish()
}

pub fn obs<T: Hash + ?Sized>(state: &T, compared: u64) -> Result<Obs, String> {
    Ok(Obs { state: hash(state), compared })
}

/// Slots are shared with the parent process: it must know what was running if the child dies.
#[derive(Clone, Copy)]
pub struct Slots(*mut u8);
unsafe impl Send for Slots {}
unsafe impl Sync for Slots {}

impl Slots {
    pub fn new() -> Self {
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                SLOT * MAX_THREADS,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED | libc::MAP_ANONYMOUS,
                -1,
                0,
            )
        };
        assert!(p != libc::MAP_FAILED);
        Slots(p as *mut u8)
    }
    fn head(&self, i: usize) -> (&AtomicU32, &AtomicU32) {
        unsafe {
            let p = self.0.add(i * SLOT);
            (&*(p as *const AtomicU32), &*(p.add(4) as *const AtomicU32))
        }
    }
    /// Number of cases that this slot has seen.
    fn seen(&self, i: usize) -> &AtomicU32 {
        unsafe { &*(self.0.add(i * SLOT + 8) as *const AtomicU32) }
    }
    /// tick is 0 when idle.
    fn set(&self, i: usize, case: &str, tick: u32) {
        let (t, l) = self.head(i);
        let n = case.len().min(SLOT - 12);
        unsafe {
            std::ptr::copy_nonoverlapping(case.as_ptr(), self.0.add(i * SLOT + 12), n);
        }
        l.store(n as u32, Relaxed);
        let seen = self.seen(i);
        seen.store(seen.load(Relaxed).wrapping_add(1), Relaxed);
        t.store(tick, Release);
    }
    fn clear(&self, i: usize) {
        self.head(i).0.store(0, Release);
    }
    pub fn get(&self, i: usize) -> Option<(u32, String)> {
        let (t, l) = self.head(i);
        let t = t.load(Acquire);
        if t == 0 {
            return None;
        }
        let n = l.load(Relaxed) as usize;
        let b = unsafe { std::slice::from_raw_parts(self.0.add(i * SLOT + 12), n.min(SLOT - 12)) };
        Some((t, String::from_utf8_lossy(b).to_string()))
    }
    fn progress(&self) -> u64 {
        (0..MAX_THREADS).map(|i| self.seen(i).load(Relaxed) as u64).sum()
    }
    pub fn in_flight(&self) -> Vec<String> {
        (0..MAX_THREADS).filter_map(|i| self.get(i)).map(|v| v.1).collect()
    }
}

struct Bits(Vec<AtomicU64>, AtomicU64, u32);

impl Bits {
    fn new(bits: u32) -> Self {
        let mut v: Vec<AtomicU64> = Vec::new();
        // Zeroed lazily by the kernel.
        let raw: Vec<u64> = vec![0; 1 << (bits - 6)];
        let mut raw = std::mem::ManuallyDrop::new(raw);
        unsafe {
            std::mem::swap(&mut v, &mut Vec::from_raw_parts(raw.as_mut_ptr() as *mut AtomicU64, raw.len(), raw.capacity()));
        }
        Bits(v, AtomicU64::new(0), bits)
    }
    fn insert(&self, h: u64) {
        let h = (h ^ (h >> 32)) & ((1 << self.2) - 1);
        let w = &self.0[(h >> 6) as usize];
        let m = 1u64 << (h & 63);
        if w.load(Relaxed) & m == 0 && w.fetch_or(m, Relaxed) & m == 0 {
            self.1.fetch_add(1, Relaxed);
        }
    }
    fn count(&self) -> u64 {
        self.1.load(Relaxed)
    }
}

pub struct Violation {
    pub case: String,
    pub message: String,
}

#[derive(Clone)]
pub struct SpaceStat {
    pub name: String,
    pub cases: u64,
    pub complete: bool,
}

pub struct Ctx<'a> {
    pub thorough: bool,
    pub prop: &'a dyn Prop,
    slots: Slots,
    states: Bits,
    transitions: Bits,
    cases: AtomicU64,
    compared: AtomicU64,
    stop: AtomicBool,
    tick: AtomicU32,
    done: AtomicBool,
    deadline: Instant,
    violations: Mutex<Vec<Violation>>,
    pub known: Vec<String>,
    known_hit: Mutex<Vec<String>>,
    samples: Mutex<Vec<String>>,
    spaces: Mutex<Vec<SpaceStat>>,
    threads: usize,
}

pub struct Report {
    pub states: u64,
    pub transitions: u64,
    pub cases: u64,
    pub compared: u64,
    pub violations: Vec<Violation>,
    pub known_hit: Vec<String>,
    pub samples: Vec<String>,
    pub spaces: Vec<SpaceStat>,
}

thread_local! {
    static SLOT_INDEX: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
    static LOCAL: std::cell::Cell<(u64, u64)> = const { std::cell::Cell::new((0, 0)) };
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

/// One value per worker thread, made on first use: the implementation under test doesn't have to be `Sync` (C03 decides
/// that), and no check but C03 depends on what happens between threads.
pub struct PerThread<T> {
    make: Box<dyn Fn() -> T + Sync + Send>,
    slots: Vec<std::cell::UnsafeCell<Option<T>>>,
}

// A slot is only used by the thread that has its index.
unsafe impl<T> Sync for PerThread<T> {}
unsafe impl<T> Send for PerThread<T> {}

impl<T> PerThread<T> {
    pub fn new(make: impl Fn() -> T + Sync + Send + 'static) -> Self {
        PerThread {
            make: Box::new(make),
            slots: (0..MAX_THREADS).map(|_| std::cell::UnsafeCell::new(None)).collect(),
        }
    }
    pub fn get(&self) -> &T {
        let i = SLOT_INDEX.with(|v| v.get());
        let slot = unsafe { &mut *self.slots[i].get() };
        if slot.is_none() {
            *slot = Some((self.make)());
        }
        slot.as_ref().unwrap()
    }
}

/// Index of this worker thread.
pub fn thread_index() -> usize {
    SLOT_INDEX.with(|v| v.get())
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|v| v.borrow().clone())
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let text = info.to_string().replace('\n', " ");
        LAST_PANIC.with(|v| *v.borrow_mut() = text);
    }));
}

/// Run the check with panics turned into violations.
pub fn guarded(prop: &dyn Prop, case: &str) -> Result<Obs, String> {
    match catch_unwind(AssertUnwindSafe(|| prop.check(case))) {
        Ok(r) => r,
        Err(_) => Err(format!("panic: {}", last_panic())),
    }
}

impl<'a> Ctx<'a> {
    pub fn new(prop: &'a dyn Prop, thorough: bool, slots: Slots, known: Vec<String>, budget: Duration) -> Self {
        Ctx {
            thorough,
            prop,
            slots,
            states: Bits::new(prop.bits()),
            transitions: Bits::new(prop.bits()),
            cases: AtomicU64::new(0),
            compared: AtomicU64::new(0),
            stop: AtomicBool::new(false),
            tick: AtomicU32::new(1),
            done: AtomicBool::new(false),
            deadline: Instant::now() + budget,
            violations: Mutex::new(Vec::new()),
            known,
            known_hit: Mutex::new(Vec::new()),
            samples: Mutex::new(Vec::new()),
            spaces: Mutex::new(Vec::new()),
            threads: std::thread::available_parallelism().map_or(4, |v| v.get()).clamp(1, MAX_THREADS),
        }
    }

    /// Explore everything. `on_hang` gets the case that doesn't end, and doesn't return.
    pub fn run(&self, on_hang: &(dyn Fn(&Ctx, &str) + Sync)) -> Report {
        std::thread::scope(|s| {
            let mut last = (self.slots.progress(), Instant::now());
            s.spawn(move || loop {
                std::thread::sleep(Duration::from_millis(200));
                if self.done.load(Relaxed) {
                    return;
                }
                let t = self.tick.fetch_add(1, Relaxed);
                if Instant::now() > self.deadline {
                    self.stop.store(true, Relaxed);
                }
                for i in 0..self.threads {
                    if let Some((start, case)) = self.slots.get(i) {
                        if t > start && (t - start) as u64 > self.prop.hang_seconds() * 5 {
                            on_hang(self, &case);
                        }
                    }
                }
                // The library is also called between the cases, to make encoders and cases.
                let progress = self.slots.progress();
                if progress != last.0 || !self.slots.in_flight().is_empty() {
                    last = (progress, Instant::now());
                } else if last.1.elapsed().as_secs() > self.idle_seconds() {
                    on_hang(self, BETWEEN);
                }
            });
            if catch_unwind(AssertUnwindSafe(|| self.prop.explore(self))).is_err() {
                self.violations.lock().unwrap().push(Violation {
                    case: BETWEEN.into(),
                    message: format!("panic: {}", last_panic()),
                });
            }
            self.done.store(true, Relaxed);
        });
        self.report()
    }

    fn idle_seconds(&self) -> u64 {
        if self.thorough {
            1500
        } else {
            400
        }
    }

    pub fn report(&self) -> Report {
        Report {
            states: self.states.count(),
            transitions: self.transitions.count(),
            cases: self.cases.load(Relaxed),
            compared: self.compared.load(Relaxed),
            violations: std::mem::take(&mut *self.violations.lock().unwrap()),
            known_hit: self.known_hit.lock().unwrap().clone(),
            samples: self.samples.lock().unwrap().clone(),
            spaces: self.spaces.lock().unwrap().clone(),
        }
    }

    pub fn stopped(&self) -> bool {
        self.stop.load(Relaxed)
    }

    /// One transition: from model state `parent`, with `symbol`, to the state of `case`.
    pub fn visit(&self, case: &str, parent: u64, symbol: u64) -> u64 {
        if self.stopped() {
            return 0;
        }
        let i = SLOT_INDEX.with(|v| v.get());
        self.slots.set(i, case, self.tick.load(Relaxed));
        let r = guarded(self.prop, case);
        self.slots.clear(i);
        LOCAL.with(|v| {
            let (c, n) = v.get();
            v.set((c + 1, n + r.as_ref().map_or(1, |o| o.compared)));
        });
        match r {
            Ok(o) => {
                self.states.insert(o.state);
                self.transitions.insert(hash(&(parent, symbol, o.state)));
                o.state
            }
            Err(message) => {
                if self.known.iter().any(|k| k == case) {
                    let mut k = self.known_hit.lock().unwrap();
                    if !k.iter().any(|v| v == case) {
                        k.push(case.to_string());
                    }
                    return 0;
                }
                self.violations.lock().unwrap().push(Violation {
                    case: case.to_string(),
                    message,
                });
                self.stop.store(true, Relaxed);
                0
            }
        }
    }

    fn sample(&self, case: &str) {
        let mut s = self.samples.lock().unwrap();
        if s.len() < 60 {
            s.push(case.chars().take(300).collect());
        }
    }

    fn flush(&self) {
        LOCAL.with(|v| {
            let (c, n) = v.replace((0, 0));
            self.cases.fetch_add(c, Relaxed);
            self.compared.fetch_add(n, Relaxed);
        });
    }

    /// Run tasks 0..n on all threads.
    pub fn parallel(&self, name: &str, n: usize, task: &(dyn Fn(usize) + Sync)) {
        let before = self.cases.load(Relaxed);
        let next = AtomicUsize::new(0);
        // Some tasks fork: no thread may be starting or ending meanwhile, as it holds locks of the standard library
        // that would never be released in the forked process.
        let (started, over) = (std::sync::Barrier::new(self.threads + 1), std::sync::Barrier::new(self.threads));
        std::thread::scope(|s| {
            let mut all = vec![];
            for t in 0..self.threads {
                let (next, started, over) = (&next, &started, &over);
                let run = move || {
                    SLOT_INDEX.with(|v| v.set(t));
                    started.wait();
                    let r = catch_unwind(AssertUnwindSafe(|| loop {
                        let i = next.fetch_add(1, Relaxed);
                        if i >= n || self.stopped() {
                            break;
                        }
                        task(i);
                    }));
                    if r.is_err() {
                        // A call of the library that makes encoders or cases.
                        self.violations.lock().unwrap().push(Violation {
                            case: BETWEEN.into(),
                            message: format!("panic: {}", last_panic()),
                        });
                        self.stop.store(true, Relaxed);
                    }
                    self.flush();
                    over.wait();
                };
                // Same stack as the main thread has usually.
                all.push(std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(s, run).unwrap());
            }
            started.wait();
            // The end of the scope only waits for the end of the closures.
            for t in all {
                let _ = t.join();
            }
        });
        self.spaces.lock().unwrap().push(SpaceStat {
            name: name.to_string(),
            cases: self.cases.load(Relaxed) - before,
            complete: !self.stopped(),
        });
    }

    fn rec(&self, buf: &mut String, parent: u64, left: usize, alphabet: &[&str]) {
        for (i, t) in alphabet.iter().enumerate() {
            if self.stopped() {
                return;
            }
            let l = buf.len();
            buf.push_str(t);
            let st = self.visit(buf, parent, i as u64 + 1);
            if left > 1 {
                self.rec(buf, st, left - 1, alphabet);
            }
            buf.truncate(l);
        }
    }

    /// All sequences of 0 to `max` tokens, depth first: each one extends the state of its prefix.
    pub fn sequences(&self, name: &str, alphabet: &[&str], max: usize) {
        self.sequences_after(name, "", alphabet, max)
    }

    /// All sequences of 0 to `max` tokens after a fixed prefix.
    pub fn sequences_after(&self, name: &str, prefix: &str, alphabet: &[&str], max: usize) {
        let n = alphabet.len();
        let name = format!("{name}: all sequences of 0..={max} tokens out of {n}");
        let tasks = match max {
            0 => 1,
            1 => 1,
            _ => 1 + n * n,
        };
        self.sample(&format!("{prefix}{}", alphabet.iter().rev().take(max).copied().collect::<String>()));
        self.parallel(&name, tasks, &|k| {
            let mut buf = String::from(prefix);
            if k == 0 {
                // Sequences of length 0 and 1
                let root = self.visit(&buf, 0, 0);
                if max > 0 {
                    self.rec(&mut buf, root, 1, alphabet);
                }
                return;
            }
            let (i, j) = ((k - 1) / n, (k - 1) % n);
            buf.push_str(alphabet[i]);
            let parent = guarded(self.prop, &buf).map_or(0, |o| o.state);
            buf.push_str(alphabet[j]);
            let st = self.visit(&buf, parent, j as u64 + 1);
            if max > 2 {
                self.rec(&mut buf, st, max - 2, alphabet);
            }
        });
    }

    /// All concatenations of one element of each list.
    pub fn product(&self, name: &str, lists: &[&[&str]]) {
        let n: usize = lists.iter().map(|l| l.len()).product();
        if n == 0 {
            return;
        }
        let dims: Vec<String> = lists.iter().map(|l| l.len().to_string()).collect();
        let name = format!("{name}: full product {}", dims.join("x"));
        let build = |mut i: usize, buf: &mut String| {
            buf.clear();
            let mut idx = [0usize; 16];
            for (k, l) in lists.iter().enumerate().rev() {
                idx[k] = i % l.len();
                i /= l.len();
            }
            for (k, l) in lists.iter().enumerate() {
                buf.push_str(l[idx[k]]);
            }
        };
        let mut s = String::new();
        build(n / 2, &mut s);
        self.sample(&s);
        const CHUNK: usize = 256;
        self.parallel(&name, n.div_ceil(CHUNK), &|c| {
            let mut buf = String::new();
            for i in c * CHUNK..((c + 1) * CHUNK).min(n) {
                build(i, &mut buf);
                self.visit(&buf, 0, i as u64 % lists[lists.len() - 1].len() as u64);
            }
        });
    }

    /// Cases 0..n given by a function.
    pub fn indexed(&self, name: &str, n: usize, chunk: usize, build: &(dyn Fn(usize) -> Option<String> + Sync)) {
        if let Some(s) = (0..n).rev().find_map(build) {
            self.sample(&s);
        }
        self.parallel(name, n.div_ceil(chunk), &|c| {
            for i in c * chunk..((c + 1) * chunk).min(n) {
                if let Some(case) = build(i) {
                    self.visit(&case, 0, i as u64);
                }
            }
        });
    }

    pub fn list(&self, name: &str, cases: &[String]) {
        self.indexed(&format!("{name}: {} cases", cases.len()), cases.len(), 1, &|i| Some(cases[i].clone()));
    }

    /// Shorten a counterexample, for a readable replay file.
    pub fn shrink(&self, mut v: Violation) -> Violation {
        if v.case == BETWEEN || !self.prop.shrinkable() || v.case.len() > 4000 || v.message.contains("does not end") {
            return v;
        }
        let start = Instant::now();
        loop {
            let chars: Vec<char> = v.case.chars().collect();
            let mut found = false;
            for i in 0..chars.len() {
                if start.elapsed() > Duration::from_secs(10) {
                    return v;
                }
                let c: String = chars.iter().enumerate().filter(|(k, _)| *k != i).map(|(_, c)| c).collect();
                if self.known.contains(&c) {
                    continue;
                }
                if let Err(message) = guarded(self.prop, &c) {
                    v = Violation { case: c, message };
                    found = true;
                    break;
                }
            }
            if !found {
                return v;
            }
        }
    }
}
