//! Runtime shared by all monitors: deterministic randomness, guarded calls, allocation
//! accounting, and the record a worker hands back to the driver.
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

// ---------------------------------------------------------------- randomness
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.0)
    }
    /// Uniform in 0..n (n > 0).
    pub fn below(&mut self, n: usize) -> usize {
        ((self.next() as u128 * n as u128) >> 64) as usize
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for chunk in b.chunks(8) {
        let mut w = [0u8; 8];
        w[..chunk.len()].copy_from_slice(chunk);
        h = mix(h ^ u64::from_le_bytes(w)).wrapping_add(chunk.len() as u64);
    }
    h
}

// ---------------------------------------------------------------- guarded calls
thread_local! {
    static GUARD: Cell<bool> = const { Cell::new(false) };
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let text = info.to_string();
        if GUARD.with(|g| g.get()) {
            PANIC.with(|p| *p.borrow_mut() = text);
        } else {
            eprintln!("HARNESS-PANIC {text}");
        }
    }));
}

/// Runs code under test; a panic becomes `Err(message)`.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let before = GUARD.with(|g| g.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    GUARD.with(|g| g.set(before));
    r.map_err(|_| {
        let m = PANIC.with(|p| std::mem::take(&mut *p.borrow_mut()));
        format!("panicked: {}", m.replace('\n', " "))
    })
}

/// Runs `f` on a new thread with an ordinary 2 MiB stack whose `thread_rng` is seeded from `seed`.
pub fn with_entropy<T: Send>(seed: u64, f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| {
        let h = std::thread::Builder::new()
            .stack_size(2 << 20)
            .spawn_scoped(s, move || {
                getrandom::inject(seed);
                f()
            })
            .expect("harness: spawn");
        match h.join() {
            Ok(v) => v,
            Err(_) => {
                eprintln!("HARNESS-PANIC in case thread");
                std::process::exit(101)
            }
        }
    })
}

/// CPU time used by this thread, in nanoseconds.
pub fn thread_cpu_ns() -> u64 {
    std::fs::read_to_string("/proc/thread-self/schedstat")
        .ok()
        .and_then(|s| s.split_whitespace().next().and_then(|x| x.parse().ok()))
        .unwrap_or(0)
}

// ---------------------------------------------------------------- allocation accounting
#[cfg(not(feature = "plain_alloc"))]
pub mod alloc {
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::Relaxed};

    pub struct Monitor;

    // Process-wide, so that memory handed between threads is counted once.
    static BYTES: AtomicI64 = AtomicI64::new(0);
    static BLOCKS: AtomicI64 = AtomicI64::new(0);
    static CALLS: AtomicU64 = AtomicU64::new(0);
    const POISON_LIMIT: usize = 512;

    fn note(bytes: i64, blocks: i64) {
        BYTES.fetch_add(bytes, Relaxed);
        BLOCKS.fetch_add(blocks, Relaxed);
        if blocks > 0 {
            CALLS.fetch_add(1, Relaxed);
        }
    }

    // Fresh small blocks are filled with 0xA7 and freed ones with 0xD5, so that a read of
    // uninitialised or freed pointers faults instead of happening to work.
    unsafe impl GlobalAlloc for Monitor {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            let p = System.alloc(l);
            if !p.is_null() {
                note(l.size() as i64, 1);
                if l.size() <= POISON_LIMIT {
                    std::ptr::write_bytes(p, 0xA7, l.size());
                }
            }
            p
        }
        unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
            let p = System.alloc_zeroed(l);
            if !p.is_null() {
                note(l.size() as i64, 1);
            }
            p
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            note(-(l.size() as i64), -1);
            if l.size() <= POISON_LIMIT {
                std::ptr::write_bytes(p, 0xD5, l.size());
            }
            System.dealloc(p, l)
        }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
            let q = System.realloc(p, l, n);
            if !q.is_null() {
                note(n as i64 - l.size() as i64, 0);
            }
            q
        }
    }

    #[global_allocator]
    static GLOBAL: Monitor = Monitor;

    /// (live bytes, live blocks, allocations so far) of this process.
    pub fn snapshot() -> (i64, i64, u64) {
        (BYTES.load(Relaxed), BLOCKS.load(Relaxed), CALLS.load(Relaxed))
    }
}
#[cfg(feature = "plain_alloc")]
pub mod alloc {
    pub fn snapshot() -> (i64, i64, u64) {
        (0, 0, 0)
    }
}

// ---------------------------------------------------------------- worker record
pub struct Ctx {
    pub seed: u64,
    pub idx: u64,
    pub thorough: bool,
    pub evals: u64,
    pub unjudged: u64,
    pub distinct: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub violations: Vec<Value>,
    /// Cases run before this one by this worker.
    pub done: u64,
    /// Further cases would only repeat, slowly, what was found.
    pub stop: bool,
}

impl Ctx {
    pub fn new(seed: u64, thorough: bool) -> Self {
        Ctx {
            seed,
            idx: 0,
            thorough,
            evals: 0,
            unjudged: 0,
            distinct: HashSet::new(),
            counters: BTreeMap::new(),
            samples: Vec::new(),
            violations: Vec::new(),
            done: 0,
            stop: false,
        }
    }
    /// Case generator state: a function of property tag, seed and index only.
    pub fn rng(&self, tag: &str) -> Rng {
        Rng::new(hash_bytes(tag.as_bytes()) ^ mix(self.seed) ^ mix(self.idx.wrapping_mul(0x1234_5677)))
    }
    pub fn count(&mut self, k: &str) {
        self.add(k, 1)
    }
    pub fn add(&mut self, k: &str, n: u64) {
        match self.counters.get_mut(k) {
            Some(v) => *v += n,
            None => {
                self.counters.insert(k.to_string(), n);
            }
        }
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let k = format!("max_{k}");
        let v = self.counters.entry(k).or_insert(0);
        *v = (*v).max(n);
    }
    /// Records one judged execution; `h` identifies its input if the case is non-trivial.
    pub fn eval(&mut self, h: Option<u64>) {
        self.evals += 1;
        if let Some(h) = h {
            self.distinct.insert(h);
        }
    }
    pub fn sample(&mut self, v: impl FnOnce() -> Value) {
        if self.samples.len() < 3 {
            self.samples.push(v());
        }
    }
    pub fn violate(&mut self, what: impl Into<String>, input: Value) {
        let what = what.into();
        self.violations.push(json!({"case": self.idx, "what": what, "input": input}));
    }
    pub fn to_json(&self, truncated: bool, cases: u64) -> Value {
        json!({
            "cases": cases, "evals": self.evals, "unjudged": self.unjudged,
            "counters": self.counters, "samples": self.samples, "violations": self.violations,
            "truncated": truncated,
        })
    }
}
