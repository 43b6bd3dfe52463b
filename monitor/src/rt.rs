//! Monitor runtime: the boundary at which library calls are observed.
//!
//! Every call into the crate under test goes through `Ctx::lib` (expected to
//! return) or `Ctx::refuse` (expected to panic).  The runtime counts the calls,
//! turns panics into verdicts, and bounds each call by a logical step budget
//! (heap allocations made during the call; every BigInt operation makes some)
//! and, for loops that do not allocate, by a CPU time budget.
use crate::rng::Rng;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::BTreeMap;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicPtr, AtomicU64, AtomicUsize, Ordering::Relaxed};

pub const EXIT_HANG: i32 = 95;
pub const EXIT_CPU: i32 = 96;
pub const EXIT_STEPS: i32 = 97;
pub const EXIT_MEM: i32 = 98;

static ALLOCS: AtomicU64 = AtomicU64::new(0);
static LIVE: AtomicI64 = AtomicI64::new(0);
static ALLOC_LIMIT: AtomicU64 = AtomicU64::new(u64::MAX);
static LIVE_LIMIT: AtomicI64 = AtomicI64::new(i64::MAX);
static IN_CALL: AtomicBool = AtomicBool::new(false);
static CALL_CPU_START: AtomicU64 = AtomicU64::new(0);
static CPU_LIMIT_NS: AtomicU64 = AtomicU64::new(u64::MAX);
static LABEL_PTR: AtomicPtr<u8> = AtomicPtr::new(std::ptr::null_mut());
static LABEL_LEN: AtomicUsize = AtomicUsize::new(0);
pub static MAX_ALLOCS: AtomicU64 = AtomicU64::new(0);
pub static MAX_CPU_NS: AtomicU64 = AtomicU64::new(0);

extern "C" {
    fn clock_gettime(id: i32, ts: *mut [i64; 2]) -> i32;
    fn _exit(code: i32) -> !;
    fn write(fd: i32, p: *const std::ffi::c_void, n: usize) -> isize;
}

pub fn cpu_ns() -> u64 {
    let mut ts = [0i64; 2];
    unsafe { clock_gettime(2, &mut ts) }; // CLOCK_PROCESS_CPUTIME_ID
    ts[0] as u64 * 1_000_000_000 + ts[1] as u64
}

pub struct Counting;

#[cold]
fn trip(code: i32) -> ! {
    unsafe {
        let p = LABEL_PTR.load(Relaxed);
        let n = LABEL_LEN.load(Relaxed);
        if !p.is_null() {
            let pre = b"\nTRIP in ";
            write(2, pre.as_ptr().cast(), pre.len());
            write(2, p.cast(), n);
            write(2, b"\n".as_ptr().cast(), 1);
        }
        _exit(code)
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let n = ALLOCS.fetch_add(1, Relaxed);
        if n > ALLOC_LIMIT.load(Relaxed) {
            trip(EXIT_STEPS);
        }
        let live = LIVE.fetch_add(l.size() as i64, Relaxed);
        if live > LIVE_LIMIT.load(Relaxed) {
            trip(EXIT_MEM);
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as i64, Relaxed);
        System.dealloc(p, l)
    }
}

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let text = format!("{} at {}", msg, loc);
        if !IN_CALL.load(Relaxed) {
            eprintln!("HARNESS PANIC: {}", text);
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = text);
    }));
}

/// Bounds the CPU time of a call, and detects calls that wait for ever: no
/// progress in CPU time over 600 wake-ups of this thread (about a minute of
/// being scheduled; a frozen sandbox does not count).
pub fn start_watchdog() {
    std::thread::spawn(|| {
        let (mut call, mut ticks, mut cpu0) = (0u64, 0u32, 0u64);
        loop {
            std::thread::sleep(std::time::Duration::from_millis(100));
            if !IN_CALL.load(Relaxed) {
                ticks = 0;
                continue;
            }
            let s = CALL_CPU_START.load(Relaxed);
            let now = cpu_ns();
            if now.saturating_sub(s) > CPU_LIMIT_NS.load(Relaxed) && IN_CALL.load(Relaxed) && s == CALL_CPU_START.load(Relaxed) {
                trip(EXIT_CPU);
            }
            if s != call || ticks == 0 {
                call = s;
                ticks = 1;
                cpu0 = now;
            } else {
                ticks += 1;
                if ticks >= 600 {
                    if now - cpu0 < 300_000_000 && IN_CALL.load(Relaxed) && s == CALL_CPU_START.load(Relaxed) {
                        trip(EXIT_HANG);
                    }
                    ticks = 0;
                }
            }
        }
    });
}

/// the bounds of `Ctx::lib` for code that runs on several threads
pub fn bounded<T, F: FnOnce() -> T>(label: &'static str, steps: u64, cpu_s: u64, f: F) -> T {
    LABEL_PTR.store(label.as_ptr() as *mut u8, Relaxed);
    LABEL_LEN.store(label.len(), Relaxed);
    ALLOC_LIMIT.store(ALLOCS.load(Relaxed).saturating_add(steps), Relaxed);
    LIVE_LIMIT.store(3 << 30, Relaxed);
    CPU_LIMIT_NS.store(cpu_s * 1_000_000_000, Relaxed);
    CALL_CPU_START.store(cpu_ns(), Relaxed);
    IN_CALL.store(true, Relaxed);
    let r = f();
    IN_CALL.store(false, Relaxed);
    ALLOC_LIMIT.store(u64::MAX, Relaxed);
    LIVE_LIMIT.store(i64::MAX, Relaxed);
    r
}

pub struct Ctx<'a> {
    pub rng: Rng,
    pub idx: u64,
    hash: DefaultHasher,
    pub nontrivial: bool,
    pub calls: u64,
    pub verbose: bool,
    pub lines: Vec<String>,
    pub feats: &'a mut BTreeMap<String, u64>,
    pub steps: u64,
    pub cpu_s: u64,
}

impl<'a> Ctx<'a> {
    pub fn new(seed: u64, idx: u64, verbose: bool, steps: u64, cpu_s: u64, feats: &'a mut BTreeMap<String, u64>) -> Ctx<'a> {
        // in one case of six all integers have the size of one machine word
        let mut rng = Rng::new(seed);
        let h = crate::rng::mix(seed ^ 0x5ca1e);
        if h % 6 == 0 {
            rng.scale = *rng.pick(&[7, 8, 15, 16, 24, 31, 32, 33, 40, 48, 53, 62, 63, 64, 65, 96, 127, 128]);
        }
        Ctx { rng, idx, hash: DefaultHasher::new(), nontrivial: false, calls: 0, verbose, lines: vec![], feats, steps, cpu_s }
    }
    /// records (part of) the input of the case, for counting distinct cases
    pub fn input<T: Hash + ?Sized>(&mut self, t: &T) {
        t.hash(&mut self.hash);
    }
    pub fn digest(&self) -> u64 {
        self.hash.finish()
    }
    /// a line of the case description, only built when somebody will read it
    pub fn note<F: FnOnce() -> String>(&mut self, f: F) {
        if self.verbose {
            let mut s = f();
            if s.len() > 3000 {
                let mut k = 3000;
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                s.truncate(k);
                s.push_str("...");
            }
            self.lines.push(s);
        }
    }
    pub fn feat(&mut self, f: &str) {
        if let Some(v) = self.feats.get_mut(f) {
            *v += 1;
        } else {
            self.feats.insert(f.to_string(), 1);
        }
    }
    pub fn feat_n(&mut self, f: &str, n: u64) {
        *self.feats.entry(f.to_string()).or_insert(0) += n;
    }
    fn observe<T, F: FnOnce() -> T>(&mut self, label: &'static str, f: F) -> Result<T, String> {
        self.calls += 1;
        LABEL_PTR.store(label.as_ptr() as *mut u8, Relaxed);
        LABEL_LEN.store(label.len(), Relaxed);
        let a0 = ALLOCS.load(Relaxed);
        let c0 = cpu_ns();
        ALLOC_LIMIT.store(a0.saturating_add(self.steps), Relaxed);
        LIVE_LIMIT.store(3 << 30, Relaxed);
        CPU_LIMIT_NS.store(self.cpu_s * 1_000_000_000, Relaxed);
        CALL_CPU_START.store(c0, Relaxed);
        IN_CALL.store(true, Relaxed);
        let r = catch_unwind(AssertUnwindSafe(f));
        IN_CALL.store(false, Relaxed);
        ALLOC_LIMIT.store(u64::MAX, Relaxed);
        LIVE_LIMIT.store(i64::MAX, Relaxed);
        MAX_ALLOCS.fetch_max(ALLOCS.load(Relaxed) - a0, Relaxed);
        MAX_CPU_NS.fetch_max(cpu_ns() - c0, Relaxed);
        r.map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
    }
    /// a library call that has to return
    pub fn lib<T, F: FnOnce() -> T>(&mut self, label: &'static str, f: F) -> Result<T, String> {
        self.observe(label, f).map_err(|p| format!("{}: panicked: {}", label, p))
    }
    /// a library call that has to panic
    pub fn refuse<T: std::fmt::Debug, F: FnOnce() -> T>(&mut self, label: &'static str, f: F) -> Result<(), String> {
        match self.observe(label, f) {
            Err(_) => Ok(()),
            Ok(v) => Err(format!("{}: accepted, returned {}", label, short(&format!("{:?}", v)))),
        }
    }
}

pub fn short(s: &str) -> String {
    if s.chars().count() > 400 {
        let t: String = s.chars().take(400).collect();
        format!("{}... ({} bytes)", t, s.len())
    } else {
        s.to_string()
    }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}

pub type Res = Result<(), String>;
pub type CaseFn = fn(&mut Ctx) -> Res;

pub struct Scenario {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    /// the scenario enumerates a finite space of this size (idx is the code)
    pub space: Option<u64>,
    pub steps: u64,
    pub cpu_s: u64,
    pub f: CaseFn,
}

pub fn sc(name: &'static str, quick: u64, thorough: u64, f: CaseFn) -> Scenario {
    Scenario { name, quick, thorough, space: None, steps: 300_000_000, cpu_s: 120, f }
}
impl Scenario {
    pub fn steps(mut self, s: u64) -> Self {
        self.steps = s;
        self
    }
    pub fn cpu(mut self, s: u64) -> Self {
        self.cpu_s = s;
        self
    }
    pub fn exhaustive(mut self, n: u64) -> Self {
        self.space = Some(n);
        self.quick = n.min(self.quick);
        self.thorough = n.min(self.thorough);
        self
    }
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub scenarios: Vec<Scenario>,
}
