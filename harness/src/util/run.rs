//! Case runner of one shard process, and the guard around library calls.
use super::report::{Obs, Violation};
use super::rng::Rng;
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Ctx {
    pub id: String,
    pub seed: u64,
    pub thorough: bool,
    pub shard: u64,
    pub shards: u64,
    pub only: Option<u64>,
    pub secs: f64,
    pub scratch: std::path::PathBuf,
}

thread_local! {
    static GUARDED: Cell<u32> = const { Cell::new(0) };
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}
/// every panic of the process, as (location, message); the server monitors look at this
pub static PANICS: Mutex<Vec<(String, String)>> = Mutex::new(Vec::new());
pub static PANIC_COUNT: AtomicU64 = AtomicU64::new(0);

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        PANIC_COUNT.fetch_add(1, Relaxed);
        if GUARDED.with(|g| g.get()) == 0 {
            let mut p = PANICS.lock().unwrap_or_else(|e| e.into_inner());
            if p.len() < 100 {
                p.push((loc.clone(), msg.clone()));
            }
        }
        LAST_PANIC.with(|l| *l.borrow_mut() = Some((loc, msg)));
    }));
}

/// panics raised in the harness's own code are harness errors, never verdicts
pub fn is_harness_location(loc: &str) -> bool {
    loc.starts_with("src/") || loc.contains("harness/src/") || loc.contains("/verif/")
}

/// run library code; Err = it panicked
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    GUARDED.with(|g| g.set(g.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    GUARDED.with(|g| g.set(g.get() - 1));
    match r {
        Ok(v) => Ok(v),
        Err(p) => {
            let (loc, msg) = LAST_PANIC.with(|l| l.borrow_mut().take()).unwrap_or_default();
            if is_harness_location(&loc) {
                eprintln!("harness panic at {}: {}", loc, msg);
                std::panic::resume_unwind(p);
            }
            Err(format!("panic at {}: {}", loc, msg))
        }
    }
}

/// The number of the case being run, visible to check.py even if this process dies.
pub struct Slot(*mut u64);
impl Slot {
    #[cfg(miri)]
    pub fn open(_path: &std::path::Path) -> Slot {
        static CASE: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
        Slot(CASE.as_ptr())
    }
    #[cfg(not(miri))]
    pub fn open(path: &std::path::Path) -> Slot {
        use std::os::unix::io::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(path).unwrap();
        f.set_len(4096).unwrap();
        let p = unsafe {
            libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0)
        };
        assert!(p != libc::MAP_FAILED);
        Slot(p as *mut u64)
    }
    pub fn set(&self, case: u64) {
        unsafe { std::ptr::write_volatile(self.0, case + 1) }
    }
    pub fn clear(&self) {
        unsafe { std::ptr::write_volatile(self.0, 0) }
    }
}

pub type CaseResult = Result<(), String>;

/// Runs cases shard, shard+shards, ... until `n` cases (over all shards) or the time budget are used up.
/// A case is a pure function of (seed, case number), so it can be replayed alone.
pub fn run_cases(ctx: &Ctx, obs: &mut Obs, slot: &Slot, n: u64, mut f: impl FnMut(u64, &mut Rng, &mut Obs) -> CaseResult) {
    let start = Instant::now();
    let budget = Duration::from_secs_f64(ctx.secs);
    let mut i = ctx.shard;
    // interpreted, the sweeps at the beginning would take too long; every fourth conversation is one with sockets, which cannot be
    let step = if cfg!(miri) { 4 * ctx.shards } else { ctx.shards };
    if cfg!(miri) {
        i = 1000 + 4 * ctx.shard;
    }
    if let Some(o) = ctx.only {
        i = o;
    }
    while i < n || ctx.only.is_some() {
        slot.set(i);
        obs.current.clear();
        let mut rng = Rng::new(ctx.seed, i);
        let r = match guard(|| f(i, &mut rng, obs)) {
            Ok(r) => r,
            Err(p) => Err(p),
        };
        if let Err(what) = r {
            let detail = obs.current.clone();
            obs.violations.push(Violation { case: i, what, detail });
            if obs.violations.len() >= 3 {
                break;
            }
        }
        if ctx.only.is_some() {
            break;
        }
        i += step;
        if start.elapsed() > budget {
            obs.count("stopped_by_time_budget", 1);
            break;
        }
    }
    slot.clear();
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}
