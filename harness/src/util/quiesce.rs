//! Quiescence detector: the process is at rest if every other thread sleeps, none of them has run for several
//! samples, and no injected delay is pending. Then nothing more will ever happen without outside stimulus, so that
//! "eventually X" can be judged: X has happened or never will.
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
use std::time::{Duration, Instant};

pub static PENDING_DELAYS: AtomicI64 = AtomicI64::new(0);

/// sleep that the detector knows to be pending work
pub fn delay(d: Duration) {
    PENDING_DELAYS.fetch_add(1, SeqCst);
    std::thread::sleep(d);
    PENDING_DELAYS.fetch_sub(1, SeqCst);
}

pub fn gettid() -> i32 {
    unsafe { libc::syscall(libc::SYS_gettid) as i32 }
}

/// None if some other thread is not asleep; otherwise (tid, context switches) of all of them
fn snapshot(me: i32, ignore: &[i32]) -> Option<Vec<(i32, u64, u64)>> {
    let mut v = Vec::new();
    for e in std::fs::read_dir("/proc/self/task").ok()? {
        let e = e.ok()?;
        let tid: i32 = e.file_name().to_str()?.parse().ok()?;
        if tid == me || ignore.contains(&tid) {
            continue;
        }
        let s = match std::fs::read_to_string(format!("/proc/self/task/{}/status", tid)) {
            Ok(s) => s,
            Err(_) => return None,
        };
        let mut st = ' ';
        let (mut a, mut b) = (0, 0);
        for l in s.lines() {
            if let Some(r) = l.strip_prefix("State:") {
                st = r.trim().chars().next().unwrap_or(' ');
            } else if let Some(r) = l.strip_prefix("voluntary_ctxt_switches:") {
                a = r.trim().parse().unwrap_or(0);
            } else if let Some(r) = l.strip_prefix("nonvoluntary_ctxt_switches:") {
                b = r.trim().parse().unwrap_or(0);
            }
        }
        if st != 'S' {
            return None;
        }
        v.push((tid, a, b));
    }
    v.sort();
    Some(v)
}

/// Wait until the process is at rest. False if it still is not after `limit`.
pub fn wait(limit: Duration) -> bool {
    wait_ignoring(limit, &[])
}
pub fn wait_ignoring(limit: Duration, ignore: &[i32]) -> bool {
    let me = gettid();
    let end = Instant::now() + limit;
    let mut last: Option<Vec<(i32, u64, u64)>> = None;
    let mut same = 0;
    loop {
        let s = if PENDING_DELAYS.load(SeqCst) == 0 { snapshot(me, ignore) } else { None };
        if s.is_some() && s == last {
            same += 1;
            if same >= 3 && PENDING_DELAYS.load(SeqCst) == 0 {
                return true;
            }
        } else {
            same = 0;
        }
        last = s;
        if Instant::now() > end {
            return false;
        }
        std::thread::sleep(Duration::from_micros(400));
    }
}
