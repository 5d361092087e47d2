//! C24: discovery of the terminal through descriptor 60
use crate::ensure;
use crate::gen;
use crate::interpose;
use crate::props::codec::kind;
use crate::refspec::{self, enc, Kind};
use crate::util::json::J;
use crate::util::quiesce;
use crate::util::report::{fnv, Obs};
use crate::util::rng::Rng;
use crate::util::run::{run_cases, Ctx, Slot};
use crate::util::show;
use std::collections::BTreeMap;
use std::ffi::CString;
use std::os::unix::ffi::OsStrExt;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use vt6::client::{Environment, EnvironmentError};

const FD: i32 = 60;

fn open_fd(fd: i32) -> bool {
    unsafe { libc::fcntl(fd, libc::F_GETFD) != -1 }
}
/// everything about a descriptor that somebody else could change
fn signature(fd: i32) -> Option<(u64, u64, u32, i64, i64, i32, i32, i32)> {
    unsafe {
        let mut st: libc::stat = std::mem::zeroed();
        if libc::fstat(fd, &mut st) != 0 {
            return None;
        }
        let pos = libc::lseek(fd, 0, libc::SEEK_CUR);
        let mut avail = -1i32;
        // (for a file that would be the distance to its end)
        libc::ioctl(fd, libc::FIONREAD, &mut avail);
        Some((st.st_dev, st.st_ino, st.st_mode, st.st_size, pos, avail, libc::fcntl(fd, libc::F_GETFL), libc::fcntl(fd, libc::F_GETFD)))
    }
}
fn table(except: &[i32]) -> BTreeMap<i32, (u64, u64, u32, i64, i64, i32, i32, i32)> {
    let mut m = BTreeMap::new();
    let fds: Vec<i32> = std::fs::read_dir("/proc/self/fd").map(|d| d.flatten().filter_map(|e| e.file_name().to_str()?.parse().ok()).collect()).unwrap_or_default();
    for fd in fds {
        if !except.contains(&fd) {
            if let Some(s) = signature(fd) {
                m.insert(fd, s);
            }
        }
    }
    m
}
fn cpath(p: &std::path::Path) -> CString {
    CString::new(p.as_os_str().as_bytes()).unwrap()
}
fn close(fd: i32) {
    if fd >= 0 {
        unsafe {
            libc::syscall(libc::SYS_close, fd);
        }
    }
}
/// move `fd` to number `to`
fn put(fd: i32, to: i32) -> Result<(), String> {
    if fd < 0 {
        return Err(format!("harness: {}", std::io::Error::last_os_error()));
    }
    if fd == to {
        return Ok(());
    }
    let r = unsafe { libc::dup2(fd, to) };
    close(fd);
    if r == to {
        Ok(())
    } else {
        Err("harness: dup2".into())
    }
}
/// descriptors that are closed with the case
struct Fds(Vec<i32>);
impl Drop for Fds {
    fn drop(&mut self) {
        for fd in &self.0 {
            close(*fd);
        }
        close(FD);
    }
}

fn pair(kind: &str) -> Result<(i32, i32), String> {
    let mut p = [0i32; 2];
    let r = unsafe {
        match kind {
            "pipe" => libc::pipe(p.as_mut_ptr()),
            "seqpacket" => libc::socketpair(libc::AF_UNIX, libc::SOCK_SEQPACKET, 0, p.as_mut_ptr()),
            _ => libc::socketpair(libc::AF_UNIX, libc::SOCK_STREAM, 0, p.as_mut_ptr()),
        }
    };
    if r != 0 {
        return Err(format!("harness: {}", std::io::Error::last_os_error()));
    }
    Ok((p[0], p[1]))
}

// ---------------------------------------------------------------- what a terminal could say

fn path_bytes(r: &mut Rng, max: usize) -> Vec<u8> {
    match r.below(8) {
        0 => vec![],
        1 => b"/run/user/1000/vt6/1234".to_vec(),
        2 => {
            let n = r.below(max + 1);
            r.bytes(n)
        }
        3 => vec![b'/'; max],
        4 => vec![0xff; r.below(max + 1)],
        5 => gen::arg(r, max),
        _ => {
            let mut v = b"/tmp/".to_vec();
            for _ in 0..r.below(60) {
                v.push(*r.pick(b"abc/.-_ {}|:,0123456789\n\0"));
            }
            v.truncate(max);
            v
        }
    }
}
fn hello_bytes(r: &mut Rng) -> Vec<u8> {
    let mut secret = if r.chance(1, 2) { gen::text(r) } else { "c9tZQ8BnXw1cA0p".to_string() };
    while secret.len() > 400 {
        secret.pop();
    }
    // of exactly some length, or of any
    let want = match r.below(4) {
        0 => Some(*r.pick(&[1024usize, 1023, 1022, 1025, 1026, 1030, 1000])),
        _ => None,
    };
    let m = |p: &[u8], s: &str| enc(&[b"posix1.parent-hello".to_vec(), s.as_bytes().to_vec(), p.to_vec()]);
    if let Some(n) = want {
        let mut k = n.saturating_sub(m(b"", &secret).len());
        loop {
            let p: Vec<u8> = (0..k).map(|i| b'a' + (i % 26) as u8).collect();
            let v = m(&p, &secret);
            if v.len() <= n || k == 0 {
                return v;
            }
            k -= 1;
        }
    }
    let max = *r.pick(&[40usize, 107, 300, 900]);
    let p = path_bytes(r, max);
    m(&p, &secret)
}
fn content(r: &mut Rng) -> Vec<u8> {
    let mut v = match r.below(14) {
        0..=5 => hello_bytes(r),
        6 => {
            let mut v = hello_bytes(r);
            v.truncate(r.below(v.len() + 1));
            v
        }
        7 => {
            let mut v = hello_bytes(r);
            gen::mutate(r, &mut v);
            v
        }
        8 => {
            // some other message, or the right one with wrong arguments
            let t = *r.pick(&["posix1.parent-hello", "posix1.parent-hellO", "posix1.client-hello", "posix2.parent-hello", "posix1.server-hello", "want", "posix1.parent-hell"]);
            let args: Vec<Vec<u8>> = (0..r.below(5)).map(|_| if r.chance(1, 4) { gen::arg(r, 60) } else { path_bytes(r, 30) }).collect();
            gen::wire(t, &args)
        }
        9 => {
            // well-formed but for the secret
            let p = path_bytes(r, 60);
            let n = r.range(1, 8);
            let s = r.bytes(n);
            enc(&[b"posix1.parent-hello".to_vec(), s, p])
        }
        10 => gen::parser_input(r),
        11 => {
            let n = r.below(1500);
            r.bytes(n)
        }
        12 => vec![*r.pick(b"{ \n0|\xff"); 1].repeat(r.range(0, 1300)),
        _ => {
            // promises more than fits
            let mut v = format!("{{3|19:posix1.parent-hello,3:abc,{}:", r.pick(&["2000", "990", "991", "992", "993", "1024", "18446744073709551615", "4294967296"])).into_bytes();
            let n = *r.pick(&[900usize, 960, 1000, 1400]);
            v.extend(std::iter::repeat(b'p').take(n));
            v
        }
    };
    if r.chance(1, 4) {
        let more = match r.below(3) {
            0 => hello_bytes(r),
            1 => vec![b'{'; r.range(1, 40)],
            _ => {
                let n = r.below(2000);
                r.bytes(n)
            }
        };
        v.extend(more);
    }
    v
}

/// what parse() must say about the first bytes
enum Want {
    Path(Vec<u8>),
    Corrupt(Kind, usize),
    Invalid(Vec<u8>, Vec<Vec<u8>>),
    NoTerminal,
}
fn want(b: &[u8]) -> Want {
    let b = &b[..b.len().min(1024)];
    match refspec::parse(b) {
        Err((k, o)) => Want::Corrupt(k, o),
        Ok(m) => match refspec::typed(&m.typ, &m.args) {
            Some("parent-hello") => Want::Path(m.args[1].clone()),
            _ => Want::Invalid(m.typ, m.args),
        },
    }
}
fn judge(env: &Environment, w: &Want, when: &str) -> Result<&'static str, String> {
    let r = env.parse();
    match (&r, w) {
        (Ok(e), Want::Path(p)) => {
            let c = e.clone();
            let got = e.server_socket_path().as_os_str().as_bytes();
            ensure!(got == &p[..], "{}, the server socket path is {} instead of {}", when, show(got), show(p));
            ensure!(c.server_socket_path() == e.server_socket_path(), "a clone has another path");
            return Ok("path");
        }
        (Err(EnvironmentError::NoVT6Terminal), Want::NoTerminal) => return Ok("no terminal"),
        (Err(EnvironmentError::CorruptParentHello(e)), Want::Corrupt(k, o)) => {
            ensure!(kind(&e.kind) == *k && e.offset == *o, "{}, the error is {:?} at {} instead of {:?} at {}", when, kind(&e.kind), e.offset, k, o);
            let _ = r.as_ref().err().unwrap().to_string();
            return Ok("corrupt");
        }
        (Err(EnvironmentError::InvalidParentHello(m)), Want::Invalid(t, a)) => {
            let args: Vec<Vec<u8>> = m.arguments().map(|x| x.to_vec()).collect();
            ensure!(m.parsed_type().as_str().as_bytes() == &t[..] && args == *a, "{}, the invalid message is reported as {:?} with {} arguments", when, m.parsed_type().as_str(), args.len());
            let _ = r.as_ref().err().unwrap().to_string();
            return Ok("invalid");
        }
        _ => {}
    }
    let got = match &r {
        Ok(e) => format!("the path {}", show(e.server_socket_path().as_os_str().as_bytes())),
        Err(EnvironmentError::NoVT6Terminal) => "no terminal".into(),
        Err(EnvironmentError::CorruptParentHello(e)) => format!("corrupt ({:?} at {})", kind(&e.kind), e.offset),
        Err(EnvironmentError::InvalidParentHello(m)) => format!("invalid ({})", m.parsed_type().as_str()),
    };
    let exp = match w {
        Want::Path(p) => format!("the path {}", show(p)),
        Want::Corrupt(k, o) => format!("corrupt ({:?} at {})", k, o),
        Want::Invalid(t, _) => format!("invalid ({})", show(t)),
        Want::NoTerminal => "no terminal".into(),
    };
    Err(format!("{}, parse() reports {} instead of {}", when, got, exp))
}

// ---------------------------------------------------------------- the terminal's side

fn available(fd: i32) -> i32 {
    let mut n = 0i32;
    unsafe { libc::ioctl(fd, libc::FIONREAD, &mut n) };
    n
}
/// is that thread blocked in a system call on descriptor 60?
fn blocked(tid: i32, since: Instant) -> bool {
    // "<number> <arguments>..." if it is blocked in a system call, otherwise "running"
    let look = || -> bool {
        let s = std::fs::read_to_string(format!("/proc/self/task/{}/syscall", tid)).unwrap_or_default();
        let mut it = s.split(' ');
        it.next().map_or(false, |n| n.parse::<i64>().map_or(false, |n| n >= 0)) && it.next() == Some("0x3c")
    };
    if !look() {
        // waiting in some other way takes longer to tell
        return since.elapsed() > Duration::from_secs(2) && asleep(tid);
    }
    std::thread::sleep(Duration::from_micros(150));
    look()
}
/// does that thread sleep for a long time, wherever?
fn asleep(tid: i32) -> bool {
    let look = || -> Option<(String, String)> {
        let s = std::fs::read_to_string(format!("/proc/self/task/{}/status", tid)).ok()?;
        let get = |k: &str| s.lines().find(|l| l.starts_with(k)).map(|l| l.to_string());
        if !get("State:")?.contains('S') {
            return None;
        }
        Some((get("voluntary_ctxt_switches:")?, get("nonvoluntary_ctxt_switches:")?))
    };
    let a = look();
    if a.is_none() {
        return false;
    }
    std::thread::sleep(Duration::from_millis(700));
    look() == a
}

struct Feed {
    segs: Vec<Vec<u8>>,
    /// number of segments after which discovery has to end by itself; none: only when the input ends
    decisive: Option<usize>,
    w: i32,
    watch: i32,
    tid: i32,
    /// waits for the reader to sleep before each segment
    strict: bool,
}
fn feed(f: &Feed, done: &AtomicBool) -> Result<bool, String> {
    let end = Instant::now() + Duration::from_secs(20);
    let mut sent = 0usize;
    let mut since = Instant::now();
    for (k, s) in f.segs.iter().enumerate() {
        if f.decisive.map_or(false, |d| k >= d) {
            break;
        }
        let mut off = 0;
        while off < s.len() {
            let n = unsafe { libc::syscall(libc::SYS_write, f.w, s[off..].as_ptr(), s.len() - off) };
            if n <= 0 {
                return Err(format!("harness: write: {}", std::io::Error::last_os_error()));
            }
            off += n as usize;
        }
        sent += s.len();
        since = Instant::now();
        if f.decisive == Some(k + 1) {
            break;
        }
        loop {
            let empty = available(f.watch) == 0;
            if done.load(SeqCst) {
                return Err(format!("discover() returned after {} bytes, with neither a complete message nor malformed data nor the end of the input", sent));
            }
            if empty && (!f.strict || blocked(f.tid, since)) {
                break;
            }
            if Instant::now() > end {
                return if !empty && asleep(f.tid) { Err(format!("discover() does not read what has arrived ({} bytes)", sent)) } else { Ok(false) };
            }
            std::hint::spin_loop();
        }
    }
    // the last word
    loop {
        if done.load(SeqCst) {
            if f.decisive.is_none() {
                return Err(format!("discover() returned after {} bytes, with neither a complete message nor malformed data nor the end of the input", sent));
            }
            return Ok(true);
        }
        let idle = available(f.watch) == 0 && blocked(f.tid, since);
        if idle && !done.load(SeqCst) {
            if f.decisive.is_some() {
                return Err(format!("discover() waits for more input after {} bytes, which are {}", sent, if sent >= 1024 { "more than it can hold, or decisive before that" } else { "a complete message, or malformed" }));
            }
            return Ok(true);
        }
        if Instant::now() > end {
            return if asleep(f.tid) { Err("discover() neither reads nor returns".into()) } else { Ok(false) };
        }
        std::thread::sleep(Duration::from_micros(20));
    }
}

fn decoys(r: &mut Rng, scratch: &std::path::Path, keep: &mut Fds) -> Result<(), String> {
    for _ in 0..r.below(4) {
        let at = *r.pick(&[59, 61, 62, 58, 120, 188, 316, 600, 6, 10]);
        if open_fd(at) {
            continue;
        }
        match r.below(3) {
            0 => {
                let (a, b) = pair("pipe")?;
                unsafe { libc::syscall(libc::SYS_write, b, b"decoy".as_ptr(), 5) };
                keep.0.push(b);
                put(a, at)?;
            }
            1 => {
                let p = scratch.join("decoy");
                std::fs::write(&p, b"0123456789").map_err(|e| format!("harness: {}", e))?;
                put(unsafe { libc::open(cpath(&p).as_ptr(), libc::O_RDWR) }, at)?;
                unsafe { libc::lseek(at, 4, libc::SEEK_SET) };
            }
            _ => {
                let (a, b) = pair("stream")?;
                unsafe { libc::syscall(libc::SYS_write, b, b"{".as_ptr(), 1) };
                keep.0.push(b);
                put(a, at)?;
            }
        }
        keep.0.push(at);
    }
    Ok(())
}

fn one(ctx: &Ctx, r: &mut Rng, obs: &mut Obs) -> Result<(), String> {
    ensure!(!open_fd(FD), "harness: descriptor 60 is in use");
    let mut keep = Fds(vec![]);
    let what = *r.pick(&["pipe", "pipe", "stream", "stream", "seqpacket", "fifo", "file", "file", "unusable", "ready", "reset"]);
    let mut bytes = content(r);
    decoys(r, &ctx.scratch, &mut keep)?;
    let mask = if r.chance(1, 5) { r.next() & r.next() & 0xffff } else { 0 };
    let mut key = bytes.clone();
    key.extend_from_slice(what.as_bytes());

    let mut expect = want(&bytes);
    let mut feeder: Option<Feed> = None;
    let mut watch = -1;
    let mut detail = what.to_string();
    let mut fails = false;
    match what {
        "unusable" => {
            expect = Want::NoTerminal;
            let k = r.below(9);
            let f = ctx.scratch.join("wo");
            std::fs::write(&f, hello_bytes(r)).map_err(|e| format!("harness: {}", e))?;
            let names = ["not open", "the writing end of a pipe", "a file opened for writing", "a file opened with O_PATH", "an epoll instance", "a listening socket", "an unconnected socket", "not open", "not open"];
            detail = names[k].into();
            unsafe {
                match k {
                    1 => {
                        let (a, b) = pair("pipe")?;
                        keep.0.push(a);
                        put(b, FD)?;
                    }
                    2 => put(libc::open(cpath(&f).as_ptr(), libc::O_WRONLY), FD)?,
                    3 => put(libc::open(cpath(&f).as_ptr(), libc::O_PATH), FD)?,
                    4 => put(libc::epoll_create1(0), FD)?,
                    5 => {
                        let s = libc::socket(libc::AF_UNIX, libc::SOCK_STREAM, 0);
                        put(s, FD)?;
                        libc::listen(FD, 1);
                    }
                    6 => put(libc::socket(libc::AF_UNIX, libc::SOCK_STREAM, 0), FD)?,
                    _ => {}
                }
            }
            key = vec![k as u8];
        }
        "file" => {
            let f = ctx.scratch.join("content");
            let off = if r.chance(1, 2) { 0 } else { r.below(2000) };
            let mut all = vec![b'{'; off];
            all.extend_from_slice(&bytes);
            std::fs::write(&f, &all).map_err(|e| format!("harness: {}", e))?;
            let fd = unsafe { libc::open(cpath(&f).as_ptr(), if r.chance(1, 2) { libc::O_RDONLY } else { libc::O_RDWR } | libc::O_CLOEXEC) };
            put(fd, FD)?;
            unsafe { libc::lseek(FD, off as i64, libc::SEEK_SET) };
            watch = unsafe { libc::dup(FD) };
            detail = format!("a file read from offset {}", off);
        }
        // everything is there already, and the descriptor is a non-blocking one
        "ready" => {
            let k = *r.pick(&["pipe", "stream"]);
            let (a, b) = pair(k)?;
            watch = unsafe { libc::dup(a) };
            put(a, FD)?;
            let n = unsafe { libc::syscall(libc::SYS_write, b, bytes.as_ptr(), bytes.len()) };
            close(b);
            if n != bytes.len() as i64 {
                return Err("harness: write".into());
            }
            unsafe { libc::fcntl(FD, libc::F_SETFL, libc::O_NONBLOCK) };
            detail = format!("a non-blocking {} with everything in it", k);
        }
        // the other side dies in the middle of it
        "reset" => {
            if r.chance(2, 3) {
                bytes = hello_bytes(r);
                let n = r.range(1, bytes.len());
                bytes.truncate(n);
            }
            let (a, b) = pair("stream")?;
            watch = unsafe { libc::dup(a) };
            put(a, FD)?;
            let n = unsafe { libc::syscall(libc::SYS_write, b, bytes.as_ptr(), bytes.len()) };
            let m = unsafe { libc::syscall(libc::SYS_write, watch, b"x".as_ptr(), 1) };
            close(b);
            if n != bytes.len() as i64 || m != 1 {
                return Err("harness: write".into());
            }
            expect = want(&bytes);
            fails = bytes.len() < 1024 && matches!(refspec::parse(&bytes), Err((Kind::Eof, _)));
            detail = format!("a socket that is reset after {} bytes", n);
        }
        _ => {
            let (a, b) = if what == "fifo" {
                let f = ctx.scratch.join("fifo");
                let _ = std::fs::remove_file(&f);
                let c = cpath(&f);
                unsafe {
                    if libc::mkfifo(c.as_ptr(), 0o600) != 0 {
                        return Err("harness: mkfifo".into());
                    }
                    let a = libc::open(c.as_ptr(), libc::O_RDONLY | libc::O_NONBLOCK);
                    let b = libc::open(c.as_ptr(), libc::O_WRONLY);
                    libc::fcntl(a, libc::F_SETFL, 0);
                    let _ = std::fs::remove_file(&f);
                    (a, b)
                }
            } else {
                pair(what)?
            };
            watch = unsafe { libc::dup(a) };
            put(a, FD)?;
            // where it is cut
            let mut point = None;
            for k in 0..=bytes.len().min(1024) {
                let e = matches!(refspec::parse(&bytes[..k]), Err((Kind::Eof, _)));
                if !e || k == 1024 {
                    point = Some(k);
                    break;
                }
            }
            let mut cuts: Vec<usize> = vec![];
            let n = bytes.len();
            match r.below(6) {
                0 => {}
                1 => cuts = (1..n).collect(),
                2 => {
                    if let Some(p) = point {
                        for d in [p.saturating_sub(1), p, p + 1] {
                            if r.chance(1, 2) {
                                cuts.push(d);
                            }
                        }
                    }
                }
                3 => cuts.push(r.below(n + 1)),
                4 => {
                    for _ in 0..r.range(1, 12) {
                        cuts.push(r.below(n + 1));
                    }
                }
                _ => {
                    let step = r.range(1, 200);
                    cuts = (1..n).filter(|k| k % step == 0).collect();
                }
            }
            cuts.push(n);
            cuts.retain(|c| *c > 0 && *c <= n);
            cuts.sort();
            cuts.dedup();
            if what == "seqpacket" {
                // what does not fit into the buffer would be lost with its packet
                cuts.push(1024.min(n));
                cuts.retain(|c| *c > 0);
                cuts.sort();
                cuts.dedup();
            }
            let mut segs = vec![];
            let mut at = 0;
            let mut decisive = None;
            for c in &cuts {
                segs.push(bytes[at..*c].to_vec());
                at = *c;
                if decisive.is_none() && point.map_or(false, |p| at >= p) {
                    decisive = Some(segs.len());
                }
            }
            key.extend(cuts.iter().flat_map(|c| (*c as u32).to_le_bytes()));
            detail = format!("{} in {} segments {:?}", what, segs.len(), segs.iter().map(|s| s.len()).take(20).collect::<Vec<_>>());
            // how much of it can have been read when it is over
            let upto = decisive.map_or(n, |d| segs[..d].iter().map(|s| s.len()).sum());
            expect = want(&bytes[..upto]);
            let strict = segs.len() <= 6;
            feeder = Some(Feed { segs, decisive, w: b, watch, tid: quiesce::gettid(), strict });
        }
    }
    if watch >= 0 {
        keep.0.push(watch);
    }
    obs.current = format!("descriptor 60: {}; content {}{}", detail, show(&bytes), if mask != 0 { format!("; reads interrupted by signals: {:b}", mask) } else { String::new() });

    let ignore: Vec<i32> = feeder.iter().map(|f| f.w).chain([FD, watch]).collect();
    let before = table(&ignore);
    let pos0 = if what == "file" { unsafe { libc::lseek(watch, 0, libc::SEEK_CUR) } } else { 0 };
    let done = Arc::new(AtomicBool::new(false));
    let verdict: Arc<Mutex<Option<Result<bool, String>>>> = Arc::new(Mutex::new(None));
    let w_end = feeder.as_ref().map(|f| f.w);
    let h = feeder.take().map(|f| {
        let (done, verdict) = (done.clone(), verdict.clone());
        std::thread::spawn(move || {
            let v = feed(&f, &done);
            *verdict.lock().unwrap() = Some(v);
            // the input ends (or, if it should have been over, gets unstuck)
            close(f.w);
        })
    });
    let flags = |fd: i32| unsafe {
        let mut t = [0u8; 16];
        let mut n = 16u32;
        let k = libc::getsockopt(fd, libc::SOL_SOCKET, libc::SO_RCVTIMEO, t.as_mut_ptr() as *mut libc::c_void, &mut n);
        (libc::fcntl(fd, libc::F_GETFL), libc::fcntl(fd, libc::F_GETOWN), k, t)
    };
    let flags0 = flags(watch);
    interpose::watch(mask);
    let res = Environment::discover();
    let calls = interpose::unwatch();
    done.store(true, SeqCst);
    if let Some(h) = h {
        h.join().map_err(|_| "harness: feeder died".to_string())?;
    }
    let _ = w_end;
    let intr = calls.iter().filter(|c| c.0 == 'i').count() as u64;
    obs.count("interrupted_reads", intr);
    ensure!(watch < 0 || flags(watch) == flags0, "discover() changed the flags of what others share descriptor 60 with ({})", detail);
    if fails {
        ensure!(!open_fd(FD), "descriptor 60 is still open after discover() failed");
        let ok = match &res {
            Err(e) => e.raw_os_error() == Some(libc::ECONNRESET),
            // whether there is a terminal is decided by the first read
            Ok(e) => bytes.is_empty() && matches!(e.parse(), Err(EnvironmentError::NoVT6Terminal)),
        };
        ensure!(ok, "reading failed with ECONNRESET after {} bytes of an incomplete message, and discover() returns {:?}", bytes.len(), res.map(|e| e.parse().map(|_| ()).map_err(|e| e.to_string())));
        obs.count("descriptor: reset in the middle", 1);
        obs.case(Some(fnv(&key)));
        return Ok(());
    }
    let env = match res {
        Ok(e) => e,
        Err(e) => return Err(format!("discover() failed: {} (descriptor 60: {}, {} reads interrupted by signals)", e, detail, intr)),
    };
    match verdict.lock().unwrap().take() {
        Some(Err(e)) => return Err(e),
        Some(Ok(false)) => obs.count("inconclusive", 1),
        _ => {}
    }
    // which other descriptors were touched
    for (op, fd, _) in &calls {
        let n = match op {
            'r' => "read from",
            'w' => "written to",
            'c' => "closed",
            _ => continue,
        };
        ensure!(*fd == FD && *op != 'w', "discover(): descriptor {} was {}", fd, n);
    }
    let closed = calls.iter().filter(|c| c.0 == 'c').count();
    ensure!(closed <= 1 && (closed == 0 || detail != "not open"), "discover() closed descriptor 60 {} times", closed);
    let after = table(&ignore);
    for (fd, s) in &before {
        match after.get(fd) {
            None => return Err(format!("discover() closed descriptor {}", fd)),
            Some(t) => ensure!(s == t, "discover() changed descriptor {}", fd),
        }
    }
    for fd in after.keys() {
        ensure!(before.contains_key(fd), "discover() left descriptor {} open", fd);
    }
    if what != "unusable" {
        ensure!(!open_fd(FD), "descriptor 60 is still open after discover()");
    }
    if what == "file" {
        let d = unsafe { libc::lseek(watch, 0, libc::SEEK_CUR) } - pos0;
        ensure!(d <= 1024, "discover() read {} bytes", d);
    }
    // the same result, as often as wanted, from anywhere
    let k = judge(&env, &expect, "after discovery")?;
    judge(&env, &expect, "the second time")?;
    let boxed = Box::new(env);
    judge(&boxed, &expect, "after having been moved")?;
    if r.chance(1, 8) {
        let rs: Vec<Result<&'static str, String>> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..2).map(|_| s.spawn(|| judge(&boxed, &expect, "in another thread"))).collect();
            hs.into_iter().map(|h| h.join().unwrap_or(Err("panic in another thread".into()))).collect()
        });
        for x in rs {
            x?;
        }
        obs.count("parsed_in_other_threads", 2);
    }
    if what != "unusable" {
        let again = Environment::discover().map_err(|e| format!("discover() failed the second time: {}", e))?;
        judge(&again, &Want::NoTerminal, "after the second discovery")?;
        judge(&boxed, &expect, "after the second discovery")?;
    }
    obs.count(&format!("result: {}", k), 1);
    obs.count(&format!("descriptor: {}", if what == "unusable" { &detail } else { what }), 1);
    if what != "unusable" {
        obs.count("reads_of_descriptor_60", calls.iter().filter(|c| c.0 == 'r').count() as u64);
    }
    obs.case(Some(fnv(&key)));
    obs.sample(|| J::s(format!("{}: {}", detail, show(&bytes[..bytes.len().min(150)]))));
    Ok(())
}

pub fn c24(ctx: &Ctx, obs: &mut Obs, slot: &Slot) {
    obs.rule = "a call of discover() with a prepared descriptor 60 (its kind, content and the segmentation of the content); distinct by all of these".into();
    run_cases(ctx, obs, slot, u64::MAX / 2, |_, r, obs| one(ctx, r, obs));
}
