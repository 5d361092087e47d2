//! C34: a server affects nothing but its own connections and its socket: neither the process nor other servers in it
use crate::app::{self, raw, App, Ev, Ident, Raw as Msg, RegClient, RegScreen, Registry};
use crate::ensure;
use crate::interpose;
use crate::refspec::enc;
use crate::sim::hello;
use crate::tok::{self, Client, Step, C, D};
use crate::util::json::J;
use crate::util::report::{fnv, Obs};
use crate::util::rng::Rng;
use crate::util::run::{run_cases, Ctx, Slot};
use crate::util::show;
use std::collections::BTreeSet;
use std::os::fd::AsRawFd;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::Arc;
use vt6::server::{Dispatch, ScreenIdentity};

/// (the same IDs and secrets for every server)
fn registry() -> Registry {
    let mut reg = Registry::default();
    for i in 0..30 {
        reg.clients.push(RegClient { ident: Ident::new(&format!("f{}", (b'a' + i as u8 % 26) as char).repeat(1 + i / 26), [None, Some("out"), None]), secret: format!("client-secret-{}", i), redeemed: false });
        reg.screens.push(RegScreen { id: format!("scr{}", i), stdin_secret: format!("in-{}", i), stdout_secret: format!("out-{}", i), stdin_redeemed: false, stdout_redeemed: false });
    }
    reg
}

// ---------------------------------------------------------------- the process

struct Sentinels(Vec<(std::fs::File, u64)>);
fn ino(fd: i32) -> u64 {
    let mut s: libc::stat = unsafe { std::mem::zeroed() };
    if unsafe { libc::fstat(fd, &mut s) } != 0 {
        return 0;
    }
    s.st_ino
}

/// what a library must leave alone
fn process() -> Vec<(String, String)> {
    let mut v = vec![("working directory".to_string(), format!("{:?}", std::env::current_dir().ok()))];
    if let Ok(s) = std::fs::read_to_string("/proc/thread-self/status") {
        for l in s.lines() {
            for (k, name) in [("Umask:", "file mode mask"), ("SigBlk:", "blocked signals"), ("SigIgn:", "ignored signals"), ("SigCgt:", "handled signals"), ("Uid:", "user"), ("Gid:", "group"), ("NoNewPrivs:", "no-new-privileges flag")] {
                if let Some(x) = l.strip_prefix(k) {
                    v.push((name.to_string(), x.trim().to_string()));
                }
            }
        }
    }
    for (p, name) in [("/proc/self/limits", "resource limits"), ("/proc/thread-self/comm", "thread name")] {
        v.push((name.to_string(), std::fs::read_to_string(p).unwrap_or_default()));
    }
    let mut env: Vec<_> = std::env::vars_os().map(|(k, x)| format!("{:?}={:?}", k, x)).collect();
    env.sort();
    v.push(("environment".to_string(), env.join("\n")));
    v
}

// ---------------------------------------------------------------- one server with its clients

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Fresh,
    Msg,
    In,
    Out,
}
struct Con {
    kind: Kind,
    id: String,
    c: Client,
    seen: usize,
    rest: Vec<u8>,
}
struct Side {
    s: Option<Step>,
    dir: PathBuf,
    cs: Vec<Con>,
    /// as given out by the server
    secrets: Vec<String>,
    next: usize,
    paths: BTreeSet<String>,
}

fn hide(b: &[u8], secrets: &[String]) -> Vec<u8> {
    let mut v = b.to_vec();
    for (k, s) in secrets.iter().enumerate() {
        let s = s.as_bytes();
        let mut i = 0;
        while i + s.len() <= v.len() {
            if &v[i..i + s.len()] == s {
                let t = format!("<secret {}>", k);
                v.splice(i..i + s.len(), t.into_bytes());
            }
            i += 1;
        }
    }
    v
}
/// an event without what is numbered or segmented by chance
fn text(e: &Ev) -> Option<String> {
    Some(match e {
        Ev::MsgNew(_, i) => format!("MsgNew {:?}", i),
        Ev::MsgDrop(_) => "MsgDrop".into(),
        Ev::OutNew(_, s) => format!("OutNew {}", s),
        Ev::OutDrop(_) => "OutDrop".into(),
        Ev::Handled { level, items, .. } => format!("Handled {} {:?}", level, items.iter().map(|x| show(x)).collect::<Vec<_>>()),
        Ev::OutRecv(..) | Ev::Discarded(_) | Ev::Bc(..) | Ev::Looked => return None,
        e => format!("{:?}", e),
    })
}

impl Side {
    fn new(dir: &Path) -> Side {
        Side { s: None, dir: dir.to_path_buf(), cs: vec![], secrets: vec![], next: 0, paths: BTreeSet::new() }
    }
    fn start(&mut self) -> Result<(), String> {
        let s = Step::new(App::new(registry()), &self.dir)?;
        self.paths.insert(s.path().to_string_lossy().to_string());
        self.s = Some(s);
        Ok(())
    }
    fn rest(&mut self) -> Result<(), String> {
        loop {
            if let Some(s) = self.s.as_mut() {
                s.step()?;
            }
            let mut any = false;
            for c in &mut self.cs {
                any |= c.c.pump();
            }
            if !any {
                return tok::panicked();
            }
        }
    }
    /// do something with all connections of this server, perhaps from within a broadcast of another server
    fn broadcast(&self, other: Option<&D>, f: impl Fn(&mut C) + Send + Sync + 'static) {
        let Some(s) = &self.s else { return };
        let f = Arc::new(f);
        let (d, ran) = (s.d.clone(), Arc::new(AtomicBool::new(false)));
        let act = move || {
            if !ran.swap(true, SeqCst) {
                let f = f.clone();
                d.enqueue_broadcast(Box::new(move |c: &mut C| f(c)));
            }
        };
        if let Some(o) = other {
            let a = act.clone();
            o.enqueue_broadcast(Box::new(move |_: &mut C| a()));
        }
        // (the other one may have no connections)
        act();
    }
    fn send(&mut self, k: usize, b: &[u8]) {
        let mut m = std::mem::take(&mut self.cs[k].rest);
        m.extend_from_slice(b);
        self.cs[k].c.queue(&m);
    }
    /// the operation given by a number; what happened in it
    fn op(&mut self, seed: u64, other: Option<&D>) -> Result<(&'static str, Vec<String>), String> {
        let r = &mut Rng::new(seed, 34);
        app::take_log();
        let mut what = "connect";
        if self.s.is_none() {
            what = "start";
            self.start()?;
        }
        let open: Vec<usize> = (0..self.cs.len()).filter(|k| !self.cs[*k].c.eof && self.cs[*k].c.open()).collect();
        let of = |kind: Kind| open.iter().copied().filter(|k| self.cs[*k].kind == kind).collect::<Vec<_>>();
        let (msgs, outs, ins) = (of(Kind::Msg), of(Kind::Out), of(Kind::In));
        let act = if open.len() < 2 { 0 } else { r.below(20) };
        match act {
            0..=2 if open.len() < 7 && self.next < 30 => {
                let kind = *r.pick(&[Kind::Fresh, Kind::Msg, Kind::Msg, Kind::Msg, Kind::In, Kind::Out]);
                let n = self.next;
                self.next += 1;
                let mut c = Client::connect(self.s.as_ref().unwrap().path()).map_err(|e| format!("cannot connect to the server: {}", e))?;
                let mut id = format!("f{}", (b'a' + n as u8 % 26) as char).repeat(1 + n / 26);
                let secret = match r.below(6) {
                    0 if !self.secrets.is_empty() => {
                        id = String::new();
                        r.pick(&self.secrets).clone()
                    }
                    1 => "client-secret-0".into(),
                    _ => format!("client-secret-{}", n),
                };
                match kind {
                    Kind::Fresh => {}
                    Kind::Msg => c.queue(&hello("posix1.client-hello", &secret)),
                    Kind::In => c.queue(&hello("posix1.stdin-hello", &format!("in-{}", n))),
                    Kind::Out => c.queue(&hello("posix1.stdout-hello", &format!("out-{}", n))),
                }
                self.cs.push(Con { kind, id, c, seen: 0, rest: vec![] });
            }
            3 | 4 if !msgs.is_empty() => {
                what = "request";
                let m = *r.pick(&[&b"core1"[..], b"posix1", b"test1", b"q7"]);
                let k = *r.pick(&msgs);
                let times = r.range(1, 4);
                self.send(k, &enc(&raw("want", &[m])).repeat(times));
            }
            5 | 6 if !msgs.is_empty() => {
                what = "part of a message";
                let k = *r.pick(&msgs);
                let n = r.below(800);
                let m = enc(&raw("test1.echo", &[&vec![b'e'; n]]));
                let cut = r.below(m.len());
                self.send(k, &m[..cut]);
                self.cs[k].rest = m[cut..].to_vec();
            }
            7 if !msgs.is_empty() => {
                what = "client-make";
                let k = *r.pick(&msgs);
                let id = format!("{}{}", self.cs[k].id, *r.pick(&["x", "y", "xy", "z9"]));
                self.send(k, &enc(&raw("core1.client-make", &[id.as_bytes(), b"", b"", b""])));
            }
            8 if !msgs.is_empty() => {
                what = "client-end";
                let k = *r.pick(&msgs);
                let id = format!("{}{}", self.cs[k].id, *r.pick(&["x", "y", "xy", "z9"]));
                self.send(k, &enc(&raw("core1.client-end", &[id.as_bytes()])));
            }
            9 | 10 => {
                what = "messages by broadcast";
                let (n, times) = (r.below(900), r.range(1, 20));
                self.broadcast(other, move |c: &mut C| {
                    for _ in 0..times {
                        if c.message_connector().is_some() {
                            c.enqueue_message(&Msg(raw("test1.note", &[&vec![b'n'; n]])));
                        }
                    }
                });
            }
            11 if !ins.is_empty() => {
                what = "stdin";
                let n = r.below(20_000);
                self.broadcast(other, move |c: &mut C| {
                    if c.state().can_receive_stdin_for_screen(&ScreenIdentity::new("scr0")) || c.state().can_receive_stdin() {
                        c.enqueue_stdin(&vec![b'i'; n]);
                    }
                });
            }
            12 if !msgs.is_empty() => {
                what = "malformed input";
                let k = *r.pick(&msgs);
                let n = r.below(1500);
                self.send(k, &[*r.pick(&[&b"{x"[..], b"{2|4:want}", b"#", b"{1|", b"{{{{", b"{0|}"]), &vec![*r.pick(b"#}1"); n], b"x{2|4:want,5:core1,}"].concat());
            }
            13 if !outs.is_empty() => {
                what = "stdout";
                let k = *r.pick(&outs);
                let n = r.below(5000);
                self.send(k, &vec![b'o'; n]);
            }
            14 => {
                what = "disconnect";
                let k = *r.pick(&open);
                if r.chance(1, 2) {
                    self.cs[k].c.close();
                } else {
                    self.cs[k].c.shutdown_write();
                }
            }
            15 => {
                what = "failing read";
                interpose::FAIL_ERRNO.store(*r.pick(&[libc::EIO, libc::ECONNRESET, libc::ENOMEM]), SeqCst);
                interpose::FAIL_READ.store(1, SeqCst);
                let k = *r.pick(&open);
                self.send(k, b"x");
            }
            16 if !msgs.is_empty() => {
                what = "burst";
                let k = *r.pick(&msgs);
                self.send(k, &enc(&raw("test1.burst", &[b"40", b"700"])));
            }
            17 if !msgs.is_empty() => {
                what = "teardown";
                let k = *r.pick(&msgs);
                self.send(k, &enc(&raw("test1.teardown", &[])));
            }
            18 if r.chance(1, 3) => {
                what = "shutdown";
                if let Some(o) = other {
                    // ... requested from within the other server
                    let d = self.s.as_ref().unwrap().d.clone();
                    o.enqueue_broadcast(Box::new(move |_: &mut C| d.shutdown()));
                }
                let s = self.s.take().unwrap();
                let path = s.path().to_path_buf();
                s.finish()?;
                ensure!(std::fs::symlink_metadata(&path).is_err(), "the socket is still there after shutdown()");
                self.paths.remove(&path.to_string_lossy().to_string());
            }
            19 => {
                what = "a start that fails";
                let d = D::new(self.dir.join("bystander"), App::new(Registry::default())).map_err(|e| format!("Dispatch::new failed: {}", e))?;
                let rt = tokio::runtime::Builder::new_current_thread().enable_io().build().map_err(|e| format!("harness: {}", e))?;
                ensure!(rt.block_on(d.run_listener()).is_err(), "a server listens where there is a file");
            }
            _ => {
                what = "nothing";
                self.broadcast(other, |_: &mut C| {});
            }
        }
        self.rest()?;
        interpose::FAIL_READ.store(0, SeqCst);
        Ok((what, self.happened()))
    }
    fn happened(&mut self) -> Vec<String> {
        let log = app::take_log();
        let (mut out, mut printed, mut discarded) = (vec![], vec![], vec![]);
        for e in &log {
            match &e.ev {
                Ev::Register(_, s) => self.secrets.push(s.clone()),
                Ev::OutRecv(_, b) => printed.extend_from_slice(b),
                Ev::Discarded(b) => discarded.extend_from_slice(b),
                _ => {}
            }
        }
        for e in &log {
            if let Some(t) = text(&e.ev) {
                out.push(String::from_utf8_lossy(&hide(t.as_bytes(), &self.secrets)).to_string());
            }
        }
        // (the order in which a broadcast reaches connections is not determined)
        out.sort();
        out.push(format!("{} bytes printed ({:x}), {} bytes discarded ({:x})", printed.len(), fnv(&printed), discarded.len(), fnv(&discarded)));
        for (k, c) in self.cs.iter_mut().enumerate() {
            let new = hide(&c.c.got[c.seen..], &self.secrets);
            c.seen = c.c.got.len();
            if !new.is_empty() {
                out.push(format!("client {} ({:?}) received {} bytes ({:x}) {}", k, c.kind, new.len(), fnv(&new), show(&new[..new.len().min(200)])));
            }
            if c.c.eof {
                out.push(format!("client {} is disconnected", k));
            }
        }
        out
    }
}

fn stop(side: &mut Side) -> Result<(), String> {
    if let Some(s) = side.s.take() {
        let p = s.path().to_string_lossy().to_string();
        s.finish()?;
        side.paths.remove(&p);
    }
    side.cs.clear();
    Ok(())
}

struct Quiet;
impl Drop for Quiet {
    fn drop(&mut self) {
        interpose::NOTE_CALLS.with(|c| c.set(false));
        interpose::reset();
    }
}

fn scenario(ctx: &Ctx, r: &mut Rng, obs: &mut Obs) -> Result<(), String> {
    let _quiet = Quiet;
    tok::forget_panics();
    app::take_log();
    interpose::reset();
    let mut dir = ctx.scratch.join("n");
    let _ = std::fs::remove_dir_all(&dir);
    // paths of sockets up to the limit of 107 bytes ("/s" and a number, "/bystander")
    let room = 96usize.saturating_sub(dir.as_os_str().len());
    if room > 2 && r.chance(1, 2) {
        dir = dir.join("d".repeat(if r.chance(1, 2) { room } else { r.range(1, room) }));
    }
    std::fs::create_dir_all(&dir).map_err(|e| format!("harness: {}", e))?;
    std::fs::write(dir.join("bystander"), "untouched").map_err(|e| format!("harness: {}", e))?;
    let open = || std::fs::File::open(dir.join("bystander")).map(|f| (ino(f.as_raw_fd()), f)).map(|(i, f)| (f, i)).map_err(|e| format!("harness: {}", e));
    let sentinels = Sentinels(vec![open()?, open()?]);
    let before = process();
    interpose::CHANGES.lock().unwrap_or_else(|e| e.into_inner()).clear();
    let n = *r.pick(&[2usize, 2, 3]);
    let scripts: Vec<Vec<u64>> = (0..n).map(|_| (0..r.range(6, 26)).map(|_| r.next()).collect()).collect();
    let listed = |want: BTreeSet<String>, at: &str| -> Result<(), String> {
        let mut have: BTreeSet<String> = BTreeSet::new();
        for e in std::fs::read_dir(&dir).map_err(|e| format!("harness: {}", e))?.flatten() {
            have.insert(e.path().to_string_lossy().to_string());
        }
        let mut want = want;
        want.insert(dir.join("bystander").to_string_lossy().to_string());
        ensure!(have == want, "the directory of the sockets holds {:?} instead of {:?} ({})", have, want, at);
        Ok(())
    };
    let neutral = |paths: &BTreeSet<String>, at: &str| -> Result<(), String> {
        let made = std::mem::take(&mut *interpose::CHANGES.lock().unwrap_or_else(|e| e.into_inner()));
        for (call, arg) in made {
            // what the server may do with its own socket
            let own = arg.split(' ').all(|p| paths.contains(p)) && !arg.is_empty() && matches!(call, "unlink" | "chmod" | "unlinkat" | "chown" | "lchown");
            ensure!(own, "the server called {}({}) ({})", call, arg, at);
        }
        for (a, b) in process().iter().zip(&before) {
            ensure!(a == b, "the {} of the process changed from {:?} to {:?} ({})", a.0, b.1, a.1, at);
        }
        for (f, i) in &sentinels.0 {
            ensure!(ino(f.as_raw_fd()) == *i, "a descriptor of somebody else was closed ({})", at);
        }
        Ok(())
    };
    let noted = |on: bool| interpose::NOTE_CALLS.with(|c| c.set(on));
    // every server on its own
    let mut alone: Vec<Vec<Vec<String>>> = vec![];
    for s in &scripts {
        let mut side = Side::new(&dir);
        let mut seen = BTreeSet::new();
        let mut t = vec![];
        for seed in s {
            noted(true);
            let x = side.op(*seed, None);
            noted(false);
            let (what, x) = x.map_err(|e| format!("{} (a server on its own)", e))?;
            seen.extend(side.paths.iter().cloned());
            neutral(&seen, what)?;
            listed(side.paths.clone(), what)?;
            t.push(x);
        }
        noted(true);
        let x = stop(&mut side);
        noted(false);
        x?;
        neutral(&seen, "shutdown")?;
        listed(BTreeSet::new(), "after shutdown")?;
        alone.push(t);
    }
    // all at once
    let mut sides: Vec<Side> = (0..n).map(|_| Side::new(&dir)).collect();
    let mut done = vec![0usize; n];
    let mut seen = BTreeSet::new();
    let mut sig = String::new();
    let mut nested = 0;
    while (0..n).any(|k| done[k] < scripts[k].len()) {
        let k = r.below(n);
        if done[k] == scripts[k].len() {
            continue;
        }
        let o = (k + r.range(1, n - 1)) % n;
        let other = if r.chance(1, 2) { sides[o].s.as_ref().map(|s| s.d.clone()) } else { None };
        nested += other.is_some() as u64;
        noted(true);
        let x = sides[k].op(scripts[k][done[k]], other.as_ref());
        noted(false);
        let (what, x) = x.map_err(|e| format!("{} (beside {} other servers)", e, n - 1))?;
        drop(other);
        obs.count(&format!("operations: {}", what), 1);
        sig.push_str(&format!("{}{} ", k, what));
        let y = &alone[k][done[k]];
        if x != *y {
            let a = x.iter().find(|l| !y.contains(l)).cloned().unwrap_or("(less)".into());
            let b = y.iter().find(|l| !x.contains(l)).cloned().unwrap_or("(less)".into());
            return Err(format!("with {} other servers in the process, operation {} ({}) on server {} has a different outcome: {:.300} instead of {:.300}", n - 1, done[k], what, k, a, b));
        }
        for s in &sides {
            seen.extend(s.paths.iter().cloned());
        }
        neutral(&seen, what)?;
        listed(sides.iter().flat_map(|s| s.paths.iter().cloned()).collect(), what)?;
        done[k] += 1;
    }
    while !sides.is_empty() {
        let k = r.below(sides.len());
        noted(true);
        let x = stop(&mut sides[k]);
        noted(false);
        x?;
        sides.remove(k);
        neutral(&seen, "shutdown")?;
        listed(sides.iter().flat_map(|s| s.paths.iter().cloned()).collect(), "after shutdown")?;
    }
    ensure!(std::fs::read(dir.join("bystander")).ok().as_deref() == Some(&b"untouched"[..]), "a file beside the socket was changed");
    obs.count("operations_compared", done.iter().sum::<usize>() as u64);
    obs.count("from_within_another_server", nested);
    obs.count("states_of_the_process_compared", 2 * done.iter().sum::<usize>() as u64);
    obs.count("sockets_created", seen.len() as u64);
    obs.current = sig.clone();
    obs.case(Some(fnv(sig.as_bytes())));
    obs.sample(|| J::s(sig.chars().take(300).collect::<String>()));
    let _ = std::fs::remove_dir_all(&dir);
    Ok(())
}

pub fn c34(ctx: &Ctx, obs: &mut Obs, slot: &Slot) {
    obs.rule = "two or three servers in one process, each with its own script of operations on its clients, once one after the other and once interleaved (also from within each other's \
        broadcasts), with the calls that change the process or the file system observed; non-trivial: distinct interleavings of operations"
        .into();
    run_cases(ctx, obs, slot, u64::MAX / 2, |_, r, obs| scenario(ctx, r, obs));
}
