//! C29: the bundled example server, as a process of its own
use crate::app::{raw, Ident, Items, RegClient, RegScreen, Registry};
use crate::ensure;
use crate::gen;
use crate::model::Model;
use crate::props::conv::{chunks, garbage, make, msgio_message};
use crate::refspec;
use crate::sim::{encode, hello, split, Role};
use crate::tok::Client;
use crate::util::json::J;
use crate::util::report::{fnv, Obs};
use crate::util::rng::Rng;
use crate::util::run::{run_cases, Ctx, Slot};
use crate::util::show;
use std::collections::BTreeSet;
use std::os::unix::fs::FileTypeExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::Barrier;
use std::time::{Duration, Instant};

const LINE: &[u8] = b"Hello stdin.\n";
const PATIENCE: Duration = Duration::from_secs(30);

enum Bad {
    Violation(String),
    /// the sandbox was too slow to tell
    Slow(&'static str),
}
impl From<String> for Bad {
    fn from(s: String) -> Bad {
        Bad::Violation(s)
    }
}
impl From<&str> for Bad {
    fn from(s: &str) -> Bad {
        Bad::Violation(s.into())
    }
}
type R<T> = Result<T, Bad>;

struct Cn {
    cl: Client,
    was_stdin: bool,
    /// when it became a stdin connection
    since: Option<Instant>,
    sent_stdout: Vec<u8>,
}

struct Srv {
    child: Child,
    pid: i32,
    err: PathBuf,
    socket: PathBuf,
    model: Model,
    cns: Vec<Cn>,
    used: Vec<String>,
    stdout: Vec<u8>,
    stdout_open: bool,
    trace: Vec<String>,
}
impl Drop for Srv {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

/// whether all threads of the process sleep
fn asleep(pid: i32) -> bool {
    let Ok(d) = std::fs::read_dir(format!("/proc/{}/task", pid)) else { return true };
    for e in d.flatten() {
        let s = std::fs::read_to_string(e.path().join("stat")).unwrap_or_default();
        if let Some(k) = s.rfind(')') {
            if !matches!(s.as_bytes().get(k + 2), Some(b'S') | None) {
                return false;
            }
        }
    }
    true
}
fn unescape(s: &str) -> Option<String> {
    let mut out = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c != '\\' {
            out.push(c);
            continue;
        }
        match it.next()? {
            'n' => out.push('\n'),
            't' => out.push('\t'),
            'r' => out.push('\r'),
            '0' => out.push('\0'),
            c @ ('\\' | '"' | '\'') => out.push(c),
            'u' => {
                let rest = it.as_str();
                let rest = rest.strip_prefix('{')?;
                let k = rest.find('}')?;
                out.push(char::from_u32(u32::from_str_radix(&rest[..k], 16).ok()?)?);
                it = rest[k + 1..].chars();
            }
            _ => return None,
        }
    }
    Some(out)
}

/// context switches of all threads of a process which all sleep
fn switches(pid: i32) -> Option<Vec<(std::ffi::OsString, String)>> {
    let mut v = vec![];
    for e in std::fs::read_dir(format!("/proc/{}/task", pid)).ok()?.flatten() {
        let s = std::fs::read_to_string(e.path().join("status")).ok()?;
        if !s.lines().any(|l| l.starts_with("State:") && l.contains("S (")) {
            return None;
        }
        v.push((e.file_name(), s.lines().filter(|l| l.contains("ctxt_switches")).collect()));
    }
    v.sort();
    Some(v)
}

impl Srv {
    /// what has been sent is not acknowledged: until the server has nothing left to do
    fn rest(&mut self) -> R<()> {
        let start = Instant::now();
        let (mut last, mut same) = (None, 0);
        while start.elapsed() < PATIENCE {
            let now = switches(self.pid);
            same = if now.is_some() && now == last { same + 1 } else { 0 };
            if same >= 3 || self.child.try_wait().map_or(true, |x| x.is_some()) {
                return Ok(());
            }
            last = now;
            std::thread::sleep(Duration::from_micros(300));
        }
        Err(Bad::Slow("the server does not come to rest"))
    }
    fn log(&self) -> String {
        String::from_utf8_lossy(&std::fs::read(&self.err).unwrap_or_default()).into_owned()
    }
    /// wait for something the server has to do
    fn until<T>(&mut self, what: &str, mut f: impl FnMut(&mut Srv) -> R<Option<T>>) -> R<T> {
        let start = Instant::now();
        let mut n = 0u32;
        loop {
            for c in &mut self.cns {
                c.cl.pump();
            }
            if let Some(x) = f(self)? {
                return Ok(x);
            }
            if start.elapsed() > PATIENCE {
                if asleep(self.pid) {
                    return Err(Bad::Violation(format!("{}: nothing happens for {:?}, and the server sleeps", what, PATIENCE)));
                }
                return Err(Bad::Slow("the server is still busy"));
            }
            n += 1;
            std::thread::sleep(Duration::from_micros(if n < 200 { 50 } else { 2000 }));
        }
    }
    fn alive(&mut self) -> R<()> {
        if let Ok(Some(s)) = self.child.try_wait() {
            return Err(Bad::Violation(format!("the server process has ended ({}):\n{}", s, self.log())));
        }
        let log = self.log();
        if let Some(k) = log.find("panicked at") {
            return Err(Bad::Violation(format!("the server has panicked: {}", &log[k.saturating_sub(60)..])));
        }
        Ok(())
    }
    fn start(bin: &str, scratch: &Path, r: &mut Rng) -> R<Srv> {
        let run = scratch.join("x").join(*r.pick(&["run", "r", "a b", "\u{e9}\u{20ac}", "d.d", "user"]));
        let _ = std::fs::remove_dir_all(scratch.join("x"));
        std::fs::create_dir_all(&run).map_err(|e| Bad::Violation(format!("harness: {}", e)))?;
        let err = scratch.join("x").join("log");
        let file = std::fs::File::create(&err).map_err(|e| Bad::Violation(format!("harness: {}", e)))?;
        let child = Command::new(bin)
            .env("XDG_RUNTIME_DIR", &run)
            .current_dir(&run)
            .stdin(Stdio::null())
            .stdout(file.try_clone().unwrap())
            .stderr(file)
            .spawn()
            .map_err(|e| Bad::Violation(format!("harness: {}: {}", bin, e)))?;
        let pid = child.id() as i32;
        let socket = run.join("vt6").join(pid.to_string());
        let mut s = Srv { child, pid, err, socket, model: Model::new(Registry::default()), cns: vec![], used: vec![], stdout: vec![], stdout_open: false, trace: vec![] };
        s.model.plain = true;
        // it serves, and has its handler for interrupts in place
        s.until("start", |s| {
            s.alive()?;
            let status = std::fs::read_to_string(format!("/proc/{}/status", s.pid)).unwrap_or_default();
            let caught = status.lines().find_map(|l| l.strip_prefix("SigCgt:")).and_then(|x| u64::from_str_radix(x.trim(), 16).ok()).unwrap_or(0);
            let bound = std::fs::metadata(&s.socket).map_or(false, |m| m.file_type().is_socket());
            Ok((caught >> (libc::SIGINT - 1) & 1 == 1 && bound && Client::connect(&s.socket).is_ok()).then_some(()))
        })?;
        // the hellos it announces
        let mut hellos: Vec<(String, String)> = vec![];
        for l in s.log().lines() {
            if let Some(k) = l.find("{2|") {
                match refspec::parse(&l.as_bytes()[k..]) {
                    Ok(m) if m.args.len() == 1 && m.len == l.len() - k => hellos.push((String::from_utf8_lossy(&m.typ).into(), String::from_utf8_lossy(&m.args[0]).into())),
                    _ => return Err(Bad::Violation(format!("the log has something like a message that is none: {}", l))),
                }
            }
        }
        let one = |t: &str| -> R<String> {
            let v: Vec<_> = hellos.iter().filter(|h| h.0 == t).collect();
            if v.len() != 1 || v[0].1.len() != 32 {
                return Err(Bad::Violation(format!("the log does not announce exactly one {}: {:?}", t, hellos)));
            }
            Ok(v[0].1.clone())
        };
        let (i, o, c) = (one("posix1.stdin-hello")?, one("posix1.stdout-hello")?, one("posix1.client-hello")?);
        if i == o || i == c || o == c {
            return Err("the announced secrets are not different".into());
        }
        s.model.reg.screens.push(RegScreen { id: "screen1".into(), stdin_secret: i, stdout_secret: o, stdin_redeemed: false, stdout_redeemed: false });
        s.model.reg.clients.push(RegClient { ident: Ident::new("a", [None, None, None]), secret: c, redeemed: false });
        Ok(s)
    }
    fn open(&mut self) -> R<usize> {
        let cl = Client::connect(&self.socket).map_err(|e| Bad::Violation(format!("the server cannot be connected to any more: {}\n{}", e, self.log())))?;
        self.cns.push(Cn { cl, was_stdin: false, since: None, sent_stdout: vec![] });
        Ok(self.model.open())
    }
    /// send bytes on a connection, and wait for all they have to cause
    fn send(&mut self, c: usize, b: &[u8], r: &mut Rng, obs: &mut Obs) -> R<()> {
        self.trace.push(format!("connection {} sends {}", c, show(b)));
        obs.current = self.trace.join("\n");
        let mut parts = chunks(r, b);
        if parts.len() > 40 {
            parts = vec![b.to_vec()];
        }
        for p in parts {
            self.cns[c].cl.queue(&p);
            self.cns[c].cl.pump();
            if r.chance(1, 10) {
                std::thread::sleep(Duration::from_micros(r.below(800) as u64));
            }
        }
        self.learn_secrets(c, b)?;
        self.fed(c, b);
        self.settle("what was just sent", obs)
    }
    /// what the model cannot know: the secrets issued for the registrations among these messages
    fn learn_secrets(&mut self, c: usize, b: &[u8]) -> R<()> {
        let mut m = self.model.clone();
        m.secrets = (0..200).map(|_| "?".repeat(32)).collect();
        let before = m.conns[c].out.len();
        m.feed(c, b);
        let want = m.conns[c].out.len();
        let k = 200 - m.secrets.len();
        if k == 0 {
            return Ok(());
        }
        let down = m.conns[c].role == Role::Teardown;
        self.until("replies to registrations", |s| Ok((s.cns[c].cl.got.len() >= want || s.cns[c].cl.eof || down && s.cns[c].cl.eof).then_some(())))?;
        let got = self.cns[c].cl.got.get(before..).unwrap_or(&[]).to_vec();
        let new: Vec<String> = split(&got)?.iter().filter(|x| x[0] == b"core1.client-new").map(|x| String::from_utf8_lossy(x.get(1).map_or(b"", |a| a)).into()).collect();
        for s in &new {
            let all = self.model.reg.clients.iter().map(|c| &c.secret).chain(self.model.reg.screens.iter().flat_map(|s| [&s.stdin_secret, &s.stdout_secret])).chain(&self.used);
            if s.len() != 32 || all.into_iter().any(|x| x == s) {
                return Err(Bad::Violation(format!("the server issues the secret {:?}", s)));
            }
        }
        self.model.secrets.extend(new);
        Ok(())
    }
    fn fed(&mut self, c: usize, b: &[u8]) {
        let before: Vec<String> = self.model.reg.clients.iter().map(|x| x.secret.clone()).collect();
        self.model.feed(c, b);
        self.model.secrets.clear();
        for s in before {
            if !self.model.reg.clients.iter().any(|x| x.secret == s) {
                self.used.push(s);
            }
        }
        for (c, m) in self.cns.iter_mut().zip(&mut self.model.conns) {
            for e in m.log.drain(..) {
                if let crate::model::MEv::OutBytes(b) = e {
                    c.sent_stdout.extend(&b);
                    self.stdout.extend(b);
                }
            }
            if matches!(m.role, Role::Stdin(_)) && !c.was_stdin {
                c.was_stdin = true;
                c.since = Some(Instant::now());
            }
        }
    }
    /// until every connection has got what it has to get, and those that have to be closed are
    fn settle(&mut self, what: &str, obs: &mut Obs) -> R<()> {
        self.until(what, |s| {
            let mut done = true;
            for (i, c) in s.cns.iter().enumerate() {
                let m = &s.model.conns[i];
                if c.was_stdin {
                    let bad = c.cl.got.iter().enumerate().any(|(k, b)| *b != LINE[k % LINE.len()]);
                    if bad || !m.out.is_empty() {
                        return Err(Bad::Violation(format!("stdin connection {} received {}", i, show(&c.cl.got))));
                    }
                } else if !m.out.starts_with(&c.cl.got) {
                    let k = m.out.iter().zip(&c.cl.got).take_while(|(a, b)| a == b).count();
                    return Err(Bad::Violation(format!("connection {} received {} where the protocol prescribes {} (after {} bytes as expected)", i, show(&c.cl.got[k..]), show(&m.out[k..]), k)));
                }
                if c.cl.closed {
                    continue;
                }
                if m.role == Role::Teardown {
                    done &= c.cl.eof;
                } else {
                    if c.cl.eof {
                        return Err(Bad::Violation(format!("connection {} has been closed, although it is {:?}", i, m.role)));
                    }
                    done &= c.was_stdin || c.cl.got.len() == m.out.len();
                }
            }
            Ok(done.then_some(()))
        })
        .map_err(|e| match e {
            Bad::Violation(v) => {
                let missing: Vec<String> = (0..self.cns.len())
                    .filter(|&i| !self.cns[i].cl.closed && (self.model.conns[i].role == Role::Teardown) != self.cns[i].cl.eof || self.model.conns[i].out.len() > self.cns[i].cl.got.len())
                    .map(|i| format!("connection {} ({:?}): got {} bytes of {}, end of stream: {}", i, self.model.conns[i].role, self.cns[i].cl.got.len(), self.model.conns[i].out.len(), self.cns[i].cl.eof))
                    .collect();
                Bad::Violation(format!("{}\n{}", v, missing.join("\n")))
            }
            x => x,
        })?;
        if self.model.conns.iter().any(|m| matches!(m.role, Role::Stdin(_) | Role::Stdout)) {
            self.rest()?;
        }
        obs.count("settled_steps", 1);
        self.alive()
    }
    fn close(&mut self, c: usize, half: bool) {
        self.trace.push(format!("connection {} is closed by its client{}", c, if half { " for writing" } else { "" }));
        if half {
            self.cns[c].cl.shutdown_write();
        } else {
            self.cns[c].cl.close();
        }
        self.model.conns[c].role = Role::Teardown;
    }
    fn logged_stdout(&self) -> R<String> {
        let mut out = String::new();
        let log = self.log();
        for l in log.lines() {
            if let Some(k) = l.find("stdout received for screen ") {
                let rest = &l[k + "stdout received for screen ".len()..];
                let t = rest.strip_prefix("screen1: \"").and_then(|x| x.strip_suffix('"')).and_then(unescape);
                match t {
                    Some(t) => out.push_str(&t),
                    // a line that is still being written
                    None if !log.ends_with('\n') => break,
                    None => return Err(Bad::Violation(format!("the server logs {}", l))),
                }
            }
        }
        Ok(out)
    }
    fn await_stdout(&mut self, obs: &mut Obs) -> R<()> {
        let want = String::from_utf8_lossy(&self.stdout).into_owned();
        self.until("the stdout that was sent is not logged", |s| {
            let got = s.logged_stdout()?;
            if !want.starts_with(&got) {
                return Err(Bad::Violation(format!("the server logs the stdout {:?} instead of {:?}", got, want)));
            }
            Ok((got == want).then_some(()))
        })?;
        obs.count("stdout_bytes_logged", want.len() as u64);
        Ok(())
    }
    fn live(&self, f: impl Fn(&Role) -> bool) -> Vec<usize> {
        (0..self.cns.len()).filter(|&i| !self.cns[i].cl.closed && f(&self.model.conns[i].role)).collect()
    }
    fn secrets(&self) -> Vec<String> {
        let mut v: Vec<String> = self.model.reg.clients.iter().map(|c| c.secret.clone()).collect();
        for s in &self.model.reg.screens {
            v.push(s.stdin_secret.clone());
            v.push(s.stdout_secret.clone());
        }
        v.extend(self.used.iter().cloned());
        v
    }
}

const KINDS: [&str; 3] = ["posix1.client-hello", "posix1.stdin-hello", "posix1.stdout-hello"];

/// the first bytes on a connection
fn opening(s: &Srv, r: &mut Rng, obs: &mut Obs) -> Vec<u8> {
    let secrets = s.secrets();
    let unused: Vec<(usize, String)> = s
        .model
        .reg
        .clients
        .iter()
        .filter(|c| !c.redeemed)
        .map(|c| (0, c.secret.clone()))
        .chain(s.model.reg.screens.iter().filter(|x| !x.stdin_redeemed).map(|x| (1, x.stdin_secret.clone())))
        .chain(s.model.reg.screens.iter().filter(|x| !x.stdout_redeemed).map(|x| (2, x.stdout_secret.clone())))
        .collect();
    let mut v = match r.below(12) {
        0..=4 if !unused.is_empty() => {
            let (k, x) = r.pick(&unused).clone();
            obs.count("openings with an unused secret in its role", 1);
            hello(KINDS[k], &x)
        }
        5 => {
            obs.count("openings that are not hellos", 1);
            if r.chance(1, 2) {
                garbage(r)
            } else {
                encode(&msgio_message(r, "a", &secrets))
            }
        }
        6 | 7 => {
            // nearly a secret
            let mut x = r.pick(&secrets).clone().into_bytes();
            match r.below(6) {
                0 => x.truncate(31),
                1 => x.push(b'A'),
                2 => {
                    let k = r.below(x.len());
                    x[k] ^= 0x20;
                }
                3 => x.clear(),
                4 => x.insert(0, b' '),
                _ => x = x[..16].repeat(2),
            }
            obs.count("openings with nearly a secret", 1);
            encode(&raw(*r.pick(&KINDS), &[&x]))
        }
        _ => {
            obs.count("openings with some secret in some role", 1);
            hello(*r.pick(&KINDS), &r.pick(&secrets).clone())
        }
    };
    match r.below(8) {
        0 => v.extend(encode(&msgio_message(r, "a", &secrets))),
        1 => {
            // not complete yet
            let k = r.below(v.len() + 1);
            v.truncate(k);
        }
        _ => {}
    }
    v
}

/// several clients redeem the same secret at the same moment
fn race(s: &mut Srv, r: &mut Rng, obs: &mut Obs) -> R<()> {
    let (k, x) = {
        let mut v = vec![];
        for c in s.model.reg.clients.iter().filter(|c| !c.redeemed) {
            v.push((0, c.secret.clone()));
        }
        for x in &s.model.reg.screens {
            if !x.stdin_redeemed {
                v.push((1, x.stdin_secret.clone()));
            }
            if !x.stdout_redeemed {
                v.push((2, x.stdout_secret.clone()));
            }
        }
        if v.is_empty() {
            return Ok(());
        }
        r.pick(&v).clone()
    };
    let n = r.range(2, 9);
    s.trace.push(format!("{} connections send {} at once", n, show(&hello(KINDS[k], &x))));
    obs.current = s.trace.join("\n");
    let mut ids = vec![];
    for _ in 0..n {
        ids.push(s.open()?);
    }
    let h = hello(KINDS[k], &x);
    let bar = Barrier::new(n);
    std::thread::scope(|sc| {
        let first = ids[0];
        for c in &mut s.cns[first..] {
            let (bar, h) = (&bar, &h);
            sc.spawn(move || {
                bar.wait();
                c.cl.queue(h);
                c.cl.pump();
            });
        }
    });
    let winner = s.until("a secret sent by several clients at once", |s| {
        let open: Vec<usize> = ids.iter().copied().filter(|i| !s.cns[*i].cl.eof).collect();
        let served = ids.iter().filter(|i| s.cns[**i].cl.got.starts_with(b"{")).count();
        if open.is_empty() {
            return Err(Bad::Violation("a valid secret sent by several clients at once is accepted from none of them".into()));
        }
        if served > 1 {
            return Err(Bad::Violation("the same secret is accepted more than once".into()));
        }
        Ok((open.len() == 1).then(|| open[0]))
    })?;
    s.fed(winner, &h);
    for i in ids {
        if i != winner {
            s.fed(i, &h);
        }
    }
    obs.count("races_for_a_secret", 1);
    s.settle("a race for a secret", obs)
}

fn stdout_data(r: &mut Rng) -> Vec<u8> {
    let n = *r.pick(&[1usize, 5, 80, 1000, 1024, 1025, 3000]);
    let n = 1 + r.below(n);
    match r.below(3) {
        0 => (0..n).map(|_| r.below(128) as u8).collect(),
        1 => (0..n).map(|k| b"line one\r\n\x1b[1mbold\x1b[0m \"quoted\" \\ and 'so' on\n{2|4:want,5:core1,}"[k % 65]).collect(),
        _ => vec![*r.pick(&b"x\n\0{"[..]); n],
    }
}

fn session(ctx: &Ctx, bin: &str, r: &mut Rng, obs: &mut Obs, stdin: bool) -> R<()> {
    let mut s = Srv::start(bin, &ctx.scratch, r)?;
    obs.count("servers_started", 1);
    let steps = if r.chance(1, 8) { r.below(3) } else { r.range(4, 40) };
    for _ in 0..steps {
        let live = s.live(|x| *x != Role::Teardown);
        match r.below(14) {
            0..=3 if live.len() < 10 => {
                let c = s.open()?;
                let b = opening(&s, r, obs);
                s.send(c, &b, r, obs)?;
            }
            4 => race(&mut s, r, obs)?,
            5 if !live.is_empty() && r.chance(1, 2) => {
                let c = *r.pick(&live);
                let half = r.chance(1, 3);
                s.close(c, half);
                s.settle("a client that goes away", obs)?;
                obs.count("connections_closed_by_clients", 1);
            }
            _ if !live.is_empty() => {
                let c = *r.pick(&live);
                match s.model.conns[c].role.clone() {
                    Role::Handshake => {
                        let b = opening(&s, r, obs);
                        s.send(c, &b, r, obs)?;
                    }
                    Role::Stdin(_) => {
                        if r.chance(1, 6) {
                            s.send(c, b"x", r, obs)?;
                        }
                    }
                    Role::Stdout => {
                        let b = stdout_data(r);
                        s.send(c, &b, r, obs)?;
                    }
                    Role::Msgio(me) => {
                        let secrets = s.secrets();
                        let mut b = vec![];
                        for _ in 0..1 + r.below(4) {
                            let ids: Vec<String> = s.model.reg.clients.iter().map(|c| c.ident.id.clone()).collect();
                            let it: Items = match r.below(8) {
                                0 | 1 => {
                                    let id = format!("{}{}", if r.chance(4, 5) { &me.id } else { r.pick(&ids) }, if r.chance(2, 3) { r.pick(&["1", "2", "10", "x", "11"]).to_string() } else { gen::client_id(r) });
                                    make(r, &id)
                                }
                                2 => {
                                    let x = r.pick(&ids).clone();
                                    raw("core1.client-end", &[x[..1 + r.below(x.len())].as_bytes()])
                                }
                                _ => msgio_message(r, &me.id, &secrets),
                            };
                            b.extend(encode(&it));
                            if r.chance(1, 12) {
                                b.extend(garbage(r));
                            }
                        }
                        s.send(c, &b, r, obs)?;
                    }
                    Role::Teardown => {}
                }
            }
            _ => {}
        }
        let ended = s.cns.iter().filter(|c| c.cl.eof).count() as u64;
        obs.max("connections_ended_by_the_server", ended);
    }
    // at the end, everything that is there is still served
    s.trace.push("at the end".into());
    for c in s.live(|x| matches!(x, Role::Msgio(_))) {
        // a message that is not complete yet swallows what is sent now: at most 1024 bytes of it
        let mut b = vec![b' '; 1100];
        b.extend(encode(&raw("want", &[b"core1"])));
        s.send(c, &b, r, obs)?;
        obs.count("message_connections_served_at_the_end", 1);
    }
    if r.chance(3, 4) {
        for c in s.live(|x| *x == Role::Stdout) {
            s.send(c, b"the end\n", r, obs)?;
        }
        s.await_stdout(obs)?;
    }
    if stdin {
        if s.live(|x| matches!(x, Role::Stdin(_))).is_empty() && !s.model.reg.screens[0].stdin_redeemed {
            let c = s.open()?;
            let b = hello(KINDS[1], &s.model.reg.screens[0].stdin_secret.clone());
            s.send(c, &b, r, obs)?;
        }
        for c in s.live(|x| matches!(x, Role::Stdin(_))) {
            let n = s.cns[c].cl.got.len();
            s.until("no stdin arrives", |s| Ok((s.cns[c].cl.got.len() >= n + LINE.len()).then_some(())))?;
            obs.count("stdin_connections_served", 1);
        }
        s.settle("stdin", obs)?;
    }
    // no more stdin than one line a second
    for c in &s.cns {
        if let Some(t) = c.since {
            let lines = c.cl.got.len() as u64 / LINE.len() as u64;
            if lines > t.elapsed().as_secs() + 2 {
                return Err(Bad::Violation(format!("{} lines of stdin in {:?}", lines, t.elapsed())));
            }
        }
    }
    s.alive()?;
    // interrupt, possibly while something is going on
    let busy = r.chance(1, 3);
    if busy {
        for c in s.live(|x| *x != Role::Teardown) {
            if r.chance(1, 2) {
                let b = opening(&s, r, obs);
                s.cns[c].cl.queue(&b);
                s.cns[c].cl.pump();
            }
        }
        for _ in 0..r.below(4) {
            s.open()?;
        }
    }
    s.trace.push(format!("interrupt{}", if busy { " while something is going on" } else { "" }));
    obs.current = s.trace.join("\n");
    for k in 0..1 + (r.below(4) / 3) {
        if k > 0 {
            std::thread::sleep(Duration::from_micros(r.below(2000) as u64));
        }
        unsafe { libc::kill(s.pid, libc::SIGINT) };
    }
    let st = s.until("the server does not exit after an interrupt", |s| Ok(s.child.try_wait().ok().flatten()))?;
    if st.code() != Some(0) {
        return Err(Bad::Violation(format!("after an interrupt, the server exits with {:?} (signal {:?}):\n{}", st.code(), st.signal(), s.log())));
    }
    if s.socket.symlink_metadata().is_ok() {
        return Err("after an interrupt, the socket is still there".into());
    }
    s.until("connections outlive the server", |s| Ok(s.cns.iter().all(|c| c.cl.closed || c.cl.eof).then_some(())))?;
    let log = s.log();
    if log.contains("panicked at") {
        return Err(Bad::Violation(format!("the server has panicked: {}", log)));
    }
    obs.count("successful_exits", 1);
    obs.count("connections", s.cns.len() as u64);
    for (k, n) in std::mem::take(&mut s.model.stats) {
        obs.count(&format!("model: {}", k), n);
    }
    let mut roles = BTreeSet::new();
    for c in &s.model.conns {
        roles.insert(format!("{:?}", c.role).split('(').next().unwrap().to_string());
    }
    for x in roles {
        obs.count(&format!("sessions_ending_with_{}", x), 1);
    }
    obs.case(Some(fnv(s.trace.join("\n").as_bytes())));
    obs.sample(|| J::s(s.trace.iter().take(12).cloned().collect::<Vec<_>>().join(" | ")));
    Ok(())
}

pub fn c29(ctx: &Ctx, obs: &mut Obs, slot: &Slot) {
    obs.rule = "one run of the example server with its clients' connection attempts and messages up to the interrupt; distinct by what clients did".into();
    let bin = std::env::var("VT6_EXAMPLE").expect("VT6_EXAMPLE names the program");
    run_cases(ctx, obs, slot, u64::MAX / 2, |i, r, obs| {
        let stdin = (i / ctx.shards) % 4 == 1;
        match session(ctx, &bin, r, obs, stdin) {
            Ok(()) => Ok(()),
            Err(Bad::Slow(what)) => {
                eprintln!("inconclusive: {}", what);
                obs.count("inconclusive", 1);
                Ok(())
            }
            Err(Bad::Violation(v)) => {
                ensure!(false, "{}", v);
                Ok(())
            }
        }
    });
    let _ = std::fs::remove_dir_all(ctx.scratch.join("x"));
}
