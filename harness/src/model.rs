//! Reference state machine of a VT6 server with the application of app.rs: what replies, registrations, handler
//! calls and roles the protocol prescribes for what clients send. Shares no code with vt6.
use crate::app::{at_or_below, raw, Ident, Items, Registry, APP_MODULES, HS_HEAD, HS_INNER, MSG_HEAD, MSG_INNER};
use crate::refspec::{self, enc, Kind};
use crate::sim::Role;
use std::collections::VecDeque;

/// what happened on a connection, in order
#[derive(Clone, Debug, PartialEq)]
pub enum MEv {
    Handled(u8, Items),
    Error(u8, String),
    Discard(Vec<u8>),
    Register(Ident),
    Unregister(Vec<String>),
    /// a secret was redeemed: 'c', 'i' or 'o', and what for
    Redeemed(char, String),
    MsgConnector(Ident),
    OutConnector(String),
    OutBytes(Vec<u8>),
}

#[derive(Clone, Debug)]
pub struct MConn {
    pub role: Role,
    buf: Vec<u8>,
    pub out: Vec<u8>,
    pub replies: u64,
    pub log: Vec<MEv>,
    /// bytes received while a message connection / handled / discarded, for coverage counters
    pub handled_bytes: usize,
}

#[derive(Clone)]
enum Bc {
    End(String),
    Note(Items),
    Stdin(String, Vec<u8>),
}

#[derive(Clone)]
pub struct Model {
    /// the bundled example server: no modules or message types of its own
    pub plain: bool,
    pub reg: Registry,
    pub conns: Vec<MConn>,
    queue: Vec<Bc>,
    /// secrets the application issued, in order, as observed
    pub secrets: VecDeque<String>,
    pub stats: std::collections::BTreeMap<&'static str, u64>,
}

pub fn version_of(module: &str) -> Option<u16> {
    match module {
        "core1" | "posix1" => Some(0),
        _ => APP_MODULES.iter().find(|x| x.0 == module).map(|x| x.1),
    }
}
fn s(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into_owned()
}

impl Model {
    pub fn new(reg: Registry) -> Model {
        Model { plain: false, reg, conns: vec![], queue: vec![], secrets: VecDeque::new(), stats: Default::default() }
    }
    pub fn open(&mut self) -> usize {
        self.conns.push(MConn { role: Role::Handshake, buf: vec![], out: vec![], replies: 0, log: vec![], handled_bytes: 0 });
        self.conns.len() - 1
    }
    fn stat(&mut self, k: &'static str) {
        *self.stats.entry(k).or_insert(0) += 1;
    }
    fn reply(&mut self, c: usize, it: Items) {
        if !matches!(self.conns[c].role, Role::Handshake | Role::Msgio(_)) {
            return;
        }
        let b = enc(&it);
        if b.len() > 1024 {
            self.conns[c].role = Role::Teardown;
            self.stat("reply_too_long");
        } else {
            self.conns[c].out.extend(b);
            self.conns[c].replies += 1;
        }
    }
    pub fn has_clients(&self, id: &str) -> bool {
        self.reg.clients.iter().any(|c| at_or_below(id, &c.ident.id))
    }

    pub fn feed(&mut self, c: usize, chunk: &[u8]) {
        if self.conns[c].role != Role::Teardown {
            self.conns[c].buf.extend_from_slice(chunk);
            while self.step(c) {}
        }
        self.broadcasts();
    }

    /// one message, error or block of stdout; false if there is nothing (more) to do
    fn step(&mut self, c: usize) -> bool {
        if self.conns[c].buf.is_empty() {
            return false;
        }
        let in_handshake = match self.conns[c].role.clone() {
            Role::Teardown => return false,
            Role::Stdin(_) => {
                let b = std::mem::take(&mut self.conns[c].buf);
                self.conns[c].role = Role::Teardown;
                self.conns[c].log.push(MEv::Discard(b));
                self.stat("stdin_closed_by_input");
                return false;
            }
            Role::Stdout => {
                let b = std::mem::take(&mut self.conns[c].buf);
                self.conns[c].log.push(MEv::OutBytes(b));
                return false;
            }
            Role::Handshake => true,
            Role::Msgio(_) => false,
        };
        let w = self.conns[c].buf.len().min(1024);
        match refspec::parse(&self.conns[c].buf[..w]) {
            Ok(m) => {
                let mut it = vec![m.typ.clone()];
                it.extend(m.args.iter().cloned());
                self.conns[c].handled_bytes += m.len;
                if in_handshake {
                    self.handshake(c, it);
                } else {
                    self.message(c, it);
                }
                self.conns[c].buf.drain(..m.len);
                true
            }
            Err((Kind::Eof, _)) if w < 1024 => false,
            Err((k, _)) => {
                let (a, b) = if in_handshake { (HS_HEAD, HS_INNER) } else { (MSG_HEAD, MSG_INNER) };
                self.conns[c].log.push(MEv::Error(a, refspec::kind_name(k).into()));
                self.conns[c].log.push(MEv::Error(b, refspec::kind_name(k).into()));
                let buf = &mut self.conns[c].buf;
                let n = (1..buf.len()).find(|&i| buf[i] == b'{').unwrap_or(buf.len());
                let d: Vec<u8> = buf.drain(..n).collect();
                self.conns[c].log.push(MEv::Discard(d));
                self.stat(if in_handshake { "handshake_garbage" } else { "parse_errors" });
                if in_handshake {
                    self.conns[c].role = Role::Teardown;
                }
                true
            }
        }
    }

    fn handshake(&mut self, c: usize, it: Items) {
        self.conns[c].log.push(MEv::Handled(HS_HEAD, it.clone()));
        let secret = it.get(1).map(|x| s(x)).unwrap_or_default();
        let t = s(&it[0]);
        let well_formed = refspec::typed(&it[0], &it[1..]).is_some();
        match t.as_str() {
            "posix1.client-hello" => {
                if let Some(r) = self.reg.clients.iter_mut().find(|r| well_formed && r.secret == secret && !r.redeemed) {
                    r.redeemed = true;
                    let ident = r.ident.clone();
                    self.conns[c].log.push(MEv::Redeemed('c', ident.id.clone()));
                    self.conns[c].log.push(MEv::MsgConnector(ident.clone()));
                    self.conns[c].role = Role::Msgio(ident.clone());
                    self.stat("client_hello_ok");
                    self.reply(c, ident.hello());
                    return;
                }
            }
            "posix1.stdin-hello" => {
                if let Some(r) = self.reg.screens.iter_mut().find(|r| well_formed && r.stdin_secret == secret && !r.stdin_redeemed) {
                    r.stdin_redeemed = true;
                    let id = r.id.clone();
                    self.conns[c].log.push(MEv::Redeemed('i', id.clone()));
                    self.conns[c].role = Role::Stdin(id);
                    self.stat("stdin_hello_ok");
                    return;
                }
            }
            "posix1.stdout-hello" => {
                if let Some(r) = self.reg.screens.iter_mut().find(|r| well_formed && r.stdout_secret == secret && !r.stdout_redeemed) {
                    r.stdout_redeemed = true;
                    let id = r.id.clone();
                    self.conns[c].log.push(MEv::Redeemed('o', id.clone()));
                    self.conns[c].log.push(MEv::OutConnector(id));
                    self.conns[c].role = Role::Stdout;
                    self.stat("stdout_hello_ok");
                    return;
                }
            }
            _ => self.conns[c].log.push(MEv::Handled(HS_INNER, it)),
        }
        self.stat("handshake_refused");
        self.conns[c].role = Role::Teardown;
    }

    /// a message that arrives on a message connection, without the broadcasts it causes
    pub fn handle(&mut self, c: usize, it: Items) {
        if matches!(self.conns[c].role, Role::Msgio(_)) {
            self.message(c, it);
        }
        self.queue.clear();
        self.conns[c].log.clear();
    }
    fn message(&mut self, c: usize, it: Items) {
        self.conns[c].log.push(MEv::Handled(MSG_HEAD, it.clone()));
        let me = match &self.conns[c].role {
            Role::Msgio(i) => i.id.clone(),
            _ => unreachable!(),
        };
        let t = s(&it[0]);
        let typed = refspec::typed(&it[0], &it[1..]);
        let nope = raw("nope", &[&it[0]]);
        match t.as_str() {
            "want" => {
                if typed.is_none() {
                    self.stat("want_invalid");
                    return self.reply(c, nope);
                }
                self.stat("want");
                self.have(c, &s(&it[1]));
            }
            "core1.client-make" => {
                let id = it.get(1).map(|x| s(x)).unwrap_or_default();
                if typed.is_none() {
                    self.stat("make_malformed");
                    return self.reply(c, nope);
                }
                if !at_or_below(&me, &id) || id == me {
                    self.stat("make_not_below");
                    return self.reply(c, nope);
                }
                if self.has_clients(&id) {
                    self.stat("make_taken");
                    return self.reply(c, nope);
                }
                self.stat("make_ok");
                let o = |b: &[u8]| if b.is_empty() { None } else { Some(s(b)) };
                let ident = Ident { id, screens: [o(&it[2]), o(&it[3]), o(&it[4])] };
                let secret = self.secrets.pop_front().unwrap_or_else(|| "?".into());
                self.reg.clients.push(crate::app::RegClient { ident: ident.clone(), secret: secret.clone(), redeemed: false });
                self.conns[c].log.push(MEv::Register(ident));
                self.reply(c, raw("core1.client-new", &[secret.as_bytes()]));
            }
            "core1.client-end" => {
                let id = it.get(1).map(|x| s(x)).unwrap_or_default();
                if typed.is_none() {
                    self.stat("end_malformed");
                    return self.reply(c, nope);
                }
                if !at_or_below(&me, &id) || id == me {
                    self.stat("end_not_below");
                    return self.reply(c, nope);
                }
                let mut gone = vec![];
                self.reg.clients.retain(|r| {
                    let hit = at_or_below(&id, &r.ident.id);
                    if hit {
                        gone.push(r.ident.id.clone());
                    }
                    !hit
                });
                self.stat(if gone.is_empty() { "end_nobody" } else { "end_ok" });
                gone.sort();
                if !gone.is_empty() {
                    self.conns[c].log.push(MEv::Unregister(gone));
                }
                self.queue.push(Bc::End(id));
            }
            "posix1.client-hello" | "posix1.stdin-hello" | "posix1.stdout-hello" => {
                self.stat("hello_after_handshake");
                self.reply(c, nope);
            }
            _ => {
                self.conns[c].log.push(MEv::Handled(MSG_INNER, it.clone()));
                let num = |i: usize| -> usize { it.get(i).and_then(|a| std::str::from_utf8(a).ok()).and_then(|s| s.parse().ok()).unwrap_or(0) };
                match t.as_str() {
                    x if self.plain && x.starts_with("test1.") => self.have(c, "test1"),
                    "test1.echo" => self.reply(c, it),
                    x if x.starts_with("test1.fail") => self.reply(c, nope),
                    "test1.teardown" | "test1.teardown-fail" | "test1.teardown-unknown" => self.conns[c].role = Role::Teardown,
                    "test1.burst" => {
                        let (n, size) = (num(1).min(2000), num(2).min(2000));
                        for i in 0..n {
                            self.reply(c, raw("test1.burst", &[i.to_string().as_bytes(), &vec![b'a' + (i % 26) as u8; size]]));
                        }
                    }
                    "test1.note" => self.queue.push(Bc::Note(it)),
                    "test1.stdin" if it.len() == 3 => self.queue.push(Bc::Stdin(s(&it[1]), it[2].clone())),
                    "have" | "nope" => {
                        self.stat("eternal_refused");
                        self.reply(c, nope)
                    }
                    _ => {
                        self.stat("unknown_type");
                        let module = t.split('.').next().unwrap().to_string();
                        self.have(c, &module);
                    }
                }
            }
        }
    }

    fn have(&mut self, c: usize, module: &str) {
        let version = if self.plain && APP_MODULES.iter().any(|x| x.0 == module && x.0 != "core1" && x.0 != "posix1") { None } else { version_of(module) };
        let arg = match version {
            Some(v) => format!("{}.{}", module, v),
            None => module.to_string(),
        };
        self.reply(c, raw("have", &[arg.as_bytes()]));
    }

    fn broadcasts(&mut self) {
        for b in std::mem::take(&mut self.queue) {
            for c in 0..self.conns.len() {
                match (&b, self.conns[c].role.clone()) {
                    (Bc::End(id), Role::Msgio(i)) if at_or_below(id, &i.id) => {
                        self.conns[c].role = Role::Teardown;
                        self.stat("connections_ended");
                    }
                    (Bc::Note(it), Role::Msgio(_)) => self.reply(c, it.clone()),
                    (Bc::Stdin(sid, data), Role::Stdin(s)) if *sid == s => self.conns[c].out.extend(data),
                    _ => {}
                }
            }
        }
    }
}

/// Discards and parse errors in a form that does not depend on how the stream was cut into reads: adjacent discards
/// are merged, and the `expected message opener` that a cut inside garbage causes is dropped.
pub fn normalise(log: &[MEv]) -> Vec<MEv> {
    let mut v: Vec<MEv> = vec![];
    for e in log {
        match (v.last_mut(), e) {
            (Some(MEv::Discard(a)), MEv::Discard(b)) => a.extend_from_slice(b),
            (Some(MEv::Discard(_)), MEv::Error(_, k)) if k == "ExpectedMessageOpener" => {}
            (Some(MEv::OutBytes(a)), MEv::OutBytes(b)) => a.extend_from_slice(b),
            _ => v.push(e.clone()),
        }
    }
    v
}
