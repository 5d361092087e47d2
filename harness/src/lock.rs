//! Runs the library's Connection (under sim.rs) and the reference state machine (model.rs) in lockstep and compares
//! what they did after every read.
use crate::app::{self, Ev, Ident, Rec, Registry, MSG_HEAD, MSG_INNER};
use crate::model::{normalise, MEv, Model};
use crate::sim::{Role, World};
use crate::tok::Step;
use crate::util::run::guard;
use crate::util::show;
use std::collections::BTreeMap;

pub enum Back {
    Sim(World),
    Tok(Box<Step>),
}
impl Back {
    fn open(&mut self) -> Result<u64, String> {
        match self {
            Back::Sim(w) => Ok(w.open()),
            Back::Tok(t) => t.open(),
        }
    }
    fn feed(&mut self, c: u64, chunk: &[u8]) -> Result<(), String> {
        match self {
            Back::Sim(w) => {
                w.feed(c, chunk);
                Ok(())
            }
            Back::Tok(t) => t.feed(c, chunk),
        }
    }
    fn overrun(&self) -> bool {
        matches!(self, Back::Sim(w) if w.overrun())
    }
    fn contract(&self) -> Vec<String> {
        match self {
            Back::Sim(w) => w.contract(),
            Back::Tok(_) => vec![],
        }
    }
    fn take_out(&mut self, c: u64) -> Vec<u8> {
        match self {
            Back::Sim(w) => w.take_out(c),
            Back::Tok(t) => t.take_out(c),
        }
    }
    fn role(&self, c: u64) -> Role {
        match self {
            Back::Sim(w) => w.role(c),
            Back::Tok(t) => t.role(c),
        }
    }
    fn app(&self) -> &app::App {
        match self {
            Back::Sim(w) => w.app(),
            Back::Tok(t) => &t.app,
        }
    }
}

pub struct Lock {
    pub w: Back,
    pub m: Model,
    /// what the real connections did
    pub logs: BTreeMap<u64, Vec<MEv>>,
    /// connection of each message connector
    uids: BTreeMap<u64, u64>,
    pub trace: Vec<String>,
    pub events: u64,
}

fn secretless(reg: &Registry) -> Vec<(String, [Option<String>; 3], String, bool)> {
    let mut v: Vec<_> = reg.clients.iter().map(|c| (c.ident.id.clone(), c.ident.screens.clone(), c.secret.clone(), c.redeemed)).collect();
    v.sort();
    v
}

/// the first difference of two logs, readably
pub fn diff(got: &[MEv], want: &[MEv]) -> Option<String> {
    let n = got.iter().zip(want).take_while(|(a, b)| a == b).count();
    if n == got.len() && n == want.len() {
        return None;
    }
    Some(format!("event {}: observed {}, prescribed {}", n, brief(got.get(n)), brief(want.get(n))))
}
fn brief(e: Option<&MEv>) -> String {
    match e {
        None => "nothing".into(),
        Some(MEv::Handled(l, it)) => format!("Handled(level {}, {})", l, show(&crate::refspec::enc(it))),
        Some(MEv::Discard(b)) => format!("Discard({})", show(b)),
        Some(MEv::OutBytes(b)) => format!("OutBytes({})", show(b)),
        Some(e) => format!("{:?}", e),
    }
}

impl Lock {
    pub fn new(reg: Registry) -> Lock {
        let w = Back::Sim(World::new(app::App::new(reg.clone())));
        Lock { w, m: Model::new(reg), logs: BTreeMap::new(), uids: BTreeMap::new(), trace: vec![], events: 0 }
    }
    /// the same with the real Tokio server
    pub fn tokio(reg: Registry, scratch: &std::path::Path) -> Result<Lock, String> {
        let w = Back::Tok(Box::new(Step::new(app::App::new(reg.clone()), scratch)?));
        Ok(Lock { w, m: Model::new(reg), logs: BTreeMap::new(), uids: BTreeMap::new(), trace: vec!["(Tokio server)".into()], events: 0 })
    }
    pub fn is_tokio(&self) -> bool {
        matches!(self.w, Back::Tok(_))
    }
    pub fn finish(self) -> Result<(), String> {
        match self.w {
            Back::Sim(_) => Ok(()),
            Back::Tok(t) => t.finish(),
        }
    }
    pub fn open(&mut self) -> Result<u64, String> {
        self.m.open();
        self.w.open()
    }
    pub fn role(&self, c: u64) -> &Role {
        &self.m.conns[c as usize].role
    }
    pub fn ident(&self, c: u64) -> Option<&Ident> {
        match self.role(c) {
            Role::Msgio(i) => Some(i),
            _ => None,
        }
    }

    /// one read; Err = the library did something else than prescribed
    pub fn feed(&mut self, c: u64, chunk: &[u8]) -> Result<(), String> {
        self.trace.push(format!("read on connection {}: {}", c, show(chunk)));
        let w = &mut self.w;
        let r = guard(|| w.feed(c, chunk));
        let recs = app::take_log();
        r.and_then(|x| x).map_err(|p| format!("{} while handling {}", p, show(chunk)))?;
        for r in &recs {
            if let Ev::Register(_, secret) = &r.ev {
                self.m.secrets.push_back(secret.clone());
            }
        }
        self.m.feed(c as usize, chunk);
        if !self.m.secrets.is_empty() {
            let x = self.m.secrets.len();
            return Err(format!("{} registration(s) that the protocol does not allow, during {}", x, self.trace.last().unwrap()));
        }
        self.absorb(recs)?;
        self.compare()
    }

    fn absorb(&mut self, recs: Vec<Rec>) -> Result<(), String> {
        for r in recs {
            self.events += 1;
            let c = r.cur;
            let e = match r.ev {
                Ev::Handled { level, conn, items } => {
                    if (level == MSG_HEAD || level == MSG_INNER) && conn.and_then(|u| self.uids.get(&u)) != Some(&c) {
                        return Err(format!("a message handler ran on connection {} with the connector of another one", c));
                    }
                    MEv::Handled(level, items)
                }
                Ev::HandleError { level, kind } => MEv::Error(level, kind),
                Ev::Discarded(b) => MEv::Discard(b),
                Ev::Register(i, _) => MEv::Register(i),
                Ev::Unregister { mut gone, .. } => {
                    if gone.is_empty() {
                        continue;
                    }
                    gone.sort();
                    MEv::Unregister(gone)
                }
                Ev::AuthClient(_, Some(i)) => MEv::Redeemed('c', i.id),
                Ev::AuthStdin(_, Some(i)) => MEv::Redeemed('i', i),
                Ev::AuthStdout(_, Some(i)) => MEv::Redeemed('o', i),
                Ev::MsgNew(uid, i) => {
                    self.uids.insert(uid, c);
                    MEv::MsgConnector(i)
                }
                Ev::OutNew(_, i) => MEv::OutConnector(i),
                Ev::OutRecv(_, b) => {
                    if b.is_empty() {
                        continue;
                    }
                    MEv::OutBytes(b)
                }
                _ => continue,
            };
            self.logs.entry(c).or_default().push(e);
        }
        Ok(())
    }

    fn compare(&mut self) -> Result<(), String> {
        let last = || self.trace.last().cloned().unwrap_or_default();
        if self.w.overrun() {
            return Err(format!("discarded more bytes than the receive buffer holds, after {}", last()));
        }
        if let Some(x) = self.w.contract().first() {
            return Err(format!("{}, after {}", x, last()));
        }
        let tokio = self.is_tokio();
        for (i, mc) in self.m.conns.iter_mut().enumerate() {
            let id = i as u64;
            let out = self.w.take_out(id);
            // what has not been sent when a connection ends is never sent
            let cut = tokio && mc.role == Role::Teardown;
            if out != mc.out && !(cut && mc.out.starts_with(&out)) {
                let n = out.iter().zip(&mc.out).take_while(|(a, b)| a == b).count();
                return Err(format!(
                    "connection {} was sent {}, prescribed is {} (differing from byte {}), after {}",
                    i,
                    show(&out),
                    show(&mc.out),
                    n,
                    last()
                ));
            }
            mc.out.clear();
            let r = self.w.role(id);
            if r != mc.role {
                return Err(format!("connection {} is {:?}, prescribed is {:?}, after {}", i, r, mc.role, last()));
            }
        }
        // handler calls and the like may be compared as far as they do not depend on the segmentation
        for (i, mc) in self.m.conns.iter_mut().enumerate() {
            let got = self.logs.entry(i as u64).or_default();
            if *got == mc.log {
                // keep the last entry only: normalisation needs to look back at most that far
                if got.len() > 1 {
                    let k = got.len() - 1;
                    got.drain(..k);
                    mc.log.drain(..k);
                }
                continue;
            }
            let (g, mut w) = (normalise(got), normalise(&mc.log));
            if let (true, Role::Teardown, Some(MEv::Discard(a))) = (tokio, &mc.role, g.last()) {
                // the bytes that ended the connection arrived in several reads
                let n = g.len() - 1;
                if let Some(MEv::Discard(b)) = w.get_mut(n) {
                    if b.starts_with(a) {
                        b.truncate(a.len());
                    }
                }
            }
            if let Some(d) = diff(&g, &w) {
                return Err(format!("connection {}: {}, after {}", i, d, last()));
            }
        }
        let (a, b) = (secretless(&app::lock(&self.w.app().0.reg)), secretless(&self.m.reg));
        if a != b {
            return Err(format!("registered clients are {:?}, prescribed are {:?}, after {}", a, b, last()));
        }
        Ok(())
    }
}
