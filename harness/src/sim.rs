//! A synchronous dispatch: drives vt6::server::Connection with exactly the byte chunks a scenario prescribes.
use crate::app::{lock, log, raw, App, Ev, Ident, Items, CUR};
use crate::refspec;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};
use vt6::common::core::msg::EncodeMessage;
use vt6::server::{self, Connection, ConnectionState, Dispatch, MessageConnector, ReceiveBuffer};

type Action = Box<dyn Fn(&mut Connection<App, SimDispatch>) + Send + Sync>;
pub struct SimInner {
    app: App,
    queue: Mutex<Vec<Action>>,
    out: Mutex<BTreeMap<u64, Vec<u8>>>,
    /// calls the library made that Dispatch's contract forbids
    contract: Mutex<Vec<String>>,
}
#[derive(Clone)]
pub struct SimDispatch(Arc<SimInner>);

impl server::Dispatch<App> for SimDispatch {
    type ConnectionID = u64;
    fn application(&self) -> &App {
        &self.0.app
    }
    fn enqueue_broadcast(&self, action: Action) {
        lock(&self.0.queue).push(action);
    }
    fn enqueue_message<M: EncodeMessage>(&self, conn: &mut Connection<App, Self>, msg: &M) {
        if !conn.state().can_receive_messages() {
            lock(&self.0.contract).push(format!("enqueue_message() on a connection in state {}", conn.state().type_name()));
            return;
        }
        let mut buf = [0u8; 1024];
        match msg.encode(&mut buf) {
            Ok(n) => lock(&self.0.out).entry(conn.id()).or_default().extend_from_slice(&buf[..n]),
            Err(_) => conn.set_state(ConnectionState::Teardown),
        }
    }
    fn enqueue_stdin(&self, conn: &mut Connection<App, Self>, b: &[u8]) {
        if !conn.state().can_receive_stdin() {
            lock(&self.0.contract).push(format!("enqueue_stdin() on a connection in state {}", conn.state().type_name()));
            return;
        }
        lock(&self.0.out).entry(conn.id()).or_default().extend_from_slice(b);
    }
}

#[derive(Default)]
pub struct Buf {
    data: Vec<u8>,
    pub discarded: usize,
    pub overrun: bool,
}
impl ReceiveBuffer for Buf {
    fn contents(&self) -> &[u8] {
        &self.data
    }
    fn discard(&mut self, n: usize) {
        if n > self.data.len() {
            self.overrun = true;
        }
        let n = n.min(self.data.len());
        self.data.drain(..n);
        self.discarded += n;
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Role {
    Handshake,
    Msgio(Ident),
    Stdin(String),
    Stdout,
    Teardown,
}
pub fn role(s: &ConnectionState<App>) -> Role {
    match s {
        ConnectionState::Handshake => Role::Handshake,
        ConnectionState::Msgio(c) => Role::Msgio(Ident::of(c.identity())),
        ConnectionState::Stdin(s) => Role::Stdin(s.screen_id().into()),
        ConnectionState::Stdout(_) => Role::Stdout,
        ConnectionState::Teardown => Role::Teardown,
    }
}

pub struct SimConn {
    conn: Connection<App, SimDispatch>,
    pub buf: Buf,
}
pub struct World {
    pub d: SimDispatch,
    conns: BTreeMap<u64, SimConn>,
    next: u64,
    pub max_held: usize,
}

impl World {
    pub fn new(app: App) -> World {
        crate::app::take_log();
        World {
            d: SimDispatch(Arc::new(SimInner { app, queue: Default::default(), out: Default::default(), contract: Default::default() })),
            conns: BTreeMap::new(),
            next: 0,
            max_held: 0,
        }
    }
    pub fn open(&mut self) -> u64 {
        let id = self.next;
        self.next += 1;
        self.conns.insert(id, SimConn { conn: Connection::new(self.d.clone(), id), buf: Buf::default() });
        id
    }
    /// one read of `chunk` from connection `id`, then everything a dispatch does when it has its reference back
    pub fn feed(&mut self, id: u64, chunk: &[u8]) {
        if let Some(c) = self.conns.get_mut(&id) {
            if !matches!(c.conn.state(), ConnectionState::Teardown) && !chunk.is_empty() {
                c.buf.data.extend_from_slice(chunk);
                CUR.with(|x| x.set(id));
                c.conn.handle_incoming(&mut c.buf);
                CUR.with(|x| x.set(u64::MAX));
                if !matches!(c.conn.state(), ConnectionState::Teardown) {
                    self.max_held = self.max_held.max(c.buf.data.len());
                }
            }
        }
        self.maintain();
    }
    pub fn broadcast(&mut self, a: Action) {
        self.d.enqueue_broadcast(a);
        self.maintain();
    }
    fn maintain(&mut self) {
        loop {
            let q = std::mem::take(&mut *lock(&self.d.0.queue));
            if q.is_empty() {
                break;
            }
            for a in q {
                for (id, c) in self.conns.iter_mut() {
                    CUR.with(|x| x.set(*id));
                    a(&mut c.conn);
                    CUR.with(|x| x.set(u64::MAX));
                }
            }
        }
        let dead: Vec<u64> = self.conns.iter().filter(|(_, c)| matches!(c.conn.state(), ConnectionState::Teardown)).map(|(i, _)| *i).collect();
        for id in dead {
            CUR.with(|x| x.set(id));
            self.conns.remove(&id);
            log(Ev::Closed);
            CUR.with(|x| x.set(u64::MAX));
        }
    }
    pub fn role(&self, id: u64) -> Role {
        self.conns.get(&id).map_or(Role::Teardown, |c| role(c.conn.state()))
    }
    pub fn held(&self, id: u64) -> usize {
        self.conns.get(&id).map_or(0, |c| c.buf.data.len())
    }
    pub fn overrun(&self) -> bool {
        self.conns.values().any(|c| c.buf.overrun)
    }
    pub fn contract(&self) -> Vec<String> {
        lock(&self.d.0.contract).clone()
    }
    pub fn out(&self, id: u64) -> Vec<u8> {
        lock(&self.d.0.out).get(&id).cloned().unwrap_or_default()
    }
    pub fn take_out(&self, id: u64) -> Vec<u8> {
        lock(&self.d.0.out).remove(&id).unwrap_or_default()
    }
    /// replies sent to a connection, as messages
    pub fn replies(&self, id: u64) -> Result<Vec<Items>, String> {
        split(&self.out(id))
    }
    pub fn app(&self) -> &App {
        &self.d.0.app
    }
}

/// a byte stream as messages
pub fn split(b: &[u8]) -> Result<Vec<Items>, String> {
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        match refspec::parse(&b[i..]) {
            Ok(m) => {
                i += m.len;
                let mut it = vec![m.typ];
                it.extend(m.args);
                v.push(it);
            }
            Err(e) => return Err(format!("the server sent something that is not a message ({:?}): {}", e, crate::util::show(&b[i..]))),
        }
    }
    Ok(v)
}

pub fn hello(kind: &str, secret: &str) -> Vec<u8> {
    refspec::enc(&raw(kind, &[secret.as_bytes()]))
}
pub fn encode(items: &Items) -> Vec<u8> {
    refspec::enc(items)
}
