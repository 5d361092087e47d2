//! The application under the server monitors: records everything the library does to it in one totally ordered log.
//! Used with the synchronous dispatch of sim.rs and with the Tokio dispatch.
use crate::util::report::fnv;
use crate::util::rng::Rng;
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex, MutexGuard, RwLock};
use vt6::common::core::msg::{BufferTooSmallError, EncodeMessage, Message, MessageFormatter, ParseError};
use vt6::common::core::{ClientID, ModuleIdentifier};
use vt6::server::{self, Application, ClientCredentials, ClientIdentity, ClientSelector, Connection, ConnectionState, HandlerError, Notification, ScreenIdentity};

/// a message: type and arguments
pub type Items = Vec<Vec<u8>>;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Ident {
    pub id: String,
    pub screens: [Option<String>; 3],
}
impl Ident {
    pub fn of(i: &ClientIdentity) -> Ident {
        let o = |s: Option<&str>| s.map(|s| s.to_string());
        Ident { id: i.client_id().as_str().into(), screens: [o(i.stdin_screen_id()), o(i.stdout_screen_id()), o(i.stderr_screen_id())] }
    }
    pub fn new(id: &str, s: [Option<&str>; 3]) -> Ident {
        Ident { id: id.into(), screens: s.map(|x| x.map(|x| x.to_string())) }
    }
    pub fn real(&self) -> ClientIdentity {
        let mut i = ClientIdentity::new(&ClientID::parse(&self.id).unwrap());
        // in any order, and the last word counts
        let h = self.screens.iter().flatten().fold(fnv(self.id.as_bytes()), |h, s| h.rotate_left(7) ^ fnv(s.as_bytes()));
        let orders = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];
        for k in orders[(h % 6) as usize] {
            let Some(s) = &self.screens[k] else { continue };
            for s in if h & 0x300 == 0 { vec!["other", s] } else { vec![s.as_str()] } {
                i = match k {
                    0 => i.with_stdin(s),
                    1 => i.with_stdout(s),
                    _ => i.with_stderr(s),
                };
            }
        }
        i
    }
    pub fn hello(&self) -> Items {
        let o = |s: &Option<String>| s.clone().unwrap_or_default().into_bytes();
        vec![b"posix1.server-hello".to_vec(), self.id.clone().into_bytes(), o(&self.screens[0]), o(&self.screens[1]), o(&self.screens[2])]
    }
}

/// which handler of the chains saw something
pub const MSG_HEAD: u8 = 0;
pub const MSG_INNER: u8 = 1;
pub const HS_HEAD: u8 = 2;
pub const HS_INNER: u8 = 3;

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Opened,
    Closed,
    IoError(String),
    Discarded(Vec<u8>),
    Register(Ident, String),
    Unregister { strict: bool, id: String, gone: Vec<String> },
    AuthClient(String, Option<Ident>),
    AuthStdin(String, Option<String>),
    AuthStdout(String, Option<String>),
    MsgNew(u64, Ident),
    MsgDrop(u64),
    OutNew(u64, String),
    OutRecv(u64, Vec<u8>),
    OutDrop(u64),
    Handled { level: u8, conn: Option<u64>, items: Items },
    HandleError { level: u8, kind: String },
    /// whether clients are registered was asked (not recorded)
    Looked,
    /// a broadcast action runs on a connection
    Bc(u64, u64),
    /// a message is about to be enqueued to a message connection, outside of the protocol's replies
    Enq(u64, Vec<u8>),
    /// stdin for a screen is about to be enqueued
    StdinEnq(String, Vec<u8>),
}

#[derive(Clone, Debug)]
pub struct Rec {
    /// the connection being worked on, where the harness knows it (sim.rs)
    pub cur: u64,
    pub ev: Ev,
}

pub static LOG: Mutex<Vec<Rec>> = Mutex::new(Vec::new());
type Hook = Box<dyn Fn(&Ev) + Send + Sync>;
/// called before an event is recorded, in the thread of the library call (delays, nested actions)
pub static HOOK: RwLock<Option<Hook>> = RwLock::new(None);
/// keep no log (memory monitoring)
pub static MUTE: AtomicBool = AtomicBool::new(false);
pub static UIDS: AtomicU64 = AtomicU64::new(1);
pub static APPS: AtomicI64 = AtomicI64::new(0);
pub static CONNECTORS: AtomicI64 = AtomicI64::new(0);
thread_local! {
    pub static CUR: Cell<u64> = const { Cell::new(u64::MAX) };
}

pub fn lock<T>(m: &Mutex<T>) -> MutexGuard<'_, T> {
    m.lock().unwrap_or_else(|e| e.into_inner())
}
fn hook(ev: &Ev) {
    if let Some(h) = HOOK.read().unwrap_or_else(|e| e.into_inner()).as_ref() {
        h(ev);
    }
}
pub fn log(ev: Ev) {
    if MUTE.load(SeqCst) {
        return;
    }
    hook(&ev);
    let cur = CUR.with(|c| c.get());
    lock(&LOG).push(Rec { cur, ev });
}
pub fn set_hook(h: Option<Hook>) {
    *HOOK.write().unwrap_or_else(|e| e.into_inner()) = h;
}
pub fn take_log() -> Vec<Rec> {
    std::mem::take(&mut *lock(&LOG))
}
pub fn log_len() -> usize {
    lock(&LOG).len()
}

// ---------------------------------------------------------------- registrations

#[derive(Clone, Debug)]
pub struct RegClient {
    pub ident: Ident,
    pub secret: String,
    pub redeemed: bool,
}
#[derive(Clone, Debug)]
pub struct RegScreen {
    pub id: String,
    pub stdin_secret: String,
    pub stdout_secret: String,
    pub stdin_redeemed: bool,
    pub stdout_redeemed: bool,
}
#[derive(Clone, Debug, Default)]
pub struct Registry {
    pub clients: Vec<RegClient>,
    pub screens: Vec<RegScreen>,
}

pub struct AppInner {
    pub reg: Mutex<Registry>,
}
impl Drop for AppInner {
    fn drop(&mut self) {
        APPS.fetch_sub(1, SeqCst);
    }
}
#[derive(Clone)]
pub struct App(pub Arc<AppInner>);
impl App {
    pub fn new(reg: Registry) -> App {
        APPS.fetch_add(1, SeqCst);
        App(Arc::new(AppInner { reg: Mutex::new(reg) }))
    }
}

pub fn at_or_below(a: &str, id: &str) -> bool {
    id.len() >= a.len() && &id[..a.len()] == a
}
fn selector(s: &ClientSelector) -> (bool, String) {
    match s {
        ClientSelector::StrictlyBelow(c) => (true, c.as_str().into()),
        ClientSelector::AtOrBelow(c) => (false, c.as_str().into()),
    }
}
fn in_selector(strict: bool, sel: &str, id: &str) -> bool {
    at_or_below(sel, id) && !(strict && sel == id)
}

impl Application for App {
    type MessageConnector = Conn;
    type StdoutConnector = Out;
    type MessageHandler = Tap<MSG_HEAD, server::core::MessageHandler<Tap<MSG_INNER, TestHandler>>>;
    type HandshakeHandler = Tap<HS_HEAD, server::core::HandshakeHandler<Tap<HS_INNER, server::RejectHandler>>>;

    fn notify(&self, n: &Notification) {
        log(match n {
            Notification::ConnectionOpened => Ev::Opened,
            Notification::ConnectionClosed => Ev::Closed,
            Notification::ConnectionIOError(e) => Ev::IoError(e.to_string()),
            Notification::IncomingBytesDiscarded(b) => Ev::Discarded(b.to_vec()),
        });
    }
    fn register_client(&self, i: ClientIdentity) -> ClientCredentials {
        let c = ClientCredentials::generate();
        let ident = Ident::of(&i);
        lock(&self.0.reg).clients.push(RegClient { ident: ident.clone(), secret: c.secret().into(), redeemed: false });
        log(Ev::Register(ident, c.secret().into()));
        c
    }
    fn unregister_clients(&self, s: ClientSelector) {
        let (strict, id) = selector(&s);
        let mut gone = vec![];
        lock(&self.0.reg).clients.retain(|c| {
            let hit = in_selector(strict, &id, &c.ident.id);
            if hit {
                gone.push(c.ident.id.clone());
            }
            !hit
        });
        log(Ev::Unregister { strict, id, gone });
    }
    fn has_clients(&self, s: ClientSelector) -> bool {
        let (strict, id) = selector(&s);
        let any = lock(&self.0.reg).clients.iter().any(|c| in_selector(strict, &id, &c.ident.id));
        hook(&Ev::Looked);
        any
    }
    fn authorize_client(&self, secret: &str) -> Option<ClientIdentity> {
        let r = {
            let mut g = lock(&self.0.reg);
            g.clients.iter_mut().find(|c| c.secret == secret && !c.redeemed).map(|c| {
                c.redeemed = true;
                c.ident.clone()
            })
        };
        log(Ev::AuthClient(secret.into(), r.clone()));
        r.map(|i| i.real())
    }
    fn find_client(&self, id: ClientID<'_>) -> Option<ClientIdentity> {
        lock(&self.0.reg).clients.iter().find(|c| c.ident.id == id.as_str()).map(|c| c.ident.real())
    }
    fn authorize_stdin(&self, secret: &str) -> Option<ScreenIdentity> {
        let r = {
            let mut g = lock(&self.0.reg);
            g.screens.iter_mut().find(|c| c.stdin_secret == secret && !c.stdin_redeemed).map(|c| {
                c.stdin_redeemed = true;
                c.id.clone()
            })
        };
        log(Ev::AuthStdin(secret.into(), r.clone()));
        r.map(|i| ScreenIdentity::new(&i))
    }
    fn authorize_stdout(&self, secret: &str) -> Option<ScreenIdentity> {
        let r = {
            let mut g = lock(&self.0.reg);
            g.screens.iter_mut().find(|c| c.stdout_secret == secret && !c.stdout_redeemed).map(|c| {
                c.stdout_redeemed = true;
                c.id.clone()
            })
        };
        log(Ev::AuthStdout(secret.into(), r.clone()));
        r.map(|i| ScreenIdentity::new(&i))
    }
}

// ---------------------------------------------------------------- connectors

pub struct Conn {
    pub uid: u64,
    ident: ClientIdentity,
}
impl server::MessageConnector for Conn {
    fn new(id: ClientIdentity) -> Conn {
        CONNECTORS.fetch_add(1, SeqCst);
        let uid = UIDS.fetch_add(1, SeqCst);
        log(Ev::MsgNew(uid, Ident::of(&id)));
        Conn { uid, ident: id }
    }
    fn identity(&self) -> &ClientIdentity {
        &self.ident
    }
}
impl Drop for Conn {
    fn drop(&mut self) {
        CONNECTORS.fetch_sub(1, SeqCst);
        log(Ev::MsgDrop(self.uid));
    }
}
pub struct Out {
    pub uid: u64,
}
impl server::StdoutConnector for Out {
    fn new(id: ScreenIdentity) -> Out {
        CONNECTORS.fetch_add(1, SeqCst);
        let uid = UIDS.fetch_add(1, SeqCst);
        log(Ev::OutNew(uid, id.screen_id().into()));
        Out { uid }
    }
    fn receive(&mut self, b: &[u8]) {
        log(Ev::OutRecv(self.uid, b.to_vec()));
    }
}
impl Drop for Out {
    fn drop(&mut self) {
        CONNECTORS.fetch_sub(1, SeqCst);
        log(Ev::OutDrop(self.uid));
    }
}

// ---------------------------------------------------------------- handlers

#[derive(Default)]
pub struct Tap<const L: u8, H>(H);

fn items(m: &Message) -> Items {
    let mut v = vec![m.parsed_type().as_str().as_bytes().to_vec()];
    v.extend(m.arguments().map(|a| a.to_vec()));
    v
}

impl<const L: u8, H: server::Handler<App>> server::Handler<App> for Tap<L, H> {
    fn handle<D: server::Dispatch<App>>(&self, msg: &Message, conn: &mut Connection<App, D>) -> Result<(), HandlerError> {
        let uid = conn.message_connector().map(|c| c.uid);
        log(Ev::Handled { level: L, conn: uid, items: items(msg) });
        self.0.handle(msg, conn)
    }
    fn handle_error<D: server::Dispatch<App>>(&self, err: &ParseError, conn: &mut Connection<App, D>) {
        log(Ev::HandleError { level: L, kind: format!("{:?}", err.kind) });
        self.0.handle_error(err, conn)
    }
}
impl<const L: u8, H: server::MessageHandler<App>> server::MessageHandler<App> for Tap<L, H> {
    fn get_supported_module_version(&self, m: &ModuleIdentifier<'_>) -> Option<u16> {
        self.0.get_supported_module_version(m)
    }
}
impl<const L: u8, H: server::MessageHandler<App>> server::core::MessageHandlerExt<App> for Tap<L, H> {}
impl<const L: u8, H: server::HandshakeHandler<App>> server::HandshakeHandler<App> for Tap<L, H> {}

/// any message
pub struct Raw(pub Items);
impl EncodeMessage for Raw {
    fn encode(&self, buf: &mut [u8]) -> Result<usize, BufferTooSmallError> {
        let mut f = MessageFormatter::new(buf, std::str::from_utf8(&self.0[0]).unwrap(), self.0.len() - 1);
        for a in &self.0[1..] {
            f.add_argument(&a[..]);
        }
        f.finalize()
    }
}
pub fn raw(t: &str, args: &[&[u8]]) -> Items {
    let mut v = vec![t.as_bytes().to_vec()];
    v.extend(args.iter().map(|a| a.to_vec()));
    v
}

/// modules the application's own handler supports
/// (several with version 0, several with names that are shorter, longer or later versions of others)
pub const APP_MODULES: [(&str, u16); 10] = [
    ("test1", 7),
    ("core2", 3),
    ("x9", 65535),
    ("test2", 0),
    ("posix12", 0),
    ("abc65535", 1),
    ("core257", 256),
    ("posix65535", 10),
    ("want1", 1),
    ("A1", 0),
];

/// the application's own messages, handled behind vt6::server::core::MessageHandler
#[derive(Default)]
pub struct TestHandler;
impl server::Handler<App> for TestHandler {
    fn handle<D: server::Dispatch<App>>(&self, msg: &Message, conn: &mut Connection<App, D>) -> Result<(), HandlerError> {
        let it = items(msg);
        let num = |i: usize| -> usize { it.get(i).and_then(|a| std::str::from_utf8(a).ok()).and_then(|s| s.parse().ok()).unwrap_or(0) };
        match msg.parsed_type().as_str() {
            "test1.echo" => {
                conn.enqueue_message(&Raw(it));
                Ok(())
            }
            x if x.starts_with("test1.fail") => Err(HandlerError::InvalidMessage),
            "test1.teardown" => {
                conn.set_state(ConnectionState::Teardown);
                Ok(())
            }
            "test1.teardown-fail" => {
                conn.set_state(ConnectionState::Teardown);
                Err(HandlerError::InvalidMessage)
            }
            "test1.teardown-unknown" => {
                conn.set_state(ConnectionState::Teardown);
                Err(HandlerError::UnknownMessageType)
            }
            "test1.burst" => {
                for i in 0..num(1).min(2000) {
                    conn.enqueue_message(&Raw(raw("test1.burst", &[i.to_string().as_bytes(), &vec![b'a' + (i % 26) as u8; num(2).min(2000)]])));
                }
                Ok(())
            }
            "test1.note" => {
                // a note to every message connection, from inside a handler
                let n = Arc::new(it);
                conn.dispatch().enqueue_broadcast(Box::new(move |c| {
                    if let Some(uid) = c.message_connector().map(|x| x.uid) {
                        log(Ev::Enq(uid, crate::refspec::enc(&n)));
                        c.enqueue_message(&Raw((*n).clone()));
                    }
                }));
                Ok(())
            }
            "test1.stdin" if it.len() == 3 => {
                let (sid, data) = (String::from_utf8_lossy(&it[1]).to_string(), it[2].clone());
                conn.dispatch().enqueue_broadcast(Box::new(move |c| {
                    if c.state().can_receive_stdin_for_screen(&ScreenIdentity::new(&sid)) {
                        log(Ev::StdinEnq(sid.clone(), data.clone()));
                        c.enqueue_stdin(&data);
                    }
                }));
                Ok(())
            }
            _ => Err(HandlerError::UnknownMessageType),
        }
    }
    fn handle_error<D: server::Dispatch<App>>(&self, _err: &ParseError, _conn: &mut Connection<App, D>) {}
}
impl server::MessageHandler<App> for TestHandler {
    fn get_supported_module_version(&self, m: &ModuleIdentifier<'_>) -> Option<u16> {
        APP_MODULES.iter().find(|x| x.0 == m.as_str()).map(|x| x.1)
    }
}

/// a registry with a few clients and screens; secrets are chosen by the harness
pub fn gen_registry(r: &mut Rng, ids: &[&str]) -> Registry {
    let mut reg = Registry::default();
    let alnum = b"0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ-_";
    let secret = |r: &mut Rng, tag: &str| -> String {
        match r.below(6) {
            0 => format!("{}{}", tag, r.below(100000)),
            _ => (0..32).map(|_| *r.pick(alnum) as char).collect::<String>(),
        }
    };
    for id in ids {
        let mut s: [Option<String>; 3] = [None, None, None];
        for (i, x) in s.iter_mut().enumerate() {
            if r.chance(1, 2) {
                *x = Some(match r.below(4) {
                    0 => "s1".into(),
                    1 => format!("screen {} \u{e9}", i),
                    2 => "\"{1|".into(),
                    _ => format!("scr{}", i),
                });
            }
        }
        let sec = secret(r, "c");
        reg.clients.push(RegClient { ident: Ident { id: id.to_string(), screens: s }, secret: sec, redeemed: false });
    }
    for i in 0..r.range(1, 3) {
        let (a, b) = (secret(r, "i"), secret(r, "o"));
        reg.screens.push(RegScreen { id: format!("scr{}", i), stdin_secret: a, stdout_secret: b, stdin_redeemed: false, stdout_redeemed: false });
    }
    reg
}
