#![allow(dead_code)]
// A small application and a synchronous dispatch; talks to the library's Connection directly.
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};
use vt6::common::core::msg::{EncodeMessage, Message, MessageFormatter, ParseError};
use vt6::common::core::{ClientID, ModuleIdentifier};
use vt6::server::*;

#[derive(Default)]
pub struct State {
    pub clients: Vec<(ClientIdentity, String)>,
    pub stdin: Vec<(String, String)>,
    pub stdout: Vec<(String, String)>,
    pub notes: Vec<String>,
    pub discarded: Vec<u8>,
    pub stdout_bytes: Vec<u8>,
    pub errors: u32,
    pub out: BTreeMap<u32, Vec<u8>>,
    pub next_secret: u32,
}
pub type St = Arc<Mutex<State>>;
#[derive(Clone)]
pub struct App(pub St);
pub struct MC(ClientIdentity);
impl MessageConnector for MC {
    fn new(id: ClientIdentity) -> Self {
        MC(id)
    }
    fn identity(&self) -> &ClientIdentity {
        &self.0
    }
}
pub static STDOUT: Mutex<Vec<u8>> = Mutex::new(Vec::new());
pub struct SC;
impl StdoutConnector for SC {
    fn new(_: ScreenIdentity) -> Self {
        SC
    }
    fn receive(&mut self, b: &[u8]) {
        STDOUT.lock().unwrap().extend_from_slice(b)
    }
}
#[derive(Default)]
pub struct Own;
impl Handler<App> for Own {
    fn handle<D: Dispatch<App>>(&self, msg: &Message, conn: &mut Connection<App, D>) -> Result<(), HandlerError> {
        let t = msg.parsed_type().as_str().to_string();
        if t == "test1.echo" {
            let items: Vec<Vec<u8>> = std::iter::once(t.clone().into_bytes()).chain(msg.arguments().map(|a| a.to_vec())).collect();
            conn.enqueue_message(&Raw(items));
            return Ok(());
        }
        Err(if t == "test1.fail" { HandlerError::InvalidMessage } else { HandlerError::UnknownMessageType })
    }
    fn handle_error<D: Dispatch<App>>(&self, _: &ParseError, conn: &mut Connection<App, D>) {
        conn.dispatch().application().0.lock().unwrap().errors += 1;
    }
}
impl MessageHandler<App> for Own {
    fn get_supported_module_version(&self, m: &ModuleIdentifier<'_>) -> Option<u16> {
        if m.as_str() == "test1" { Some(7) } else { None }
    }
}
impl core::MessageHandlerExt<App> for Own {}
pub struct Raw(pub Vec<Vec<u8>>);
impl EncodeMessage for Raw {
    fn encode(&self, buf: &mut [u8]) -> Result<usize, vt6::common::core::msg::BufferTooSmallError> {
        let mut f = MessageFormatter::new(buf, std::str::from_utf8(&self.0[0]).unwrap(), self.0.len() - 1);
        for a in &self.0[1..] {
            f.add_argument(&a[..]);
        }
        f.finalize()
    }
}
impl Application for App {
    type MessageConnector = MC;
    type StdoutConnector = SC;
    type MessageHandler = core::MessageHandler<Own>;
    type HandshakeHandler = core::HandshakeHandler<RejectHandler>;
    fn notify(&self, n: &Notification) {
        let mut s = self.0.lock().unwrap();
        if let Notification::IncomingBytesDiscarded(b) = n {
            s.discarded.extend_from_slice(b);
        }
        s.notes.push(format!("{:?}", n));
    }
    fn register_client(&self, i: ClientIdentity) -> ClientCredentials {
        let c = ClientCredentials::generate();
        self.0.lock().unwrap().clients.push((i, c.secret().to_string()));
        c
    }
    fn unregister_clients(&self, s: ClientSelector) {
        self.0.lock().unwrap().clients.retain(|c| !s.contains(c.0.client_id()));
    }
    fn has_clients(&self, s: ClientSelector) -> bool {
        self.0.lock().unwrap().clients.iter().any(|c| s.contains(c.0.client_id()))
    }
    fn authorize_client(&self, secret: &str) -> Option<ClientIdentity> {
        let mut s = self.0.lock().unwrap();
        let c = s.clients.iter_mut().find(|c| c.1 == secret)?;
        c.1 = "\0redeemed".into();
        Some(c.0.clone())
    }
    fn find_client(&self, id: ClientID<'_>) -> Option<ClientIdentity> {
        self.0.lock().unwrap().clients.iter().find(|c| c.0.client_id() == id).map(|c| c.0.clone())
    }
    fn authorize_stdin(&self, secret: &str) -> Option<ScreenIdentity> {
        let mut s = self.0.lock().unwrap();
        let p = s.stdin.iter().position(|c| c.1 == secret)?;
        Some(ScreenIdentity::new(&s.stdin.remove(p).0))
    }
    fn authorize_stdout(&self, secret: &str) -> Option<ScreenIdentity> {
        let mut s = self.0.lock().unwrap();
        let p = s.stdout.iter().position(|c| c.1 == secret)?;
        Some(ScreenIdentity::new(&s.stdout.remove(p).0))
    }
}

type Action = Box<dyn Fn(&mut Connection<App, Disp>) + Send + Sync>;
#[derive(Clone)]
pub struct Disp(App, Arc<Mutex<Vec<Action>>>);
impl Dispatch<App> for Disp {
    type ConnectionID = u32;
    fn application(&self) -> &App {
        &self.0
    }
    fn enqueue_broadcast(&self, a: Action) {
        self.1.lock().unwrap().push(a)
    }
    fn enqueue_message<M: EncodeMessage>(&self, conn: &mut Connection<App, Self>, m: &M) {
        assert!(conn.state().can_receive_messages(), "message enqueued on a connection that cannot receive any");
        let mut b = [0u8; 1024];
        match m.encode(&mut b) {
            Ok(n) => (self.0).0.lock().unwrap().out.entry(conn.id()).or_default().extend_from_slice(&b[..n]),
            Err(_) => conn.set_state(ConnectionState::Teardown),
        }
    }
    fn enqueue_stdin(&self, conn: &mut Connection<App, Self>, b: &[u8]) {
        (self.0).0.lock().unwrap().out.entry(conn.id()).or_default().extend_from_slice(b)
    }
}
pub struct B(Vec<u8>);
impl ReceiveBuffer for B {
    fn contents(&self) -> &[u8] {
        &self.0
    }
    fn discard(&mut self, n: usize) {
        self.0.drain(..n);
    }
}
pub struct World {
    pub s: St,
    d: Disp,
    conns: Vec<(Connection<App, Disp>, B)>,
}
impl World {
    pub fn new() -> World {
        let s = St::default();
        World { s: s.clone(), d: Disp(App(s), Default::default()), conns: vec![] }
    }
    /// a registered client; its secret is "s" + id
    pub fn client(&mut self, id: &str) {
        self.client_with(id, [None, None, None])
    }
    pub fn client_with(&mut self, id: &str, scr: [Option<&str>; 3]) {
        let mut i = ClientIdentity::new(&ClientID::parse(id).unwrap());
        if let Some(x) = scr[0] { i = i.with_stdin(x) }
        if let Some(x) = scr[1] { i = i.with_stdout(x) }
        if let Some(x) = scr[2] { i = i.with_stderr(x) }
        self.s.lock().unwrap().clients.push((i, format!("s{}", id)));
    }
    pub fn open(&mut self) -> usize {
        let n = self.conns.len();
        self.conns.push((Connection::new(self.d.clone(), n as u32), B(vec![])));
        n
    }
    /// opens a connection and greets as the client
    pub fn connect(&mut self, id: &str) -> usize {
        let c = self.open();
        self.feed(c, &m(&["posix1.client-hello", &format!("s{}", id)]));
        assert!(self.state(c) == "Msgio", "could not connect as {}", id);
        self.out(c);
        c
    }
    pub fn feed(&mut self, c: usize, b: &[u8]) {
        let (conn, buf) = &mut self.conns[c];
        buf.0.extend_from_slice(b);
        conn.handle_incoming(buf);
        loop {
            let q: Vec<Action> = std::mem::take(&mut *self.d.1.lock().unwrap());
            if q.is_empty() {
                return;
            }
            for a in q {
                for (conn, _) in self.conns.iter_mut() {
                    a(conn);
                }
            }
        }
    }
    pub fn state(&self, c: usize) -> &'static str {
        self.conns[c].0.state().type_name()
    }
    pub fn held(&self, c: usize) -> usize {
        self.conns[c].1 .0.len()
    }
    /// what was sent to the connection since the last call
    pub fn out(&mut self, c: usize) -> String {
        let b = self.s.lock().unwrap().out.remove(&(c as u32)).unwrap_or_default();
        String::from_utf8_lossy(&b).into_owned()
    }
    pub fn ids(&self) -> Vec<String> {
        let mut v: Vec<String> = self.s.lock().unwrap().clients.iter().map(|c| c.0.client_id().as_str().to_string()).collect();
        v.sort();
        v
    }
}
pub fn m(items: &[&str]) -> Vec<u8> {
    mb(&items.iter().map(|i| i.as_bytes()).collect::<Vec<_>>())
}
pub fn mb(items: &[&[u8]]) -> Vec<u8> {
    let mut v = format!("{{{}|", items.len()).into_bytes();
    for i in items {
        v.extend(format!("{}:", i.len()).bytes());
        v.extend_from_slice(i);
        v.push(b',');
    }
    v.push(b'}');
    v
}
pub fn ms(items: &[&str]) -> String {
    String::from_utf8(m(items)).unwrap()
}
