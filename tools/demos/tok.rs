#![allow(dead_code)]
// A small application on the library's Tokio server.
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};
use vt6::common::core::msg::{EncodeMessage, Message, MessageFormatter, ParseError};
use vt6::common::core::{ClientID, ModuleIdentifier};
use vt6::server::*;

#[derive(Default)]
pub struct State {
    pub clients: Vec<(ClientIdentity, String)>,
    pub stdin: Vec<(String, String)>,
    pub stdout: Vec<(String, String)>,
    pub notes: Vec<String>,
    pub discarded: Vec<u8>,
    pub stdout_bytes: Vec<u8>,
    pub errors: u32,
    pub out: BTreeMap<u32, Vec<u8>>,
    pub next_secret: u32,
}
pub type St = Arc<Mutex<State>>;
#[derive(Clone)]
pub struct App(pub St);
pub struct MC(ClientIdentity);
impl MessageConnector for MC {
    fn new(id: ClientIdentity) -> Self {
        MC(id)
    }
    fn identity(&self) -> &ClientIdentity {
        &self.0
    }
}
pub static STDOUT: Mutex<Vec<u8>> = Mutex::new(Vec::new());
pub struct SC;
impl StdoutConnector for SC {
    fn new(_: ScreenIdentity) -> Self {
        SC
    }
    fn receive(&mut self, b: &[u8]) {
        STDOUT.lock().unwrap().extend_from_slice(b)
    }
}
#[derive(Default)]
pub struct Own;
impl Handler<App> for Own {
    fn handle<D: Dispatch<App>>(&self, msg: &Message, conn: &mut Connection<App, D>) -> Result<(), HandlerError> {
        let t = msg.parsed_type().as_str().to_string();
        if t == "test1.echo" {
            let items: Vec<Vec<u8>> = std::iter::once(t.clone().into_bytes()).chain(msg.arguments().map(|a| a.to_vec())).collect();
            conn.enqueue_message(&Raw(items));
            return Ok(());
        }
        Err(if t == "test1.fail" { HandlerError::InvalidMessage } else { HandlerError::UnknownMessageType })
    }
    fn handle_error<D: Dispatch<App>>(&self, _: &ParseError, conn: &mut Connection<App, D>) {
        conn.dispatch().application().0.lock().unwrap().errors += 1;
    }
}
impl MessageHandler<App> for Own {
    fn get_supported_module_version(&self, m: &ModuleIdentifier<'_>) -> Option<u16> {
        if m.as_str() == "test1" { Some(7) } else { None }
    }
}
impl core::MessageHandlerExt<App> for Own {}
pub struct Raw(pub Vec<Vec<u8>>);
impl EncodeMessage for Raw {
    fn encode(&self, buf: &mut [u8]) -> Result<usize, vt6::common::core::msg::BufferTooSmallError> {
        let mut f = MessageFormatter::new(buf, std::str::from_utf8(&self.0[0]).unwrap(), self.0.len() - 1);
        for a in &self.0[1..] {
            f.add_argument(&a[..]);
        }
        f.finalize()
    }
}
impl Application for App {
    type MessageConnector = MC;
    type StdoutConnector = SC;
    type MessageHandler = core::MessageHandler<Own>;
    type HandshakeHandler = core::HandshakeHandler<RejectHandler>;
    fn notify(&self, n: &Notification) {
        let mut s = self.0.lock().unwrap();
        if let Notification::IncomingBytesDiscarded(b) = n {
            s.discarded.extend_from_slice(b);
        }
        s.notes.push(format!("{:?}", n));
    }
    fn register_client(&self, i: ClientIdentity) -> ClientCredentials {
        let c = ClientCredentials::generate();
        self.0.lock().unwrap().clients.push((i, c.secret().to_string()));
        c
    }
    fn unregister_clients(&self, s: ClientSelector) {
        self.0.lock().unwrap().clients.retain(|c| !s.contains(c.0.client_id()));
    }
    fn has_clients(&self, s: ClientSelector) -> bool {
        self.0.lock().unwrap().clients.iter().any(|c| s.contains(c.0.client_id()))
    }
    fn authorize_client(&self, secret: &str) -> Option<ClientIdentity> {
        let mut s = self.0.lock().unwrap();
        let c = s.clients.iter_mut().find(|c| c.1 == secret)?;
        c.1 = "\0redeemed".into();
        Some(c.0.clone())
    }
    fn find_client(&self, id: ClientID<'_>) -> Option<ClientIdentity> {
        self.0.lock().unwrap().clients.iter().find(|c| c.0.client_id() == id).map(|c| c.0.clone())
    }
    fn authorize_stdin(&self, secret: &str) -> Option<ScreenIdentity> {
        let mut s = self.0.lock().unwrap();
        let p = s.stdin.iter().position(|c| c.1 == secret)?;
        Some(ScreenIdentity::new(&s.stdin.remove(p).0))
    }
    fn authorize_stdout(&self, secret: &str) -> Option<ScreenIdentity> {
        let mut s = self.0.lock().unwrap();
        let p = s.stdout.iter().position(|c| c.1 == secret)?;
        Some(ScreenIdentity::new(&s.stdout.remove(p).0))
    }
}

pub fn m(items: &[&str]) -> Vec<u8> {
    mb(&items.iter().map(|i| i.as_bytes()).collect::<Vec<_>>())
}
pub fn mb(items: &[&[u8]]) -> Vec<u8> {
    let mut v = format!("{{{}|", items.len()).into_bytes();
    for i in items {
        v.extend(format!("{}:", i.len()).bytes());
        v.extend_from_slice(i);
        v.push(b',');
    }
    v.push(b'}');
    v
}
pub fn ms(items: &[&str]) -> String {
    String::from_utf8(m(items)).unwrap()
}

// ---- the library's Tokio server in $TMPDIR, and plain blocking clients ----
use std::io::{Read, Write};
use std::os::unix::net::UnixStream;
use std::time::{Duration, Instant};
pub type D = vt6::server::tokio::Dispatch<App>;
pub struct Tok {
    pub s: St,
    pub d: D,
    pub rt: ::tokio::runtime::Runtime,
    pub path: std::path::PathBuf,
    pub listener: Option<::tokio::task::JoinHandle<std::io::Result<()>>>,
}
impl Tok {
    pub fn new() -> Tok {
        Tok::at("s")
    }
    pub fn at(name: &str) -> Tok {
        let path = std::path::PathBuf::from(std::env::var_os("TMPDIR").unwrap()).join(name);
        let s = St::default();
        let d = D::new(&path, App(s.clone())).unwrap();
        let rt = ::tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().unwrap();
        let d2 = d.clone();
        let listener = rt.spawn(async move { d2.run_listener().await });
        let t = Tok { s, d, rt, path, listener: Some(listener) };
        wait("the server socket", || t.path.exists());
        t
    }
    pub fn client(&self, id: &str) {
        let i = ClientIdentity::new(&ClientID::parse(id).unwrap());
        self.s.lock().unwrap().clients.push((i, format!("s{}", id)));
    }
    pub fn raw(&self) -> UnixStream {
        let before = self.notes("ConnectionOpened");
        // (refused for a moment after the socket appears)
        let t = Instant::now();
        let c = loop {
            match UnixStream::connect(&self.path) {
                Ok(c) => break c,
                Err(_) if t.elapsed() < Duration::from_secs(5) => std::thread::sleep(Duration::from_millis(1)),
                Err(e) => fail(&format!("cannot connect to the server: {}", e)),
            }
        };
        c.set_read_timeout(Some(Duration::from_secs(10))).unwrap();
        c.set_write_timeout(Some(Duration::from_secs(10))).unwrap();
        wait("the connection to be opened", || self.notes("ConnectionOpened") > before);
        c
    }
    pub fn connect(&self, id: &str) -> UnixStream {
        let mut c = self.raw();
        c.write_all(&m(&["posix1.client-hello", &format!("s{}", id)])).unwrap();
        let got = read_n(&mut c, m(&["posix1.server-hello", id, "", "", ""]).len());
        assert!(got == m(&["posix1.server-hello", id, "", "", ""]), "bad answer to client-hello: {:?}", String::from_utf8_lossy(&got));
        c
    }
    pub fn stdin(&self, screen: &str) -> UnixStream {
        let secret = format!("i{}", screen);
        self.s.lock().unwrap().stdin.push((screen.into(), secret.clone()));
        let mut c = self.raw();
        c.write_all(&m(&["posix1.stdin-hello", &secret])).unwrap();
        wait("stdin-hello", || !self.s.lock().unwrap().stdin.iter().any(|x| x.1 == secret));
        c
    }
    pub fn notes(&self, what: &str) -> usize {
        self.s.lock().unwrap().notes.iter().filter(|n| n.starts_with(what)).count()
    }
    /// runs once on every connection
    pub fn broadcast(&self, f: impl Fn(&mut Connection<App, D>) + Send + Sync + 'static) {
        self.d.enqueue_broadcast(Box::new(f))
    }
    pub fn send_stdin(&self, screen: &str, b: &[u8]) {
        let (id, b) = (ScreenIdentity::new(screen), b.to_vec());
        self.broadcast(move |c| {
            if c.state().can_receive_stdin_for_screen(&id) {
                c.enqueue_stdin(&b)
            }
        });
    }
    pub fn send_message(&self, to: &str, items: &[&str]) {
        let (to, items) = (to.to_string(), items.iter().map(|i| i.as_bytes().to_vec()).collect::<Vec<_>>());
        self.broadcast(move |c| {
            if let ConnectionState::Msgio(ref x) = c.state() {
                if x.identity().client_id().as_str() == to {
                    c.enqueue_message(&Raw(items.clone()))
                }
            }
        });
    }
}
pub fn wait(what: &str, f: impl Fn() -> bool) {
    let t = Instant::now();
    while !f() {
        if t.elapsed() > Duration::from_secs(10) {
            fail(&format!("waited in vain for {}", what));
        }
        std::thread::sleep(Duration::from_millis(2));
    }
}
pub fn fail(what: &str) -> ! {
    eprintln!("FAILED: {}", what);
    std::process::exit(1)
}
pub fn read_n(c: &mut UnixStream, n: usize) -> Vec<u8> {
    let mut v = vec![0; n];
    let mut i = 0;
    while i < n {
        match c.read(&mut v[i..]) {
            Ok(k) if k > 0 => i += k,
            x => fail(&format!("only {} of {} bytes arrived: {:?}", i, n, x)),
        }
    }
    v
}
/// what arrives within that many milliseconds, and whether the connection was closed
pub fn read_some(c: &mut UnixStream, ms: u64) -> (Vec<u8>, bool) {
    let (mut v, mut b, t) = (vec![], [0; 65536], Instant::now());
    c.set_read_timeout(Some(Duration::from_millis(20))).unwrap();
    let mut eof = false;
    while t.elapsed() < Duration::from_millis(ms) {
        match c.read(&mut b) {
            Ok(0) => { eof = true; break }
            Ok(k) => v.extend_from_slice(&b[..k]),
            Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => {}
            Err(_) => { eof = true; break }
        }
    }
    c.set_read_timeout(Some(Duration::from_secs(10))).unwrap();
    (v, eof)
}
