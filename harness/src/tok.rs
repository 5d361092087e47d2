//! The library's Tokio server: `Step` runs it on one thread, step by step, with every read under the harness's
//! control; `Srv` runs it on a multi-threaded runtime.
use crate::app::{self, App, CUR};
use crate::interpose;
use crate::sim::{role, Role};
use crate::util::quiesce;
use std::collections::BTreeMap;
use std::io::{ErrorKind, Read, Write};
use std::os::unix::net::UnixStream;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use vt6::server::tokio::Dispatch as TDispatch;
use vt6::server::{Connection, Dispatch};

pub type D = TDispatch<App>;
pub type C = Connection<App, D>;

static SOCKETS: AtomicU64 = AtomicU64::new(0);
pub fn new_path(scratch: &Path) -> PathBuf {
    scratch.join(format!("s{}", SOCKETS.fetch_add(1, SeqCst)))
}

const FLOOD: usize = 64 << 20;

/// the client's end of a connection; never blocks
pub struct Client {
    s: Option<UnixStream>,
    pub sent: Vec<u8>,
    pub got: Vec<u8>,
    pub todo: Vec<u8>,
    pub eof: bool,
    /// nothing can be written any more
    pub broken: bool,
    /// the client itself ended the connection
    pub closed: bool,
    pub shut: bool,
    pub blocked: u64,
    /// got more than any scenario can cause
    pub flooded: bool,
}
impl Client {
    pub fn connect(path: &Path) -> std::io::Result<Client> {
        let s = UnixStream::connect(path)?;
        s.set_nonblocking(true)?;
        Ok(Client { s: Some(s), sent: vec![], got: vec![], todo: vec![], eof: false, broken: false, closed: false, shut: false, blocked: 0, flooded: false })
    }
    pub fn queue(&mut self, b: &[u8]) {
        self.todo.extend_from_slice(b);
    }
    /// write up to `max` of the pending bytes; true if something was written
    pub fn write_some(&mut self, max: usize) -> bool {
        let mut any = false;
        let mut left = max;
        while let Some(s) = self.s.as_mut() {
            if self.todo.is_empty() || left == 0 || self.broken || self.shut {
                break;
            }
            let n = self.todo.len().min(left);
            match s.write(&self.todo[..n]) {
                Ok(0) => break,
                Ok(k) => {
                    self.sent.extend_from_slice(&self.todo[..k]);
                    self.todo.drain(..k);
                    left -= k;
                    any = true;
                }
                Err(e) if e.kind() == ErrorKind::WouldBlock => {
                    self.blocked += 1;
                    break;
                }
                Err(e) if e.kind() == ErrorKind::Interrupted => {}
                Err(_) => {
                    self.broken = true;
                    self.todo.clear();
                }
            }
        }
        any
    }
    /// read up to `max` bytes; true if something happened
    pub fn read_some(&mut self, max: usize) -> bool {
        let mut any = false;
        let mut left = max;
        let mut b = [0u8; 8192];
        while let Some(s) = self.s.as_mut() {
            if self.got.len() > FLOOD {
                self.flooded = true;
            }
            if self.eof || left == 0 || self.flooded {
                break;
            }
            let n = left.min(b.len());
            match s.read(&mut b[..n]) {
                Ok(0) => {
                    self.eof = true;
                    any = true;
                }
                Ok(k) => {
                    self.got.extend_from_slice(&b[..k]);
                    left -= k;
                    any = true;
                }
                Err(e) if e.kind() == ErrorKind::WouldBlock => break,
                Err(e) if e.kind() == ErrorKind::Interrupted => {}
                // reset: the server closed without having read everything
                Err(_) => {
                    self.eof = true;
                    self.broken = true;
                    any = true;
                }
            }
        }
        any
    }
    pub fn pump(&mut self) -> bool {
        let a = self.write_some(usize::MAX);
        self.read_some(usize::MAX) || a
    }
    pub fn close(&mut self) {
        self.s = None;
        self.closed = true;
        self.todo.clear();
    }
    pub fn shutdown_write(&mut self) {
        if let Some(s) = &self.s {
            let _ = s.shutdown(std::net::Shutdown::Write);
            self.shut = true;
        }
    }
    pub fn open(&self) -> bool {
        self.s.is_some()
    }
}

// ---------------------------------------------------------------- single-threaded, stepped

pub struct Step {
    rt: tokio::runtime::Runtime,
    pub d: D,
    pub app: App,
    path: PathBuf,
    listener: Option<tokio::task::JoinHandle<std::io::Result<()>>>,
    pub clients: Vec<Client>,
    taken: Vec<usize>,
    /// client of each connection ID
    ids: BTreeMap<u64, usize>,
    roles: BTreeMap<usize, Role>,
}
impl Drop for Step {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(&self.path);
    }
}

/// connection IDs with their roles, for all connections the server considers open
pub fn probe(d: &D) -> Arc<Mutex<Vec<(u64, Role)>>> {
    let seen = Arc::new(Mutex::new(vec![]));
    let s2 = seen.clone();
    d.enqueue_broadcast(Box::new(move |c: &mut C| {
        let r = (c.id(), role(c.state()));
        app::lock(&s2).push(r);
    }));
    seen
}

impl Step {
    pub fn path(&self) -> &Path {
        &self.path
    }
    pub fn new(app: App, scratch: &Path) -> Result<Step, String> {
        app::take_log();
        let rt = tokio::runtime::Builder::new_current_thread().enable_io().build().map_err(|e| format!("harness: {}", e))?;
        let path = new_path(scratch);
        let d = D::new(&path, app.clone()).map_err(|e| format!("Dispatch::new failed: {}", e))?;
        let d2 = d.clone();
        let listener = rt.spawn(async move { d2.run_listener().await });
        let mut s = Step { rt, d, app, path, listener: Some(listener), clients: vec![], taken: vec![], ids: BTreeMap::new(), roles: BTreeMap::new() };
        s.step()?;
        Ok(s)
    }
    /// let the server do all it can do
    pub fn step(&mut self) -> Result<(), String> {
        use interpose::*;
        let now = || (app::log_len() as u64, READS.load(SeqCst), WRITES.load(SeqCst), ACCEPTED.load(SeqCst));
        self.rt.block_on(async {
            let mut last = now();
            let mut quiet = 0;
            for _ in 0..2_000_000u32 {
                tokio::task::yield_now().await;
                let n = now();
                if n == last {
                    quiet += 1;
                    if quiet >= 6 {
                        return Ok(());
                    }
                } else {
                    quiet = 0;
                    last = n;
                }
            }
            Err("the server does not come to rest".to_string())
        })
    }
    /// everything the server and the clients can do
    pub fn settle(&mut self) -> Result<(), String> {
        loop {
            self.step()?;
            let mut any = false;
            for c in &mut self.clients {
                any |= c.pump();
            }
            if self.clients.iter().any(|c| c.flooded) {
                return Err("the server sends without end".into());
            }
            if !any {
                break;
            }
        }
        crate::tok::panicked()?;
        let p = probe(&self.d);
        self.step()?;
        let seen = std::mem::take(&mut *app::lock(&p));
        self.roles.clear();
        for (id, r) in seen {
            match self.ids.get(&id) {
                Some(k) => {
                    if self.roles.insert(*k, r).is_some() {
                        return Err(format!("a broadcast ran twice on connection {}", id));
                    }
                }
                None => return Err(format!("a broadcast ran on a connection with the unknown ID {}", id)),
            }
        }
        for (k, c) in self.clients.iter().enumerate() {
            if c.eof == self.roles.contains_key(&k) && c.open() {
                return Err(if c.eof { format!("connection {} was closed towards its client but still is in service", k) } else { format!("connection {} has ended but was not closed towards its client", k) });
            }
        }
        Ok(())
    }
    pub fn open(&mut self) -> Result<u64, String> {
        let c = Client::connect(&self.path).map_err(|e| format!("cannot connect to the server: {}", e))?;
        self.step()?;
        let p = probe(&self.d);
        self.step()?;
        let new: Vec<u64> = app::lock(&p).iter().map(|x| x.0).filter(|i| !self.ids.contains_key(i)).collect();
        if new.len() != 1 {
            return Err(format!("{} new connections appeared after one client connected", new.len()));
        }
        self.ids.insert(new[0], self.clients.len());
        self.clients.push(c);
        self.taken.push(0);
        Ok(self.clients.len() as u64 - 1)
    }
    pub fn feed(&mut self, k: u64, b: &[u8]) -> Result<(), String> {
        self.clients[k as usize].queue(b);
        CUR.with(|x| x.set(k));
        let r = self.settle();
        CUR.with(|x| x.set(u64::MAX));
        r
    }
    pub fn role(&self, k: u64) -> Role {
        self.roles.get(&(k as usize)).cloned().unwrap_or(Role::Teardown)
    }
    pub fn take_out(&mut self, k: u64) -> Vec<u8> {
        let k = k as usize;
        let v = self.clients[k].got[self.taken[k]..].to_vec();
        self.taken[k] = self.clients[k].got.len();
        v
    }
    pub fn finish(mut self) -> Result<(), String> {
        self.d.shutdown();
        self.step()?;
        let l = self.listener.take().unwrap();
        if !l.is_finished() {
            return Err("the listener does not end after shutdown()".into());
        }
        match self.rt.block_on(l) {
            Ok(Ok(())) => Ok(()),
            Ok(Err(e)) => Err(format!("the listener failed: {}", e)),
            Err(e) => Err(format!("the listener task died: {}", e)),
        }
    }
}

/// a panic of the library in some task or thread
pub fn panicked() -> Result<(), String> {
    let mut p = crate::util::run::PANICS.lock().unwrap_or_else(|e| e.into_inner());
    if let Some((loc, msg)) = p.first().cloned() {
        p.clear();
        if crate::util::run::is_harness_location(&loc) {
            eprintln!("harness panic at {}: {}", loc, msg);
            std::process::exit(4);
        }
        return Err(format!("panic at {}: {}", loc, msg));
    }
    Ok(())
}
pub fn forget_panics() {
    crate::util::run::PANICS.lock().unwrap_or_else(|e| e.into_inner()).clear();
}

// ---------------------------------------------------------------- multi-threaded

pub struct Srv {
    pub rt: Option<tokio::runtime::Runtime>,
    pub d: D,
    pub app: App,
    pub path: PathBuf,
    pub listener: Option<tokio::task::JoinHandle<std::io::Result<()>>>,
}

/// outcome of waiting for rest
pub enum Rest {
    Yes,
    /// still using the processor without any stimulus
    Busy,
    /// cannot tell (overloaded machine)
    Unknown,
}
fn cpu_time() -> f64 {
    let mut t: libc::timespec = unsafe { std::mem::zeroed() };
    unsafe { libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut t) };
    t.tv_sec as f64 + t.tv_nsec as f64 / 1e9
}
pub fn rest() -> Rest {
    if quiesce::wait(Duration::from_secs(12)) {
        return Rest::Yes;
    }
    let (c, t) = (cpu_time(), Instant::now());
    if quiesce::wait(Duration::from_secs(8)) {
        return Rest::Yes;
    }
    if cpu_time() - c > 0.6 * t.elapsed().as_secs_f64() {
        Rest::Busy
    } else {
        Rest::Unknown
    }
}

impl Srv {
    pub fn start(app: App, scratch: &Path, workers: usize) -> Result<Srv, String> {
        let mut s = Srv::prepare(app, scratch, workers)?;
        s.start_listening()?;
        Ok(s)
    }
    pub fn start_listening(&mut self) -> Result<(), String> {
        self.listen();
        let t = Instant::now();
        while !self.path.exists() {
            if t.elapsed() > Duration::from_secs(20) {
                return Err("the server socket does not appear".into());
            }
            std::thread::sleep(Duration::from_micros(100));
        }
        Ok(())
    }
    pub fn prepare(app: App, scratch: &Path, workers: usize) -> Result<Srv, String> {
        let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(workers).enable_io().build().map_err(|e| format!("harness: {}", e))?;
        let path = new_path(scratch);
        let d = D::new(&path, app.clone()).map_err(|e| format!("Dispatch::new failed: {}", e))?;
        Ok(Srv { rt: Some(rt), d, app, path, listener: None })
    }
    pub fn listen(&mut self) {
        let d2 = self.d.clone();
        self.listener = Some(self.rt.as_ref().unwrap().spawn(async move { d2.run_listener().await }));
    }
    pub fn connect(&self) -> Result<Client, String> {
        // between bind() and listen() connecting is refused
        let t = Instant::now();
        loop {
            match Client::connect(&self.path) {
                Ok(c) => return Ok(c),
                Err(e) if matches!(e.kind(), ErrorKind::WouldBlock | ErrorKind::ConnectionRefused) && t.elapsed() < Duration::from_secs(5) => std::thread::sleep(Duration::from_micros(200)),
                Err(e) => return Err(format!("cannot connect to the server: {}", e)),
            }
        }
    }
    /// tasks of the runtime that have not ended
    pub fn tasks(&self) -> usize {
        self.rt.as_ref().unwrap().metrics().num_alive_tasks()
    }
    pub fn listener_done(&self) -> bool {
        self.listener.as_ref().map_or(true, |l| l.is_finished())
    }
    pub fn listener_result(&mut self) -> Result<std::io::Result<()>, String> {
        let l = self.listener.take().unwrap();
        self.rt.as_ref().unwrap().block_on(l).map_err(|e| format!("the listener task died: {}", e))
    }
}
impl Drop for Srv {
    fn drop(&mut self) {
        if let Some(rt) = self.rt.take() {
            // what is left after an orderly shutdown is a leak
            if cfg!(vt6_asan) {
                crate::interpose::reset();
                self.d.shutdown();
                let t = Instant::now();
                while rt.metrics().num_alive_tasks() > 0 && t.elapsed() < Duration::from_secs(5) {
                    std::thread::sleep(Duration::from_micros(200));
                }
            }
            rt.shutdown_timeout(Duration::from_secs(2));
        }
        let _ = std::fs::remove_file(&self.path);
    }
}
