//! C16-C22: the Tokio server on a multi-threaded runtime, under concurrent clients, broadcasters, delays and faults.
use crate::app::{self, raw, App, Ev, Ident, Items, Raw, Rec, RegClient, RegScreen, Registry, MSG_HEAD};
use crate::ensure;
use crate::interpose;
use crate::model::Model;
use crate::props::{conv, endure};
use crate::refspec::{self, enc};
use crate::sim::{hello, Role};
use crate::tok::{self, Client, Rest, Srv, C, D};
use crate::util::json::J;
use crate::util::quiesce;
use crate::util::report::{fnv, Obs};
use crate::util::rng::Rng;
use crate::util::run::{Ctx, Slot};
use crate::util::show;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Barrier, Mutex};
use std::time::{Duration, Instant};
use vt6::server::{ConnectionState, Dispatch, MessageConnector, ScreenIdentity};

// ---------------------------------------------------------------- delays

const POINTS: [&str; 12] = [
    "broadcasts pending", "connection created", "pool unlocked", "maintenance done", "accepted", "receiver spawned",
    "listener stopped", "broadcast queued", "received", "transmitter woken", "send buffer swapped",
    "application called",
];
/// chance (of 1024) of a delay at each point
static PROB: [AtomicU64; 13] = [const { AtomicU64::new(0) }; 13];
static PASSED: [AtomicU64; 13] = [const { AtomicU64::new(0) }; 13];
static MAX_US: AtomicU64 = AtomicU64::new(0);
static DRAW: AtomicU64 = AtomicU64::new(0);
/// fingerprint of the order in which threads passed the points
static SCHEDULE: AtomicU64 = AtomicU64::new(0);
static INJECTED: AtomicU64 = AtomicU64::new(0);

fn draw() -> u64 {
    let mut z = DRAW.fetch_add(0x9E3779B97F4A7C15, SeqCst);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
fn point(name: &'static str) {
    let k = POINTS.iter().position(|p| *p == name).unwrap_or(12);
    PASSED[k].fetch_add(1, SeqCst);
    let t = quiesce::gettid() as u64 & 31;
    let _ = SCHEDULE.fetch_update(SeqCst, SeqCst, |h| Some((h ^ (k as u64 * 32 + t + 1)).wrapping_mul(0x100000001b3).rotate_left(5)));
    let p = PROB[k].load(SeqCst);
    if p > 0 {
        let z = draw();
        if (z & 1023) < p {
            INJECTED.fetch_add(1, SeqCst);
            let us = (z >> 12) % MAX_US.load(SeqCst).max(1);
            if us < 4 {
                std::thread::yield_now();
            } else {
                quiesce::delay(Duration::from_micros(us));
            }
        }
    }
}
pub fn install() {
    let _ = vt6::server::verif::HOOK.set(point);
    app::set_hook(Some(Box::new(|e| {
        if matches!(e, Ev::Opened | Ev::Closed | Ev::IoError(_) | Ev::MsgNew(..) | Ev::OutNew(..) | Ev::AuthClient(..) | Ev::AuthStdin(..) | Ev::AuthStdout(..) | Ev::Looked) {
            point("application called")
        }
    })));
}
pub fn set_delays(r: &mut Rng, obs: &mut Obs) {
    DRAW.store(r.next(), SeqCst);
    SCHEDULE.store(0, SeqCst);
    let base = *r.pick(&[0u64, 0, 0, 10, 60, 200]);
    for p in &PROB {
        p.store(base, SeqCst);
    }
    // one or two places where everybody lingers
    for _ in 0..r.below(3) {
        PROB[r.below(13)].store(*r.pick(&[300u64, 700, 1024]), SeqCst);
    }
    MAX_US.store(*r.pick(&[3u64, 60, 60, 300, 300, 1200]), SeqCst);
    obs.count("delay_plans", 1);
}
/// and between a look at the registrations and what follows from it
pub fn linger(r: &mut Rng) {
    PROB[11].store(*r.pick(&[0u64, 300, 1024]), SeqCst);
}
pub fn clear_delays() {
    for p in &PROB {
        p.store(0, SeqCst);
    }
}

// ---------------------------------------------------------------- what clients and broadcasters do

#[derive(Clone, Debug)]
enum Act {
    Connect,
    Queue(Vec<u8>),
    /// write up to n of the queued bytes
    Write(usize),
    Read(usize),
    ShutWrite,
    Close,
    Pause(u64),
}
#[derive(Clone, Debug, PartialEq)]
enum Kind {
    /// message client; good: sends well-formed messages only, and none that end its own connection
    Msg { id: String, good: bool },
    In { screen: String },
    Out { screen: String },
    /// never completes a handshake
    Shake,
    /// anything, without credentials
    Hostile,
}
struct Cl {
    kind: Kind,
    c: Option<Client>,
    /// connected and announced before the concurrent part
    early: bool,
    refused: Option<String>,
    script: Vec<Act>,
    hello: usize,
    /// may be ended by somebody else
    endable: bool,
    /// what it sends after its hello, for the replay file
    note: String,
}
#[derive(Clone, Debug)]
enum BAct {
    /// a message for every message connection
    Note(usize),
    /// stdin for a screen
    Stdin(String, usize),
    /// only recorded
    Probe,
    /// enqueues another one
    Nested(u32),
    Pause(u64),
    /// ends the message connections whose client ID is this
    End(String),
    /// ends the connections in the handshake whose ID leaves this remainder
    EndShaking(u64, u64),
}

static BCS: AtomicU64 = AtomicU64::new(1);
fn note_items(bc: u64, len: usize) -> Items {
    let tag = format!("{:06}", bc % 1000000);
    let mut it = raw("test1.note", &[tag.as_bytes(), b""]);
    // a message of exactly `len` bytes if possible
    let mut pad = len.saturating_sub(enc(&it).len());
    loop {
        it[2] = (0..pad).map(|i| b'a' + ((i as u64 + bc) % 26) as u8).collect();
        let n = enc(&it).len();
        if n <= len.max(40) || pad == 0 {
            return it;
        }
        pad -= n - len.max(40);
    }
}
fn stdin_bytes(bc: u64, len: usize) -> Vec<u8> {
    (0..len).map(|i| ((i as u64).wrapping_mul(31).wrapping_add(bc * 7 + (i as u64 >> 8))) as u8).collect()
}

/// one enqueued broadcast action
#[derive(Clone, Debug)]
struct BcRec {
    bc: u64,
    thread: usize,
    nested: bool,
}
static ENQUEUED: Mutex<Vec<BcRec>> = Mutex::new(Vec::new());

fn broadcast(d: &D, thread: usize, nested: bool, a: &BAct) {
    let bc = BCS.fetch_add(1, SeqCst);
    app::lock(&ENQUEUED).push(BcRec { bc, thread, nested });
    match a.clone() {
        BAct::Note(len) => {
            let it = note_items(bc, len);
            d.enqueue_broadcast(Box::new(move |c: &mut C| {
                app::log(Ev::Bc(bc, c.id()));
                if let Some(uid) = c.message_connector().map(|x| x.uid) {
                    app::log(Ev::Enq(uid, enc(&it)));
                    c.enqueue_message(&Raw(it.clone()));
                }
            }));
        }
        BAct::Stdin(s, len) => {
            let data = stdin_bytes(bc, len);
            let sid = ScreenIdentity::new(&s);
            d.enqueue_broadcast(Box::new(move |c: &mut C| {
                app::log(Ev::Bc(bc, c.id()));
                if c.state().can_receive_stdin_for_screen(&sid) {
                    app::log(Ev::StdinEnq(s.clone(), data.clone()));
                    c.enqueue_stdin(&data);
                }
            }));
        }
        BAct::Nested(depth) => {
            let once = AtomicBool::new(false);
            d.enqueue_broadcast(Box::new(move |c: &mut C| {
                app::log(Ev::Bc(bc, c.id()));
                if !once.swap(true, SeqCst) {
                    let a = if depth == 0 { BAct::Note(30) } else { BAct::Nested(depth - 1) };
                    broadcast(&c.dispatch(), thread, true, &a);
                }
            }));
        }
        BAct::End(id) => d.enqueue_broadcast(Box::new(move |c: &mut C| {
            app::log(Ev::Bc(bc, c.id()));
            if c.message_connector().map_or(false, |x| x.identity().client_id().as_str() == id) {
                c.set_state(ConnectionState::Teardown);
            }
        })),
        BAct::EndShaking(m, k) => d.enqueue_broadcast(Box::new(move |c: &mut C| {
            app::log(Ev::Bc(bc, c.id()));
            if c.id() % m == k && matches!(c.state(), ConnectionState::Handshake) {
                c.set_state(ConnectionState::Teardown);
            }
        })),
        _ => d.enqueue_broadcast(Box::new(move |c: &mut C| {
            app::log(Ev::Bc(bc, c.id()));
        })),
    }
}

/// relative frequencies and sizes of what happens
#[derive(Clone)]
pub struct Mix {
    pub msg: usize,
    pub stdin: usize,
    pub stdout: usize,
    pub shake: usize,
    pub hostile: usize,
    pub clients: (usize, usize),
    pub broadcasters: (usize, usize),
    pub bacts: (usize, usize),
    /// weights of Note, Stdin, Probe, Nested, Pause, End, EndShaking
    pub bweights: [usize; 7],
    pub rounds: (usize, usize),
    /// percent of the clients that end their connection themselves
    pub enders: usize,
    /// percent of the cases with injected errors
    pub errors: usize,
    /// percent of the clients that do not read during the concurrent part
    pub deaf: usize,
    pub volume: usize,
    /// percent of the cases with a shutdown in the middle
    pub shutdowns: usize,
    /// percent of message clients that misbehave
    pub bad: usize,
    /// rounds of only a few operations at the same time
    pub duel: bool,
    /// additional connections that do nothing
    pub crowd: usize,
}

#[derive(Default, Clone)]
pub struct Judge {
    pub messages: bool,
    pub stdin: bool,
    pub stdout: bool,
    pub broadcasts: bool,
    pub lifecycle: bool,
    pub shutdown: bool,
    pub service: bool,
}

fn sizes(r: &mut Rng) -> usize {
    match r.below(8) {
        0 => *r.pick(&[509usize, 1018, 1017, 1019, 1024, 1023, 1000, 2036 / 2, 4072 / 16]),
        1 => r.range(36, 60),
        2 => r.range(900, 1024),
        _ => r.range(40, 600),
    }
}
fn stdin_len(r: &mut Rng) -> usize {
    if r.chance(1, 300) {
        return r.range(1_100_000, 3_000_000);
    }
    match r.below(8) {
        0 => *r.pick(&[0usize, 1, 4071, 4072, 4073, 8143, 8144, 8145, 2036]),
        1 => r.range(4000, 20000),
        2 => *r.pick(&[30000usize, 100_000, 12216]),
        3 => 0,
        _ => r.range(1, 1500),
    }
}

fn good_message(r: &mut Rng, screens: &[String], volume: usize) -> Vec<u8> {
    match r.below(16) {
        0..=2 => enc(&raw("want", &[conv::module_name(r).as_bytes()][..].iter().map(|x| &x[..x.len().min(900)]).collect::<Vec<_>>())),
        3..=7 => {
            let n = sizes(r) - 30;
            let b = r.bytes(n);
            enc(&raw("test1.echo", &[&b]))
        }
        8 | 9 => {
            let n = r.range(1, 1 + volume / 3000);
            let k = if r.chance(1, 3) { 990 } else { r.below(900) };
            enc(&raw("test1.burst", &[n.to_string().as_bytes(), k.to_string().as_bytes()]))
        }
        10 => enc(&raw("test1.fail", &[])),
        11 => enc(&raw(*r.pick(&["core1.set", "x9.y", "foo1.bar", "core7.x", "have", "posix1.client-hello"]), &[b"x"])),
        12 | 13 => {
            let n = r.below(300);
            let t = r.next().to_string();
            enc(&raw("test1.note", &[t.as_bytes(), &vec![b'n'; n]]))
        }
        14 if !screens.is_empty() => {
            let s = r.pick(screens).clone();
            let n = r.below(700);
            let b = r.bytes(n);
            enc(&raw("test1.stdin", &[s.as_bytes(), &b]))
        }
        _ => enc(&raw("want", &[b"core1"])),
    }
}
/// what a badly behaved client sends; `id` is its own ID, if it has one
pub fn hostile_bytes(r: &mut Rng, id: &str) -> Vec<u8> {
    match r.below(16) {
        0 => vec![b'{'; r.range(1, 20000)],
        1 => {
            let n = r.range(1, 20000);
            r.bytes(n)
        }
        2 => b"{1|4:want,}".repeat(r.range(1, 800)),
        3 => enc(&raw(*r.pick(&["test1.teardown", "test1.teardown-fail", "test1.teardown-unknown"]), &[])),
        4 => {
            // a reply that cannot be sent
            let k = r.range(990, 1012);
            enc(&vec![format!("m1.{}", "x".repeat(k - 3)).into_bytes()])
        }
        5 => format!("{{{}|4:want,5:core1,}}", r.pick(&["18446744073709551615", "9223372036854775807", "4294967296", "1024", "99999999999999999999999"])).into_bytes(),
        6 => format!("{{2|{}:", r.pick(&["18446744073709551615", "18446744073709551614", "9223372036854775808", "1030"])).into_bytes(),
        7 => {
            let mut v = vec![];
            for _ in 0..r.range(1, 30) {
                v.extend(conv::garbage(r));
            }
            v
        }
        8 => {
            // replies in quantity
            enc(&raw("want", &[b"core1"])).repeat(r.range(1, 900))
        }
        // below itself, itself, or somebody else (which is refused)
        9 | 10 => {
            let other = match r.below(6) {
                0 => id.to_string(),
                1 => "c".to_string(),
                2 => format!("{}z", &id[..id.len() - 1]),
                _ => format!("{}{}", id, r.below(10)),
            };
            if r.chance(1, 3) {
                enc(&raw("core1.client-make", &[other.as_bytes(), b"", b"s", b""]))
            } else {
                enc(&raw("core1.client-end", &[other.as_bytes()]))
            }
        }
        11 | 12 => {
            // everything the library knows, with any number of arguments
            let t = *r.pick(&["want", "have", "nope", "core1.client-make", "core1.client-new", "core1.client-end", "core1.sub", "core1.set", "posix1.client-hello", "posix1.stdin-hello", "posix1.stdout-hello", "posix1.server-hello", "posix1.parent-hello"]);
            let mut v = vec![];
            for _ in 0..r.range(1, 4) {
                let args: Vec<Vec<u8>> = (0..r.below(6)).map(|_| match r.below(5) {
                    0 => vec![],
                    1 => b"core1".to_vec(),
                    2 => format!("{}{}", id, r.below(10)).into_bytes(),
                    3 => vec![b'a'; r.below(300)],
                    _ => { let n = r.below(12); r.bytes(n) }
                }).collect();
                v.extend(enc(&raw(t, &args.iter().map(|a| &a[..]).collect::<Vec<_>>())));
            }
            v
        }
        13 => enc(&conv::msgio_message(r, id, &[])),
        _ => {
            let mut v = enc(&conv::msgio_message(r, id, &[]));
            crate::gen::mutate(r, &mut v);
            v
        }
    }
}

fn cut_up(r: &mut Rng, script: &mut Vec<Act>, b: Vec<u8>) {
    let n = b.len();
    script.push(Act::Queue(b));
    match r.below(4) {
        0 => script.push(Act::Write(usize::MAX)),
        1 => {
            for _ in 0..r.range(1, 6) {
                script.push(Act::Write(1 + r.below(n.max(1))));
            }
        }
        2 => {
            script.push(Act::Write(1 + r.below(n.max(1))));
            script.push(Act::Pause(r.below(300) as u64));
            script.push(Act::Write(usize::MAX));
        }
        _ => script.push(Act::Write(usize::MAX)),
    }
}

fn pause(us: u64) {
    if us > 0 {
        quiesce::delay(Duration::from_micros(us));
    }
}

struct Plan {
    reg: Registry,
    cls: Vec<Cl>,
}
fn plan(r: &mut Rng, m: &Mix) -> Plan {
    let mut reg = Registry::default();
    let n = r.range(m.clients.0, m.clients.1);
    let total = m.msg + m.stdin + m.stdout + m.shake + m.hostile;
    let mut cls = vec![];
    let mut picks = vec![];
    for _ in 0..n {
        picks.push(r.below(total));
    }
    let pick_kind = |k: usize| {
        if k < m.msg {
            0
        } else if k < m.msg + m.stdin {
            1
        } else if k < m.msg + m.stdin + m.stdout {
            2
        } else if k < m.msg + m.stdin + m.stdout + m.shake {
            3
        } else {
            4
        }
    };
    let style = r.below(4);
    let screen_name = |i: usize| match style {
        0 => format!("s{}", "1".repeat(i)),
        1 => format!("{}s", "1".repeat(i)),
        2 => format!("Schirm {} \u{e4}", i),
        _ => format!("scr{}", i),
    };
    let screens: Vec<String> = picks.iter().enumerate().filter(|(_, k)| pick_kind(**k) == 1).map(|(i, _)| screen_name(i)).collect();
    for (i, k) in picks.iter().enumerate() {
        let early = r.chance(1, 2);
        let mut script = vec![Act::Connect];
        let deaf = r.below(100) < m.deaf;
        let (kind, hi, mut body): (Kind, Vec<u8>, Vec<Vec<u8>>) = match pick_kind(*k) {
            0 => {
                let id = format!("c{}x", i);
                let secret = format!("secret-of-{}", id);
                reg.clients.push(RegClient { ident: Ident::new(&id, [None, Some(if r.chance(1, 2) { "s" } else { "a longer screen name" }), None]), secret: secret.clone(), redeemed: false });
                let bad = r.below(100) < m.bad;
                let mut body = vec![];
                let mut vol = 0;
                let k = r.range(0, 6);
                while body.len() < k && vol < m.volume {
                    let b = if bad && r.chance(1, 2) { hostile_bytes(r, &id) } else { good_message(r, &screens, m.volume) };
                    vol += b.len();
                    body.push(b);
                }
                (Kind::Msg { id, good: !bad }, hello("posix1.client-hello", &secret), body)
            }
            1 => {
                let s = screen_name(i);
                reg.screens.push(RegScreen { id: s.clone(), stdin_secret: format!("in-{}", s), stdout_secret: format!("unused-{}", s), stdin_redeemed: false, stdout_redeemed: false });
                (Kind::In { screen: s.clone() }, hello("posix1.stdin-hello", &format!("in-{}", s)), vec![])
            }
            2 => {
                // sometimes a screen that also has a stdin client
                let s = screen_name(i);
                reg.screens.push(RegScreen { id: s.clone(), stdin_secret: format!("unused-{}", s), stdout_secret: format!("out-{}", s), stdin_redeemed: false, stdout_redeemed: false });
                let mut body = vec![];
                let mut vol = 0;
                let k = r.range(0, 8);
                while body.len() < k && vol < m.volume {
                    let b = match r.below(6) {
                        0 => enc(&raw("want", &[b"core1"])),
                        1 => conv::garbage(r),
                        2 => hello("posix1.client-hello", "secret-of-c0x"),
                        3 => {
                            let n = *r.pick(&[1usize, 1023, 1024, 1025, 2047, 2048, 4096, 30000, 100_000]);
                            stdin_bytes(i as u64 * 3 + vol as u64, n.min(m.volume))
                        }
                        _ => {
                            let n = r.range(1, 3000);
                            r.bytes(n)
                        }
                    };
                    vol += b.len();
                    body.push(b);
                }
                (Kind::Out { screen: s.clone() }, hello("posix1.stdout-hello", &format!("out-{}", s)), body)
            }
            3 => {
                let full = hello("posix1.client-hello", "nobody knows");
                let n = if r.chance(1, 2) { 0 } else { r.below(full.len()) };
                (Kind::Shake, full[..n].to_vec(), vec![])
            }
            _ => {
                let h = match r.below(5) {
                    0 => vec![],
                    1 => hello("posix1.client-hello", "guess"),
                    2 => hello("posix1.stdout-hello", "guess"),
                    _ => conv::garbage(r),
                };
                let body = (0..r.below(3)).map(|_| hostile_bytes(r, "h")).collect();
                (Kind::Hostile, h, body)
            }
        };
        let hlen = hi.len();
        let note = body.iter().take(4).map(|b| show(&b[..b.len().min(80)])).collect::<Vec<_>>().join(" ");
        // the hello alone or together with what follows
        if r.chance(1, 2) && !body.is_empty() && !early {
            let b = body.remove(0);
            cut_up(r, &mut script, [hi, b].concat());
        } else {
            script.push(Act::Queue(hi));
            script.push(Act::Write(if r.chance(1, 6) && !early { 1 + r.below(hlen.max(1)) } else { usize::MAX }));
            script.push(Act::Write(usize::MAX));
        }
        for b in body {
            if r.chance(1, 4) {
                script.push(Act::Pause(r.below(800) as u64));
            }
            if !deaf && r.chance(1, 2) {
                script.push(Act::Read(if r.chance(1, 3) { 1 + r.below(500) } else { usize::MAX }));
            }
            cut_up(r, &mut script, b);
        }
        if !deaf {
            for _ in 0..r.below(4) {
                script.push(Act::Pause(r.below(600) as u64));
                script.push(Act::Read(if r.chance(1, 3) { 1 + r.below(5000) } else { usize::MAX }));
            }
        }
        if r.below(100) < m.enders {
            let at = if r.chance(1, 2) { script.len() } else { 1 + r.below(script.len()) };
            script.truncate(at);
            if r.chance(1, 3) {
                script.push(Act::Pause(r.below(1500) as u64));
            }
            script.push(if r.chance(1, 3) { Act::ShutWrite } else { Act::Close });
        }
        cls.push(Cl { kind, c: None, early, refused: None, script, hello: hlen, endable: false, note });
    }
    for k in 0..m.crowd {
        let full = hello("posix1.client-hello", "nobody knows");
        let script = vec![Act::Connect, Act::Queue(full[..k % full.len()].to_vec()), Act::Write(usize::MAX)];
        cls.push(Cl { kind: Kind::Shake, c: None, early: true, refused: None, script, hello: k % full.len(), endable: false, note: String::new() });
    }
    Plan { reg, cls }
}
/// sometimes among several hundred connections
fn crowd(ctx: &Ctx, i: u64, r: &mut Rng, obs: &mut Obs, m: Mix) -> Mix {
    if cfg!(any(miri, vt6_asan, vt6_tsan, vt6_msan)) || (i / ctx.shards) % 16 != 10 {
        return m;
    }
    let n = *r.pick(&[65usize, 70, 130, 150, 260, 300]);
    obs.max("idle_connections_beside", n as u64);
    Mix { crowd: n, bacts: (1, 6), rounds: (1, 3), duel: false, ..m }
}

fn act(srv_path: &std::path::Path, cl: &mut Cl, a: &Act) {
    match a {
        Act::Connect => {
            if cl.c.is_none() {
                match Client::connect(srv_path) {
                    Ok(c) => cl.c = Some(c),
                    Err(e) => cl.refused = Some(e.to_string()),
                }
            }
        }
        Act::Pause(us) => quiesce::delay(Duration::from_micros(*us)),
        _ => {
            if let Some(c) = cl.c.as_mut() {
                match a {
                    Act::Queue(b) => {
                        if !c.closed && !c.shut {
                            c.queue(b)
                        }
                    }
                    Act::Write(n) => {
                        c.write_some(*n);
                    }
                    Act::Read(n) => {
                        c.read_some(*n);
                    }
                    Act::ShutWrite => {
                        c.todo.clear();
                        c.shutdown_write();
                    }
                    Act::Close => c.close(),
                    _ => {}
                }
            }
        }
    }
}

pub struct World {
    srv: Srv,
    cls: Vec<Cl>,
    log: Vec<Rec>,
    bcs: Vec<BcRec>,
    baseline_tasks: usize,
}
pub fn come_to_rest(what: &str) -> Result<bool, String> {
    match tok::rest() {
        Rest::Yes => Ok(true),
        Rest::Busy => Err(format!("the server keeps the processor busy without any stimulus, {}", what)),
        Rest::Unknown => Ok(false),
    }
}

/// runs closures concurrently; Err if one of them never returns although the process is at rest
pub fn concurrently(jobs: Vec<Box<dyn FnOnce() + Send>>) -> Result<(), String> {
    let barrier = Arc::new(Barrier::new(jobs.len().max(1)));
    let hs: Vec<_> = jobs
        .into_iter()
        .map(|j| {
            let b = barrier.clone();
            std::thread::spawn(move || {
                b.wait();
                j()
            })
        })
        .collect();
    let t = Instant::now();
    while !hs.iter().all(|h| h.is_finished()) {
        std::thread::sleep(Duration::from_micros(100));
        if t.elapsed() > Duration::from_secs(5) {
            // deadlocked?
            if quiesce::wait(Duration::from_secs(5)) && !hs.iter().all(|h| h.is_finished()) {
                return Err("a thread is stuck in a call to the dispatch, while the whole process is at rest".into());
            }
            if t.elapsed() > Duration::from_secs(200) {
                eprintln!("harness threads do not finish");
                std::process::exit(4);
            }
        }
    }
    for h in hs {
        if h.join().is_err() {
            tok::panicked()?;
            eprintln!("a harness thread panicked");
            std::process::exit(4);
        }
    }
    Ok(())
}

fn absorb(w: &mut World) {
    w.log.extend(app::take_log());
    w.bcs.extend(std::mem::take(&mut *app::lock(&ENQUEUED)));
}

/// All of: the clients read and write whatever they can, the server does whatever it can.
fn drain(w: &mut World) -> Result<bool, String> {
    loop {
        if !come_to_rest("after the clients stopped")? {
            return Ok(false);
        }
        let mut any = false;
        for c in w.cls.iter_mut().filter_map(|c| c.c.as_mut()) {
            any |= c.pump();
        }
        if w.cls.iter().filter_map(|c| c.c.as_ref()).any(|c| c.flooded) {
            return Err("the server sends without end".into());
        }
        if !any {
            return Ok(true);
        }
    }
}

struct Alive {
    /// connection ID -> role
    conns: BTreeMap<u64, Role>,
}
fn alive(w: &mut World) -> Result<Option<Alive>, String> {
    let p = tok::probe(&w.srv.d);
    if !come_to_rest("after a broadcast")? {
        return Ok(None);
    }
    let v = app::lock(&p).clone();
    let mut conns = BTreeMap::new();
    for (id, r) in v {
        if conns.insert(id, r).is_some() {
            return Err(format!("a broadcast ran twice on connection {}", id));
        }
    }
    Ok(Some(Alive { conns }))
}

/// for the next scenario: how many connections come and go before the concurrent part
static HISTORY: AtomicU64 = AtomicU64::new(0);
/// many connections come and go, one after the other
fn come_and_go(srv: &Srv, n: usize, live0: i64) -> Result<bool, String> {
    let start = Instant::now();
    for k in 0..n {
        let c = srv.connect()?;
        // (their number has to stay far below the limit of file descriptors)
        if k % 32 == 31 {
            let t = Instant::now();
            while interpose::SERVER_LIVE.load(SeqCst) - live0 > 200 {
                if t.elapsed() > Duration::from_secs(10) {
                    return if come_to_rest("after connections came and went")? { Err(format!("after {} connections came and went one after the other, {} file descriptors of connections are open", k, interpose::SERVER_LIVE.load(SeqCst) - live0)) } else { Ok(false) };
                }
                std::thread::sleep(Duration::from_micros(100));
            }
        }
        drop(c);
        if start.elapsed() > Duration::from_secs(120) {
            return Ok(false);
        }
    }
    come_to_rest("after connections came and went")
}

fn index_of(cls: &[Cl], role: &Role) -> Option<usize> {
    cls.iter().position(|c| match (&c.kind, role) {
        (Kind::Msg { id, .. }, Role::Msgio(i)) => i.id == *id,
        (Kind::In { screen }, Role::Stdin(s)) => s == screen,
        _ => false,
    })
}

fn brief(w: &World) -> String {
    let mut s = String::new();
    let named = w.cls.len().min(40);
    for (i, c) in w.cls.iter().take(named).enumerate() {
        let st = c.c.as_ref().map(|c| format!("sent {} got {}{}{}", c.sent.len(), c.got.len(), if c.eof { " eof" } else { "" }, if c.closed || c.shut { " ended by itself" } else { "" }));
        s.push_str(&format!("client {}: {:?}, {}; {}\n", i, c.kind, st.unwrap_or_else(|| "not connected".into()), c.note));
    }
    s
}

pub fn scenario(ctx: &Ctx, r: &mut Rng, obs: &mut Obs, m: &Mix, j: &Judge) -> Result<(), String> {
    install();
    tok::forget_panics();
    interpose::reset();
    app::take_log();
    app::lock(&ENQUEUED).clear();
    let (live0, conns0, apps0) = (interpose::SERVER_LIVE.load(SeqCst), app::CONNECTORS.load(SeqCst), app::APPS.load(SeqCst));
    let accepted0 = interpose::ACCEPTED.load(SeqCst);
    let passed0: Vec<u64> = PASSED.iter().map(|p| p.load(SeqCst)).collect();
    let inj0 = INJECTED.load(SeqCst);
    let partial0 = interpose::PARTIAL_WRITES.load(SeqCst) + interpose::BLOCKED_WRITES.load(SeqCst);

    let p = plan(r, m);
    let odd = r.range(2304, 4140) as i32;
    interpose::SNDBUF.store(*r.pick(&[0, 0, 1, 1, 6000, 20000, odd, odd]), SeqCst);
    let app = App::new(p.reg.clone());
    let mut srv = Srv::prepare(app.clone(), &ctx.scratch, r.range(1, 4))?;
    let sockets0 = sockets();
    srv.start_listening()?;
    let mut w = World { srv, cls: p.cls, log: vec![], bcs: vec![], baseline_tasks: 0 };
    if !come_to_rest("right after starting")? {
        obs.count("inconclusive", 1);
        return Ok(());
    }
    w.baseline_tasks = w.srv.tasks();
    let shutdown = r.below(100) < m.shutdowns;
    let errors = r.below(100) < m.errors;
    set_delays(r, obs);

    // early clients connect and shake hands
    for i in 0..w.cls.len() {
        if w.cls[i].early {
            let path = w.srv.path.clone();
            let cl = &mut w.cls[i];
            while !cl.script.is_empty() {
                let stop = matches!(cl.script[0], Act::Write(usize::MAX));
                let a = cl.script.remove(0);
                act(&path, cl, &a);
                if stop {
                    break;
                }
            }
            if let Some(e) = &cl.refused {
                return Err(format!("a client cannot connect: {}", e));
            }
        }
    }
    if !come_to_rest("after the first clients connected")? {
        obs.count("inconclusive", 1);
        return Ok(());
    }
    // these become old: many others come and go
    let many = match (HISTORY.swap(0, SeqCst), r.below(12)) {
        (0, 0) => *r.pick(&[1usize, 20, 70, 140, 300, 1100]),
        (n, _) => n as usize,
    };
    if many > 0 {
        if many > 2000 {
            clear_delays();
        }
        if !come_and_go(&w.srv, many, live0 + w.cls.iter().filter(|c| c.early).count() as i64)? {
            obs.count("inconclusive", 1);
            return Ok(());
        }
        obs.count("connections_before_the_concurrent_part", many as u64);
        obs.max("age_of_a_connection_in_later_connections", many as u64);
    }
    let before = match alive(&mut w)? {
        Some(a) => a,
        None => return Ok(()),
    };
    absorb(&mut w);
    let screens: Vec<String> = w.cls.iter().filter_map(|c| if let Kind::In { screen } = &c.kind { Some(screen.clone()) } else { None }).collect();
    let mut ended_ids: BTreeSet<String> = BTreeSet::new();

    if errors {
        interpose::FAIL_ERRNO.store(*r.pick(&[libc::EIO, libc::ECONNRESET, libc::EPIPE, libc::ENOBUFS, libc::ETIMEDOUT, libc::ENOMEM, libc::ENOTCONN, libc::ECONNABORTED, libc::EACCES, libc::EINVAL, libc::EBADF, libc::EPERM]), SeqCst);
        if r.chance(1, 2) {
            interpose::FAIL_READ.store(r.range(1, 30) as i64, SeqCst);
        } else {
            interpose::FAIL_WRITE.store(r.range(1, 30) as i64, SeqCst);
        }
    }

    // rounds of concurrent activity
    let rounds = r.range(m.rounds.0, m.rounds.1);
    let mut present = before.conns.keys().copied().collect::<BTreeSet<u64>>();
    let mut checked = 0;
    let mut shut = false;
    let mut any_ended = false;
    for round in 0..rounds {
        let mut jobs: Vec<Box<dyn FnOnce() + Send>> = vec![];
        // clients, spread over threads, each doing a part of its script
        let threads = if m.duel { 2 } else { r.range(1, 3) };
        let duel: Option<Vec<usize>> = if m.duel && !w.cls.is_empty() { Some((0..r.range(1, 2)).map(|_| r.below(w.cls.len())).collect()) } else { None };
        let mut per: Vec<Vec<(usize, Cl)>> = (0..threads).map(|_| vec![]).collect();
        for (i, cl) in std::mem::take(&mut w.cls).into_iter().enumerate() {
            per[i % threads].push((i, cl));
        }
        let back: Arc<Mutex<Vec<(usize, Cl)>>> = Arc::new(Mutex::new(vec![]));
        for mut mine in per {
            let (back, path, seed) = (back.clone(), w.srv.path.clone(), r.next());
            let last = round + 1 == rounds;
            let duel = duel.clone();
            let us = *r.pick(&[0u64, 0, 30, 100, 400]);
            jobs.push(Box::new(move || {
                let mut r = Rng::new(seed, 1);
                let mut budget: Vec<usize> = mine
                    .iter()
                    .map(|(i, c)| match &duel {
                        // one thing, after what it depends on
                        Some(d) => d.contains(i) as usize * 2,
                        None if last => usize::MAX,
                        None => c.script.len() / 3 + r.below(3),
                    })
                    .collect();
                pause(us);
                loop {
                    let todo: Vec<usize> = (0..mine.len()).filter(|k| !mine[*k].1.script.is_empty() && budget[*k] > 0).collect();
                    if todo.is_empty() {
                        break;
                    }
                    let k = *r.pick(&todo);
                    budget[k] -= 1;
                    let a = mine[k].1.script.remove(0);
                    if duel.is_some() && matches!(a, Act::Connect) {
                        budget[k] = 0;
                    }
                    act(&path, &mut mine[k].1, &a);
                }
                app::lock(&back).extend(mine);
            }));
        }
        for t in 0..r.range(m.broadcasters.0, m.broadcasters.1) {
            let d = w.srv.d.clone();
            let mut acts = vec![];
            for _ in 0..r.range(m.bacts.0, m.bacts.1) {
                let mut k = r.below(m.bweights.iter().sum());
                let mut kind = 0;
                while k >= m.bweights[kind] {
                    k -= m.bweights[kind];
                    kind += 1;
                }
                acts.push(match kind {
                    0 => BAct::Note(sizes(r)),
                    1 if !screens.is_empty() => BAct::Stdin(r.pick(&screens).clone(), stdin_len(r)),
                    3 => BAct::Nested(r.below(4) as u32),
                    4 => BAct::Pause(r.below(900) as u64),
                    5 => {
                        let ids: Vec<String> = p.reg.clients.iter().map(|c| c.ident.id.clone()).collect();
                        if ids.is_empty() {
                            BAct::Probe
                        } else {
                            let id = r.pick(&ids).clone();
                            ended_ids.insert(id.clone());
                            BAct::End(id)
                        }
                    }
                    6 => {
                        any_ended = true;
                        let m = *r.pick(&[1u64, 2, 3]);
                        BAct::EndShaking(m, r.below(m as usize) as u64)
                    }
                    _ => BAct::Probe,
                });
            }
            let thread = round * 10 + t;
            let us = *r.pick(&[0u64, 0, 30, 100, 300, 1000]);
            jobs.push(Box::new(move || {
                pause(us);
                for a in &acts {
                    match a {
                        BAct::Pause(us) => quiesce::delay(Duration::from_micros(*us)),
                        a => broadcast(&d, thread, false, a),
                    }
                }
            }));
        }
        if shutdown && round + 1 == rounds {
            shut = true;
            let d = w.srv.d.clone();
            let us = *r.pick(&[0u64, 0, 50, 300, 1000, 3000]);
            let how = r.below(6);
            let early = how == 5 && !present.is_empty();
            jobs.push(Box::new(move || {
                quiesce::delay(Duration::from_micros(us));
                if early {
                    // from inside a broadcast; if no connection is left for it to run on, directly
                    let ran = Arc::new(AtomicBool::new(false));
                    let r2 = ran.clone();
                    d.enqueue_broadcast(Box::new(move |c: &mut C| {
                        r2.store(true, SeqCst);
                        let d: D = c.dispatch();
                        d.shutdown();
                    }));
                    quiesce::delay(Duration::from_millis(2));
                    if ran.load(SeqCst) {
                        return;
                    }
                }
                d.shutdown();
                if how == 4 {
                    d.shutdown();
                }
            }));
        }
        let res = concurrently(jobs);
        let mut b = std::mem::take(&mut *app::lock(&back));
        b.sort_by_key(|x| x.0);
        w.cls = b.into_iter().map(|x| x.1).collect();
        res?;
        if !come_to_rest("after concurrent activity")? {
            obs.count("inconclusive", 1);
            return Ok(());
        }
        // broadcasts are judged now, before anything else happens
        absorb(&mut w);
        if j.broadcasts && !shut {
            let a = match alive(&mut w)? {
                Some(a) => a,
                None => return Ok(()),
            };
            judge_broadcasts(&w, checked, &present, &a).map_err(|e| {
                obs.current = brief(&w);
                e
            })?;
            obs.count("broadcasts_judged", (w.bcs.len() - checked) as u64);
            for b in &w.bcs[checked..] {
                let runs = w.log.iter().filter(|x| matches!(x.ev, Ev::Bc(n, _) if n == b.bc)).count();
                obs.count("broadcast_executions", runs as u64);
            }
            checked = w.bcs.len();
            absorb(&mut w);
            present = a.conns.keys().copied().collect();
        }
        if j.lifecycle && !shut {
            let a = match alive(&mut w)? {
                Some(a) => a,
                None => return Ok(()),
            };
            absorb(&mut w);
            judge_counts(&w, &a, accepted0, live0).map_err(|e| {
                obs.current = brief(&w);
                e
            })?;
        }
    }
    clear_delays();
    interpose::FAIL_READ.store(0, SeqCst);
    interpose::FAIL_WRITE.store(0, SeqCst);

    // shutdown does not depend on the clients: they have not read anything since
    if j.shutdown && shut {
        ensure!(w.srv.listener_done(), "run_listener() has not returned after shutdown(), and the process is at rest");
        let t = w.srv.tasks();
        ensure!(t == 0, "after shutdown(), before the clients have read what was sent to them, {} tasks remain", t);
        let left = interpose::SERVER_LIVE.load(SeqCst) - live0;
        ensure!(left == 0, "after shutdown(), before the clients have read what was sent to them, {} file descriptors of connections are not closed", left);
        obs.count("judged_before_clients_read", 1);
    }
    // everything flows
    if !drain(&mut w)? {
        obs.count("inconclusive", 1);
        return Ok(());
    }
    obs.current = brief(&w);
    if j.service {
        tok::panicked()?;
    }
    let failed = interpose::FAILED.load(SeqCst);
    let a = if shut { Alive { conns: BTreeMap::new() } } else { match alive(&mut w)? { Some(a) => a, None => return Ok(()) } };
    absorb(&mut w);
    if j.messages {
        judge_messages(&w, &a, &p.reg, obs, shut)?;
    }
    if j.stdin {
        judge_stdin(&w, &a, obs, shut)?;
    }
    if j.stdout {
        judge_stdout(&w, obs, failed > 0 || shut)?;
    }
    if j.lifecycle && !shut {
        judge_counts(&w, &a, accepted0, live0)?;
        judge_ended(&w, &a, &ended_ids, any_ended, failed, obs)?;
    }
    if j.service && !shut {
        judge_service(&mut w, obs, failed)?;
    }
    if j.shutdown && !shut {
        w.srv.d.shutdown();
        if !come_to_rest("after shutdown()")? {
            obs.count("inconclusive", 1);
            return Ok(());
        }
        shut = true;
        obs.count("shutdown_when_idle", 1);
    } else if shut {
        obs.count("shutdown_amid_traffic", 1);
    }
    if j.shutdown {
        judge_shutdown(&mut w, obs)?;
    }
    // evidence
    obs.case(Some(SCHEDULE.load(SeqCst) ^ r.next()));
    let sched = SCHEDULE.load(SeqCst);
    obs.sample(|| J::Obj(vec![("clients".into(), J::s(brief(&w))), ("schedule_fingerprint".into(), J::s(format!("{:x}", sched))), ("broadcasts".into(), J::Int(w.bcs.len() as i64)), ("events".into(), J::Int(w.log.len() as i64))]));
    obs.count("events_recorded", w.log.len() as u64);
    obs.count("clients", w.cls.len() as u64);
    obs.count("errors_injected", failed);
    obs.count("delays_injected", INJECTED.load(SeqCst) - inj0);
    obs.count("short_or_blocked_writes", interpose::PARTIAL_WRITES.load(SeqCst) + interpose::BLOCKED_WRITES.load(SeqCst) - partial0);
    for (k, p) in PASSED.iter().enumerate() {
        let n = p.load(SeqCst) - passed0[k];
        if n > 0 && k < POINTS.len() {
            obs.count(&format!("passed: {}", POINTS[k]), n);
        }
    }
    // what is left when everything is gone
    if j.lifecycle && !shut {
        for c in w.cls.iter_mut().filter_map(|c| c.c.as_mut()) {
            c.close();
        }
        if !come_to_rest("after all clients left")? {
            return Ok(());
        }
        absorb(&mut w);
        let n = |f: fn(&Ev) -> bool| w.log.iter().filter(|x| f(&x.ev)).count();
        let (o, c) = (n(|e| *e == Ev::Opened), n(|e| *e == Ev::Closed));
        ensure!(o == c, "after all clients left, {} connections were announced as opened but {} as closed", o, c);
        let left = app::CONNECTORS.load(SeqCst) - conns0;
        ensure!(left == 0, "after all clients left, {} connectors are not released", left);
        let left = interpose::SERVER_LIVE.load(SeqCst) - live0;
        ensure!(left == 0, "after all clients left, {} file descriptors of connections are not closed", left);
        let t = w.srv.tasks();
        ensure!(t <= w.baseline_tasks, "after all clients left, {} tasks remain (before they came: {})", t, w.baseline_tasks);
        let fin = alive(&mut w)?;
        ensure!(fin.map_or(true, |a| a.conns.is_empty()), "after all clients left, broadcasts still see connections");
        obs.count("connections_opened_and_closed", o as u64);
    }
    if j.shutdown {
        // everything is released: tasks, connectors and descriptors now, the application with the dispatch
        let World { mut srv, mut cls, .. } = w;
        let t = srv.tasks();
        ensure!(t == 0, "after shutdown(), {} tasks remain", t);
        let left = app::CONNECTORS.load(SeqCst) - conns0;
        ensure!(left == 0, "after shutdown(), {} connectors are not released", left);
        let left = interpose::SERVER_LIVE.load(SeqCst) - live0;
        ensure!(left == 0, "after shutdown(), {} file descriptors of connections are not closed", left);
        for c in cls.iter_mut().filter_map(|c| c.c.as_mut()) {
            c.close();
        }
        let left = sockets();
        ensure!(left <= sockets0, "after shutdown(), {} sockets are still open (before the listener ran: {})", left, sockets0);
        let rt = srv.rt.take().unwrap();
        drop(srv);
        drop(app);
        let left = app::APPS.load(SeqCst) - apps0;
        ensure!(left == 0, "after shutdown and dropping the dispatch, {} application value(s) are still referenced", left);
        rt.shutdown_timeout(Duration::from_secs(2));
    }
    Ok(())
}
/// sockets this process has open
fn sockets() -> usize {
    let mut n = 0;
    if let Ok(d) = std::fs::read_dir("/proc/self/fd") {
        for e in d.flatten() {
            if std::fs::read_link(e.path()).map_or(false, |l| l.to_string_lossy().starts_with("socket:")) {
                n += 1;
            }
        }
    }
    n
}

// ---------------------------------------------------------------- oracles

fn judge_broadcasts(w: &World, from: usize, before: &BTreeSet<u64>, after: &Alive) -> Result<(), String> {
    let n = |f: fn(&Ev) -> bool| w.log.iter().filter(|x| f(&x.ev)).count();
    let open = n(|e| *e == Ev::Opened).saturating_sub(n(|e| *e == Ev::Closed));
    ensure!(after.conns.len() >= open, "the server is idle, but a broadcast ran on {} of {} open connections only", after.conns.len(), open);
    let mut runs: BTreeMap<u64, Vec<u64>> = BTreeMap::new();
    let mut order: BTreeMap<u64, Vec<u64>> = BTreeMap::new();
    for x in &w.log {
        if let Ev::Bc(bc, conn) = x.ev {
            runs.entry(bc).or_default().push(conn);
            order.entry(conn).or_default().push(bc);
        }
    }
    let none = vec![];
    for b in &w.bcs[from..] {
        let v = runs.get(&b.bc).unwrap_or(&none);
        let set: BTreeSet<u64> = v.iter().copied().collect();
        ensure!(set.len() == v.len(), "broadcast {} ran more than once on a connection (runs on {:?})", b.bc, v);
        for c in before {
            if after.conns.contains_key(c) && !set.contains(c) {
                return Err(format!(
                    "the server is idle, but broadcast {}{} has not run on connection {}, which was open all the time (it ran on {:?})",
                    b.bc,
                    if b.nested { " (enqueued by another broadcast)" } else { "" },
                    c,
                    v
                ));
            }
        }
    }
    // per thread order
    let thread: BTreeMap<u64, usize> = w.bcs[from..].iter().filter(|b| !b.nested).map(|b| (b.bc, b.thread)).collect();
    for (conn, v) in &order {
        let mut last: BTreeMap<usize, u64> = BTreeMap::new();
        for bc in v {
            if let Some(t) = thread.get(bc) {
                let l = last.entry(*t).or_insert(0);
                ensure!(*bc > *l, "on connection {}, broadcast {} ran after broadcast {}, though one thread enqueued them the other way round", conn, bc, l);
                *l = *bc;
            }
        }
    }
    Ok(())
}

fn judge_counts(w: &World, a: &Alive, accepted0: u64, live0: i64) -> Result<(), String> {
    let (mut o, mut c) = (0usize, 0usize);
    for x in &w.log {
        match x.ev {
            Ev::Opened => o += 1,
            Ev::Closed => {
                c += 1;
                ensure!(c <= o, "a connection was announced as closed before it was announced as opened");
            }
            _ => {}
        }
    }
    ensure!(o - c == a.conns.len(), "{} connections were announced as opened and {} as closed, but {} are in service", o, c, a.conns.len());
    let acc = (interpose::ACCEPTED.load(SeqCst) - accepted0) as usize;
    ensure!(acc == 0 || acc == o, "{} connections were accepted, but {} announced as opened", acc, o);
    for (id, r) in &a.conns {
        ensure!(*r != Role::Teardown, "the server is idle, but connection {} was put into teardown and still is there ({} connections in all)", id, a.conns.len());
    }
    let fds = interpose::SERVER_LIVE.load(SeqCst) - live0;
    ensure!(fds <= a.conns.len() as i64, "{} connections are in service, but {} file descriptors of connections are open", a.conns.len(), fds);
    Ok(())
}

fn is_alive(w: &World, a: &Alive, i: usize) -> bool {
    let k = &w.cls[i].kind;
    a.conns.values().any(|r| match (k, r) {
        (Kind::Msg { id, .. }, Role::Msgio(x)) => x.id == *id,
        (Kind::In { screen }, Role::Stdin(s)) => s == screen,
        _ => false,
    })
}

fn judge_messages(w: &World, a: &Alive, reg: &Registry, obs: &mut Obs, shut: bool) -> Result<(), String> {
    let mut md = Model::new(reg.clone());
    let mut conn: BTreeMap<u64, (usize, usize)> = BTreeMap::new();
    let mut handled: BTreeMap<u64, Vec<Items>> = BTreeMap::new();
    for x in &w.log {
        if let Ev::Register(_, s) = &x.ev {
            md.secrets.push_back(s.clone());
        }
    }
    for x in &w.log {
        match &x.ev {
            Ev::MsgNew(uid, ident) => {
                let cl = index_of(&w.cls, &Role::Msgio(ident.clone())).ok_or("harness: unknown client identity")?;
                let c = md.open();
                md.conns[c].role = Role::Msgio(ident.clone());
                md.conns[c].out = enc(&ident.hello());
                conn.insert(*uid, (c, cl));
            }
            Ev::Handled { level, conn: Some(uid), items } if *level == MSG_HEAD => {
                md.handle(conn[uid].0, items.clone());
                handled.entry(*uid).or_default().push(items.clone());
            }
            Ev::Enq(uid, b) => {
                let c = conn[uid].0;
                if matches!(md.conns[c].role, Role::Msgio(_)) {
                    md.conns[c].out.extend_from_slice(b);
                    md.conns[c].replies += 1;
                }
            }
            _ => {}
        }
    }
    for (_, (c, cl)) in &conn {
        let client = w.cls[*cl].c.as_ref().unwrap();
        let want = &md.conns[*c].out;
        let n = client.got.iter().zip(want).take_while(|(x, y)| x == y).count();
        let whole = !shut && is_alive(w, a, *cl) && client.open();
        if n < client.got.len() {
            return Err(format!(
                "client {} ({:?}) read {} bytes; from byte {} on they are {} instead of {}",
                cl,
                w.cls[*cl].kind,
                client.got.len(),
                n,
                show(&client.got[n..(n + 200).min(client.got.len())]),
                show(&want[n.min(want.len())..(n + 200).min(want.len())])
            ));
        }
        if whole && n < want.len() {
            return Err(format!(
                "client {} ({:?}) is connected and the server is idle, but only {} of the {} bytes of messages enqueued to it have arrived (missing: {})",
                cl,
                w.cls[*cl].kind,
                n,
                want.len(),
                show(&want[n..(n + 200).min(want.len())])
            ));
        }
        obs.count("message_bytes_read", client.got.len() as u64);
        obs.count("messages_enqueued", md.conns[*c].replies);
        obs.count(if whole { "streams_complete" } else { "streams_prefix" }, 1);
    }
    // nothing on connections that are not message connections
    for (i, cl) in w.cls.iter().enumerate() {
        if matches!(cl.kind, Kind::Out { .. } | Kind::Shake | Kind::Hostile) {
            if let Some(c) = &cl.c {
                ensure!(c.got.is_empty(), "client {} ({:?}) is no message connection but was sent {}", i, cl.kind, show(&c.got));
            }
        }
    }
    Ok(())
}

fn judge_stdin(w: &World, a: &Alive, obs: &mut Obs, shut: bool) -> Result<(), String> {
    let mut want: BTreeMap<String, Vec<u8>> = BTreeMap::new();
    for x in &w.log {
        if let Ev::StdinEnq(s, b) = &x.ev {
            want.entry(s.clone()).or_default().extend_from_slice(b);
            obs.count("stdin_blocks", 1);
            obs.max("stdin_block_bytes", b.len() as u64);
        }
    }
    let empty = vec![];
    for (i, cl) in w.cls.iter().enumerate() {
        let c = match &cl.c {
            Some(c) => c,
            None => continue,
        };
        match &cl.kind {
            Kind::In { screen } => {
                let want = want.get(screen).unwrap_or(&empty);
                let n = c.got.iter().zip(want).take_while(|(x, y)| x == y).count();
                ensure!(n == c.got.len(), "stdin client {} of {} read {} bytes; from byte {} on they are not the ones enqueued for it (read {}, enqueued {})", i, screen, c.got.len(), n, show(&c.got[n..(n + 60).min(c.got.len())]), show(&want[n.min(want.len())..(n + 60).min(want.len())]));
                if !shut && is_alive(w, a, i) && c.open() {
                    ensure!(n == want.len(), "stdin client {} of {} is connected and the server is idle, but only {} of the {} bytes enqueued have arrived", i, screen, n, want.len());
                    obs.count("stdin_streams_complete", 1);
                }
                obs.count("stdin_bytes_read", n as u64);
            }
            Kind::Out { .. } | Kind::Shake | Kind::Hostile => {
                ensure!(c.got.is_empty(), "client {} ({:?}) was sent {}", i, cl.kind, show(&c.got));
            }
            Kind::Msg { .. } => {
                // stdin bytes would break its message stream
                let whole = crate::sim::split(&c.got);
                if let Err(e) = whole {
                    // an incomplete message at the end is fine if the connection ended
                    let mut k = 0;
                    while let Ok(m) = refspec::parse(&c.got[k..]) {
                        k += m.len;
                    }
                    let cut = matches!(refspec::parse(&c.got[k..]), Err((refspec::Kind::Eof, _))) && c.got.len() - k < 1024;
                    ensure!(cut, "message client {}: {}", i, e);
                }
            }
        }
    }
    Ok(())
}

fn judge_stdout(w: &World, obs: &mut Obs, cut: bool) -> Result<(), String> {
    let mut screen: BTreeMap<u64, String> = BTreeMap::new();
    let mut got: BTreeMap<String, Vec<u8>> = BTreeMap::new();
    for x in &w.log {
        match &x.ev {
            Ev::OutNew(uid, s) => {
                screen.insert(*uid, s.clone());
                got.entry(s.clone()).or_default();
            }
            Ev::OutRecv(uid, b) => {
                got.entry(screen[uid].clone()).or_default().extend_from_slice(b);
                obs.count("stdout_deliveries", 1);
            }
            _ => {}
        }
    }
    for (i, cl) in w.cls.iter().enumerate() {
        if let (Kind::Out { screen }, Some(c)) = (&cl.kind, &cl.c) {
            let sent = &c.sent[cl.hello.min(c.sent.len())..];
            let g = got.remove(screen).unwrap_or_default();
            let n = g.iter().zip(sent).take_while(|(x, y)| x == y).count();
            ensure!(n == g.len(), "the stdout delivered for {} is not what its client wrote: from byte {} on {} instead of {}", screen, n, show(&g[n..(n + 60).min(g.len())]), show(&sent[n.min(sent.len())..(n + 60).min(sent.len())]));
            if !cut {
                ensure!(n == sent.len(), "client {} wrote {} bytes of stdout for {}{}, but only {} were delivered", i, sent.len(), screen, if c.closed || c.shut { " before it disconnected" } else { "" }, n);
                obs.count("stdout_streams_complete", 1);
                if c.closed || c.shut {
                    obs.count("stdout_streams_of_leavers", 1);
                }
            }
            obs.count("stdout_bytes", n as u64);
        }
    }
    if let Some((s, b)) = got.iter().find(|x| !x.1.is_empty()) {
        return Err(format!("stdout was delivered for {}, which has no client: {}", s, show(b)));
    }
    Ok(())
}

/// connections that must have ended have, others have not; errors were reported
fn judge_ended(w: &World, a: &Alive, ended: &BTreeSet<String>, any_ended: bool, failed: u64, obs: &mut Obs) -> Result<(), String> {
    let mut unexplained = 0;
    let mut in_service = 0;
    for (i, cl) in w.cls.iter().enumerate() {
        let c = match &cl.c {
            Some(c) => c,
            None => continue,
        };
        let left = c.closed || c.shut;
        if c.open() && !left && !c.eof {
            in_service += 1;
        }
        if left {
            if c.open() {
                ensure!(c.eof, "client {} ({:?}) shut its connection down, but the server has not closed it", i, cl.kind);
            }
            if matches!(cl.kind, Kind::Msg { .. } | Kind::In { .. }) {
                ensure!(!is_alive(w, a, i), "client {} ({:?}) has disconnected, but broadcasts still see its connection", i, cl.kind);
            }
            obs.count("ended_by_client", 1);
        } else if c.eof {
            let expected = match &cl.kind {
                Kind::Msg { id, good } => !*good || ended.contains(id),
                Kind::Hostile => true,
                _ => false,
            };
            obs.count(if expected { "ended_by_server" } else { "ended_by_error" }, 1);
            if !expected && !any_ended {
                unexplained += 1;
                if unexplained > failed {
                    return Err(format!("the connection of client {} ({:?}) was closed without reason", i, cl.kind));
                }
            }
        }
    }
    ensure!(in_service == a.conns.len(), "{} clients see their connection open, but {} connections are in service", in_service, a.conns.len());
    let reported = w.log.iter().filter(|x| matches!(x.ev, Ev::IoError(_))).count() as u64;
    ensure!(reported >= failed, "{} reads or writes failed, but only {} errors were reported", failed, reported);
    obs.count("io_errors_reported", reported);
    Ok(())
}

/// well-behaved clients are still served, and so are new ones
fn judge_service(w: &mut World, obs: &mut Obs, failed: u64) -> Result<(), String> {
    ensure!(!w.srv.listener_done(), "the listener has stopped");
    let want = enc(&raw("test1.echo", &[b"are you there"]));
    let mut asked = vec![];
    for (i, cl) in w.cls.iter_mut().enumerate() {
        if let (Kind::Msg { good: true, .. }, Some(c)) = (&cl.kind, cl.c.as_mut()) {
            if c.closed || c.shut {
                continue;
            }
            if c.eof {
                if failed == 0 {
                    return Err(format!("the connection of the well-behaved client {} was closed", i));
                }
                continue;
            }
            c.got.clear();
            c.queue(&want);
            asked.push(i);
        }
    }
    // and a new client
    let secret = format!("latecomer{}", BCS.fetch_add(1, SeqCst));
    let ident = Ident::new("Late0", [None, None, None]);
    app::lock(&w.srv.app.0.reg).clients.push(RegClient { ident: ident.clone(), secret: secret.clone(), redeemed: false });
    let mut late = w.srv.connect().map_err(|e| format!("a new client: {}", e))?;
    late.queue(&hello("posix1.client-hello", &secret));
    late.queue(&want);
    late.pump();
    if !drain(w)? {
        return Ok(());
    }
    late.pump();
    let expect = [enc(&ident.hello()), want.clone()].concat();
    ensure!(late.got == expect, "a new client got {} instead of {}", show(&late.got), show(&expect));
    for i in asked {
        let c = w.cls[i].c.as_ref().unwrap();
        ensure!(c.got == want, "the well-behaved client {} asked for an echo and got {}", i, show(&c.got));
        obs.count("clients_still_served", 1);
    }
    obs.count("new_clients_served", 1);
    tok::panicked()?;
    // every well-formed request of a well-behaved client was handled, in order
    absorb(w);
    let mut handled: BTreeMap<u64, Vec<Items>> = BTreeMap::new();
    let mut who: BTreeMap<u64, String> = BTreeMap::new();
    for x in &w.log {
        match &x.ev {
            Ev::MsgNew(uid, i) => {
                who.insert(*uid, i.id.clone());
            }
            Ev::Handled { level, conn: Some(uid), items } if *level == MSG_HEAD => handled.entry(*uid).or_default().push(items.clone()),
            _ => {}
        }
    }
    for (uid, id) in who {
        if let Some(cl) = w.cls.iter().find(|c| c.kind == Kind::Msg { id: id.clone(), good: true }) {
            let c = cl.c.as_ref().unwrap();
            if c.open() && !c.shut && !c.eof {
                let sent = crate::sim::split(&c.sent[cl.hello..]).map_err(|e| format!("harness: {}", e))?;
                let h = handled.remove(&uid).unwrap_or_default();
                ensure!(h == sent, "client {} sent {} messages, but {} were handled, or others", id, sent.len(), h.len());
                obs.count("requests_handled", h.len() as u64);
            }
        }
    }
    late.close();
    Ok(())
}

fn judge_shutdown(w: &mut World, obs: &mut Obs) -> Result<(), String> {
    ensure!(w.srv.listener_done(), "run_listener() has not returned after shutdown(), and the process is at rest");
    match w.srv.listener_result()? {
        Ok(()) => {}
        Err(e) => return Err(format!("run_listener() returned an error after shutdown(): {}", e)),
    }
    ensure!(!w.srv.path.exists() && std::fs::symlink_metadata(&w.srv.path).is_err(), "the server socket is still there after shutdown()");
    ensure!(Client::connect(&w.srv.path).is_err(), "connecting still works after shutdown()");
    for c in w.cls.iter_mut().filter_map(|c| c.c.as_mut()) {
        c.pump();
    }
    absorb(w);
    for (i, cl) in w.cls.iter().enumerate() {
        if let Some(c) = &cl.c {
            if c.open() {
                ensure!(c.eof, "client {} ({:?}) has not been disconnected by shutdown()", i, cl.kind);
                obs.count("clients_disconnected_by_shutdown", 1);
            }
        }
    }
    let n = |f: fn(&Ev) -> bool| w.log.iter().filter(|x| f(&x.ev)).count();
    let (o, c) = (n(|e| *e == Ev::Opened), n(|e| *e == Ev::Closed));
    ensure!(o == c, "after shutdown(), {} connections were announced as opened but {} as closed", o, c);
    Ok(())
}

// ---------------------------------------------------------------- the checks

const BASE: Mix = Mix {
    msg: 5,
    stdin: 2,
    stdout: 2,
    shake: 1,
    hostile: 1,
    clients: (2, 8),
    broadcasters: (0, 3),
    bacts: (1, 8),
    bweights: [4, 2, 2, 1, 2, 0, 0],
    rounds: (1, 2),
    enders: 20,
    errors: 0,
    deaf: 30,
    volume: 12000,
    shutdowns: 0,
    bad: 10,
    duel: false,
    crowd: 0,
};

fn run(ctx: &Ctx, obs: &mut Obs, slot: &Slot, n: u64, j: Judge, f: impl Fn(u64, &mut Rng) -> Mix) {
    crate::util::run::run_cases(ctx, obs, slot, n, |i, r, obs| {
        if i == 0 || (ctx.thorough && (i / ctx.shards) % 400 == 200) {
            HISTORY.store(66_000, SeqCst);
        }
        if endure::due(ctx, i, 30) {
            if j.messages || j.stdin {
                return endure::queue(ctx, r, obs, j.stdin);
            }
            return if j.stdout { endure::output(ctx, r, obs) } else { endure::backlog(ctx, r, obs) };
        }
        let m = f(i, r);
        let m = crowd(ctx, i, r, obs, m);
        scenario(ctx, r, obs, &m, &j)
    });
    clear_delays();
    interpose::reset();
}

pub fn c16(ctx: &Ctx, obs: &mut Obs, slot: &Slot) {
    obs.rule = "an execution of the server with concurrent clients and broadcasters; distinct by the order in which threads passed the instrumented points and by its inputs".into();
    run(ctx, obs, slot, 1_000_000, Judge { messages: true, ..Default::default() }, |i, r| match i % 5 {
        0 if i % 35 == 5 => Mix { msg: 1, stdin: 0, stdout: 0, shake: 0, hostile: 0, clients: (1, 2), broadcasters: (1, 3), bacts: (200, 1500), bweights: [1, 0, 0, 0, 0, 0, 0], deaf: 100, enders: 0, bad: 0, ..BASE },
        0 => Mix { msg: 1, stdin: 0, stdout: 0, shake: 0, hostile: 0, clients: (1, 3), broadcasters: (1, 3), bacts: (5, 40), bweights: [1, 0, 0, 0, 0, 0, 0], deaf: 80, enders: 0, bad: 0, volume: 20000, ..BASE },
        1 => Mix { msg: 8, stdin: 1, deaf: 60, volume: 40000, enders: 5, bad: 0, ..BASE },
        2 => Mix { errors: 40, enders: 30, ..BASE },
        3 => Mix { shutdowns: 30, rounds: (1, 3), ..BASE },
        _ => Mix { clients: (2, 12), rounds: (1, 1 + r.below(4)), ..BASE },
    });
}
pub fn c17(ctx: &Ctx, obs: &mut Obs, slot: &Slot) {
    obs.rule = "an execution of the server in which stdin is enqueued for several screens; distinct by the order in which threads passed the instrumented points and by its inputs".into();
    run(ctx, obs, slot, 1_000_000, Judge { stdin: true, ..Default::default() }, |i, _| match i % 4 {
        0 => Mix { msg: 0, stdin: 1, stdout: 0, shake: 0, hostile: 0, clients: (1, 2), broadcasters: (1, 2), bacts: (3, 30), bweights: [0, 1, 0, 0, 0, 0, 0], deaf: 70, enders: 0, ..BASE },
        1 => Mix { stdin: 10, errors: 20, broadcasters: (1, 3), bweights: [1, 8, 0, 0, 1, 0, 0], ..BASE },
        2 => Mix { stdin: 10, enders: 30, broadcasters: (1, 3), bweights: [1, 8, 0, 1, 1, 0, 0], rounds: (1, 3), ..BASE },
        _ => Mix { stdin: 5, broadcasters: (1, 3), bweights: [2, 8, 0, 0, 1, 0, 0], shutdowns: 10, ..BASE },
    });
}
pub fn c18(ctx: &Ctx, obs: &mut Obs, slot: &Slot) {
    obs.rule = "an execution of the server with stdout clients; distinct by the order in which threads passed the instrumented points and by its inputs".into();
    run(ctx, obs, slot, 1_000_000, Judge { stdout: true, ..Default::default() }, |i, _| match i % 3 {
        0 => Mix { msg: 0, stdin: 0, stdout: 1, shake: 0, hostile: 0, clients: (1, 3), enders: 80, volume: 300_000, ..BASE },
        1 => Mix { stdout: 12, enders: 60, rounds: (1, 3), volume: 60000, ..BASE },
        _ => Mix { stdout: 8, enders: 40, errors: 15, volume: 30000, shutdowns: 10, ..BASE },
    });
}
pub fn c19(ctx: &Ctx, obs: &mut Obs, slot: &Slot) {
    obs.rule = "an execution of the server with concurrent broadcasters; distinct by the order in which threads passed the instrumented points and by its inputs".into();
    run(ctx, obs, slot, 1_000_000, Judge { broadcasts: true, ..Default::default() }, |i, _| match i % 8 {
        // broadcasters that never pause
        7 => Mix { broadcasters: (3, 5), bacts: (200, 800), bweights: [0, 0, 8, 1, 0, 0, 0], clients: (2, 6), rounds: (1, 2), volume: 2000, ..BASE },
        4 | 5 => Mix { duel: true, broadcasters: (1, 1), bacts: (1, 1), rounds: (12, 30), shake: 5, clients: (4, 12), enders: 40, bweights: [1, 0, 3, 1, 0, 0, 0], volume: 1500, ..BASE },
        6 => Mix { duel: true, broadcasters: (1, 3), bacts: (1, 1), rounds: (12, 30), clients: (2, 8), enders: 20, bweights: [1, 1, 3, 1, 0, 0, 0], volume: 3000, ..BASE },
        0 => Mix { broadcasters: (2, 4), bacts: (1, 2), rounds: (8, 14), enders: 10, bweights: [1, 1, 6, 2, 1, 0, 0], volume: 2000, deaf: 10, ..BASE },
        1 => Mix { broadcasters: (1, 2), bacts: (1, 3), rounds: (8, 14), clients: (1, 4), bweights: [2, 0, 4, 4, 1, 0, 0], volume: 2000, enders: 0, ..BASE },
        2 => Mix { broadcasters: (2, 3), bacts: (1, 4), rounds: (5, 10), enders: 60, clients: (4, 10), bweights: [1, 1, 4, 1, 2, 1, 0], ..BASE },
        _ => Mix { broadcasters: (1, 3), bacts: (1, 20), rounds: (2, 4), errors: 20, bweights: [2, 1, 4, 2, 2, 1, 0], ..BASE },
    });
}
/// connections that are ended by a broadcast at the moment they appear, each the only one at its time
fn ended_at_birth(ctx: &Ctx, r: &mut Rng, obs: &mut Obs) -> Result<(), String> {
    install();
    tok::forget_panics();
    interpose::reset();
    app::take_log();
    let srv = Srv::start(App::new(Registry::default()), &ctx.scratch, r.range(2, 4))?;
    // (the socket file is there a moment before connections are accepted)
    if !come_to_rest("right after starting")? {
        obs.count("inconclusive", 1);
        return Ok(());
    }
    let (mut o, mut c) = (0u64, 0u64);
    let rounds = r.range(10, 25);
    for _ in 0..rounds {
        set_delays(r, obs);
        PROB[11].store(*r.pick(&[0u64, 500, 1024]), SeqCst);
        PROB[1].store(*r.pick(&[0u64, 0, 1024]), SeqCst);
        let d = srv.d.clone();
        let n = r.range(1, 12);
        let (us, gap) = (r.below(150) as u64, r.below(40) as u64);
        let path = srv.path.clone();
        let us2 = r.below(150) as u64;
        let cl: Arc<Mutex<Option<Client>>> = Arc::new(Mutex::new(None));
        let cl2 = cl.clone();
        concurrently(vec![
            Box::new(move || {
                pause(us);
                for _ in 0..n {
                    broadcast(&d, 0, false, &BAct::EndShaking(1, 0));
                    pause(gap);
                }
            }),
            Box::new(move || {
                pause(us2);
                *app::lock(&cl2) = Client::connect(&path).ok();
            }),
        ])?;
        clear_delays();
        if !come_to_rest("after a connection was opened")? {
            obs.count("inconclusive", 1);
            return Ok(());
        }
        for x in app::take_log() {
            match x.ev {
                Ev::Opened => o += 1,
                Ev::Closed => {
                    c += 1;
                    ensure!(c <= o, "a connection was announced as closed before it was announced as opened");
                }
                _ => {}
            }
        }
        if o == c {
            obs.count("connections_ended_at_birth", 1);
        }
        let mut k = app::lock(&cl).take().ok_or("a client cannot connect")?;
        k.pump();
        ensure!(k.eof == (o == c), "a connection was announced as {}, but its client sees it {}", if o == c { "closed" } else { "open" }, if k.eof { "closed" } else { "open" });
        k.close();
        if !come_to_rest("after a client left")? {
            return Ok(());
        }
        for x in app::take_log() {
            if x.ev == Ev::Closed {
                c += 1;
            }
        }
        ensure!(o == c, "all clients left; {} connections were announced as opened, {} as closed", o, c);
    }
    app::lock(&ENQUEUED).clear();
    obs.case(Some(SCHEDULE.load(SeqCst) ^ r.next()));
    Ok(())
}

pub fn c20(ctx: &Ctx, obs: &mut Obs, slot: &Slot) {
    obs.rule = "an execution of the server under connection churn; distinct by the order in which threads passed the instrumented points and by its inputs".into();
    crate::util::run::run_cases(ctx, obs, slot, 1_000_000, |i, r, obs| {
        if i == 0 || (ctx.thorough && (i / ctx.shards) % 400 == 200) {
            HISTORY.store(*r.pick(&[66_000u64, 70_000]), SeqCst);
        }
        let m = match (i / ctx.shards) % 4 {
            _ if i == 0 => Mix { clients: (6, 10), enders: 0, rounds: (2, 3), broadcasters: (2, 2), bacts: (4, 8), bweights: [3, 3, 1, 1, 0, 3, 1], volume: 3000, ..BASE },
            _ if (i / ctx.shards) % 60 == 5 => return crate::props::flood::churn(ctx, r, obs),
            _ if (i / ctx.shards) % 12 == 7 => return ended_at_birth(ctx, r, obs),
            0 => Mix { enders: 90, clients: (4, 16), shake: 4, hostile: 3, broadcasters: (0, 1), volume: 1500, ..BASE },
            1 => Mix { errors: 90, enders: 20, clients: (2, 6), broadcasters: (1, 2), bweights: [6, 3, 1, 0, 1, 0, 0], ..BASE },
            2 => Mix { enders: 40, bad: 50, broadcasters: (1, 2), bweights: [3, 2, 1, 0, 1, 3, 4], clients: (3, 10), ..BASE },
            _ if r.chance(1, 3) => Mix { duel: true, broadcasters: (1, 2), bacts: (1, 3), rounds: (8, 20), shake: 5, clients: (4, 12), enders: 40, bweights: [0, 0, 1, 0, 1, 1, 6], volume: 1500, ..BASE },
            _ => Mix { enders: 60, hostile: 3, rounds: (1, 4), ..BASE },
        };
        let m = crowd(ctx, i, r, obs, m);
        scenario(ctx, r, obs, &m, &Judge { lifecycle: true, ..Default::default() })
    });
    clear_delays();
    interpose::reset();
}
/// a listener that is shut down before or while it starts
fn early_shutdown(ctx: &Ctx, r: &mut Rng, obs: &mut Obs) -> Result<(), String> {
    install();
    tok::forget_panics();
    interpose::reset();
    app::take_log();
    set_delays(r, obs);
    let apps0 = app::APPS.load(SeqCst);
    let mut srv = Srv::prepare(App::new(Registry::default()), &ctx.scratch, r.range(1, 4))?;
    let kind = r.below(3);
    let mut c = None;
    match kind {
        0 => {
            for _ in 0..r.range(1, 3) {
                srv.d.shutdown();
            }
            srv.listen();
        }
        1 => {
            // at the same time
            let d = srv.d.clone();
            let us = r.below(400) as u64;
            let t = std::thread::spawn(move || {
                pause(us);
                d.shutdown();
            });
            pause(r.below(300) as u64);
            srv.listen();
            if r.chance(1, 2) {
                pause(r.below(200) as u64);
                c = Client::connect(&srv.path).ok();
            }
            t.join().unwrap();
        }
        _ => {
            srv.listen();
            pause(r.below(200) as u64);
            srv.d.shutdown();
        }
    }
    obs.current = format!("shutdown() {}", ["before run_listener()", "while run_listener() starts", "right after run_listener() was spawned"][kind]);
    if !come_to_rest("after an early shutdown()")? {
        obs.count("inconclusive", 1);
        return Ok(());
    }
    clear_delays();
    let mut w = World { srv, cls: vec![], log: vec![], bcs: vec![], baseline_tasks: 0 };
    judge_shutdown(&mut w, obs)?;
    if let Some(mut c) = c {
        c.pump();
        ensure!(c.eof, "a client that connected while the server was shut down is still connected");
    }
    let World { mut srv, .. } = w;
    ensure!(srv.tasks() == 0, "after shutdown(), {} tasks remain", srv.tasks());
    let rt = srv.rt.take();
    drop(srv);
    let left = app::APPS.load(SeqCst) - apps0;
    ensure!(left == 0, "after shutdown and dropping the dispatch, {} application value(s) are still referenced", left);
    drop(rt);
    obs.case(Some(SCHEDULE.load(SeqCst) ^ kind as u64));
    obs.count("early_shutdowns", 1);
    Ok(())
}

/// somebody else has removed the socket file by the time of the shutdown
fn unlinked(ctx: &Ctx, r: &mut Rng, obs: &mut Obs) -> Result<(), String> {
    install();
    tok::forget_panics();
    interpose::reset();
    app::take_log();
    clear_delays();
    let (live0, conns0, apps0) = (interpose::SERVER_LIVE.load(SeqCst), app::CONNECTORS.load(SeqCst), app::APPS.load(SeqCst));
    let n = r.range(0, 6);
    let mut reg = Registry::default();
    for i in 0..n {
        reg.clients.push(RegClient { ident: Ident::new(&format!("u{}", i), [None, None, None]), secret: format!("u{}", i), redeemed: false });
    }
    let mut srv = Srv::start(App::new(reg), &ctx.scratch, r.range(1, 4))?;
    if !come_to_rest("right after starting")? {
        obs.count("inconclusive", 1);
        return Ok(());
    }
    set_delays(r, obs);
    let mut cs = vec![];
    for i in 0..n {
        let mut c = srv.connect()?;
        if r.chance(2, 3) {
            c.queue(&hello("posix1.client-hello", &format!("u{}", i)));
            let b = r.bytes(300);
            for _ in 0..r.below(40) {
                c.queue(&enc(&raw("test1.echo", &[&b])));
            }
            c.write_some(usize::MAX);
        }
        cs.push(c);
    }
    if r.chance(1, 2) && !come_to_rest("after clients connected")? {
        obs.count("inconclusive", 1);
        return Ok(());
    }
    std::fs::remove_file(&srv.path).map_err(|e| format!("the server socket cannot be removed: {}", e))?;
    obs.current = format!("{} clients; the socket file was removed by somebody else before shutdown()", n);
    srv.d.shutdown();
    if !come_to_rest("after shutdown()")? {
        obs.count("inconclusive", 1);
        return Ok(());
    }
    clear_delays();
    ensure!(srv.listener_done(), "run_listener() has not returned after shutdown(), with the socket file removed before");
    let t = srv.tasks();
    ensure!(t == 0, "after shutdown() with the socket file removed before, {} tasks remain", t);
    for (i, c) in cs.iter_mut().enumerate() {
        c.pump();
        ensure!(c.eof, "client {} has not been disconnected by shutdown(), with the socket file removed before", i);
    }
    let log = app::take_log();
    let n = |f: fn(&Ev) -> bool| log.iter().filter(|x| f(&x.ev)).count();
    let (o, c) = (n(|e| *e == Ev::Opened), n(|e| *e == Ev::Closed));
    ensure!(o == c, "after shutdown() with the socket file removed before, {} connections were announced as opened but {} as closed", o, c);
    let left = app::CONNECTORS.load(SeqCst) - conns0;
    ensure!(left == 0, "after shutdown() with the socket file removed before, {} connectors are not released", left);
    let left = interpose::SERVER_LIVE.load(SeqCst) - live0;
    ensure!(left == 0, "after shutdown() with the socket file removed before, {} file descriptors of connections are not closed", left);
    let rt = srv.rt.take();
    drop(srv);
    let left = app::APPS.load(SeqCst) - apps0;
    ensure!(left == 0, "after shutdown and dropping the dispatch, {} application value(s) are still referenced", left);
    drop(rt);
    tok::panicked()?;
    obs.case(Some(SCHEDULE.load(SeqCst) ^ r.next()));
    obs.count("shutdowns_without_socket_file", 1);
    obs.count("clients_disconnected_by_shutdown", cs.len() as u64);
    Ok(())
}

/// a listener whose path is taken
fn occupied(ctx: &Ctx, r: &mut Rng, obs: &mut Obs) -> Result<(), String> {
    install();
    clear_delays();
    tok::forget_panics();
    interpose::reset();
    app::take_log();
    let mut srv = Srv::prepare(App::new(Registry::default()), &ctx.scratch, r.range(1, 2))?;
    let path = srv.path.clone();
    let kind = r.below(6);
    let target = path.with_extension("target");
    let mut other: Option<Srv> = None;
    let mut unix = None;
    let content = r.bytes(300);
    let what = ["a file", "a directory", "a socket of another server", "a socket of another program", "a dangling symlink", "a socket nobody listens on"][kind];
    obs.current = format!("the socket path is {}", what);
    match kind {
        0 => std::fs::write(&path, &content).map_err(|e| format!("harness: {}", e))?,
        1 => {
            std::fs::create_dir(&path).map_err(|e| format!("harness: {}", e))?;
            std::fs::write(path.join("inside"), &content).map_err(|e| format!("harness: {}", e))?;
        }
        2 => {
            // two dispatches with the same path, one of them with connected clients
            let mut o = Srv::prepare(App::new(Registry { clients: vec![RegClient { ident: Ident::new("o1", [None, None, None]), secret: "o1".into(), redeemed: false }], screens: vec![] }), &ctx.scratch, 1)?;
            o.d = D::new(&path, o.app.clone()).map_err(|e| format!("Dispatch::new failed: {}", e))?;
            o.path = path.clone();
            o.start_listening()?;
            other = Some(o);
        }
        3 => unix = Some(std::os::unix::net::UnixListener::bind(&path).map_err(|e| format!("harness: {}", e))?),
        4 => std::os::unix::fs::symlink(&target, &path).map_err(|e| format!("harness: {}", e))?,
        _ => drop(std::os::unix::net::UnixListener::bind(&path).map_err(|e| format!("harness: {}", e))?),
    }
    let ident = || {
        use std::os::unix::fs::MetadataExt;
        std::fs::symlink_metadata(&path).map(|m| (m.ino(), m.mode(), m.len(), m.mtime(), m.mtime_nsec())).ok()
    };
    let before = ident();
    let mut early = None;
    if let Some(o) = &other {
        let mut c = o.connect()?;
        c.queue(&hello("posix1.client-hello", "o1"));
        c.pump();
        early = Some(c);
        if !come_to_rest("after a client connected")? {
            return Ok(());
        }
    }
    srv.listen();
    let down = r.chance(1, 3);
    if down {
        srv.d.shutdown();
    }
    if !come_to_rest("after a listener failed")? {
        obs.count("inconclusive", 1);
        return Ok(());
    }
    ensure!(srv.listener_done(), "run_listener() has not returned although the socket path is {}", what);
    ensure!(srv.listener_result()?.is_err(), "run_listener() succeeded although the socket path is {}", what);
    if r.chance(1, 2) {
        srv.d.shutdown();
    }
    ensure!(ident() == before, "a listener that found {} at its socket path has changed it", what);
    match kind {
        0 => ensure!(std::fs::read(&path).ok().as_ref() == Some(&content), "a listener changed the file at its socket path"),
        1 => ensure!(std::fs::read(path.join("inside")).ok().as_ref() == Some(&content), "a listener changed the directory at its socket path"),
        2 => {
            let o = other.as_mut().unwrap();
            let mut c = early.take().unwrap();
            let m = enc(&raw("test1.echo", &[b"still there"]));
            c.queue(&m);
            c.pump();
            let mut c2 = o.connect()?;
            c2.queue(&hello("posix1.client-hello", "wrong"));
            c2.pump();
            if !come_to_rest("after a listener failed")? {
                return Ok(());
            }
            c.pump();
            c2.pump();
            let want = [enc(&Ident::new("o1", [None, None, None]).hello()), m].concat();
            ensure!(c.got == want && !c.eof && c2.eof, "a listener that found the socket of another server has disturbed it");
            o.d.shutdown();
            if !come_to_rest("after shutdown()")? {
                return Ok(());
            }
            ensure!(o.listener_done() && ident().is_none(), "the other server cannot be shut down any more");
        }
        3 => {
            let c = std::os::unix::net::UnixStream::connect(&path);
            ensure!(c.is_ok() && unix.as_ref().unwrap().accept().is_ok(), "a listener disturbed the socket of another program");
        }
        4 => ensure!(std::fs::symlink_metadata(&target).is_err(), "a listener followed a dangling symlink at its socket path"),
        _ => {}
    }
    tok::panicked()?;
    let n = app::take_log().iter().filter(|x| matches!(x.ev, Ev::Opened)).count();
    ensure!(n <= 2, "connections were announced by a listener that failed");
    drop(srv);
    drop(other);
    let _ = std::fs::remove_file(&path);
    let _ = std::fs::remove_file(path.join("inside"));
    let _ = std::fs::remove_dir(&path);
    let _ = std::fs::remove_file(&target);
    obs.case(Some(fnv(&r.next().to_le_bytes())));
    obs.count(&format!("path taken by {}", what), 1);
    Ok(())
}

pub fn c21(ctx: &Ctx, obs: &mut Obs, slot: &Slot) {
    obs.rule = "an execution of the server with a shutdown; distinct by the order in which threads passed the instrumented points and by its inputs".into();
    crate::util::run::run_cases(ctx, obs, slot, 1_000_000, |i, r, obs| {
        let m = match (i / ctx.shards) % 9 {
            8 => return unlinked(ctx, r, obs),
            0 => return early_shutdown(ctx, r, obs),
            1 => return occupied(ctx, r, obs),
            2 => Mix { shutdowns: 0, shake: 4, enders: 10, ..BASE },
            3 => Mix { shutdowns: 100, deaf: 100, msg: 8, volume: 60000, clients: (2, 6), broadcasters: (1, 3), bweights: [4, 3, 1, 1, 1, 0, 0], ..BASE },
            4 => Mix { shutdowns: 100, clients: (4, 14), shake: 4, enders: 30, ..BASE },
            5 => Mix { shutdowns: 100, enders: 50, bad: 40, hostile: 3, broadcasters: (1, 2), bweights: [3, 1, 2, 1, 2, 2, 1], ..BASE },
            6 => Mix { shutdowns: 100, errors: 40, enders: 20, ..BASE },
            _ => Mix { shutdowns: 70, clients: (0, 3), rounds: (1, 2), volume: 3000, ..BASE },
        };
        let m = crowd(ctx, i, r, obs, m);
        scenario(ctx, r, obs, &m, &Judge { shutdown: true, ..Default::default() })
    });
    clear_delays();
    interpose::reset();
}
pub fn c22(ctx: &Ctx, obs: &mut Obs, slot: &Slot) {
    obs.rule = "an execution of the server with hostile clients among well-behaved ones; distinct by the order in which threads passed the instrumented points and by its inputs".into();
    crate::util::run::run_cases(ctx, obs, slot, 1_000_000, |i, r, obs| {
        let m = match i / ctx.shards % 6 {
            // without sockets and threads, thus many more inputs
            1 | 3 | 5 => {
                clear_delays();
                if (i / ctx.shards) % 300 == 3 && !cfg!(any(miri, vt6_asan, vt6_tsan, vt6_msan)) {
                    return endure::service(r, obs);
                }
                for _ in 0..4 {
                    conv::tortured(r, obs)?;
                }
                return Ok(());
            }
            0 => Mix { msg: 10, hostile: 4, shake: 2, bad: 60, clients: (3, 12), volume: 40000, ..BASE },
            2 => Mix { msg: 10, hostile: 4, bad: 70, enders: 40, clients: (3, 12), volume: 40000, errors: 20, ..BASE },
            _ => Mix { msg: 6, stdin: 3, stdout: 3, hostile: 6, bad: 50, clients: (3, 10), broadcasters: (1, 2), ..BASE },
        };
        if i == 0 {
            HISTORY.store(66_000, SeqCst);
        }
        let m = crowd(ctx, i, r, obs, m);
        scenario(ctx, r, obs, &m, &Judge { service: true, ..Default::default() })
    });
    clear_delays();
    interpose::reset();
}
