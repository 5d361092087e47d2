//! C28: everything that needs no server, called without any oracle but the tool that runs this program (Miri, AddressSanitizer,
//! ThreadSanitizer). Small inputs, since Miri is slow; the exits of every call are used, so that nothing is left unread.
use crate::app::App;
use crate::driver;
use crate::gen;
use crate::interpose::{self, RandPlan};
use crate::props::{codec, conv, nostd};
use crate::sim::{hello, World};
use crate::util::report::{fnv, Obs};
use crate::util::rng::Rng;
use crate::util::run::{guard, run_cases, CaseResult, Ctx, Slot};
use crate::util::show;
use std::fmt::Write;
use std::sync::atomic::Ordering::SeqCst;
use std::sync::Mutex;
use vt6::client::Environment;
use vt6::common::core::msg::{DecodeMessage, Message, MessageFormatter};
use vt6::common::core::*;
use vt6::msg::core::*;
use vt6::msg::posix::*;
use vt6::msg::{Have, Nope, Want};
use vt6::server::{ClientCredentials, ClientIdentity, ScreenCredentials, ScreenIdentity};

/// one thing to do under a tool; made ahead by an ordinary program, since making it takes Miri longer than doing it
pub enum Job {
    Codecs { pad: usize, input: Vec<u8> },
    Views { threads: usize, input: Vec<u8> },
    Format { room: usize, op: u64, args: Vec<Vec<u8>> },
    Talk { reg: u64, act: bool, conns: Vec<Vec<Vec<u8>>> },
    Secrets { many: bool, chunk: usize, eintr: u64, id: Vec<u8> },
    Discover { threads: usize, input: Vec<u8> },
}
use Job::*;

struct W(Vec<u8>);
impl W {
    fn n(&mut self, n: u64) {
        self.0.extend(n.to_le_bytes());
    }
    fn b(&mut self, b: &[u8]) {
        self.n(b.len() as u64);
        self.0.extend(b);
    }
}
struct R<'a>(&'a [u8]);
impl R<'_> {
    fn n(&mut self) -> u64 {
        let (a, b) = self.0.split_at(8);
        self.0 = b;
        u64::from_le_bytes(a.try_into().unwrap())
    }
    fn u(&mut self) -> usize {
        self.n() as usize
    }
    fn b(&mut self) -> Vec<u8> {
        let n = self.u();
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        a.to_vec()
    }
}

impl Job {
    fn write(&self, w: &mut W) {
        match self {
            Codecs { pad, input } => {
                w.n(0);
                w.n(*pad as u64);
                w.b(input);
            }
            Views { threads, input } => {
                w.n(1);
                w.n(*threads as u64);
                w.b(input);
            }
            Format { room, op, args } => {
                w.n(2);
                w.n(*room as u64);
                w.n(*op);
                w.n(args.len() as u64);
                args.iter().for_each(|a| w.b(a));
            }
            Talk { reg, act, conns } => {
                w.n(3);
                w.n(*reg);
                w.n(*act as u64);
                w.n(conns.len() as u64);
                for c in conns {
                    w.n(c.len() as u64);
                    c.iter().for_each(|k| w.b(k));
                }
            }
            Secrets { many, chunk, eintr, id } => {
                w.n(4);
                w.n(*many as u64);
                w.n(*chunk as u64);
                w.n(*eintr);
                w.b(id);
            }
            Discover { threads, input } => {
                w.n(5);
                w.n(*threads as u64);
                w.b(input);
            }
        }
    }
    fn read(r: &mut R) -> Job {
        match r.n() {
            0 => Codecs { pad: r.u(), input: r.b() },
            1 => Views { threads: r.u(), input: r.b() },
            2 => Format { room: r.u(), op: r.n(), args: (0..r.u()).map(|_| r.b()).collect() },
            3 => Talk { reg: r.n(), act: r.n() == 1, conns: (0..r.u()).map(|_| (0..r.u()).map(|_| r.b()).collect()).collect() },
            4 => Secrets { many: r.n() == 1, chunk: r.u(), eintr: r.n(), id: r.b() },
            _ => Discover { threads: r.u(), input: r.b() },
        }
    }
    fn name(&self) -> &'static str {
        match self {
            Codecs { .. } => "inputs_to_the_codecs",
            Views { .. } => "messages_viewed",
            Format { .. } => "messages_formatted",
            Talk { .. } => "conversations",
            Secrets { .. } => "credentials_generated",
            Discover { .. } => "discoveries",
        }
    }

    /// `little`: for Miri
    fn gen(r: &mut Rng, little: bool) -> Job {
        let small = |r: &mut Rng| -> Vec<u8> {
            let cap = if little { if r.chance(1, 12) { 1100 } else { 90 } } else { 4096 };
            for _ in 0..50 {
                let v = nostd::input(r);
                if v.len() <= cap {
                    return v;
                }
            }
            vec![b'{']
        };
        match r.below(16) {
            0..=4 => Codecs { pad: r.below(9), input: small(r) },
            5..=7 => {
                let (t, a) = codec::typedish(r);
                let mut v = gen::wire(&t, &a);
                if r.chance(1, 4) {
                    gen::mutate(r, &mut v);
                }
                v.truncate(if little { 300 } else { 5000 });
                Views { threads: if r.chance(1, 6) { 3 } else { 1 }, input: v }
            }
            8 => Format { room: r.below(if little { 150 } else { 1300 }), op: r.next(), args: (0..gen::nargs(r).min(12)).map(|_| gen::arg(r, 40)).collect() },
            9..=12 => {
                let seed = r.next();
                let reg = conv::registry(&mut Rng::new(seed, 0));
                let n = r.range(1, 3);
                let mut conns = vec![];
                for k in 0..n {
                    let boundary = !little && r.chance(1, 6);
                    let mut b = conv::stream(r, &reg, boundary);
                    if k > 0 && r.chance(1, 2) {
                        b = hello("posix1.client-hello", &reg.clients[r.below(reg.clients.len())].secret);
                        b.extend(conv::garbage(r));
                    }
                    b.truncate(if little { 400 } else { 6000 });
                    let mut cuts = conv::chunks(r, &b);
                    if little && cuts.len() > 12 {
                        let rest = cuts.split_off(11).concat();
                        cuts.push(rest);
                    }
                    conns.push(cuts);
                }
                Talk { reg: seed, act: r.chance(1, 3), conns }
            }
            13 => Secrets { many: r.chance(1, 3), chunk: r.below(9), eintr: r.next() & r.next(), id: gen::client_id(r).into_bytes() },
            _ => {
                let mut v = match r.below(5) {
                    0 => small(r),
                    1 => vec![],
                    _ => gen::wire("posix1.parent-hello", &[gen::client_id(r).into_bytes(), gen::client_id(r).into_bytes(), gen::arg(r, 30)]),
                };
                if r.chance(1, 5) {
                    gen::mutate(r, &mut v);
                }
                v.truncate(1100);
                Discover { threads: if r.chance(1, 3) { 2 } else { 1 }, input: v }
            }
        }
    }
}

/// text that must be UTF-8, as every &str must
#[derive(Default)]
struct Text(usize);
pub static INVALID: Mutex<Option<String>> = Mutex::new(None);
fn valid(s: &str) -> usize {
    // (a verdict on the bytes, which the compiler cannot presume)
    let b = std::hint::black_box(s.as_bytes());
    if std::str::from_utf8(b).is_err() {
        *INVALID.lock().unwrap_or_else(|e| e.into_inner()) = Some(show(b));
    }
    b.len()
}
impl Write for Text {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 += valid(s);
        Ok(())
    }
}

fn parallel<T: Send>(n: usize, f: impl Fn() -> T + Sync) -> Vec<T> {
    if n == 1 {
        return vec![f()];
    }
    std::thread::scope(|s| (0..n).map(|_| s.spawn(&f)).collect::<Vec<_>>().into_iter().filter_map(|h| h.join().ok()).collect())
}

/// renderings and typed views of one buffer, held at the same time
fn look(v: &[u8]) -> usize {
    let mut s = Text::default();
    match Message::parse(v) {
        Ok((m, n)) => {
            let t = m.parsed_type();
            valid(t.as_str());
            let args: Vec<&[u8]> = m.arguments().collect();
            let _ = write!(s, "{} {:?} {} {:?} {} {}", m, m, n, t, t, args.len());
            macro_rules! typed {
                ($($t:ty),*) => { $( if let Some(x) = <$t>::decode_message(&m) { let _ = write!(s, "{:?}", x); } )* };
            }
            typed!(Want, Have, Nope, ClientMake, ClientNew, ClientEnd, ClientHello, ParentHello, ServerHello, StdinHello, StdoutHello);
            for a in args {
                let (x, y, z) = (ClientID::decode_argument(a), ModuleVersion::decode_argument(a), ScopedIdentifier::decode_argument(a));
                x.as_ref().map(|x| valid(x.as_str()));
                y.as_ref().map(|y| valid(y.module().as_str()));
                z.as_ref().map(|z| valid(z.as_str()) + valid(z.module().name().as_str()) + valid(z.member().as_str()));
                <&str>::decode_argument(a).map(valid);
                Identifier::decode_argument(a).map(|x| valid(x.as_str()));
                ModuleIdentifier::decode_argument(a).map(|x| valid(x.as_str()));
                MessageType::decode_argument(a).map(|x| valid(x.as_str()));
                let _ = write!(s, "{:?}{:?}{:?}", x, y, z);
            }
        }
        Err(e) => {
            let _ = write!(s, "{} {:?}", e, e);
        }
    }
    s.0
}

fn talk(reg: u64, act: bool, conns: &[Vec<Vec<u8>>]) {
    let reg = conv::registry(&mut Rng::new(reg, 0));
    let mut w = World::new(App::new(reg));
    for cuts in conns {
        let c = w.open();
        for x in cuts {
            w.feed(c, x);
            if act {
                w.broadcast(Box::new(|conn| {
                    let _ = conn.state().type_name();
                    let _ = conn.id();
                }));
            }
        }
    }
    let _ = w.take_out(0);
}

/// discovery of the terminal, its result moved and read from several threads
fn discover(threads: usize, input: &[u8]) -> bool {
    unsafe {
        let mut p = [0i32; 2];
        assert_eq!(libc::pipe(p.as_mut_ptr()), 0);
        let fd = libc::fcntl(p[0], libc::F_DUPFD, 60);
        libc::close(p[0]);
        let n = libc::write(p[1], input.as_ptr() as *const libc::c_void, input.len());
        assert_eq!(n, input.len() as isize);
        libc::close(p[1]);
        if fd != 60 {
            if fd >= 0 {
                libc::close(fd);
            }
            return false;
        }
    }
    let _ = guard(|| {
        let Ok(env) = Environment::discover() else { return };
        let look = |e: &Environment| {
            let mut s = Text::default();
            match e.parse() {
                Ok(x) => {
                    let _ = write!(s, "{:?}", x.server_socket_path());
                }
                Err(x) => {
                    let _ = write!(s, "{} {:?}", x, x);
                }
            }
            s.0
        };
        if threads == 1 || input.len() % 2 == 0 {
            look(&env);
        }
        let env = Box::new(env);
        parallel(threads, || look(&env));
    });
    unsafe {
        if libc::fcntl(60, libc::F_GETFD) != -1 {
            // C24's business
            libc::close(60);
        }
    }
    true
}

fn secrets(id: &str) -> usize {
    let c = ClientCredentials::generate();
    let s = ScreenCredentials::generate();
    let d = c.clone();
    drop(c);
    let e = s.clone();
    drop(s);
    let i = ClientID::parse(id).map(|i| ClientIdentity::new(&i).clone());
    let j = ScreenIdentity::new(id);
    let mut t = Text::default();
    let _ = write!(t, "{} {} {} {:?} {:?}", d.secret(), e.stdin_secret(), e.stdout_secret(), i.is_some(), j);
    t.0
}

fn perform(j: &Job, obs: &mut Obs) {
    let r = match j {
        Codecs { pad, input } => {
            // exactly as long as it has to be, at any alignment
            let mut b = vec![b'|'; *pad];
            b.extend_from_slice(input);
            let b = b.into_boxed_slice();
            obs.count("bytes_to_the_codecs", input.len() as u64);
            guard(|| {
                driver::run(&b[*pad..]);
            })
        }
        Views { threads, input } => {
            let input: Box<[u8]> = input[..].into();
            guard(|| {
                parallel(*threads, || look(&input));
            })
        }
        Format { room, op, args } => {
            let mut buf = vec![0xa5u8; *room].into_boxed_slice();
            guard(|| {
                let mut f = MessageFormatter::new(&mut buf, "core1.x", args.len());
                for (i, a) in args.iter().enumerate() {
                    match (op >> (2 * (i % 8))) & 3 {
                        0 | 1 => f.add_argument(&a[..]),
                        2 => f.add_argument(&(a.len() as u64).wrapping_mul(0x9E3779B97F4A7C15)),
                        _ => f.add_argument(&Some(&(a.len() as i8))),
                    }
                }
                let _ = f.finalize();
            })
        }
        Talk { reg, act, conns } => {
            let r = guard(|| talk(*reg, *act, conns));
            crate::app::take_log();
            obs.count("bytes_in_conversations", conns.iter().flatten().map(|k| k.len() as u64).sum());
            r
        }
        Secrets { many, chunk, eintr, id } => {
            if !cfg!(miri) {
                *interpose::RAND.lock().unwrap_or_else(|e| e.into_inner()) = RandPlan { data: id.repeat(40), chunk: *chunk, eintr: *eintr, ..Default::default() };
                interpose::RAND_MODE.store(2, SeqCst);
            }
            let id = String::from_utf8_lossy(id);
            let r = guard(|| {
                parallel(if *many { 3 } else { 1 }, || secrets(&id));
            });
            interpose::RAND_MODE.store(0, SeqCst);
            r
        }
        Discover { threads, input } => {
            if !discover(*threads, input) {
                obs.count("descriptor 60 not to be had", 1);
            }
            Ok(())
        }
    };
    obs.count(j.name(), 1);
    if r.is_err() {
        // C22's business
        obs.count("panics", 1);
    }
}

/// VT6_JOBS names a file of jobs; without VT6_TOOL they are made and written there, otherwise they are read and done
pub fn c28(ctx: &Ctx, obs: &mut Obs, slot: &Slot) {
    obs.rule = "one input, message, conversation, discovery or generation of secrets executed under a tool, or one scenario with a running server; distinct by content".into();
    let file = std::env::var("VT6_JOBS").ok();
    let tool = std::env::var("VT6_TOOL").is_ok();
    if let (Some(f), false) = (&file, tool) {
        let mut w = W(vec![]);
        let mut r = Rng::new(ctx.seed, ctx.shard);
        let n = if ctx.thorough { 6000 } else { 600 };
        for _ in 0..n {
            Job::gen(&mut r, true).write(&mut w);
        }
        std::fs::write(f, w.0).unwrap();
        return;
    }
    let mut ready = vec![];
    if let Some(f) = &file {
        let b = std::fs::read(f).unwrap();
        let mut rd = R(&b);
        while !rd.0.is_empty() {
            ready.push(Job::read(&mut rd));
        }
    }
    let mut k = 0;
    run_cases(ctx, obs, slot, u64::MAX / 2, |_, r, obs| -> CaseResult {
        let j = match file {
            Some(_) => {
                k += 1;
                match ready.get(k - 1) {
                    Some(_) => std::mem::replace(&mut ready[k - 1], Secrets { many: false, chunk: 0, eintr: 0, id: vec![] }),
                    None => return Err("harness: no more jobs".into()),
                }
            }
            None => Job::gen(r, false),
        };
        let mut w = W(vec![]);
        j.write(&mut w);
        if !cfg!(miri) {
            obs.current = show(&w.0);
        }
        perform(&j, obs);
        if let Some(x) = INVALID.lock().unwrap_or_else(|e| e.into_inner()).take() {
            return Err(format!("the library gave out a &str that is not UTF-8: {}", x));
        }
        obs.case(Some(if cfg!(miri) { k as u64 * 1000 + ctx.seed * 100 + ctx.shard } else { fnv(&w.0) }));
        Ok(())
    });
}
