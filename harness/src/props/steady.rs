//! C31: what the server keeps in memory does not depend on its past.
use crate::app::{self, raw, App, Ident, Raw as Msg, RegClient, RegScreen, Registry};
use crate::ensure;
use crate::refspec::{self, enc};
use crate::sim::hello;
use crate::tok::{self, Client, Step, C};
use crate::util::alloc;
use crate::util::json::J;
use crate::util::report::{fnv, Obs};
use crate::util::rng::Rng;
use crate::util::run::{run_cases, Ctx, Slot};
use std::sync::atomic::Ordering::SeqCst;
use vt6::server::{Dispatch, ScreenIdentity};

struct Unmute;
impl Drop for Unmute {
    fn drop(&mut self) {
        app::MUTE.store(false, SeqCst);
        alloc::TRACK.store(false, SeqCst);
    }
}

fn registry() -> Registry {
    let mut reg = Registry::default();
    for i in 0..5 {
        reg.clients.push(RegClient { ident: Ident::new(&format!("f{}", i), [None, Some("out"), None]), secret: format!("client-secret-{}", i), redeemed: false });
    }
    for i in 0..3 {
        reg.screens.push(RegScreen { id: format!("scr{}", i), stdin_secret: format!("in-{}", i), stdout_secret: format!("out-{}", i), stdin_redeemed: false, stdout_redeemed: false });
    }
    reg
}

const KINDS: &[&str] = &[
    "answered requests", "replies of all sizes", "unknown and invalid messages", "malformed input", "messages in pieces", "client-make and client-end", "clients that connect and are ended",
    "messages from broadcasts", "stdin", "stdout", "broadcasts", "broadcasts from broadcasts", "connections that leave at once", "connections that are refused", "backlogs of messages", "backlogs of stdin",
    "bursts", "clients that come back", "stdin clients that come and go", "stdout clients that come and go",
];

struct Bench {
    srv: Step,
    /// two message clients, one stdin, one stdout
    cs: Vec<Client>,
    n: usize,
}
impl Bench {
    fn connect(&mut self, first: &[u8]) -> Result<Client, String> {
        let mut c = Client::connect(self.srv.path()).map_err(|e| format!("cannot connect to the server: {}", e))?;
        c.queue(first);
        c.pump();
        self.srv.step()?;
        c.pump();
        Ok(c)
    }
    /// until nothing happens any more and everything has been read
    fn settle(&mut self) -> Result<(), String> {
        loop {
            self.srv.step()?;
            let mut any = false;
            for c in &mut self.cs {
                any |= c.pump();
            }
            if !any {
                break;
            }
        }
        for c in &mut self.cs {
            ensure!(!c.eof && c.todo.is_empty(), "a client that stays was disconnected, or the server does not read its input any more");
            // (with what they took up)
            c.sent = Default::default();
            c.got = Default::default();
            c.todo = Default::default();
        }
        Ok(())
    }
    fn unredeem(&self) {
        let mut reg = app::lock(&self.srv.app.0.reg);
        for c in reg.clients.iter_mut() {
            c.redeemed = false;
        }
        for s in reg.screens.iter_mut() {
            s.stdin_redeemed = false;
            s.stdout_redeemed = false;
        }
    }
    fn op(&mut self, kind: usize, r: &mut Rng) -> Result<(), String> {
        self.n += 1;
        let who = self.n % 2;
        match kind {
            0 => {
                // (names that were never asked for before, too)
                let fresh = crate::gen::module(r);
                let m = if r.chance(1, 2) { fresh.as_bytes() } else { *r.pick(&[&b"core1"[..], b"posix1", b"q7", b"test1"]) };
                self.cs[who].queue(&enc(&raw("want", &[&m[..m.len().min(900)]])));
            }
            1 => {
                let n = r.below(960);
                self.cs[who].queue(&enc(&raw("test1.echo", &[&vec![b'e'; n]])));
            }
            2 if r.chance(1, 2) => {
                let fresh = crate::gen::msg_type(r);
                let args: Vec<Vec<u8>> = (0..r.below(4)).map(|_| crate::gen::arg(r, 40)).collect();
                let fresh = if fresh.len() > 200 || fresh.starts_with("test1.") { format!("u{}.v{}", self.n % 9 + 1, "w".repeat(self.n % 50 + 1)) } else { fresh };
                let fresh = if fresh.starts_with("core1.client-make") || refspec::is_eternal(fresh.as_bytes()) { "have".to_string() } else { fresh };
                self.cs[who].queue(&enc(&raw(&fresh, &args.iter().map(|a| &a[..]).collect::<Vec<_>>())));
            }
            2 => self.cs[who].queue(&enc(&raw(*r.pick(&["x9.y", "core1.sub", "test1.fail", "have", "want", "core7.a", "core1.client-end", "posix1.client-hello"]), &[]))),
            3 => {
                let n = r.below(1500);
                self.cs[who].queue(&[*r.pick(&[&b"{x"[..], b"{2|4:want}", b"#", b"{1|", b"{{{{", b"{0|}"]), &vec![*r.pick(b"#{}1"); n], b"x"].concat());
            }
            4 => {
                let m = enc(&raw("want", &[b"core1"]));
                let k = r.below(m.len());
                self.cs[who].queue(&m[..k]);
                self.cs[who].pump();
                self.srv.step()?;
                self.cs[who].queue(&m[k..]);
            }
            5 => {
                let id = if r.chance(1, 2) { format!("f{}x{}", who, self.n % 7) } else { format!("f{}x{}", who, self.n) };
                self.cs[who].queue(&enc(&raw("core1.client-make", &[id.as_bytes(), b"", b"", b""])));
                self.cs[who].queue(&enc(&raw("core1.client-end", &[id.as_bytes()])));
            }
            6 => {
                self.settle()?;
                let id = if r.chance(1, 2) { format!("f{}y", who) } else { format!("f{}y{}", who, self.n) };
                self.cs[who].queue(&enc(&raw("core1.client-make", &[id.as_bytes(), b"", b"", b""])));
                self.cs[who].pump();
                self.srv.step()?;
                self.cs[who].pump();
                let secret = refspec::parse(&self.cs[who].got).ok().and_then(|m| m.args.last().map(|s| String::from_utf8_lossy(s).to_string())).unwrap_or_default();
                let mut c = self.connect(&hello("posix1.client-hello", &secret))?;
                c.queue(&enc(&raw("want", &[b"core1"])));
                c.pump();
                self.cs[who].queue(&enc(&raw("core1.client-end", &[id.as_bytes()])));
                self.cs[who].pump();
                self.srv.step()?;
                c.pump();
                self.srv.step()?;
                c.pump();
                ensure!(c.eof, "the connection of an ended client stays open (secret {:?})", secret);
            }
            7 => {
                let n = r.below(900);
                self.srv.d.enqueue_broadcast(Box::new(move |c: &mut C| {
                    if c.message_connector().is_some() {
                        c.enqueue_message(&Msg(raw("test1.note", &[&vec![b'n'; n]])));
                    }
                }));
            }
            8 => {
                let n = r.below(3000);
                self.srv.d.enqueue_broadcast(Box::new(move |c: &mut C| {
                    if c.state().can_receive_stdin_for_screen(&ScreenIdentity::new("scr0")) {
                        c.enqueue_stdin(&vec![b'i'; n]);
                    }
                }));
            }
            9 => {
                let n = r.below(5000);
                self.cs[3].queue(&vec![b'o'; n]);
            }
            10 => self.srv.d.enqueue_broadcast(Box::new(|_: &mut C| {})),
            11 => self.srv.d.enqueue_broadcast(Box::new(|c: &mut C| {
                if c.state().can_receive_stdin() {
                    c.dispatch().enqueue_broadcast(Box::new(|_: &mut C| {}));
                }
            })),
            12 => {
                let first = *r.pick(&[&b""[..], b"{", b"{2|19:posix1.client-hel"]);
                drop(self.connect(first)?);
            }
            13 if r.chance(1, 2) => {
                let secret = format!("wrong{}", r.next());
                drop(self.connect(&hello(*r.pick(&["posix1.client-hello", "posix1.stdin-hello", "posix1.stdout-hello"]), &secret))?)
            }
            13 => drop(self.connect(*r.pick(&[&b"x"[..], b"{2|19:posix1.client-hello,5:wrong,}", b"{1|4:want,}", b"{2|4:have,2:x1,}"]))?),
            14 => self.srv.d.enqueue_broadcast(Box::new(|c: &mut C| {
                if c.message_connector().is_some() {
                    for _ in 0..40 {
                        c.enqueue_message(&Msg(raw("test1.note", &[&[b'n'; 600]])));
                    }
                }
            })),
            15 => self.srv.d.enqueue_broadcast(Box::new(|c: &mut C| {
                if c.state().can_receive_stdin() {
                    c.enqueue_stdin(&[b'i'; 30_000]);
                }
            })),
            16 => self.cs[who].queue(&enc(&raw("test1.burst", &[b"30", b"500"]))),
            17 => {
                let mut c = self.connect(&hello("posix1.client-hello", "client-secret-4"))?;
                c.queue(&enc(&raw("test1.echo", &[b"hello"])));
                c.pump();
                self.srv.step()?;
                if r.chance(1, 2) {
                    c.pump();
                }
                drop(c);
                self.srv.step()?;
                self.unredeem();
            }
            18 => {
                let c = self.connect(&hello("posix1.stdin-hello", "in-1"))?;
                self.srv.d.enqueue_broadcast(Box::new(|c: &mut C| {
                    if c.state().can_receive_stdin_for_screen(&ScreenIdentity::new("scr1")) {
                        c.enqueue_stdin(&[b'i'; 3000]);
                    }
                }));
                self.srv.step()?;
                drop(c);
                self.srv.step()?;
                self.unredeem();
            }
            _ => {
                let mut c = self.connect(&hello("posix1.stdout-hello", "out-1"))?;
                c.queue(&[b'o'; 2000]);
                c.pump();
                self.srv.step()?;
                drop(c);
                self.srv.step()?;
                self.unredeem();
            }
        }
        self.settle()
    }
}

fn scenario(ctx: &Ctx, i: u64, r: &mut Rng, obs: &mut Obs) -> Result<(), String> {
    app::take_log();
    tok::forget_panics();
    crate::interpose::reset();
    crate::interpose::SNDBUF.store(*r.pick(&[0, 0, 1, 20000]), SeqCst);
    app::MUTE.store(true, SeqCst);
    let _unmute = Unmute;
    let mut b = Bench { srv: Step::new(App::new(registry()), &ctx.scratch)?, cs: vec![], n: 0 };
    for h in [hello("posix1.client-hello", "client-secret-0"), hello("posix1.client-hello", "client-secret-1"), hello("posix1.stdin-hello", "in-0"), hello("posix1.stdout-hello", "out-0")] {
        let c = b.connect(&h)?;
        b.cs.push(c);
    }
    b.settle()?;
    b.unredeem();
    // what will be done, over and over
    let mut kinds: Vec<usize> = vec![(i as usize) % KINDS.len()];
    if (i as usize / KINDS.len()) % 3 == 1 {
        kinds = (0..r.range(2, 6)).map(|_| r.below(KINDS.len())).collect();
    }
    let heavy = kinds.iter().any(|k| matches!(k, 6 | 14..=19));
    let each = if ctx.thorough { 20_000 } else { 2_400 } / if heavy { 4 } else { 1 };
    let what = kinds.iter().map(|k| KINDS[*k]).collect::<Vec<_>>().join(", ");
    // as much pending at one time as there will ever be again
    b.srv.d.enqueue_broadcast(Box::new(|c: &mut C| {
        if c.message_connector().is_some() {
            for _ in 0..60 {
                c.enqueue_message(&Msg(raw("test1.note", &[&[b'n'; 900]])));
            }
        } else if c.state().can_receive_stdin() {
            c.enqueue_stdin(&[b'i'; 60_000]);
        }
    }));
    b.settle()?;
    for k in [0, 1, 3usize] {
        b.cs[k].queue(&[b"{2|10:test1.quiet,900:", &[b'q'; 900][..], b",}"].concat().repeat(if k == 3 { 60 } else { 4 }));
        if k < 2 {
            b.cs[k].queue(b"{2|4:want,1000:");
            b.cs[k].queue(&[b'x'; 1000]);
            b.cs[k].queue(b",}{1|4:want,}");
        }
    }
    b.settle()?;
    // (a vector that doubles its capacity now and then has grown by at least the number of its elements by the end of the fourth phase)
    let (mut before, mut after) = (0, 0);
    alloc::start_tracking();
    let allowed = each as isize * 3 + 2048;
    let mut suspicion = 0;
    for phase in 0..16 {
        if phase == 4 {
            suspicion = after - before;
            if suspicion <= allowed {
                break;
            }
            // a fixed number of spare buffers is filled by now; what grows with the past goes on growing
            before = after;
        }
        for n in 0..each {
            let k = *r.pick(&kinds);
            b.op(k, r).map_err(|e| format!("{} ({})", e, what))?;
            // (more than that is not worth waiting for: with thousands of buffers too many, everything takes long)
            let now = alloc::live();
            ensure!(now < 2 << 20, "{} operations left {} bytes of memory in use that were not before, with the same connections open and nothing pending ({})", phase * each + n + 1, now, what);
        }
        if phase == 0 {
            before = alloc::live();
        }
        if phase == 3 || phase == 15 {
            after = alloc::live();
        }
    }
    tok::panicked()?;
    let grown = after - before;
    obs.current = format!("{} operations of: {}", each, what);
    obs.max("largest_growth_seen", grown.max(0) as u64);
    obs.max(&format!("growth: {}", if kinds.len() == 1 { &what[..] } else { "mixed" }), grown.max(0) as u64);
    obs.count("operations", 4 * each as u64);
    for k in &kinds {
        obs.count(&format!("cases with {}", KINDS[*k]), 1);
    }
    if suspicion > allowed {
        ensure!(grown <= allowed, "after {} operations three times as many again left {} bytes of memory in use that were not before, and twelve times as many {}, with the same connections open and nothing pending ({})", each, suspicion, grown, what);
        obs.count("growth_that_came_to_an_end", 1);
    }
    obs.case(Some(fnv(format!("{} {}", what, r.next()).as_bytes())));
    obs.sample(|| J::Obj(vec![("operations".into(), J::s(&what)), ("growth".into(), J::s(format!("{} bytes in {} operations", grown, 3 * each)))]));
    b.cs.clear();
    drop(_unmute);
    app::take_log();
    b.srv.finish()
}

pub fn c31(ctx: &Ctx, obs: &mut Obs, slot: &Slot) {
    obs.rule = "kinds of operations performed over and over (three times as many after a first phase), with the same connections staying open; non-trivial: distinct cases".into();
    run_cases(ctx, obs, slot, u64::MAX / 2, |i, r, obs| scenario(ctx, i, r, obs));
}
