//! C23: bounded buffering; and the memory part of C20: connection churn leaves no memory behind
use crate::app::{self, raw, App, Ev, Ident, RegClient, RegScreen, Registry};
use crate::ensure;
use crate::props::conv;
use crate::refspec::enc;
use crate::sim::{hello, Role, World};
use crate::tok::{self, Step};
use crate::interpose;
use crate::util::alloc;
use crate::util::json::J;
use crate::util::report::{fnv, Obs};
use crate::util::rng::Rng;
use crate::util::run::{guard, run_cases, Ctx, Slot};
use crate::util::show;
use std::io::{ErrorKind, Read, Write};
use std::os::unix::net::UnixStream;
use std::sync::atomic::Ordering::SeqCst;

fn registry() -> Registry {
    let mut reg = Registry::default();
    for i in 0..8 {
        reg.clients.push(RegClient { ident: Ident::new(&format!("f{}", i), [None, None, None]), secret: format!("client-secret-{}", i), redeemed: false });
        reg.screens.push(RegScreen { id: format!("scr{}", i), stdin_secret: format!("in-{}", i), stdout_secret: format!("out-{}", i), stdin_redeemed: false, stdout_redeemed: false });
    }
    reg
}

// ---------------------------------------------------------------- what is too long

/// the start of something that is longer than a message may be, and contains no further `{`
fn oversized(r: &mut Rng) -> (&'static str, Vec<u8>) {
    let fill = |n: usize, b: u8| vec![b; n];
    match r.below(9) {
        0 => {
            // complete, slightly or much too long
            let k = *r.pick(&[1025usize, 1026, 1027, 1030, 1040, 1100, 2000, 4096, 5000]);
            let over = enc(&raw("test1.echo", &[&fill(1000, b'x')])).len() - 1000;
            let mut n = k - over;
            while enc(&raw("test1.echo", &[&fill(n, b'x')])).len() > k {
                n -= 1;
            }
            ("a complete message of more than 1024 bytes", enc(&raw("test1.echo", &[&fill(n.max(1000), b'x')])))
        }
        1 => {
            let ann = *r.pick(&["1009", "1010", "1025", "2000", "100000", "4294967295", "4294967296", "9223372036854775807"]);
            let mut v = format!("{{2|10:test1.echo,{}:", ann).into_bytes();
            v.extend(fill(r.range(1100, 4000), b'y'));
            ("a long announced argument", v)
        }
        2 => {
            let ann = *r.pick(&["1030", "5000", "99999999", "18446744073709551614"]);
            let mut v = format!("{{1|{}:", ann).into_bytes();
            v.extend(fill(r.range(1100, 4000), b'z'));
            ("a long announced message type", v)
        }
        3 => {
            let ann = *r.pick(&["300", "1000", "512", "99999999", "18446744073709551615"]);
            let mut v = format!("{{{}|4:want,", ann).into_bytes();
            while v.len() < 2000 {
                v.extend_from_slice(b"5:core1,");
            }
            ("many announced arguments", v)
        }
        4 => ("endless digits of the argument count", [b"{".to_vec(), fill(r.range(1100, 3000), *r.pick(&b"123456789"[..]))].concat()),
        5 => ("endless digits of a length", [b"{2|".to_vec(), fill(r.range(1100, 3000), *r.pick(&b"0123456789"[..]))].concat()),
        6 => {
            let mut v = b"{400|4:want,".to_vec();
            while v.len() < 2000 {
                v.extend_from_slice(b"0:,");
            }
            ("many empty arguments", v)
        }
        7 => {
            let mut v = b"{3|10:test1.echo,500:".to_vec();
            v.extend(fill(500, b'a'));
            v.extend_from_slice(b",600:");
            v.extend(fill(r.range(520, 900), b'b'));
            ("two arguments that do not fit together", v)
        }
        _ => {
            let mut v = b"{5|4:want,5:core1,1:x,1:y,".to_vec();
            v.extend(format!("{}:", r.range(985, 1000)).into_bytes());
            v.extend(fill(r.range(1000, 1300), b'b'));
            ("the last argument does not fit", v)
        }
    }
}

fn held_ok(w: &World, c: u64, when: &str) -> Result<(), String> {
    let h = w.held(c);
    ensure!(h < 1024 || w.role(c) == Role::Teardown, "{} bytes of unhandled input are held back {}", h, when);
    Ok(())
}

/// feeds `b` in pieces; returns after how many bytes something was reported as malformed
fn feed(w: &mut World, c: u64, b: &[u8], cuts: &[Vec<u8>], what: &str) -> Result<Option<usize>, String> {
    let mut n = 0;
    let mut bad = None;
    for k in cuts {
        n += k.len();
        guard(|| w.feed(c, k))?;
        let log = app::take_log();
        if bad.is_none() && (w.role(c) == Role::Teardown || log.iter().any(|x| matches!(x.ev, Ev::HandleError { .. } | Ev::Discarded(_)))) {
            bad = Some(n);
        }
        held_ok(w, c, &format!("after {} bytes of {} ({})", n, what, show(&b[..60.min(b.len())])))?;
    }
    Ok(bad)
}

fn limits(r: &mut Rng, obs: &mut Obs) -> Result<(), String> {
    app::take_log();
    let reg = registry();
    let mut w = World::new(App::new(reg));
    let c = w.open();
    let shaking = r.chance(1, 3);
    let mut before = vec![];
    if !shaking {
        guard(|| w.feed(c, &hello("posix1.client-hello", "client-secret-0")))?;
        ensure!(matches!(w.role(c), Role::Msgio(_)), "harness: handshake failed");
        w.take_out(c);
        if r.chance(1, 2) {
            before = enc(&raw("test1.echo", &[b"before"])).repeat(r.range(1, 4));
        }
    }
    let (what, o) = if r.chance(1, 4) { ("garbage", conv::garbage(r)) } else { oversized(r) };
    let exact = what != "garbage";
    let mut b = before.clone();
    b.extend_from_slice(&o);
    let n0 = before.len();
    // cut anywhere, or exactly at the limit
    let cuts = match r.below(4) {
        0 => {
            let k = (n0 + *r.pick(&[1022usize, 1023, 1024, 1025])).min(b.len());
            vec![b[..k].to_vec(), b[k..].to_vec()]
        }
        1 => b.chunks(1).map(|x| x.to_vec()).collect(),
        _ => conv::chunks(r, &b),
    };
    obs.current = format!("{} {}: {}\ncuts {:?}", if shaking { "during the handshake," } else { "" }, what, show(&b), cuts.iter().map(|c| c.len()).collect::<Vec<_>>());
    let bad = feed(&mut w, c, &b, &cuts, what)?;
    if exact {
        let mut limit = 0;
        for k in &cuts {
            limit += k.len();
            if limit >= n0 + 1024 {
                break;
            }
        }
        match bad {
            None => return Err(format!("{} ({} bytes) is not treated as malformed{}", what, o.len(), if shaking { " during the handshake" } else { "" })),
            Some(k) => ensure!(k <= limit, "{} is treated as malformed only after {} bytes", what, k - n0),
        }
        if shaking {
            ensure!(w.role(c) == Role::Teardown, "{} during the handshake does not end the connection", what);
        } else {
            // what follows is handled
            let s = enc(&raw("test1.echo", &[b"sentinel"]));
            guard(|| w.feed(c, &[b"x".to_vec(), s.clone()].concat()))?;
            held_ok(&w, c, "after a complete message")?;
            let out = w.take_out(c);
            let want = [before, s].concat();
            ensure!(out == want, "after {} the server sent {} instead of {}", what, show(&out), show(&want));
        }
        obs.count("oversized_messages", 1);
    }
    obs.max("held_bytes", w.max_held as u64);
    let mut key = b.clone();
    key.extend(cuts.iter().flat_map(|c| (c.len() as u32).to_le_bytes()));
    obs.case(Some(fnv(&key)));
    obs.count(if shaking { "in_handshake" } else { "in_message_mode" }, 1);
    obs.sample(|| J::s(format!("{}: {}", what, show(&b[..b.len().min(200)]))));
    Ok(())
}

// ---------------------------------------------------------------- floods against the Tokio server

struct Raw {
    s: UnixStream,
    buf: Vec<u8>,
}
impl Raw {
    fn connect(srv: &Step) -> Result<Raw, String> {
        let s = UnixStream::connect(srv.path()).map_err(|e| format!("cannot connect: {}", e))?;
        s.set_nonblocking(true).map_err(|e| format!("harness: {}", e))?;
        Ok(Raw { s, buf: vec![0; 1 << 16] })
    }
    /// bytes written; None = closed
    fn write(&mut self, b: &[u8]) -> Option<usize> {
        match self.s.write(b) {
            Ok(n) => Some(n),
            Err(e) if e.kind() == ErrorKind::WouldBlock => Some(0),
            Err(_) => None,
        }
    }
    fn drain(&mut self) -> usize {
        let mut n = 0;
        loop {
            match self.s.read(&mut self.buf) {
                Ok(0) => return n,
                Ok(k) => n += k,
                Err(_) => return n,
            }
        }
    }
}

struct Unmute;
impl Drop for Unmute {
    fn drop(&mut self) {
        app::MUTE.store(false, SeqCst);
        alloc::TRACK.store(false, SeqCst);
    }
}

const BOUND: usize = 256 << 10;

fn flood(ctx: &Ctx, r: &mut Rng, obs: &mut Obs) -> Result<(), String> {
    app::take_log();
    tok::forget_panics();
    crate::interpose::reset();
    let mut srv = Step::new(App::new(registry()), &ctx.scratch)?;
    let n = if r.chance(1, 4) { r.range(2, 4) } else { 1 };
    let mut cs = vec![];
    let mut slow = false;
    for i in 0..n {
        let mut c = Raw::connect(&srv)?;
        srv.step()?;
        let (what, pre, unit): (String, Vec<u8>, Vec<u8>) = match r.below(9) {
            0 => {
                slow = true;
                ("endless {".into(), hello("posix1.client-hello", &format!("client-secret-{}", i)), vec![b'{'; 4096])
            }
            1 => {
                let n = r.range(1, 8000);
                slow = true;
                ("random bytes".into(), hello("posix1.client-hello", &format!("client-secret-{}", i)), r.bytes(n))
            }
            2 => ("stdout".into(), hello("posix1.stdout-hello", &format!("out-{}", i)), { let n = r.range(1, 60000); r.bytes(n) }),
            3 => ("stdin".into(), hello("posix1.stdin-hello", &format!("in-{}", i)), vec![b'x'; 4096]),
            4 => {
                let (w, o) = oversized(r);
                (format!("handshake: {}", w), vec![], o)
            }
            5 => ("requests, replies are read".into(), hello("posix1.client-hello", &format!("client-secret-{}", i)), enc(&raw("want", &[b"core1"])).repeat(200)),
            6 => {
                // one endless thing
                let (w, mut o) = oversized(r);
                let last = *o.last().unwrap();
                o.truncate(1000);
                ("once, endlessly: ".to_string() + w, [hello("posix1.client-hello", &format!("client-secret-{}", i)), o].concat(), vec![last; 16384])
            }
            7 => ("garbage without {".into(), hello("posix1.client-hello", &format!("client-secret-{}", i)), vec![b'#'; 10000]),
            _ => {
                let (w, o) = oversized(r);
                (w.to_string(), hello("posix1.client-hello", &format!("client-secret-{}", i)), [o, b"x".to_vec()].concat())
            }
        };
        let mut k = 0;
        while k < pre.len() {
            match c.write(&pre[k..]) {
                Some(x) => k += x,
                None => break,
            }
            srv.step()?;
        }
        c.drain();
        cs.push((what, c, unit, 0usize, 0usize, false));
    }
    srv.step()?;
    obs.current = format!("clients flooding with: {:?}", cs.iter().map(|c| &c.0).collect::<Vec<_>>());
    let total: usize = if slow { 700_000 } else if ctx.thorough { 24 << 20 } else { 6 << 20 };
    app::MUTE.store(true, SeqCst);
    let _unmute = Unmute;
    alloc::start_tracking();
    let drip = r.chance(1, 6);
    let total = if drip { 60_000 } else { total };
    let mut rounds = 0u64;
    // one client that is always faster than the server
    // (who sends requests without reading the replies fills the send buffer, which is another matter)
    if r.chance(1, 2) && n == 1 && !cs[0].0.starts_with("requests") {
        use std::os::fd::AsRawFd;
        let (_, c, unit, sent, off, ended) = &mut cs[0];
        if let Some(k) = c.write(unit) {
            // (that is inside the first unit)
            *off = k % unit.len();
            interpose::pump(c.s.as_raw_fd(), unit.clone(), *off, total);
            for _ in 0..100_000 {
                srv.step()?;
                c.drain();
                let left = interpose::PUMP_LEFT.load(SeqCst);
                ensure!(alloc::peak() <= BOUND, "after {} bytes of input from a client that always is faster than the server, {} bytes more memory are in use than before", total as i64 - left, alloc::peak());
                // over, or everything is where it belongs and the server has seen it
                if left <= 0 || c.write(&[]).is_none() {
                    break;
                }
                match c.s.take_error() {
                    Ok(None) => {}
                    _ => break,
                }
                let b = interpose::READS.load(SeqCst);
                srv.step()?;
                if interpose::READS.load(SeqCst) == b {
                    break;
                }
            }
            let pumped = total - interpose::PUMP_LEFT.load(SeqCst).max(0) as usize;
            interpose::PUMP_FD.store(-1, SeqCst);
            *off = (*off + pumped) % unit.len();
            *sent += k + pumped;
            let _ = ended;
            obs.count("flood_bytes_faster_than_server", pumped as u64);
        }
    }
    loop {
        let mut any = false;
        for (_, c, unit, sent, off, ended) in cs.iter_mut() {
            if *ended || *sent >= total {
                continue;
            }
            let end = if drip { (*off + 1 + (rounds as usize % 37)).min(unit.len()) } else { unit.len() };
            match c.write(&unit[*off..end]) {
                Some(k) => {
                    *sent += k;
                    *off = (*off + k) % unit.len();
                    any |= k > 0;
                }
                None => *ended = true,
            }
            c.drain();
        }
        srv.step()?;
        rounds += 1;
        ensure!(alloc::peak() <= BOUND, "after {} bytes of input, {} bytes more memory are in use than before", cs.iter().map(|c| c.3).sum::<usize>(), alloc::peak());
        if !any && (cs.iter().all(|c| c.5 || c.3 >= total) || rounds > 3_000_000) {
            break;
        }
    }
    tok::panicked()?;
    let peak = alloc::peak();
    for (what, _, _, sent, _, ended) in &cs {
        if !*ended {
            ensure!(*sent >= total, "the server stopped reading after {} bytes ({})", sent, what);
        }
        obs.count("flood_bytes", *sent as u64);
        obs.count(if *ended { "floods_ended_by_server" } else { "floods_absorbed" }, 1);
    }
    obs.max("flood_bytes_of_one_client", cs.iter().map(|c| c.3).max().unwrap() as u64);
    obs.max("peak_heap_bytes_during_flood", peak as u64);
    obs.case(Some(fnv(&r.next().to_le_bytes())));
    drop(_unmute);
    app::take_log();
    srv.finish()
}

pub fn c23(ctx: &Ctx, obs: &mut Obs, slot: &Slot) {
    obs.rule = "a stream with its segmentation fed to a connection, or a flood (kinds of input of each client)".into();
    run_cases(ctx, obs, slot, u64::MAX / 2, |i, r, obs| {
        if (i / ctx.shards) % 200 == 7 || (i / ctx.shards) % 200 == 107 {
            flood(ctx, r, obs)
        } else {
            limits(r, obs)
        }
    });
}

// ---------------------------------------------------------------- churn (part of C20)

/// connections come and go in every way; afterwards not more memory is in use than before
pub fn churn(ctx: &Ctx, r: &mut Rng, obs: &mut Obs) -> Result<(), String> {
    app::take_log();
    tok::forget_panics();
    crate::interpose::reset();
    let app = App::new(registry());
    let mut srv = Step::new(app.clone(), &ctx.scratch)?;
    app::MUTE.store(true, SeqCst);
    let _unmute = Unmute;
    // some connections that stay
    let mut stay = vec![];
    for i in 0..r.below(3) {
        let mut c = Raw::connect(&srv)?;
        c.write(&hello("posix1.client-hello", &format!("client-secret-{}", 4 + i)));
        srv.step()?;
        stay.push(c);
    }
    let each = if ctx.thorough { 3000 } else { 500 };
    let only = if r.chance(1, 2) { Some(r.below(9)) } else { None };
    let mut base = 0isize;
    for phase in 0..3 {
        if phase == 1 {
            alloc::start_tracking();
        }
        for _ in 0..each {
            {
                let mut reg = app::lock(&app.0.reg);
                for c in reg.clients.iter_mut() {
                    c.redeemed = false;
                }
                for s in reg.screens.iter_mut() {
                    s.stdin_redeemed = false;
                    s.stdout_redeemed = false;
                }
            }
            let mut c = Raw::connect(&srv)?;
            match only.unwrap_or_else(|| r.below(9)) {
                0 => {}
                1 => {
                    c.write(b"garbage");
                    srv.step()?;
                }
                2 => {
                    c.write(b"{2|19:posix1.client-he");
                    srv.step()?;
                }
                3 => {
                    c.write(&hello("posix1.client-hello", "client-secret-0"));
                    srv.step()?;
                }
                4 => {
                    // leaves without reading
                    c.write(&hello("posix1.client-hello", "client-secret-1"));
                    c.write(&enc(&raw("test1.burst", &[b"40", b"900"])));
                    srv.step()?;
                }
                5 => {
                    c.write(&hello("posix1.stdin-hello", "in-0"));
                    srv.step()?;
                }
                6 => {
                    c.write(&hello("posix1.stdout-hello", "out-0"));
                    c.write(b"some output");
                    srv.step()?;
                }
                7 => {
                    c.write(&hello("posix1.client-hello", "client-secret-2"));
                    c.write(&enc(&raw("test1.teardown", &[])));
                    srv.step()?;
                    c.drain();
                }
                _ => {
                    c.write(&hello("posix1.client-hello", "client-secret-3"));
                    c.write(b"{{{{{");
                    let _ = c.s.shutdown(std::net::Shutdown::Write);
                    srv.step()?;
                }
            }
            drop(c);
            srv.step()?;
        }
        if phase == 1 {
            base = alloc::live();
        }
    }
    tok::panicked()?;
    let grown = alloc::live() - base;
    obs.max("live_heap_growth_of_a_churn_phase", grown.max(0) as u64);
    obs.count("churned_connections", 3 * each as u64);
    // a leak of one small object per connection would be at least 16 bytes each
    let per = grown as f64 / each as f64;
    let p = tok::probe(&srv.d);
    srv.step()?;
    let seen = app::lock(&p).len();
    ensure!(seen == stay.len(), "after connections came and went, broadcasts see {} connections instead of {}", seen, stay.len());
    ensure!(per < 12.0, "{} connections came and went and left {} bytes of memory behind ({:.0} per connection{})", each, grown, per, only.map_or(String::new(), |k| format!(", all of kind {}", k)));
    drop(_unmute);
    app::take_log();
    srv.finish()
}
