//! Long and large: connections with very many messages, very many connections, very long queues. (Limits and counters that
//! only matter after a long time or at a large size show up nowhere else.)
use crate::app::{self, raw, App, Ev, Ident, Items, Raw, RegClient, RegScreen, Registry};
use crate::ensure;
use crate::lock::Lock;
use crate::props::live;
use crate::refspec::enc;
use crate::sim::{hello, Role, World};
use crate::tok::{self, Client, Srv, C};
use crate::util::quiesce;
use crate::util::report::{fnv, Obs};
use crate::util::rng::Rng;
use crate::util::run::{guard, Ctx};
use crate::util::show;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use vt6::server::{Dispatch, ScreenIdentity};

const LONG_FAIL: &str = "test1.fail-because-of-something-that-takes-a-while-to-explain-and-is-therefore-a-rather-long-message-type-name-nobody-expects";

/// whether case `i` shall be a long one: now and then, early enough for the quick check
pub fn due(ctx: &Ctx, i: u64, period: u64) -> bool {
    let slow = cfg!(any(miri, vt6_asan, vt6_tsan, vt6_msan));
    !slow && (i / ctx.shards) % period == 4
}

fn start(ctx: &Ctx, r: &mut Rng, reg: Registry) -> Result<Option<Srv>, String> {
    live::install();
    live::clear_delays();
    tok::forget_panics();
    crate::interpose::reset();
    app::take_log();
    let srv = Srv::start(App::new(reg), &ctx.scratch, r.range(1, 4))?;
    Ok(live::come_to_rest("right after starting")?.then_some(srv))
}
fn one_each() -> Registry {
    Registry {
        clients: vec![RegClient { ident: Ident::new("e1", [None, None, None]), secret: "e1".into(), redeemed: false }],
        screens: vec![RegScreen { id: "escr".into(), stdin_secret: "ein".into(), stdout_secret: "eout".into(), stdin_redeemed: false, stdout_redeemed: false }],
    }
}

// ---------------------------------------------------------------- C12, C13, C22: one connection, more than 65536 messages or errors

pub fn conversation(r: &mut Rng, obs: &mut Obs, errors: bool) -> Result<(), String> {
    let reg = one_each();
    let mut l = Lock::new(reg);
    let c = l.open()?;
    l.feed(c, &hello("posix1.client-hello", "e1"))?;
    let total = r.range(66_000, 72_000);
    let (mut done, mut bytes) = (0usize, 0usize);
    while done < total {
        let mut b = vec![];
        let n = r.range(1000, 4000);
        for _ in 0..n {
            let k = r.below(8);
            if errors && r.below(50) != 0 {
                b.extend_from_slice(*r.pick(&[&b"{x"[..], b"{", b"{1|", b"{2|4:want}", b"{0|}", b"{1|4:want,", b"{01|", b"{1:", b"{ ", b"{9|1:-,", b"{1|2:w2,}"]));
            } else {
                b.extend(enc(&match k {
                    0 => raw("want", &[b"core1"]),
                    1 => raw("want", &[]),
                    2 => raw("q7.x", &[]),
                    3 => raw(*r.pick(&["test1.fail", "test1.fail", LONG_FAIL]), &[b"why"]),
                    _ => raw("test1.echo", &[(done as u32 + n as u32).to_string().as_bytes()]),
                }));
            }
        }
        if errors {
            b.extend_from_slice(b"x");
        }
        done += n;
        bytes += b.len();
        l.trace.clear();
        let cut = r.below(b.len());
        l.feed(c, &b[..cut])?;
        l.feed(c, &b[cut..])?;
    }
    // something that must be handled
    l.feed(c, &enc(&raw("want", &[b"posix1"])))?;
    obs.case(Some(fnv(&(bytes as u64).to_le_bytes())));
    obs.max(if errors { "parse_errors_on_one_connection" } else { "messages_on_one_connection" }, done as u64);
    obs.max("bytes_on_one_connection", bytes as u64);
    l.finish()
}

/// the same without any judgement but that of service (C22)
pub fn service(r: &mut Rng, obs: &mut Obs) -> Result<(), String> {
    let mut w = World::new(App::new(one_each()));
    let c = w.open();
    w.feed(c, &hello("posix1.client-hello", "e1"));
    w.take_out(c);
    let errors = r.chance(1, 2);
    let total = r.range(66_000, 70_000);
    let unit = if errors { *r.pick(&[&b"{x"[..], b"{", b"{1|9:4", b"{0|}"]) } else { b"{1|4:want,}" };
    let n = r.range(2000, 5000);
    let b = unit.repeat(n);
    app::MUTE.store(true, SeqCst);
    let mut res = Ok(());
    for k in 0..total / n + 1 {
        obs.current = format!("{} times {}, after {} of them", n, show(unit), k * n);
        res = guard(|| w.feed(c, &b));
        w.take_out(c);
        if res.is_err() {
            break;
        }
    }
    app::MUTE.store(false, SeqCst);
    res.map_err(|e| format!("{} after very many {} of a client", e, if errors { "malformed messages" } else { "messages" }))?;
    obs.case(Some(fnv(&(total as u64).to_le_bytes())));
    obs.max("requests_of_one_client", total as u64);
    Ok(())
}

// ---------------------------------------------------------------- C14, C15: several hundred clients

pub fn family(ctx: &Ctx, r: &mut Rng, obs: &mut Obs, ends: bool) -> Result<(), String> {
    let n = *r.pick(&[70usize, 140, 270, 300]);
    let mut reg = Registry::default();
    let mut add = |id: String| reg.clients.push(RegClient { ident: Ident::new(&id, [None, Some("s"), None]), secret: format!("of {}", id), redeemed: false });
    // the one who asks, many below one of its descendants, and bystanders
    add("r".into());
    for i in 0..n {
        add(format!("ra{}", i));
    }
    for i in 0..6 {
        add(format!("rb{}", i));
    }
    add("s".into());
    let all: Vec<String> = reg.clients.iter().map(|c| c.ident.id.clone()).collect();
    let mut l = Lock::tokio(reg, &ctx.scratch)?;
    let mut conns = BTreeMap::new();
    let unconnected = r.below(all.len());
    for (k, id) in all.iter().enumerate() {
        if k == unconnected && k != 0 {
            continue;
        }
        let c = l.open()?;
        l.feed(c, &hello("posix1.client-hello", &format!("of {}", id)))?;
        conns.insert(id.clone(), c);
    }
    let root = conns["r"];
    // what is taken, or not
    for _ in 0..6 {
        let id = match r.below(4) {
            0 => all[1 + r.below(n)].clone(),
            1 => format!("ra{}", n + r.below(1000)),
            2 => "ra".into(),
            _ => format!("rc{}", r.below(100)),
        };
        l.feed(root, &enc(&raw("core1.client-make", &[id.as_bytes(), b"", b"x", b""])))?;
        obs.case(Some(fnv(format!("{} {}", n, id).as_bytes())));
    }
    if ends {
        for id in ["rb", "ra", "r"] {
            l.feed(root, &enc(&raw("core1.client-end", &[id.as_bytes()])))?;
            obs.case(Some(fnv(format!("{} end {}", n, id).as_bytes())));
        }
        let left = (0..conns.len() as u64).filter(|c| *l.role(*c) != Role::Teardown).count();
        ensure!(left <= 4, "harness: {} connections are left in the model", left);
        // and all of them can be registered again
        for id in ["ra", "ra1", "rb2"] {
            l.feed(root, &enc(&raw("core1.client-make", &[id.as_bytes(), b"", b"", b""])))?;
        }
    }
    for c in [conns.get("s"), conns.get("r"), conns.get("rb3")].into_iter().flatten() {
        l.feed(*c, &enc(&raw("test1.echo", &[b"still here"])))?;
    }
    obs.max("connections_at_the_same_time", conns.len() as u64);
    l.finish()
}

// ---------------------------------------------------------------- C16, C17: long queues, many small pieces

fn finish_reading(c: &mut Client) -> Result<bool, String> {
    let mut idle = 0;
    let t = Instant::now();
    loop {
        if c.pump() {
            idle = 0;
        } else {
            idle += 1;
            quiesce::delay(Duration::from_micros(30));
        }
        if idle > 100 {
            if !live::come_to_rest("while a slow client reads")? {
                return Ok(false);
            }
            if !c.pump() {
                return Ok(true);
            }
        }
        if t.elapsed() > Duration::from_secs(60) {
            return Ok(false);
        }
    }
}
fn first_difference(got: &[u8], want: &[u8]) -> String {
    let n = got.iter().zip(want).take_while(|(a, b)| a == b).count();
    format!("{} bytes instead of {}, differing from byte {} on", got.len(), want.len(), n)
}

pub fn queue(ctx: &Ctx, r: &mut Rng, obs: &mut Obs, stdin: bool) -> Result<(), String> {
    let Some(srv) = start(ctx, r, one_each())? else {
        obs.count("inconclusive", 1);
        return Ok(());
    };
    let odd = r.range(2304, 4140) as i32;
    crate::interpose::SNDBUF.store(*r.pick(&[0, 1, 20000, odd]), SeqCst);
    let mut c = srv.connect()?;
    c.queue(&if stdin { hello("posix1.stdin-hello", "ein") } else { hello("posix1.client-hello", "e1") });
    c.pump();
    if !live::come_to_rest("after a handshake")? {
        obs.count("inconclusive", 1);
        return Ok(());
    }
    app::MUTE.store(true, SeqCst);
    // many small pieces to a client that reads from time to time, or a few thousand large ones to one that does not read
    let many = r.chance(1, 2);
    let total = if many { r.range(66_000, 70_000) } else if stdin { r.range(60, 120) } else { r.range(6000, 9000) };
    let mut want: Vec<u8> = if stdin { vec![] } else { enc(&Ident::new("e1", [None, None, None]).hello()) };
    let (mut done, mut most) = (0usize, 0usize);
    while done < total {
        let n = if stdin && !many { 1 } else { r.range(100, 1500).min(total - done) };
        let mut pieces: Vec<Vec<u8>> = vec![];
        let mut notes: Vec<Items> = vec![];
        for k in 0..n {
            let seq = done + k;
            if stdin {
                let len = if many { 1 + seq % 61 } else { r.range(65_000, 280_000) };
                let p: Vec<u8> = (0..len).map(|i| (i as u32).wrapping_mul(13).wrapping_add(seq as u32 * 7 + (i as u32 >> 8)) as u8).collect();
                want.extend_from_slice(&p);
                pieces.push(p);
            } else {
                let pad = if many { seq % 9 } else { 900 + seq % 90 };
                let it = raw("test1.note", &[seq.to_string().as_bytes(), &vec![b'a' + (seq % 26) as u8; pad]]);
                want.extend(enc(&it));
                notes.push(it);
            }
        }
        done += n;
        let id = ScreenIdentity::new("escr");
        srv.d.enqueue_broadcast(Box::new(move |c: &mut C| {
            if c.state().can_receive_stdin_for_screen(&id) {
                for p in &pieces {
                    c.enqueue_stdin(p);
                }
            }
            if c.message_connector().is_some() {
                for it in &notes {
                    c.enqueue_message(&Raw(it.clone()));
                }
            }
        }));
        most = most.max(want.len() - c.got.len());
        if many && r.chance(1, 4) {
            c.read_some(r.range(1, 300_000));
        }
    }
    let fin = finish_reading(&mut c);
    app::MUTE.store(false, SeqCst);
    crate::interpose::reset();
    obs.current = format!("{} {}, up to {} bytes not read at a time", total, if stdin { "blocks of stdin" } else { "messages" }, most);
    if !fin? {
        obs.count("inconclusive", 1);
        return Ok(());
    }
    tok::panicked()?;
    ensure!(c.got == want, "a slow client received {}", first_difference(&c.got, &want));
    ensure!(!c.eof, "a slow client has been disconnected");
    obs.case(Some(fnv(&(want.len() as u64).to_le_bytes())));
    obs.max("longest_backlog_bytes", most as u64);
    obs.max("pieces_enqueued_to_one_client", total as u64);
    Ok(())
}

// ---------------------------------------------------------------- C18: much output of one program

fn pattern(from: usize, n: usize) -> Vec<u8> {
    (from..from + n).map(|i| (i as u32).wrapping_mul(31).wrapping_add((i >> 8) as u32).wrapping_add((i >> 16) as u32 * 5) as u8).collect()
}
pub fn output(ctx: &Ctx, r: &mut Rng, obs: &mut Obs) -> Result<(), String> {
    let Some(srv) = start(ctx, r, one_each())? else {
        obs.count("inconclusive", 1);
        return Ok(());
    };
    let mut c = srv.connect()?;
    c.queue(&hello("posix1.stdout-hello", "eout"));
    let total = r.range(18 << 20, 24 << 20);
    let (mut sent, mut seen) = (0usize, 0usize);
    let mut check = |log: Vec<app::Rec>| -> Result<(), String> {
        for x in log {
            if let Ev::OutRecv(_, b) = x.ev {
                ensure!(b == pattern(seen, b.len()), "the output of a program was delivered wrongly, from byte {} on at the latest", seen + b.len());
                seen += b.len();
            }
        }
        Ok(())
    };
    let t = Instant::now();
    while sent < total || !c.todo.is_empty() {
        if sent < total && c.todo.is_empty() {
            let n = r.range(1, 200_000).min(total - sent);
            c.queue(&pattern(sent, n));
            sent += n;
        }
        if !c.write_some(usize::MAX) {
            quiesce::delay(Duration::from_micros(100));
            c.read_some(1);
        }
        ensure!(!c.eof && !c.broken, "a program that writes much output was disconnected after {} bytes", c.sent.len());
        check(app::take_log())?;
        if t.elapsed() > Duration::from_secs(60) {
            obs.count("inconclusive", 1);
            return Ok(());
        }
    }
    if r.chance(1, 2) {
        c.close();
    }
    if !live::come_to_rest("after a program wrote much")? {
        obs.count("inconclusive", 1);
        return Ok(());
    }
    check(app::take_log())?;
    tok::panicked()?;
    ensure!(seen == total, "a program wrote {} bytes, {} were delivered", total, seen);
    obs.case(Some(fnv(&(total as u64).to_le_bytes())));
    obs.max("bytes_written_by_one_program", total as u64);
    Ok(())
}

// ---------------------------------------------------------------- C19: many broadcasts waiting

pub fn backlog(ctx: &Ctx, r: &mut Rng, obs: &mut Obs) -> Result<(), String> {
    let Some(srv) = start(ctx, r, Registry::default())? else {
        obs.count("inconclusive", 1);
        return Ok(());
    };
    let mut cs = vec![];
    for _ in 0..r.range(1, 3) {
        cs.push(srv.connect()?);
    }
    if !live::come_to_rest("after clients connected")? {
        obs.count("inconclusive", 1);
        return Ok(());
    }
    // one that takes its time
    let (holding, release) = (Arc::new(AtomicBool::new(false)), Arc::new(AtomicBool::new(false)));
    let (h2, r2, d2) = (holding.clone(), release.clone(), srv.d.clone());
    let slow = std::thread::spawn(move || {
        d2.enqueue_broadcast(Box::new(move |_: &mut C| {
            h2.store(true, SeqCst);
            let t = Instant::now();
            while !r2.load(SeqCst) && t.elapsed() < Duration::from_secs(10) {
                std::thread::sleep(Duration::from_micros(100));
            }
        }));
    });
    let t = Instant::now();
    while !holding.load(SeqCst) && t.elapsed() < Duration::from_secs(10) {
        std::thread::sleep(Duration::from_micros(50));
    }
    let threads = r.range(1, 3);
    let each = *r.pick(&[300usize, 1100, 4200, 8000]);
    let seen: Arc<Mutex<BTreeMap<u64, Vec<(usize, usize)>>>> = Arc::new(Mutex::new(BTreeMap::new()));
    let queued = Arc::new(AtomicU64::new(0));
    let mut hs = vec![];
    for t in 0..threads {
        let (d, seen, queued) = (srv.d.clone(), seen.clone(), queued.clone());
        hs.push(std::thread::spawn(move || {
            for k in 0..each {
                let seen = seen.clone();
                d.enqueue_broadcast(Box::new(move |c: &mut C| {
                    app::lock(&seen).entry(c.id()).or_default().push((t, k));
                }));
                queued.fetch_add(1, SeqCst);
            }
        }));
    }
    let t = Instant::now();
    while !hs.iter().all(|h| h.is_finished()) && t.elapsed() < Duration::from_secs(8) {
        std::thread::sleep(Duration::from_micros(200));
    }
    let waiting = queued.load(SeqCst);
    release.store(true, SeqCst);
    for h in hs {
        let _ = h.join();
    }
    let _ = slow.join();
    if !live::come_to_rest("after many broadcasts")? {
        obs.count("inconclusive", 1);
        return Ok(());
    }
    tok::panicked()?;
    obs.current = format!("{} threads enqueued {} broadcasts each while another broadcast was being executed", threads, each);
    let seen = app::lock(&seen);
    ensure!(seen.len() == cs.len(), "broadcasts were executed on {} of {} connections", seen.len(), cs.len());
    for (id, v) in seen.iter() {
        let mut next = vec![0usize; threads];
        for (t, k) in v {
            ensure!(next[*t] == *k, "on connection {}, broadcast {} of thread {} was executed when broadcast {} was due", id, k, t, next[*t]);
            next[*t] += 1;
        }
        ensure!(next.iter().all(|n| *n == each), "on connection {}, {:?} broadcasts of each thread were executed instead of {}", id, next, each);
    }
    obs.case(Some(fnv(format!("{} {} {} {}", threads, each, cs.len(), r.next()).as_bytes())));
    obs.count("broadcasts_judged", (threads * each) as u64);
    obs.max("broadcasts_waiting_at_the_same_time", waiting);
    Ok(())
}
