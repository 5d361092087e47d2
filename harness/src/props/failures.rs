//! C33: failures of connections are reported to the application, each once and nothing else
use crate::app::{self, raw, App, Ev, Ident, Raw as Msg, RegClient, RegScreen, Registry};
use crate::ensure;
use crate::interpose;
use crate::refspec::enc;
use crate::sim::hello;
use crate::tok::{self, Client, Step, C};
use crate::util::json::J;
use crate::util::report::{fnv, Obs};
use crate::util::rng::Rng;
use crate::util::run::{run_cases, Ctx, Slot};
use std::sync::atomic::Ordering::SeqCst;
use vt6::server::{ConnectionState, Dispatch, MessageConnector, ScreenIdentity};

fn registry() -> Registry {
    let mut reg = Registry::default();
    for i in 0..8 {
        reg.clients.push(RegClient { ident: Ident::new(&format!("f{}", i), [None, Some("out"), None]), secret: format!("client-secret-{}", i), redeemed: false });
        reg.screens.push(RegScreen { id: format!("scr{}", i), stdin_secret: format!("in-{}", i), stdout_secret: format!("out-{}", i), stdin_redeemed: false, stdout_redeemed: false });
    }
    reg
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Fresh,
    Msg,
    In,
    Out,
}
struct Conn {
    kind: Kind,
    n: usize,
    c: Client,
}

fn to_message_client(s: &Step, n: usize, m: Vec<u8>, times: usize) {
    let id = format!("f{}", n);
    s.d.enqueue_broadcast(Box::new(move |c: &mut C| {
        let hit = matches!(c.state(), ConnectionState::Msgio(m) if m.identity().client_id().as_str() == id);
        for _ in 0..times {
            if hit && matches!(c.state(), ConnectionState::Msgio(_)) {
                c.enqueue_message(&Msg(raw("test1.note", &[&m])));
            }
        }
    }));
}
fn to_stdin(s: &Step, n: usize, len: usize) {
    let id = format!("scr{}", n);
    s.d.enqueue_broadcast(Box::new(move |c: &mut C| {
        if c.state().can_receive_stdin_for_screen(&ScreenIdentity::new(&id)) {
            c.enqueue_stdin(&vec![b'i'; len]);
        }
    }));
}

/// the server at rest, all clients having read what there is
fn rest(s: &mut Step, cs: &mut [Conn], except: Option<usize>) -> Result<(), String> {
    loop {
        s.step()?;
        let mut any = false;
        for (k, c) in cs.iter_mut().enumerate() {
            if Some(k) == except {
                any |= c.c.write_some(usize::MAX);
            } else {
                any |= c.c.pump();
            }
        }
        if !any {
            return tok::panicked();
        }
    }
}

/// perhaps the client leaves in the middle of something
fn begin(s: &mut Step, cs: &mut [Conn], k: usize, r: &mut Rng) -> Result<(), String> {
    match cs[k].kind {
        Kind::Fresh | Kind::Msg if r.chance(2, 3) => {
            let m = hello("posix1.client-hello", "no-such-secret");
            let n = r.range(1, m.len() - 1);
            cs[k].c.queue(&m[..n]);
        }
        Kind::Out if r.chance(1, 2) => cs[k].c.queue(b"last words"),
        _ => return Ok(()),
    }
    if r.chance(1, 2) {
        rest(s, cs, None)?;
    } else {
        cs[k].c.write_some(usize::MAX);
    }
    Ok(())
}

fn scenario(ctx: &Ctx, r: &mut Rng, obs: &mut Obs) -> Result<(), String> {
    tok::forget_panics();
    interpose::reset();
    interpose::SNDBUF.store(*r.pick(&[0, 0, 1, 5000]), SeqCst);
    let mut s = Step::new(App::new(registry()), &ctx.scratch)?;
    let mut cs: Vec<Conn> = vec![];
    let mut told = vec![];
    let (mut next, mut sum) = (0usize, [0u64; 3]);
    let mut sig = String::new();
    for _ in 0..r.range(3, 14) {
        if cs.len() < 2 || (cs.len() < 6 && r.chance(1, 2)) {
            if next == 8 {
                break;
            }
            let kind = *r.pick(&[Kind::Fresh, Kind::Msg, Kind::Msg, Kind::In, Kind::Out]);
            let mut c = Client::connect(s.path()).map_err(|e| format!("cannot connect to the server: {}", e))?;
            match kind {
                Kind::Fresh => {}
                Kind::Msg => c.queue(&hello("posix1.client-hello", &format!("client-secret-{}", next))),
                Kind::In => c.queue(&hello("posix1.stdin-hello", &format!("in-{}", next))),
                Kind::Out => c.queue(&hello("posix1.stdout-hello", &format!("out-{}", next))),
            }
            cs.push(Conn { kind, n: next, c });
            next += 1;
            rest(&mut s, &mut cs, None)?;
            ensure!(!cs.last().unwrap().c.eof, "a {:?} connection was closed right away", kind);
        }
        app::take_log();
        interpose::FAILURES.lock().unwrap().clear();
        let k = r.below(cs.len());
        let (kind, n) = (cs[k].kind, cs[k].n);
        let eno = *r.pick(&[libc::EIO, libc::ECONNRESET, libc::EPIPE, libc::ENOBUFS, libc::ETIMEDOUT, libc::ENOMEM, libc::ENOTCONN, libc::ECONNABORTED, libc::EACCES, libc::EINVAL, libc::EPERM]);
        // (what is done, whether a reply does not fit, whether the connection has to end)
        let mut too_long = 0;
        let mut ends = vec![];
        let act = r.below(14);
        let what: &str = match act {
            0 | 1 => {
                interpose::FAIL_ERRNO.store(eno, SeqCst);
                interpose::FAIL_READ.store(1, SeqCst);
                cs[k].c.queue(*r.pick(&[&b"x"[..], b"{1|4:want,}", b"{"]));
                rest(&mut s, &mut cs, None)?;
                ends.push(k);
                "reading fails"
            }
            2 | 3 if matches!(kind, Kind::Msg | Kind::In) => {
                interpose::FAIL_ERRNO.store(eno, SeqCst);
                interpose::FAIL_WRITE.store(1, SeqCst);
                match kind {
                    Kind::In => to_stdin(&s, n, r.range(1, 9000)),
                    _ if r.chance(1, 2) => cs[k].c.queue(&enc(&raw("want", &[b"core1"])).repeat(r.range(1, 30))),
                    _ => to_message_client(&s, n, vec![b'm'; r.below(900)], r.range(1, 20)),
                }
                rest(&mut s, &mut cs, None)?;
                ends.push(k);
                "writing fails"
            }
            4 if kind == Kind::Msg => {
                // 1007 bytes are the longest that can be refused
                let len = *r.pick(&[20usize, 500, 1006, 1007, 1008, 1009, 1014]);
                let t = format!("test1.fail-{}", "t".repeat(len - 11));
                let m = enc(&raw(&t, &[]));
                let times = r.range(1, 3);
                if len > 1007 {
                    too_long = 1;
                    ends.push(k);
                }
                cs[k].c.queue(&m.repeat(times));
                rest(&mut s, &mut cs, None)?;
                "a long message is refused"
            }
            5 if kind == Kind::Msg => {
                let len = *r.pick(&[900usize, 996, 997, 998, 1000, 1100, 5000]);
                if enc(&raw("test1.note", &[&vec![b'm'; len]])).len() > 1024 {
                    too_long = 1;
                    ends.push(k);
                }
                to_message_client(&s, n, vec![b'm'; len], r.range(1, 3));
                rest(&mut s, &mut cs, None)?;
                "the application sends a long message"
            }
            6 => {
                begin(&mut s, &mut cs, k, r)?;
                cs[k].c.close();
                rest(&mut s, &mut cs, None)?;
                ends.push(k);
                "the client leaves"
            }
            7 => {
                begin(&mut s, &mut cs, k, r)?;
                cs[k].c.shutdown_write();
                rest(&mut s, &mut cs, None)?;
                ends.push(k);
                "the client writes no more"
            }
            8 if kind == Kind::Msg => {
                // leaves without having read what it was sent
                to_message_client(&s, n, vec![b'm'; r.below(900)], r.range(1, 400));
                rest(&mut s, &mut cs, Some(k))?;
                cs[k].c.close();
                rest(&mut s, &mut cs, None)?;
                ends.push(k);
                "the client leaves without reading"
            }
            8 if kind == Kind::In => {
                to_stdin(&s, n, r.range(1, 400_000));
                rest(&mut s, &mut cs, Some(k))?;
                cs[k].c.close();
                rest(&mut s, &mut cs, None)?;
                ends.push(k);
                "the client leaves without reading"
            }
            9 if matches!(kind, Kind::Fresh | Kind::In) => {
                cs[k].c.queue(*r.pick(&[&b"x"[..], b"{2|4:want,5:core1,}", b"{2|19:posix1.client-hello,5:wrong,}", b"\xff\n"]));
                rest(&mut s, &mut cs, None)?;
                ends.push(k);
                "the client is refused"
            }
            10 if kind == Kind::Msg => {
                cs[k].c.queue(&enc(&raw("test1.teardown", &[])));
                rest(&mut s, &mut cs, None)?;
                ends.push(k);
                "the application ends the connection"
            }
            11 if kind == Kind::Msg => {
                cs[k].c.queue(&[&b"}}}}{3|x{{"[..], &vec![b'z'; r.below(3000)], b"{2|4:want,5:core1,}"].concat());
                rest(&mut s, &mut cs, None)?;
                "the client sends malformed input"
            }
            12 if kind == Kind::Out => {
                cs[k].c.queue(&vec![0x9b; r.range(1, 5000)]);
                rest(&mut s, &mut cs, None)?;
                "the client prints"
            }
            _ => {
                to_message_client(&s, n, vec![b'm'; r.below(900)], r.range(1, 40));
                to_stdin(&s, n, r.range(1, 20_000));
                rest(&mut s, &mut cs, None)?;
                "the client is served"
            }
        };
        interpose::FAIL_READ.store(0, SeqCst);
        interpose::FAIL_WRITE.store(0, SeqCst);
        let failed = interpose::FAILURES.lock().unwrap().clone();
        let log = app::take_log();
        let at = format!("{:?} connection: {}", kind, what);
        obs.current = at.clone();
        sig.push_str(&format!("{:?}{} ", kind, act));
        // ---- judged from what was observed
        let errors: Vec<(usize, String)> = log.iter().enumerate().filter_map(|(i, e)| if let Ev::IoError(t) = &e.ev { Some((i, t.clone())) } else { None }).collect();
        let closed: Vec<usize> = log.iter().enumerate().filter(|(_, e)| matches!(e.ev, Ev::Closed)).map(|(i, _)| i).collect();
        ensure!(
            errors.len() == failed.len() + too_long,
            "{} reads or writes failed ({:?}) and {} messages could not be sent, but {} IO errors were reported: {:?} ({})",
            failed.len(), failed, too_long, errors.len(), errors.iter().map(|x| &x.1).collect::<Vec<_>>(), at
        );
        let mut texts: Vec<&str> = errors.iter().map(|x| &x.1[..]).collect();
        for (op, e) in &failed {
            let t = std::io::Error::from_raw_os_error(*e).to_string();
            match texts.iter().position(|x| x.contains(&t)) {
                Some(p) => {
                    texts.remove(p);
                }
                None => return Err(format!("a {} failed with {:?}, but what was reported is {:?} ({})", if *op == 'r' { "read" } else { "write" }, t, errors.iter().map(|x| &x.1).collect::<Vec<_>>(), at)),
            }
        }
        if !errors.is_empty() {
            ensure!(closed.len() == 1, "{} connections were reported closed after the failure of one ({})", closed.len(), at);
            ensure!(errors.iter().all(|x| x.0 < closed[0]), "the IO error was reported after the connection had been reported closed ({})", at);
        }
        for k in 0..cs.len() {
            let want = ends.contains(&k);
            let c = &cs[k];
            ensure!(c.c.closed || c.c.eof == want, "the connection of {} client was {} ({})", if want { "the" } else { "another" }, if want { "not closed" } else { "closed" }, at);
        }
        ensure!(closed.len() == ends.len(), "{} connections were reported closed instead of {} ({})", closed.len(), ends.len(), at);
        told.push(at);
        sum[0] += failed.len() as u64;
        sum[1] += too_long as u64;
        sum[2] += ends.len() as u64;
        obs.count(&format!("acts: {}", what), 1);
        for k in ends.iter().rev() {
            cs.remove(*k);
        }
    }
    app::take_log();
    interpose::FAILURES.lock().unwrap().clear();
    let open = cs.len();
    s.finish()?;
    let log = app::take_log();
    ensure!(interpose::FAILURES.lock().unwrap().is_empty() && !log.iter().any(|e| matches!(e.ev, Ev::IoError(_))), "an orderly shutdown is reported as an IO error: {:?}", log);
    obs.count("reads_and_writes_that_failed", sum[0]);
    obs.count("messages_that_did_not_fit", sum[1]);
    obs.count("connections_that_ended", sum[2] + open as u64);
    obs.case(Some(fnv(sig.as_bytes())));
    obs.sample(|| J::Arr(told.iter().take(6).map(J::s).collect()));
    interpose::reset();
    Ok(())
}

pub fn c33(ctx: &Ctx, obs: &mut Obs, slot: &Slot) {
    obs.rule = "connections in all roles that fail (system calls made to fail, clients that leave unread data, replies that do not fit) and that end in an orderly way, on the Tokio server \
        step by step; the system calls on the server's sockets are observed; non-trivial: distinct sequences of roles and events"
        .into();
    run_cases(ctx, obs, slot, u64::MAX / 2, |_, r, obs| {
        let x = scenario(ctx, r, obs);
        interpose::reset();
        x
    });
}
