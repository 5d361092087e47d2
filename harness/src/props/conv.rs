//! C10-C15: conversations with the library's Connection and handlers under the synchronous dispatch
use crate::app::{self, gen_registry, raw, Ev, Ident, Items, RegClient, RegScreen, Registry, APP_MODULES};
use crate::ensure;
use crate::gen;
use crate::lock::Lock;
use crate::props::endure;
use crate::refspec;
use crate::sim::{encode, hello, Role, World};
use crate::tok::Step;
use crate::util::json::J;
use crate::util::report::{fnv, Obs};
use crate::util::rng::Rng;
use crate::util::run::{guard, run_cases, Ctx, Slot};
use crate::util::show;

// ---------------------------------------------------------------- generators

/// module names that are supported, nearly supported, or neither
pub fn module_name(r: &mut Rng) -> String {
    match r.below(10) {
        0 => "core1".into(),
        1 => "posix1".into(),
        2 | 3 => r.pick(&APP_MODULES[..9]).0.into(),
        4 => r.pick(&["core2", "core10", "core11", "cor1", "Core1", "posix2", "posix12", "test2", "test11", "x99", "x1", "core", "want1", "core1-", "_1", "a65535"]).to_string(),
        5 => {
            let n = *r.pick(&[950usize, 990, 1000, 1005, 1008, 1009, 1010, 1011, 1012]);
            format!("{}1", "m".repeat(n - 1))
        }
        _ => gen::module(r),
    }
}
fn bad_module_name(r: &mut Rng) -> Vec<u8> {
    match r.below(4) {
        0 => r.pick(&[&b"core"[..], b"", b"core0", b"core01", b"core1.0", b"core65536", b"1core", b"core+1", b"core1 ", b"\xffcore1", b"core-1x", b"want"]).to_vec(),
        1 => gen::arg(r, 40),
        _ => {
            let mut v = module_name(r).into_bytes();
            gen::mutate(r, &mut v);
            v.truncate(500);
            v
        }
    }
}
fn cap_args(t: &str, mut args: Vec<Vec<u8>>) -> Items {
    // keep to 1024 bytes
    loop {
        let it = gen::items(t, &args);
        if refspec::enc(&it).len() <= 1024 {
            return it;
        }
        let k = (0..args.len()).max_by_key(|&i| args[i].len()).unwrap();
        let l = args[k].len();
        args[k].truncate(l / 2);
    }
}

/// a well-formed message such as clients send after the handshake; `id` is the client's own ID
pub fn msgio_message(r: &mut Rng, id: &str, secrets: &[String]) -> Items {
    match r.below(22) {
        0..=3 => raw("want", &[module_name(r).as_bytes()]),
        4 => {
            let b = bad_module_name(r);
            let n = r.below(4);
            let mut args: Vec<Vec<u8>> = (0..n).map(|_| gen::arg(r, 30)).collect();
            if r.chance(2, 3) {
                args = vec![b];
            }
            cap_args("want", args)
        }
        5 => {
            let (t, a) = (r.pick(&["have", "nope"]).to_string(), gen::arg(r, 60));
            if r.chance(1, 3) {
                raw(&t, &[])
            } else {
                raw(&t, &[&a])
            }
        }
        6 | 7 => {
            let k = *r.pick(&["posix1.client-hello", "posix1.stdin-hello", "posix1.stdout-hello"]);
            if r.chance(1, 6) {
                return cap_args(k, (0..r.below(3)).map(|_| gen::arg(r, 30)).collect());
            }
            let sec = if secrets.is_empty() || r.chance(1, 4) { gen::text(r) } else { r.pick(secrets).clone() };
            raw(k, &[sec.as_bytes()])
        }
        8 | 9 => {
            let new = format!("{}{}", id, gen::client_id(r));
            make(r, &new)
        }
        10 => {
            let x = gen::client_id(r);
            make(r, &x)
        }
        11 => {
            let args = (0..r.below(6)).map(|_| gen::arg(r, 30)).collect();
            cap_args(*r.pick(&["core1.client-make", "core1.client-end", "core1.client-new"]), args)
        }
        12 => {
            let x = if r.chance(1, 2) { format!("{}{}", id, gen::client_id(r)) } else { gen::client_id(r) };
            raw("core1.client-end", &[x.as_bytes()])
        }
        13 | 14 => {
            let args = (0..r.below(4)).map(|_| gen::arg(r, 60)).collect();
            cap_args("test1.echo", args)
        }
        15 => {
            let args = (0..r.below(3)).map(|_| gen::arg(r, 30)).collect();
            // (the reply repeats the type, which can be long)
            let t = if r.chance(1, 3) {
                let n = *r.pick(&[10usize, 50, 60, 120, 127, 128, 200, 250, 255, 256, 300, 500, 512, 700, 900]) + r.below(6);
                format!("test1.fail-{}", "x".repeat(n))
            } else {
                "test1.fail".to_string()
            };
            if t.len() > 500 { raw(&t, &[]) } else { cap_args(&t, args) }
        }
        16 => raw("test1.burst", &[r.below(6).to_string().as_bytes(), gen::boundary_len(r, 990).to_string().as_bytes()]),
        17 => {
            // unknown type, possibly so long that its reply does not fit
            let m = module_name(r);
            let t = format!("{}.{}", m, gen::ident(r));
            let t = if t.len() > 1010 { format!("{}.x", m) } else { t };
            let args = (0..r.below(3)).map(|_| gen::arg(r, 30)).collect();
            if t.len() > 900 { raw(&t, &[]) } else { cap_args(&t, args) }
        }
        18 => {
            let (t, a) = gen::message(r, 1024);
            if t.starts_with("test1.") {
                raw("want", &[])
            } else {
                gen::items(&t, &a)
            }
        }
        _ => {
            let t = r.pick(&["core1.set", "core1.sub", "core1.pub", "core1.client-new", "posix1.server-hello", "posix1.parent-hello", "core1.client-makes", "core2.client-make", "core1.want", "test1.unknown", "test1.x", "x9.y", "A1.a", "core1.Client-end"]).to_string();
            let args = (0..r.below(4)).map(|_| gen::arg(r, 20)).collect();
            cap_args(&t, args)
        }
    }
}
pub fn make(r: &mut Rng, id: &str) -> Items {
    let scr = |r: &mut Rng| -> Vec<u8> {
        match r.below(5) {
            0 | 1 => vec![],
            2 => gen::text(r).into_bytes(),
            3 => format!("scr{}", r.below(4)).into_bytes(),
            _ => {
                let n = gen::boundary_len(r, 300);
                vec![b's'; n]
            }
        }
    };
    let (a, b, c) = (scr(r), scr(r), scr(r));
    cap_args("core1.client-make", vec![id.as_bytes().to_vec(), a, b, c])
}

/// bytes that are not (a prefix of) a well-formed message, or that are, with something wrong
pub fn garbage(r: &mut Rng) -> Vec<u8> {
    match r.below(14) {
        0 => {
            let n = 1 + r.below(30);
            r.bytes(n)
        }
        1 => {
            let n = 1 + r.below(40);
            (0..n).map(|_| *r.pick(&b"{{{{{|1:,}"[..])).collect()
        }
        2 => vec![b'{'; 1 + r.below(6)],
        3 => b"hello world\n".to_vec(),
        4 => {
            // a truncated message
            let mut v = encode(&msgio_message(r, "a", &[]));
            let k = r.below(v.len());
            v.truncate(k);
            v
        }
        5 => {
            // longer than a message may be
            let n = r.range(1000, 1200);
            let mut v = encode(&raw("test1.echo", &[&vec![b'x'; n]]));
            if r.chance(1, 3) {
                let k = r.below(v.len());
                v[k] = b'{';
            }
            v
        }
        6 => {
            // announces much more than it has
            format!("{{2|4:want,{}:core1,}}", r.pick(&["5000", "99999", "1025", "1009", "18446744073709551615", "18446744073709551616"])).into_bytes()
        }
        7 => format!("{{{}|4:want,5:core1,}}", r.pick(&["3", "1", "0", "02", "300", "99999999", "18446744073709551616", "", "+2", "-1"])).into_bytes(),
        8 => {
            // a valid message as an argument of a broken one
            let inner = encode(&raw("want", &[b"core1"]));
            let mut v = encode(&raw("test1.echo", &[&inner]));
            let k = 1 + r.below(v.len() - 1);
            v[k] = r.next() as u8;
            v
        }
        9 => {
            let n = r.range(1, 1500);
            let c = *r.pick(&b"x{0}\n"[..]);
            vec![c; n]
        }
        10 => encode(&vec![b"not a type".to_vec(), b"x".to_vec()]),
        11 => b"{0|}".to_vec(),
        _ => {
            let mut v = encode(&msgio_message(r, "a", &[]));
            gen::mutate(r, &mut v);
            v
        }
    }
}

/// cut a stream into chunks
pub fn chunks(r: &mut Rng, b: &[u8]) -> Vec<Vec<u8>> {
    let mut v = vec![];
    let mut i = 0;
    let style = r.below(6);
    while i < b.len() {
        let n = match style {
            0 => b.len(),
            1 => 1,
            2 => 1 + r.below(4),
            3 => 1 + r.below(80),
            4 => *r.pick(&[1usize, 511, 1023, 1024, 1025, 4096]),
            _ => {
                // end next to an opener
                let next = b[i + 1..].iter().position(|&x| x == b'{').map_or(b.len() - i, |p| p + 1);
                (next + r.below(3)).max(1)
            }
        };
        let e = (i + n).min(b.len());
        v.push(b[i..e].to_vec());
        i = e;
    }
    v
}

const BASES: [&str; 6] = ["a", "ab", "A", "b0", "9", "Zz"];

pub fn registry(r: &mut Rng) -> Registry {
    let id = r.pick(&BASES).to_string();
    let mut ids: Vec<String> = vec![id];
    for _ in 0..r.below(3) {
        let b = r.pick(&BASES).to_string();
        ids.push(format!("{}{}", b, if r.chance(1, 2) { gen::client_id(r) } else { String::new() }));
    }
    gen_registry(r, &ids.iter().map(|s| s.as_str()).collect::<Vec<_>>())
}
pub fn all_secrets(reg: &Registry) -> Vec<String> {
    let mut v: Vec<String> = reg.clients.iter().map(|c| c.secret.clone()).collect();
    for s in &reg.screens {
        v.push(s.stdin_secret.clone());
        v.push(s.stdout_secret.clone());
    }
    v
}

fn set_trace(obs: &mut Obs, l: &Lock) {
    let n = l.trace.len();
    obs.current = l.trace[n.saturating_sub(60)..].join("\n");
}
/// run a feed and keep the trace for the replay file if it fails
fn fed(obs: &mut Obs, l: &mut Lock, c: u64, b: &[u8]) -> Result<(), String> {
    let r = l.feed(c, b);
    if r.is_err() {
        set_trace(obs, l);
    }
    r
}
fn finish_stats(obs: &mut Obs, l: &Lock) {
    for (k, n) in &l.m.stats {
        obs.count(k, *n);
    }
    obs.count("events_compared", l.events);
    if l.is_tokio() {
        obs.count("cases_on_tokio_server", 1);
    }
}

// ---------------------------------------------------------------- C10

/// everything C10 says must not depend on the segmentation
#[derive(Debug, PartialEq, Clone)]
struct Seen {
    replies: Vec<u8>,
    registered: Vec<Ident>,
    unregistered: Vec<String>,
    stdout: Vec<u8>,
    messages: Vec<(u8, Items)>,
    role: Role,
}
pub fn normalise_secrets(out: &[u8], secrets: &[String]) -> Vec<u8> {
    let mut v = out.to_vec();
    for (i, s) in secrets.iter().enumerate() {
        let t = format!("{:0w$}", i, w = s.len());
        let (s, t) = (s.as_bytes(), t.as_bytes());
        let mut k = 0;
        while !s.is_empty() && k + s.len() <= v.len() {
            if &v[k..k + s.len()] == s {
                v[k..k + s.len()].copy_from_slice(t);
                k += s.len();
            } else {
                k += 1;
            }
        }
    }
    v
}
fn play(reg: &Registry, cuts: &[Vec<u8>]) -> Result<Seen, String> {
    let mut w = World::new(app::App::new(reg.clone()));
    let c = w.open();
    guard(|| {
        for k in cuts {
            w.feed(c, k);
        }
    })?;
    ensure!(!w.overrun(), "discarded more than the receive buffer holds");
    Ok(seen(w.role(c), &w.out(c)))
}
fn seen(role: Role, out: &[u8]) -> Seen {
    let recs = app::take_log();
    let mut s = Seen { replies: vec![], registered: vec![], unregistered: vec![], stdout: vec![], messages: vec![], role };
    let mut secrets = vec![];
    for r in recs {
        match r.ev {
            Ev::Register(i, sec) => {
                s.registered.push(i);
                secrets.push(sec);
            }
            Ev::Unregister { gone, .. } => s.unregistered.extend(gone),
            Ev::OutRecv(_, b) => s.stdout.extend(b),
            Ev::Handled { level, items, .. } => s.messages.push((level, items)),
            _ => {}
        }
    }
    s.replies = normalise_secrets(out, &secrets);
    s
}
/// the same on the Tokio server
fn play_tokio(reg: &Registry, cuts: &[Vec<u8>], scratch: &std::path::Path) -> Result<Seen, String> {
    let mut w = Step::new(app::App::new(reg.clone()), scratch)?;
    let c = w.open()?;
    for k in cuts {
        w.feed(c, k)?;
    }
    let role = w.role(c);
    let out = w.take_out(c);
    w.finish()?;
    Ok(seen(role, &out))
}
fn differs(a: &Seen, b: &Seen) -> String {
    if a.role != b.role {
        return format!("the connection ends up as {:?} instead of {:?}", b.role, a.role);
    }
    if a.replies != b.replies {
        return format!("replies are {} instead of {}", show(&b.replies), show(&a.replies));
    }
    if a.stdout != b.stdout {
        return format!("stdout delivered is {} instead of {}", show(&b.stdout), show(&a.stdout));
    }
    if a.messages != b.messages {
        let k = a.messages.iter().zip(&b.messages).take_while(|(x, y)| x == y).count();
        let f = |m: Option<&(u8, Items)>| m.map_or("nothing".into(), |m| format!("{} {}", m.0, show(&refspec::enc(&m.1))));
        return format!("message {} handed to the handlers is {} instead of {}", k, f(b.messages.get(k)), f(a.messages.get(k)));
    }
    format!("registrations are {:?}/{:?} instead of {:?}/{:?}", b.registered, b.unregistered, a.registered, a.unregistered)
}

/// a client's byte stream for a registry: usually a hello in some role and what follows
pub fn stream(r: &mut Rng, reg: &Registry, boundary: bool) -> Vec<u8> {
    let secrets = all_secrets(reg);
    let id = reg.clients[0].ident.id.clone();
    let mut v = vec![];
    match r.below(16) {
        0 => v.extend(garbage(r)),
        1 => v.extend(hello("posix1.client-hello", &gen::text(r))),
        2 | 3 => v.extend(hello("posix1.stdin-hello", &reg.screens[0].stdin_secret)),
        4 | 5 => {
            v.extend(hello("posix1.stdout-hello", &reg.screens[0].stdout_secret));
            for _ in 0..r.below(5) {
                if r.chance(1, 2) {
                    v.extend(garbage(r));
                } else {
                    v.extend(encode(&msgio_message(r, &id, &secrets)));
                }
            }
            return v;
        }
        6 => {
            let mut h = hello("posix1.client-hello", &reg.clients[0].secret);
            gen::mutate(r, &mut h);
            v.extend(h);
        }
        _ => v.extend(hello("posix1.client-hello", &reg.clients[0].secret)),
    }
    let n = if boundary { r.range(1, 4) } else { r.below(8) };
    for _ in 0..n {
        if boundary && r.chance(2, 3) {
            // messages and garbage around the maximal length
            let k = r.range(1018, 1032);
            let overhead = encode(&raw("test1.echo", &[&vec![b'x'; 1000]])).len() - 1000;
            let mut m = encode(&raw("test1.echo", &[&vec![b'x'; k - overhead]]));
            if r.chance(1, 3) {
                let p = r.below(m.len());
                m[p] = *r.pick(&b"{}x|"[..]);
            }
            v.extend(m);
        } else if r.chance(1, 4) {
            v.extend(garbage(r));
        } else if r.chance(1, 30) {
            v.extend(encode(&raw(*r.pick(&["test1.teardown", "test1.teardown-fail", "test1.teardown-unknown"]), &[])));
        } else {
            v.extend(encode(&msgio_message(r, &id, &secrets)));
        }
    }
    if r.chance(3, 4) {
        // makes a byte processed twice or skipped visible
        v.extend(encode(&raw("test1.echo", &[b"sentinel"])));
    }
    v
}

pub fn c10(ctx: &Ctx, obs: &mut Obs, slot: &Slot) {
    obs.rule = "a (stream, segmentation) pair whose stream has at least 10 bytes and is cut at least once".into();
    let n = if ctx.thorough { 4_000_000 } else { 40_000 };
    run_cases(ctx, obs, slot, n, |i, r, obs| {
        let reg = registry(r);
        let boundary = i % 6 == 0;
        let b = stream(r, &reg, boundary);
        obs.current = show(&b);
        let whole = play(&reg, &[b.clone()])?;
        obs.count(
            match whole.role {
                Role::Handshake => "ends_in_handshake",
                Role::Msgio(_) => "ends_in_msgio",
                Role::Stdin(_) => "ends_in_stdin",
                Role::Stdout => "ends_in_stdout",
                Role::Teardown => "ends_in_teardown",
            },
            1,
        );
        obs.count("messages_handled", whole.messages.len() as u64);
        obs.count("registrations", whole.registered.len() as u64);
        let mut segs: Vec<Vec<Vec<u8>>> = vec![b.iter().map(|x| vec![*x]).collect()];
        for _ in 0..3 {
            segs.push(chunks(r, &b));
        }
        if b.len() < 160 || (i % 50 == 0 && b.len() < 1500) {
            for k in 1..b.len() {
                segs.push(vec![b[..k].to_vec(), b[k..].to_vec()]);
            }
        } else {
            for _ in 0..12 {
                let k = r.range(1, b.len() - 1);
                let j = r.range(k, b.len() - 1);
                segs.push(vec![b[..k].to_vec(), b[k..j].to_vec(), b[j..].to_vec()]);
            }
        }
        let tokio = i % 3 == 0;
        if tokio {
            // the same streams through the Tokio server's sockets and buffers
            obs.count("streams_on_tokio_server", 1);
            while segs.len() > 6 {
                let k = 1 + r.below(segs.len() - 1);
                segs.swap_remove(k);
            }
            let n = segs.len();
            segs.push(vec![b.clone()]);
            for k in 0..n {
                segs.push(segs[k].clone());
            }
        }
        let total = segs.len();
        for (nr, s) in segs.into_iter().enumerate() {
            let mut got = if tokio && nr >= total / 2 { play_tokio(&reg, &s, &ctx.scratch)? } else { play(&reg, &s)? };
            if tokio && nr >= total / 2 && got.role == Role::Teardown && whole.replies.starts_with(&got.replies) {
                // replies not yet sent when a connection ends are dropped
                got.replies = whole.replies.clone();
            }
            let cuts: Vec<usize> = s.iter().scan(0, |a, c| { *a += c.len(); Some(*a) }).collect();
            ensure!(
                got == whole,
                "with the stream cut at {:?}..., {} (observed when it arrives in one piece). Stream: {}",
                &cuts[..cuts.len().min(12)],
                differs(&whole, &got),
                show(&b)
            );
            let key = if b.len() >= 10 && s.len() > 1 {
                let mut h = b.clone();
                h.extend(cuts.iter().flat_map(|c| (*c as u32).to_le_bytes()));
                Some(fnv(&h))
            } else {
                None
            };
            obs.case(key);
        }
        obs.max("stream_bytes", b.len() as u64);
        obs.sample(|| J::Obj(vec![("stream".into(), J::s(show(&b))), ("role".into(), J::s(format!("{:?}", whole.role))), ("handled".into(), J::Int(whole.messages.len() as i64))]));
        Ok(())
    });
}

// ---------------------------------------------------------------- C11

pub fn c11(ctx: &Ctx, obs: &mut Obs, slot: &Slot) {
    obs.rule = "a connection's first input together with the state of the registry".into();
    let n = if ctx.thorough { 4_000_000 } else { 60_000 };
    run_cases(ctx, obs, slot, n, |case, r, obs| {
        let mut reg = registry(r);
        // secrets that are prefixes or variants of each other, and screens sharing a secret between roles
        if r.chance(1, 3) {
            let s = reg.clients[0].secret.clone();
            let x = match r.below(4) {
                0 => format!("{}x", s),
                1 => s[..s.len() - 1].to_string(),
                2 => s.to_uppercase(),
                _ => s.to_lowercase(),
            };
            if !x.is_empty() && x != s {
                reg.screens[0].stdin_secret = x;
            }
        }
        if r.chance(1, 4) {
            // secrets are arbitrary strings
            let odd = |r: &mut Rng, s: &mut String| {
                let p = *r.pick(&[" ", "\n", "\r\n", "\t", "\u{a0}", "\u{feff}", "\u{e9}", "\"", "{1|1:a}", "\0", "=", "/../", "\u{1f600}"]);
                match r.below(4) {
                    0 => *s = format!("{}{}", p, s),
                    1 => *s = format!("{}{}", s, p),
                    2 => *s = format!("{}{}{}", p, s, p),
                    _ => s.insert_str(1, p),
                }
            };
            odd(r, &mut reg.clients[0].secret);
            odd(r, &mut reg.screens[0].stdout_secret);
            if r.chance(1, 2) {
                odd(r, &mut reg.screens[0].stdin_secret);
            }
        }
        if r.chance(1, 10) {
            // a hello that does not fit into a message
            let n = r.range(990, 1020);
            reg.clients[0].ident.screens[0] = Some("s".repeat(n));
        }
        let secrets = all_secrets(&reg);
        let id = reg.clients[0].ident.id.clone();
        let mut l = if case % 4 == 3 { Lock::tokio(reg.clone(), &ctx.scratch)? } else { Lock::new(reg.clone()) };
        let conns = r.range(1, 5);
        for _ in 0..conns {
            let c = l.open()?;
            let known = if r.chance(4, 5) { Some(r.pick(&secrets).clone()) } else { None };
            let kind = *r.pick(&["posix1.client-hello", "posix1.stdin-hello", "posix1.stdout-hello"]);
            let mut first = match r.below(16) {
                0 => garbage(r),
                1 => encode(&msgio_message(r, &id, &secrets)),
                2 => {
                    let s = known.clone().unwrap_or_else(|| gen::text(r));
                    let mut b = hello(kind, &s);
                    gen::mutate(r, &mut b);
                    b
                }
                3 => {
                    // wrong number or kind of arguments
                    let s = known.clone().unwrap_or_default().into_bytes();
                    let it = match r.below(4) {
                        0 => vec![kind.as_bytes().to_vec()],
                        1 => vec![kind.as_bytes().to_vec(), s.clone(), s],
                        2 => vec![kind.as_bytes().to_vec(), [&s[..], b"\xff"].concat()],
                        _ => vec![kind.as_bytes().to_vec(), s, vec![]],
                    };
                    encode(&it)
                }
                4 => {
                    // something near a secret
                    let mut s = known.clone().unwrap_or_else(|| "x".into()).into_bytes();
                    if r.chance(1, 2) {
                        // as read from a line, a C string, quoted, in other letters
                        let pad = *r.pick(&["\n", "\r\n", " ", "\t", "\0", "\"", "'", "\u{a0}", "\u{feff}", "\u{2028}", "=", ".", "/"]);
                        s = match r.below(6) {
                            0 => [pad.as_bytes(), &s].concat(),
                            1 => [pad.as_bytes(), &s, pad.as_bytes()].concat(),
                            2 => String::from_utf8(s).map(|x| x.trim().to_string().into_bytes()).unwrap_or_default(),
                            3 => s.to_ascii_uppercase(),
                            _ => [&s, pad.as_bytes()].concat(),
                        };
                        obs.count("secrets_with_padding", 1);
                    } else {
                        gen::mutate(r, &mut s);
                    }
                    s.truncate(900);
                    encode(&vec![kind.as_bytes().to_vec(), s])
                }
                5 => {
                    let k = *r.pick(&["posix1.Client-hello", "posix2.client-hello", "posix1.client-hell", "posix1.client-hello-", "core1.client-hello", "posix1.server-hello", "posix1.parent-hello", "posix1.stderr-hello", "want"]);
                    let s = known.clone().unwrap_or_default();
                    encode(&raw(k, &[s.as_bytes()]))
                }
                6 => {
                    let s = known.clone().unwrap_or_default();
                    [b"\n".to_vec(), hello(kind, &s)].concat()
                }
                _ => {
                    // usually in the role the secret is for
                    let s = known.clone().unwrap_or_else(|| gen::text(r));
                    let kind = if r.chance(1, 3) {
                        kind
                    } else if reg.clients.iter().any(|c| c.secret == s) {
                        "posix1.client-hello"
                    } else if reg.screens.iter().any(|c| c.stdin_secret == s) {
                        "posix1.stdin-hello"
                    } else {
                        "posix1.stdout-hello"
                    };
                    hello(kind, &s)
                }
            };
            let key = fnv(&[&first[..], format!("{:?}", l.m.reg).as_bytes()].concat());
            // what follows: more hellos (in any role), messages, garbage
            for _ in 0..r.below(5) {
                let b = match r.below(5) {
                    0 => garbage(r),
                    1 | 2 => {
                        let k = *r.pick(&["posix1.client-hello", "posix1.stdin-hello", "posix1.stdout-hello"]);
                        hello(k, r.pick(&secrets))
                    }
                    _ => encode(&msgio_message(r, &id, &secrets)),
                };
                first.extend(b);
            }
            for k in chunks(r, &first) {
                fed(obs, &mut l, c, &k)?;
            }
            if r.chance(1, 3) {
                // the other connections still are what they were, and inputs on stdin close it
                let o = r.below(c as usize + 1) as u64;
                let b = if r.chance(1, 2) { b"{".to_vec() } else { encode(&raw("want", &[b"core1"])) };
                fed(obs, &mut l, o, &b)?;
            }
            obs.case(Some(key));
        }
        finish_stats(obs, &l);
        obs.sample(|| J::s(l.trace.join("; ")));
        l.finish()
    });
}

// ---------------------------------------------------------------- C12, C13

fn connected(r: &mut Rng, obs: &mut Obs, scratch: Option<&std::path::Path>) -> Result<(Lock, u64, String, Vec<String>), String> {
    let reg = registry(r);
    let secrets = all_secrets(&reg);
    let id = reg.clients[0].ident.id.clone();
    let sec = reg.clients[0].secret.clone();
    let mut l = match scratch {
        Some(p) => Lock::tokio(reg, p)?,
        None => Lock::new(reg),
    };
    let c = l.open()?;
    fed(obs, &mut l, c, &hello("posix1.client-hello", &sec))?;
    ensure!(matches!(l.role(c), Role::Msgio(_)), "harness: handshake failed");
    Ok((l, c, id, secrets))
}

pub fn c12(ctx: &Ctx, obs: &mut Obs, slot: &Slot) {
    obs.rule = "a message sent on a message connection".into();
    let n = if ctx.thorough { 4_000_000 } else { 60_000 };
    run_cases(ctx, obs, slot, n, |i, r, obs| {
        if endure::due(ctx, i, 600) {
            return endure::conversation(r, obs, false);
        }
        let (mut l, c, id, secrets) = connected(r, obs, (i % 4 == 3).then_some(&*ctx.scratch))?;
        let mut its: Vec<Items> = vec![];
        if i < 40 {
            // every supported module, its neighbours, in every request that names a module
            for (m, _) in APP_MODULES.iter().chain(&[("core1", 0), ("posix1", 0)]) {
                for d in ["", "0", "1", "x", "-"] {
                    for x in [format!("{}{}", m, d), format!("{}{}", d, m)] {
                        its.push(raw("want", &[x.as_bytes()]));
                        let t = format!("{}.q", x);
                        if refspec::is_message_type(t.as_bytes()) {
                            its.push(raw(&t, &[]));
                        }
                    }
                }
            }
            // replies at the limit: a type so long that only just fits, or no longer
            for k in 985..=1015usize {
                let t = format!("m1.{}", "x".repeat(k - 3));
                its.push(raw(&t, &[]));
            }
            let at = i as usize * its.len() / 40;
            its.rotate_left(at);
            its.truncate(60);
        } else {
            for _ in 0..r.range(1, 25) {
                its.push(msgio_message(r, &id, &secrets));
            }
            if r.chance(1, 5) {
                let k = r.below(its.len() + 1);
                its.insert(k, raw(*r.pick(&["test1.teardown", "test1.teardown-fail", "test1.teardown-unknown"]), &[]));
            }
            if r.chance(1, 8) {
                // a reply that cannot be sent
                let n = r.range(985, 1014);
                let k = r.below(its.len() + 1);
                let it = match r.below(3) {
                    0 => raw(&format!("{}1.{}", "m".repeat(n - 3), "x"), &[]),
                    1 => raw("want", &[format!("{}1", "m".repeat(n - 1)).as_bytes()]),
                    _ => raw(&format!("core1.{}", "x".repeat(n - 6)), &[]),
                };
                if refspec::enc(&it).len() <= 1024 {
                    its.insert(k, it);
                }
            }
        }
        let mut b = vec![];
        for it in &its {
            obs.case(Some(fnv(&encode(it))));
            b.extend(encode(it));
        }
        // a second message connection, on which nothing may arrive
        let c2 = l.open()?;
        for k in chunks(r, &b) {
            fed(obs, &mut l, c, &k)?;
        }
        fed(obs, &mut l, c2, b"{")?;
        obs.count("messages", its.len() as u64);
        obs.count("replies", l.m.conns[c as usize].replies);
        finish_stats(obs, &l);
        obs.sample(|| J::Arr(its.iter().take(5).map(|i| J::s(show(&encode(i)))).collect()));
        l.finish()
    });
}

pub fn c13(ctx: &Ctx, obs: &mut Obs, slot: &Slot) {
    obs.rule = "a stream with malformed parts sent on a message connection, with its segmentation".into();
    let n = if ctx.thorough { 4_000_000 } else { 60_000 };
    run_cases(ctx, obs, slot, n, |case, r, obs| {
        if endure::due(ctx, case, 600) {
            return endure::conversation(r, obs, true);
        }
        let (mut l, c, id, secrets) = connected(r, obs, (case % 4 == 3).then_some(&*ctx.scratch))?;
        let mut b = vec![];
        let parts = r.range(1, 10);
        for _ in 0..parts {
            if r.chance(1, 2) {
                b.extend(garbage(r));
            } else if r.chance(1, 2) {
                b.extend(encode(&raw("test1.echo", &[r.below(100).to_string().as_bytes()])));
            } else {
                b.extend(encode(&msgio_message(r, &id, &secrets)));
            }
        }
        if r.chance(1, 6) {
            gen::mutate(r, &mut b);
        }
        // resynchronise, then a message that must be handled
        b.extend(vec![b'x'; 1]);
        b.extend(encode(&raw("want", &[b"core1"])));
        let ks = chunks(r, &b);
        let mut key = b.clone();
        for k in &ks {
            key.extend((k.len() as u32).to_le_bytes());
            fed(obs, &mut l, c, k)?;
        }
        obs.case(Some(fnv(&key)));
        obs.max("stream_bytes", b.len() as u64);
        obs.count("stream_bytes", b.len() as u64);
        finish_stats(obs, &l);
        obs.sample(|| J::s(show(&b)));
        l.finish()
    });
}

// ---------------------------------------------------------------- C14, C15

/// client IDs near each other in the hierarchy
fn near_id(r: &mut Rng, l: &Lock, own: &str) -> String {
    let reg: Vec<String> = l.m.reg.clients.iter().map(|c| c.ident.id.clone()).collect();
    let other = if reg.is_empty() { own.to_string() } else { r.pick(&reg).clone() };
    let ext = |r: &mut Rng| -> String {
        let n = 1 + r.below(2);
        (0..n).map(|_| *r.pick(&['a', 'b', 'A', '1', '0'])).collect()
    };
    match r.below(14) {
        0 => own.to_string(),
        1..=4 => format!("{}{}", own, ext(r)),
        5 => other,
        6 => format!("{}{}", other, ext(r)),
        7 => {
            // a proper prefix
            let k = 1 + r.below(other.len());
            other[..k.min(other.len())].to_string()
        }
        8 => {
            // same length, another last character
            let mut v = other.into_bytes();
            let k = r.below(v.len());
            v[k] = *r.pick(&b"aAbB01"[..]);
            String::from_utf8(v).unwrap()
        }
        9 => other.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
        10 => format!("{}{}", ext(r), other),
        11 => {
            let k = r.range(900, 1000);
            format!("{}{}", own, "L".repeat(k))
        }
        12 => {
            let n = r.range(1, own.len());
            format!("{}{}", &own[..n], ext(r))
        }
        _ => gen::client_id(r),
    }
}

pub fn c14(ctx: &Ctx, obs: &mut Obs, slot: &Slot) {
    c1415(ctx, obs, slot, false)
}
pub fn c15(ctx: &Ctx, obs: &mut Obs, slot: &Slot) {
    c1415(ctx, obs, slot, true)
}
fn c1415(ctx: &Ctx, obs: &mut Obs, slot: &Slot, ends: bool) {
    obs.rule = format!("a {} request together with the requester's ID and the registered clients", if ends { "client-end" } else { "client-make" });
    let n = if ctx.thorough { 1_000_000 } else { 24_000 };
    run_cases(ctx, obs, slot, n, |case, r, obs| {
        if endure::due(ctx, case, 200) {
            return endure::family(ctx, r, obs, ends);
        }
        if !cfg!(miri) && (case / ctx.shards) % 8 == 3 {
            return crate::props::family::family(ctx, r, obs, ends);
        }
        let mut l = {
            let mut reg = registry(r);
            // several clients in one subtree from the start
            for _ in 0..r.below(4) {
                let k = r.pick(&reg.clients).ident.id.clone();
                let id = format!("{}{}", k, *r.pick(&['a', 'b', 'A', '1']));
                if !reg.clients.iter().any(|c| c.ident.id == id) {
                    let s = format!("extra{}", r.below(1 << 30));
                    reg.clients.push(RegClient { ident: Ident::new(&id, [None, None, None]), secret: s, redeemed: false });
                }
            }
            if r.chance(1, 4) {
                let n = reg.screens.len();
                reg.screens.push(RegScreen { id: reg.clients[0].ident.id.clone(), stdin_secret: format!("si{}", n), stdout_secret: format!("so{}", n), stdin_redeemed: false, stdout_redeemed: false });
            }
            if case % 4 == 3 { Lock::tokio(reg, &ctx.scratch)? } else { Lock::new(reg) }
        };
        let mut conns: Vec<u64> = vec![];
        let mut dropped: Vec<String> = vec![];
        let steps = r.range(6, 30);
        for step in 0..steps {
            let live: Vec<u64> = conns.iter().copied().filter(|c| l.ident(*c).is_some()).collect();
            let what = if step < 2 || live.is_empty() { 0 } else { r.below(12) };
            let before: Vec<String> = l.m.reg.clients.iter().map(|c| c.secret.clone()).collect();
            match what {
                0..=2 => {
                    // a new connection
                    let c = l.open()?;
                    conns.push(c);
                    let open: Vec<String> = l.m.reg.clients.iter().filter(|c| !c.redeemed).map(|c| c.secret.clone()).collect();
                    let sec = if !open.is_empty() && r.chance(4, 5) {
                        r.pick(&open).clone()
                    } else if !dropped.is_empty() {
                        obs.count("hello_with_dropped_secret", 1);
                        r.pick(&dropped).clone()
                    } else {
                        "nobody".into()
                    };
                    let b = match r.below(12) {
                        0 => vec![],
                        1 => {
                            let s = r.pick(&l.m.reg.screens).stdin_secret.clone();
                            hello("posix1.stdin-hello", &s)
                        }
                        2 => {
                            let s = r.pick(&l.m.reg.screens).stdout_secret.clone();
                            hello("posix1.stdout-hello", &s)
                        }
                        _ => hello("posix1.client-hello", &sec),
                    };
                    fed(obs, &mut l, c, &b)?;
                }
                _ => {
                    let c = *r.pick(&live);
                    let own = l.ident(c).unwrap().id.clone();
                    let mut b = vec![];
                    for _ in 0..1 + r.below(3) * r.below(2) {
                        let id = near_id(r, &l, &own);
                        let end = r.chance(if ends { 2 } else { 1 }, if ends { 3 } else { 6 });
                        let it = if end {
                            cap_args("core1.client-end", vec![id.clone().into_bytes()])
                        } else {
                            make(r, &id)
                        };
                        let it = if r.chance(1, 25) {
                            let mut args = it[1..].to_vec();
                            match r.below(4) {
                                0 => {
                                    args.pop();
                                }
                                1 => args.push(vec![]),
                                2 => args[0] = bad_id(r),
                                _ => {
                                    let k = r.below(args.len());
                                    args[k] = b"\xff\xfe".to_vec();
                                }
                            }
                            cap_args(std::str::from_utf8(&it[0]).unwrap(), args)
                        } else {
                            it
                        };
                        if end == ends {
                            let mut key = format!("{}|{}|", own, id);
                            let mut ids: Vec<&str> = l.m.reg.clients.iter().map(|c| &c.ident.id[..]).collect();
                            ids.sort();
                            key.push_str(&ids.join(","));
                            obs.case(Some(fnv(key.as_bytes())));
                        }
                        b.extend(encode(&it));
                    }
                    if r.chance(1, 4) {
                        b.extend(encode(&raw("want", &[b"test1"])));
                    }
                    let cs = chunks(r, &b);
                    for k in cs {
                        fed(obs, &mut l, c, &k)?;
                    }
                    // every connection that is still there still works, as the client it was
                    if r.chance(1, 3) {
                        let o = *r.pick(&conns);
                        fed(obs, &mut l, o, &encode(&raw("test1.echo", &[b"still here"])))?;
                    }
                }
            }
            for s in before {
                if !l.m.reg.clients.iter().any(|c| c.secret == s) {
                    dropped.push(s);
                }
            }
        }
        // everyone registered and not yet connected can connect and is told who they are; nobody else can
        let open: Vec<(String, bool)> = l.m.reg.clients.iter().map(|c| (c.secret.clone(), c.redeemed)).collect();
        for (s, redeemed) in open {
            let c = l.open()?;
            fed(obs, &mut l, c, &hello("posix1.client-hello", &s))?;
            obs.count(if redeemed { "second_use_of_secret" } else { "first_use_of_secret" }, 1);
        }
        for s in dropped.iter().take(4) {
            let c = l.open()?;
            fed(obs, &mut l, c, &hello("posix1.client-hello", s))?;
            ensure!(*l.role(c) == Role::Teardown || l.m.reg.clients.iter().any(|x| x.secret == *s), "harness: dropped secret works in the model");
        }
        obs.max("clients_registered", l.m.reg.clients.len() as u64);
        obs.max("connections", l.m.conns.len() as u64);
        finish_stats(obs, &l);
        obs.sample(|| J::s(l.trace.iter().take(12).cloned().collect::<Vec<_>>().join("; ")));
        l.finish()
    });
}
fn bad_id(r: &mut Rng) -> Vec<u8> {
    r.pick(&[&b""[..], b"a b", b"a-", b"a_", b"\xc3\xa9", b"a.", b" a", b"a\0"]).to_vec()
}

// ---------------------------------------------------------------- C22 (the part without sockets)

/// a message with as many arguments as fit
pub fn crowded(r: &mut Rng, id: &str) -> Vec<u8> {
    let t = match r.below(4) {
        0 => gen::msg_type(r),
        _ => r.pick(&["want", "have", "nope", "core1.client-make", "core1.client-new", "core1.client-end", "core1.sub", "core1.set", "core1.pub", "posix1.client-hello", "posix1.stdin-hello", "posix1.stdout-hello", "posix1.server-hello", "posix1.parent-hello", "test1.echo", "test1.fail", "x9.y"]).to_string(),
    };
    let n = if r.chance(1, 2) { gen::boundary_len(r, 330) } else { r.below(12) };
    let style = r.below(5);
    let mut args: Vec<Vec<u8>> = (0..n)
        .map(|_| match style {
            0 => vec![],
            1 => vec![b'a'],
            2 => id.as_bytes().to_vec(),
            3 => {
                let n = r.below(5);
                r.bytes(n)
            }
            _ => b"core1".to_vec(),
        })
        .collect();
    loop {
        let b = encode(&gen::items(&t, &args));
        if b.len() <= 1024 || args.is_empty() {
            return b;
        }
        let k = args.len() * 3 / 4;
        args.truncate(k);
    }
}

/// hostile clients in the same process as well-behaved ones; every read is under control, the server's code is the library's
pub fn tortured(r: &mut Rng, obs: &mut Obs) -> Result<(), String> {
    let mut reg = registry(r);
    let secrets = all_secrets(&reg);
    let id = reg.clients[0].ident.id.clone();
    let probe = Ident::new("Qprobe", [None, Some("a screen"), None]);
    reg.clients.push(RegClient { ident: probe.clone(), secret: "secret of the probe".into(), redeemed: false });
    let mut w = World::new(app::App::new(reg.clone()));
    let p = w.open();
    w.feed(p, &hello("posix1.client-hello", "secret of the probe"));
    ensure!(w.take_out(p) == encode(&probe.hello()), "harness: the probe's handshake failed");
    let mut open: Vec<u64> = vec![];
    let mut unused = secrets.clone();
    let (mut fed, mut reads) = (0usize, 0u64);
    for step in 0..r.range(10, 60) {
        if open.len() < 4 && r.chance(1, 2) {
            let c = w.open();
            open.push(c);
            if !unused.is_empty() && r.chance(3, 4) {
                let k = r.below(unused.len());
                let s = unused.swap_remove(k);
                let kind = if reg.clients.iter().any(|c| c.secret == s) {
                    "posix1.client-hello"
                } else if reg.screens.iter().any(|c| c.stdin_secret == s) {
                    "posix1.stdin-hello"
                } else {
                    "posix1.stdout-hello"
                };
                w.feed(c, &hello(kind, &s));
            }
            if unused.is_empty() && r.chance(1, 2) {
                // more of them
                let s = format!("another {}", step);
                app::lock(&w.app().0.reg).clients.push(RegClient { ident: Ident::new(&format!("{}n{}", id, step), [None, None, None]), secret: s.clone(), redeemed: false });
                unused.push(s);
            }
        }
        if open.is_empty() {
            continue;
        }
        let c = *r.pick(&open);
        let mut b = vec![];
        for _ in 0..r.range(1, 6) {
            b.extend(match r.below(12) {
                0 => garbage(r),
                1 => encode(&msgio_message(r, &id, &secrets)),
                2..=5 => crowded(r, &id),
                6 => {
                    let one = crowded(r, &id);
                    let n = r.range(1, 60);
                    one.repeat(n)
                }
                7 => stream(r, &reg, true),
                8 => crate::props::live::hostile_bytes(r, &id),
                9 => {
                    let mut b = crowded(r, &id);
                    gen::mutate(r, &mut b);
                    b
                }
                10 => {
                    // of exactly the maximal size, or a little more
                    let over = encode(&raw("test1.echo", &[&vec![b'x'; 1000]])).len() - 1000;
                    let n = r.range(1020, 1028) - over;
                    encode(&raw("test1.echo", &[&vec![b'x'; n]]))
                }
                _ => {
                    let n = r.range(1, 3000);
                    r.bytes(n)
                }
            });
        }
        let cuts = if b.len() < 4000 || r.chance(1, 20) {
            chunks(r, &b)
        } else {
            let n = *r.pick(&[300usize, 1024, 1024, 5000, 65536, usize::MAX]);
            b.chunks(n.min(b.len())).map(|x| x.to_vec()).collect()
        };
        for k in cuts {
            reads += 1;
            obs.current = format!("read on connection {}: {}", c, show(&k));
            guard(|| w.feed(c, &k)).map_err(|e| format!("{} while handling input of a client: {}", e, show(&k)))?;
        }
        fed += b.len();
        if w.role(c) == Role::Teardown {
            open.retain(|x| *x != c);
            obs.count("hostile_connections_ended", 1);
        }
        // the well-behaved client is served as if nothing had happened
        ensure!(w.take_out(p).is_empty(), "a well-behaved client was sent something because of another one");
        let m = if r.chance(1, 2) { crowded(r, "Qprobe") } else { vec![] };
        let m = if m.starts_with(b"{") && refspec::parse(&m).map_or(false, |x| x.typ == b"test1.echo") { m } else { encode(&raw("test1.echo", &[b"still there"])) };
        guard(|| w.feed(p, &m)).map_err(|e| format!("{} while handling a well-behaved client", e))?;
        let got = w.take_out(p);
        ensure!(got == m, "a well-behaved client asked for an echo of {} and got {}, after another client sent {}", show(&m), show(&got), show(&b));
        obs.count("echoes_of_the_well_behaved_client", 1);
    }
    // and a new one
    app::lock(&w.app().0.reg).clients.push(RegClient { ident: Ident::new("Qlate", [None, None, None]), secret: "secret of the latecomer".into(), redeemed: false });
    let n = w.open();
    guard(|| w.feed(n, &[hello("posix1.client-hello", "secret of the latecomer"), encode(&raw("want", &[b"core1"]))].concat())).map_err(|e| format!("{} while handling a new client", e))?;
    let got = w.take_out(n);
    let want = [encode(&Ident::new("Qlate", [None, None, None]).hello()), encode(&raw("have", &[b"core1.0"]))].concat();
    ensure!(got == want, "a new client got {} instead of {}", show(&got), show(&want));
    app::take_log();
    obs.count("reads_of_hostile_clients", reads);
    obs.count("hostile_bytes", fed as u64);
    obs.case(Some(fnv(&r.next().to_le_bytes())));
    Ok(())
}
