//! C14/C15 on the multi-threaded server: several clients request registrations and ends in one hierarchy at the same
//! time, and new clients connect with the secrets as soon as they are issued. The application's log is in the order in which
//! the server did things, so it is replayed against the rules; the requesters' replies have to fit in.
use crate::app::{self, at_or_below, raw, App, Ev, Ident, Items, RegClient, Registry};
use crate::ensure;
use crate::interpose;
use crate::props::live;
use crate::sim::{self, hello};
use crate::tok::{Client, Srv};
use crate::util::json::J;
use crate::util::quiesce;
use crate::util::report::{fnv, Obs};
use crate::util::rng::Rng;
use crate::util::run::Ctx;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};
use std::time::Duration;

#[derive(Clone, Debug)]
enum Req {
    Make(Ident),
    End(String),
    Want,
}
impl Req {
    fn items(&self) -> Items {
        match self {
            Req::Make(i) => {
                let o = |k: usize| i.screens[k].clone().unwrap_or_default().into_bytes();
                vec![b"core1.client-make".to_vec(), i.id.clone().into_bytes(), o(0), o(1), o(2)]
            }
            Req::End(id) => raw("core1.client-end", &[id.as_bytes()]),
            Req::Want => raw("want", &[b"core1"]),
        }
    }
}
struct Actor {
    c: Client,
    /// whose secret it connected with
    secret: String,
    reqs: Vec<Req>,
}

fn below(a: &str, id: &str) -> bool {
    a != id && at_or_below(a, id)
}

/// requests and what is to be read off the replies
#[derive(Default)]
struct Told {
    /// per request: the secret, if it was granted with one
    secrets: Vec<Option<String>>,
    refused: Vec<bool>,
    answered: usize,
}

fn read_replies(k: usize, a: &Actor, id: &str) -> Result<Option<Told>, String> {
    let v = sim::split(&a.c.got).map_err(|e| format!("client {} got something that is not a sequence of messages: {}", k, e))?;
    let mut it = v.into_iter();
    match it.next() {
        None => return Ok(None),
        Some(h) => ensure!(h[0] == b"posix1.server-hello" && h.get(1).map(|x| &x[..]) == Some(id.as_bytes()), "client {} connected with the secret of {:?} and was told {:?}", k, id, h.iter().map(|x| crate::util::show(x)).collect::<Vec<_>>()),
    }
    let mut t = Told::default();
    let rest: Vec<Items> = it.collect();
    let mut n = 0;
    for q in &a.reqs {
        let nope = rest.get(n).map_or(false, |x| x[0] == b"nope");
        let (mut sec, mut refused) = (None, false);
        match q {
            Req::Want => {
                if let Some(x) = rest.get(n) {
                    ensure!(x[0] == b"have", "client {}: want is answered with {:?}", k, crate::util::show(&x[0]));
                    n += 1;
                } else {
                    break;
                }
            }
            Req::Make(_) => {
                let Some(x) = rest.get(n) else { break };
                if nope {
                    refused = true;
                } else {
                    ensure!(x[0] == b"core1.client-new" && x.len() == 2, "client {}: client-make is answered with {:?}", k, x.iter().map(|x| crate::util::show(x)).collect::<Vec<_>>());
                    sec = Some(String::from_utf8_lossy(&x[1]).into_owned());
                }
                n += 1;
            }
            // (whether it is honoured does not depend on the schedule; honoured, it is not answered)
            Req::End(e) => {
                if !below(id, e) {
                    if n == rest.len() {
                        break;
                    }
                    ensure!(nope, "client {} is {:?}; its client-end of {:?} was not refused", k, id, e);
                    refused = true;
                    n += 1;
                }
            }
        }
        t.secrets.push(sec);
        t.refused.push(refused);
        t.answered += 1;
    }
    ensure!(n == rest.len(), "client {} got {} replies too many", k, rest.len() - n);
    Ok(Some(t))
}

fn requests(r: &mut Rng, pool: &[String], ends: bool, n: usize) -> Vec<Req> {
    (0..n)
        .map(|_| {
            let id = r.pick(pool).clone();
            match r.below(12) {
                0 => Req::Want,
                1..=4 if ends => Req::End(id),
                _ => {
                    let s = |r: &mut Rng| r.chance(1, 3).then(|| format!("scr{}", r.below(5)));
                    Req::Make(Ident { id, screens: [s(r), s(r), s(r)] })
                }
            }
        })
        .collect()
}

pub fn family(ctx: &Ctx, r: &mut Rng, obs: &mut Obs, ends: bool) -> Result<(), String> {
    let v = requests_at_once(ctx, r, obs, ends);
    live::clear_delays();
    app::set_hook(None);
    v
}
fn requests_at_once(ctx: &Ctx, r: &mut Rng, obs: &mut Obs, ends: bool) -> Result<(), String> {
    live::install();
    crate::tok::forget_panics();
    interpose::reset();
    app::take_log();
    let mut reg = Registry::default();
    // requesters on one branch, and sometimes beside it
    let mut id = String::from("f");
    let mut ids = vec![];
    for k in 0..r.range(2, 5) {
        if k > 0 && r.chance(1, 2) {
            id.push(*r.pick(&['a', 'b']));
        }
        if !ids.contains(&id) {
            ids.push(id.clone());
        }
        if r.chance(1, 5) {
            let other = format!("{}x", ids[0]);
            if !ids.contains(&other) {
                ids.push(other);
            }
        }
    }
    // several connections with the same ID are possible: the application decides who is registered
    let copies = r.range(1, 2);
    for (n, id) in ids.iter().enumerate() {
        for c in 0..copies {
            reg.clients.push(RegClient { ident: Ident::new(id, [None, None, None]), secret: format!("first-{}-{}", n, c), redeemed: false });
        }
    }
    let deepest = ids.iter().max_by_key(|i| i.len()).unwrap().clone();
    let mut pool: Vec<String> = vec![];
    for _ in 0..r.range(1, 4) {
        let base = if r.chance(2, 3) || pool.is_empty() { deepest.clone() } else { r.pick(&pool).clone() };
        pool.push(format!("{}{}", base, r.pick(&["k", "l", "kk", "kl", "K"])));
    }
    if r.chance(1, 3) {
        pool.push(r.pick(&ids).clone());
    }
    let srv = Srv::start(App::new(reg.clone()), &ctx.scratch, r.range(2, 4))?;
    if !live::come_to_rest("right after starting")? {
        obs.count("inconclusive", 1);
        return Ok(());
    }
    let mut actors: Vec<Actor> = vec![];
    for c in &reg.clients {
        let mut k = srv.connect()?;
        k.queue(&hello("posix1.client-hello", &c.secret));
        k.write_some(usize::MAX);
        let n = r.range(1, 5);
        actors.push(Actor { c: k, secret: c.secret.clone(), reqs: requests(r, &pool, ends, n) });
    }
    if !live::come_to_rest("after the first clients connected")? {
        obs.count("inconclusive", 1);
        return Ok(());
    }
    live::set_delays(r, obs);
    live::linger(r);
    let children: Arc<Mutex<Vec<Actor>>> = Arc::new(Mutex::new(vec![]));
    let mut jobs: Vec<Box<dyn FnOnce() + Send>> = vec![];
    let n = actors.len();
    let shared: Arc<Mutex<Vec<Option<Actor>>>> = Arc::new(Mutex::new(actors.into_iter().map(Some).collect()));
    for k in 0..n {
        let shared = shared.clone();
        let children = children.clone();
        let path = srv.path.clone();
        let mut r = Rng::new(r.next(), k as u64);
        let pool = pool.clone();
        jobs.push(Box::new(move || {
            let mut a = app::lock(&shared)[k].take().unwrap();
            let together = r.chance(1, 2);
            quiesce::delay(Duration::from_micros(r.below(120) as u64));
            let mut used = BTreeSet::new();
            let mut kids = vec![];
            for i in 0..a.reqs.len() {
                a.c.queue(&crate::refspec::enc(&a.reqs[i].items()));
                if !together || i + 1 == a.reqs.len() {
                    a.c.write_some(usize::MAX);
                    for _ in 0..r.below(8) {
                        quiesce::delay(Duration::from_micros(r.below(150) as u64));
                        a.c.read_some(usize::MAX);
                        for m in sim::split(&a.c.got).unwrap_or_default() {
                            if m[0] == b"core1.client-new" && m.len() == 2 && used.insert(m[1].clone()) {
                                let secret = String::from_utf8_lossy(&m[1]).into_owned();
                                if let (true, Ok(mut c)) = (r.chance(3, 4), Client::connect(&path)) {
                                    c.queue(&hello("posix1.client-hello", &secret));
                                    let n = r.below(3);
                                    let reqs = requests(&mut r, &pool, ends, n);
                                    for q in &reqs {
                                        c.queue(&crate::refspec::enc(&q.items()));
                                    }
                                    c.write_some(usize::MAX);
                                    kids.push(Actor { c, secret, reqs });
                                }
                            }
                        }
                    }
                }
            }
            app::lock(&shared)[k] = Some(a);
            app::lock(&children).extend(kids);
        }));
    }
    live::concurrently(jobs)?;
    live::clear_delays();
    let mut actors: Vec<Actor> = app::lock(&shared).iter_mut().map(|a| a.take().unwrap()).collect();
    actors.append(&mut app::lock(&children));
    loop {
        if !live::come_to_rest("after the requests")? {
            obs.count("inconclusive", 1);
            return Ok(());
        }
        if actors.iter_mut().fold(false, |any, a| a.c.pump() || any) {
            continue;
        }
        break;
    }
    let log = app::take_log();
    obs.current = format!(
        "{}\n{}",
        actors.iter().enumerate().map(|(k, a)| format!("client {} ({}): {}; got {}", k, a.secret, a.reqs.iter().map(|q| crate::util::show(&crate::refspec::enc(&q.items()))).collect::<Vec<_>>().join(" "), crate::util::show(&a.c.got))).collect::<Vec<_>>().join("\n"),
        log.iter().map(|e| format!("{:?}", e.ev)).collect::<Vec<_>>().join("\n")
    );

    // the server's doings in their order
    let mut here: Vec<(Ident, String, bool)> = reg.clients.iter().map(|c| (c.ident.clone(), c.secret.clone(), true)).collect();
    let mut issued: BTreeMap<String, (usize, Ident)> = reg.clients.iter().map(|c| (c.secret.clone(), (0, c.ident.clone()))).collect();
    let mut dropped: Vec<String> = vec![];
    // connections: identity, to be closed, closed
    let mut conns: BTreeMap<u64, (Ident, bool, bool)> = BTreeMap::new();
    let mut ended: Vec<String> = vec![];
    // IDs registered after each event
    let mut history: Vec<Vec<String>> = vec![];
    let mut key = vec![];
    for (at, e) in log.iter().enumerate() {
        match &e.ev {
            Ev::Register(i, s) => {
                if !ends {
                    if let Some(x) = here.iter().find(|x| at_or_below(&i.id, &x.0.id)) {
                        return Err(format!("{:?} was registered by client-make although {:?} was registered already", i.id, x.0.id));
                    }
                }
                ensure!(issued.insert(s.clone(), (at, i.clone())).is_none(), "the same secret was issued twice");
                here.push((i.clone(), s.clone(), false));
                key.extend(b"+");
                key.extend(i.id.as_bytes());
                obs.count("concurrent_registrations", 1);
            }
            Ev::Unregister { id, .. } => {
                here.retain(|x| {
                    let hit = at_or_below(id, &x.0.id);
                    if hit && !x.2 {
                        dropped.push(x.1.clone());
                    }
                    !hit
                });
                for c in conns.values_mut().filter(|c| at_or_below(id, &c.0.id)) {
                    c.1 = true;
                }
                ended.push(id.clone());
                key.extend(b"-");
                key.extend(id.as_bytes());
                obs.count("concurrent_ends", 1);
            }
            Ev::AuthClient(s, Some(i)) => {
                if let Some(x) = here.iter_mut().find(|x| x.1 == *s) {
                    x.2 = true;
                } else if ends && issued.contains_key(s) {
                    return Err(format!("a secret for {:?} was redeemed although {:?} had been ended", i.id, i.id));
                }
            }
            Ev::MsgNew(uid, i) => {
                conns.insert(*uid, (i.clone(), false, false));
                key.extend(b"c");
                key.extend(i.id.as_bytes());
            }
            Ev::MsgDrop(uid) => {
                if let Some(c) = conns.get_mut(uid) {
                    ensure!(!ends || c.1, "the connection of {:?} was closed although nobody had ended it", c.0.id);
                    c.2 = true;
                    obs.count("connections_ended_by_client_end", 1);
                }
            }
            _ => {}
        }
        history.push(here.iter().map(|x| x.0.id.clone()).collect());
    }
    history.push(here.iter().map(|x| x.0.id.clone()).collect());
    // (connections of the first clients were made before, in the same log)
    if ends {
        if let Some(c) = conns.values().find(|c| c.1 && !c.2) {
            return Err(format!("the connection of {:?} is open although {:?} was ended", c.0.id, ended.iter().find(|e| at_or_below(e, &c.0.id))));
        }
    }

    // what the clients were told
    let mut granted: BTreeMap<String, u64> = BTreeMap::new();
    let (mut ends_sent, mut ends_due): (BTreeMap<String, u64>, BTreeMap<String, u64>) = Default::default();
    let mut some_ended = false;
    for (k, a) in actors.iter().enumerate() {
        let Some((_, ident)) = issued.get(&a.secret) else { return Err(format!("client {} got a secret that was not issued", k)) };
        for q in &a.reqs {
            if let Req::End(e) = q {
                if below(&ident.id, e) {
                    *ends_sent.entry(e.clone()).or_default() += 1;
                }
            }
        }
        let Some(t) = read_replies(k, a, &ident.id)? else {
            // refused: its registration was dropped before it connected, or it was ended at once
            ensure!(!ends || ended.iter().any(|e| at_or_below(e, &ident.id)), "the secret for {:?} does not work although nobody ended it", ident.id);
            some_ended = true;
            continue;
        };
        obs.count("concurrent_requests", a.reqs.len() as u64);
        let gone = a.c.eof;
        some_ended |= gone;
        ensure!(!ends || !gone || ended.iter().any(|e| at_or_below(e, &ident.id)), "client {} ({:?}) was disconnected although nobody ended it", k, ident.id);
        // (without client-end, nobody is disconnected)
        ensure!(gone || t.answered == a.reqs.len(), "client {} sent {} requests, of which {} were answered", k, a.reqs.len(), t.answered);
        for (i, q) in a.reqs.iter().enumerate() {
            if let Req::End(e) = q {
                if below(&ident.id, e) && !gone {
                    *ends_due.entry(e.clone()).or_default() += 1;
                }
            }
            if i >= t.answered {
                continue;
            }
            if let (Req::Make(want), false) = (q, ends) {
                match &t.secrets[i] {
                    Some(s) => {
                        let Some((_, got)) = issued.get(s) else { return Err(format!("client {} was told a secret for {:?} that was not issued", k, want.id)) };
                        ensure!(got == want, "client {} requested {:?}; the secret it was told is for {:?}", k, want, got);
                        ensure!(below(&ident.id, &want.id), "client {} is {:?} and could register {:?}", k, ident.id, want.id);
                        *granted.entry(s.clone()).or_default() += 1;
                    }
                    None if below(&ident.id, &want.id) => {
                        // refused: by the time of its next granted request somebody must have been registered there
                        let next = t.secrets[i + 1..].iter().flatten().filter_map(|s| issued.get(s)).map(|x| x.0).min().unwrap_or(log.len());
                        ensure!(history[next].iter().any(|h| at_or_below(&want.id, h)), "client {} ({:?}) was refused to register {:?} although nobody was registered at or below it until then", k, ident.id, want.id);
                        obs.count("concurrent_requests_refused_for_existing_clients", 1);
                    }
                    None => obs.count("concurrent_requests_refused_for_their_id", 1),
                }
            }
        }
    }
    if !ends {
        for (s, (_, i)) in issued.iter().filter(|x| !x.0.starts_with("first-")) {
            let n = granted.get(s).copied().unwrap_or(0);
            ensure!(n == 1, "{:?} was registered; its secret was told to {} requesters", i.id, n);
        }
    } else {
        for (id, n) in ended.iter().fold(BTreeMap::<&String, u64>::new(), |mut m, e| {
            *m.entry(e).or_default() += 1;
            m
        }) {
            ensure!(n <= ends_sent.get(id).copied().unwrap_or(0), "{:?} was ended {} times; the permitted requests for that are {}", id, n, ends_sent.get(id).copied().unwrap_or(0));
        }
        for (id, n) in &ends_due {
            let did = ended.iter().filter(|e| *e == id).count() as u64;
            ensure!(did >= *n, "{} permitted requests to end {:?}; it happened {} times", n, id, did);
        }
        // secrets of what is registered work, the others do not
        let probes: Vec<(String, Option<String>)> =
            here.iter().filter(|x| !x.2).map(|x| (x.1.clone(), Some(x.0.id.clone()))).take(4).chain(dropped.iter().filter(|s| issued.contains_key(*s)).map(|s| (s.clone(), None)).take(4)).collect();
        for (s, id) in probes {
            let mut c = srv.connect()?;
            c.queue(&hello("posix1.client-hello", &s));
            c.write_some(usize::MAX);
            if !live::come_to_rest("after a hello")? {
                return Ok(());
            }
            c.pump();
            let ok = sim::split(&c.got).ok().and_then(|v| v.first().cloned()).map_or(false, |h| h[0] == b"posix1.server-hello");
            match id {
                Some(id) => ensure!(ok, "the unused secret for {:?}, which is registered, does not work", id),
                None => ensure!(!ok, "a secret whose client was ended before it was used still works"),
            }
            obs.count("secrets_tried_after_concurrent_requests", 1);
        }
    }
    obs.count("requesters", actors.len() as u64);
    obs.count("concurrent_cases", 1);
    obs.count("cases_in_which_requesters_were_ended", some_ended as u64);
    obs.case(Some(fnv(&key) ^ 0x77));
    obs.sample(|| J::s(format!("concurrent requests of {} clients: {}", actors.len(), String::from_utf8_lossy(&key))));
    Ok(())
}
