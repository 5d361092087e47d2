//! C06, C07, C30: identifiers, derived client IDs, client selectors
use crate::ensure;
use crate::gen;
use crate::refspec;
use crate::util::json::J;
use crate::util::report::{fnv, Obs};
use crate::util::rng::Rng;
use crate::util::run::{guard, run_cases, CaseResult, Ctx, Slot};
use crate::util::show;
use std::collections::HashMap;
use vt6::client::core::ClientIDSuffix::{self, *};
use vt6::common::core::{ClientID, DecodeArgument, EncodeArgument, Identifier, MessageType, ModuleIdentifier, ModuleVersion, ScopedIdentifier};
use vt6::server::ClientSelector;

fn enc<T: EncodeArgument + ?Sized>(x: &T) -> Vec<u8> {
    let mut v = vec![0xEE; x.get_size()];
    x.encode(&mut v);
    v
}

/// check all six parsers on one string; returns which accept (bit mask)
pub fn check_ident(s: &str) -> Result<u32, String> {
    let b = s.as_bytes();
    guard(|| check_ident_inner(s, b)).map_err(|p| format!("{:?}: {}", s, p))?
}
fn check_ident_inner(s: &str, b: &[u8]) -> Result<u32, String> {
    let mut mask = 0;
    macro_rules! verdict {
        ($name:expr, $got:expr, $want:expr) => {
            ensure!($got == $want, "{} {}s {:?}", $name, if $got { "accept" } else { "refuse" }, s);
        };
    }
    // client ID
    let x = ClientID::parse(s);
    verdict!("ClientID", x.is_some(), refspec::is_client_id(b));
    verdict!("ClientID::decode_argument", ClientID::decode_argument(b).is_some(), x.is_some());
    if let Some(x) = x {
        mask |= 1;
        ensure!(x.as_str() == s && x.to_string() == s && enc(&x) == b, "ClientID {:?} prints or encodes differently", s);
    }
    let x = Identifier::parse(s);
    verdict!("Identifier", x.is_some(), refspec::is_identifier(b));
    verdict!("Identifier::decode_argument", Identifier::decode_argument(b).is_some(), x.is_some());
    if let Some(x) = x {
        mask |= 2;
        ensure!(x.as_str() == s && x.to_string() == s && enc(&x) == b, "Identifier {:?} prints or encodes differently", s);
    }
    let x = ModuleIdentifier::parse(s);
    let w = refspec::module_identifier(b);
    verdict!("ModuleIdentifier", x.is_some(), w.is_some());
    verdict!("ModuleIdentifier::decode_argument", ModuleIdentifier::decode_argument(b).is_some(), x.is_some());
    if let (Some(x), Some((name, major))) = (x, w) {
        mask |= 4;
        ensure!(x.as_str() == s && x.to_string() == s && enc(&x) == b, "ModuleIdentifier {:?} prints or encodes differently", s);
        ensure!(x.name().as_str().as_bytes() == &name[..] && x.major_version() == major, "ModuleIdentifier {:?} has name {} and major version {}", s, x.name(), x.major_version());
        for minor in [0u16, 1, 9, 10, 65535] {
            let v = x.with_minor_version(minor);
            let t = format!("{}.{}", s, minor);
            ensure!(v.to_string() == t && enc(&v) == t.as_bytes() && v.module().as_str() == s && v.minor_version() == minor, "{:?} with minor version {} is {}", s, minor, v);
        }
    }
    let x = ModuleVersion::parse(s);
    let w = refspec::module_version(b);
    verdict!("ModuleVersion", x.is_some(), w.is_some());
    verdict!("ModuleVersion::decode_argument", ModuleVersion::decode_argument(b).is_some(), x.is_some());
    if let (Some(x), Some((module, minor))) = (x, w) {
        mask |= 8;
        ensure!(x.to_string() == s && enc(&x) == b, "ModuleVersion {:?} prints as {} and encodes as {}", s, x, show(&enc(&x)));
        ensure!(x.module().as_str().as_bytes() == &module[..] && x.minor_version() == minor, "ModuleVersion {:?} has parts {} and {}", s, x.module(), x.minor_version());
    }
    let x = ScopedIdentifier::parse(s);
    let w = refspec::scoped_identifier(b);
    verdict!("ScopedIdentifier", x.is_some(), w.is_some());
    verdict!("ScopedIdentifier::decode_argument", ScopedIdentifier::decode_argument(b).is_some(), x.is_some());
    if let (Some(x), Some((module, member))) = (x, w) {
        mask |= 16;
        ensure!(x.as_str() == s && x.to_string() == s && enc(&x) == b, "ScopedIdentifier {:?} prints or encodes differently", s);
        ensure!(x.module().as_str().as_bytes() == &module[..] && x.member().as_str().as_bytes() == &member[..], "ScopedIdentifier {:?} has parts {} and {}", s, x.module(), x.member());
        let (rm, rmaj) = refspec::module_identifier(&module).unwrap();
        ensure!(x.module().name().as_str().as_bytes() == &rm[..] && x.module().major_version() == rmaj, "module of {:?} has the wrong parts", s);
    }
    let x = MessageType::parse(s);
    verdict!("MessageType", x.is_some(), refspec::is_message_type(b));
    verdict!("MessageType::decode_argument", MessageType::decode_argument(b).is_some(), x.is_some());
    if let Some(x) = x {
        mask |= 32;
        ensure!(x.as_str() == s && x.to_string() == s && enc(&x) == b, "MessageType {:?} prints or encodes differently", s);
        let ok = match &x {
            MessageType::Want => s == "want",
            MessageType::Have => s == "have",
            MessageType::Nope => s == "nope",
            MessageType::Scoped(i) => i.as_str() == s && !refspec::is_eternal(b),
        };
        ensure!(ok, "MessageType {:?} is {:?}", s, x);
    }
    Ok(mask)
}

/// compare the values parsed from three strings with each other; returns how many comparisons were made
pub fn check_order(v: &[String; 3]) -> Result<u64, String> {
    use std::cmp::Ordering;
    // equality of texts, and nothing else, makes values equal; the order is total and agrees with equality
    fn judge<T: Ord + Clone>(kind: &str, x: [Option<T>; 3], v: &[String; 3], n: &mut u64) -> Result<(), String> {
        for i in 0..3 {
            for j in 0..3 {
                if let (Some(a), Some(b)) = (&x[i], &x[j]) {
                    *n += 1;
                    let same = v[i] == v[j];
                    let c = a.cmp(b);
                    ensure!((a == b) == same && (a != b) != same, "{} {:?} and {:?} are {}equal", kind, v[i], v[j], if same { "not " } else { "" });
                    ensure!((c == Ordering::Equal) == same, "{} {:?} and {:?} compare as {:?}", kind, v[i], v[j], c);
                    ensure!(a.partial_cmp(b) == Some(c) && b.cmp(a) == c.reverse(), "the order of {} {:?} and {:?} depends on how they are compared", kind, v[i], v[j]);
                    ensure!(a.clone().cmp(b) == c, "a copy of {} {:?} compares differently", kind, v[i]);
                    for k in 0..3 {
                        if let Some(d) = &x[k] {
                            ensure!(!(a < b && b < d) || a < d, "{} {:?} < {:?} < {:?}, but not the first before the last", kind, v[i], v[j], v[k]);
                        }
                    }
                }
            }
        }
        Ok(())
    }
    guard(|| {
        let mut n = 0;
        let [a, b, c] = v;
        judge("client IDs", [ClientID::parse(a), ClientID::parse(b), ClientID::parse(c)], v, &mut n)?;
        judge("identifiers", [Identifier::parse(a), Identifier::parse(b), Identifier::parse(c)], v, &mut n)?;
        judge("module identifiers", [ModuleIdentifier::parse(a), ModuleIdentifier::parse(b), ModuleIdentifier::parse(c)], v, &mut n)?;
        judge("module versions", [ModuleVersion::parse(a), ModuleVersion::parse(b), ModuleVersion::parse(c)], v, &mut n)?;
        judge("scoped identifiers", [ScopedIdentifier::parse(a), ScopedIdentifier::parse(b), ScopedIdentifier::parse(c)], v, &mut n)?;
        // minor versions of one module are ordered by number
        if let (Some(x), Some(y)) = (ModuleVersion::parse(a), ModuleVersion::parse(b)) {
            if x.module() == y.module() {
                ensure!(x.cmp(&y) == x.minor_version().cmp(&y.minor_version()), "{:?} and {:?} compare as {:?}", a, b, x.cmp(&y));
            }
        }
        for (i, j) in [(0, 1), (0, 2), (1, 2)] {
            if let (Some(x), Some(y)) = (MessageType::parse(&v[i]), MessageType::parse(&v[j])) {
                n += 1;
                ensure!((x == y) == (v[i] == v[j]) && (y == x) == (v[i] == v[j]), "message types {:?} and {:?} are {}equal", v[i], v[j], if v[i] == v[j] { "not " } else { "" });
                ensure!(x.clone() == x, "a copy of message type {:?} differs", v[i]);
            }
        }
        Ok(n)
    })
    .map_err(|p| format!("{:?}: {}", v, p))?
}

/// a string that resembles the given one: case, a digit, a part, or nothing at all changed
fn relative(r: &mut Rng, s: &str) -> String {
    let mut b: Vec<u8> = s.bytes().collect();
    if !s.is_ascii() || b.is_empty() {
        return s.to_string();
    }
    let k = r.below(b.len());
    match r.below(7) {
        0 => {}
        1 => b[k] = if b[k].is_ascii_uppercase() { b[k].to_ascii_lowercase() } else { b[k].to_ascii_uppercase() },
        2 => b[k] = match b[k] { b'_' => b'-', b'-' => b'_', b'0'..=b'8' => b[k] + 1, b'9' => b'0', c => c },
        3 => b.insert(k, b[k]),
        4 => b.push(*r.pick(b"0159aZ_-")),
        5 => { b.truncate(k.max(1)); }
        _ => {
            if let Some(p) = b.iter().position(|c| *c == b'.') {
                b.truncate(p + 1);
                b.extend_from_slice(if r.below(2) == 0 { b"1" } else { b"b" });
            }
        }
    }
    String::from_utf8(b).unwrap()
}

pub fn c06(ctx: &Ctx, obs: &mut Obs, slot: &Slot) {
    obs.rule = "all six parsers and decoders compared with reference grammars on generated identifiers, their mutations, all versions 0..70000, every \
        BMP character (and all byte values) at each position of sample identifiers, all strings up to length 5 over a small alphabet; accepted values compared with each other; \
        non-trivial: distinct strings accepted by at least one parser, or one edit away from an accepted one"
        .into();
    let n = if ctx.thorough { 30_000_000 } else { 3_000_000 };
    run_cases(ctx, obs, slot, n, |i, r, obs| {
        if i < 70 {
            for v in i * 1000..(i + 1) * 1000 {
                for s in [format!("a{}", v), format!("core1.{}", v), format!("x-{}.y", v), format!("a{}.{}", v, v), format!("a0{}", v), format!("b1.0{}", v), format!("b1.+{}", v), format!("b+{}", v)] {
                    obs.current = s.clone();
                    check_ident(&s)?;
                }
            }
            obs.count("versions_swept", 1000);
            obs.evaluations += 8000;
            return Ok(());
        }
        if i < 70 + 66 {
            // every character of one 1024-block of the BMP (and some astral ones) at every position
            let k = (i - 70) as u32;
            for base in ["a", "want", "core1", "a-b12", "core1.2", "ab12.cd"] {
                let cs: Vec<char> = base.chars().collect();
                for c in (k * 1024..(k + 1) * 1024).filter_map(char::from_u32) {
                    for p in 0..=cs.len() {
                        let mut x = cs.clone();
                        if p < cs.len() {
                            x[p] = c;
                            let s: String = x.iter().collect();
                            obs.current = s.clone();
                            check_ident(&s)?;
                        }
                        let mut x = cs.clone();
                        x.insert(p, c);
                        let s: String = x.iter().collect();
                        obs.current = s.clone();
                        check_ident(&s)?;
                    }
                }
            }
            obs.count("characters_swept", 1024);
            obs.evaluations += 1024 * 50;
            return Ok(());
        }
        if i < 70 + 66 + 12 {
            let alpha = b"aZ_-.019+w, ";
            let k = (i - 136) as usize;
            for code in 0..alpha.len().pow(4) {
                let mut v = vec![alpha[k]];
                let mut c = code;
                for _ in 0..4 {
                    v.push(alpha[c % alpha.len()]);
                    c /= alpha.len();
                }
                for l in 1..=5 {
                    if l < 5 && code % alpha.len().pow(5 - l as u32) != 0 {
                        continue;
                    }
                    let s = std::str::from_utf8(&v[..l]).unwrap();
                    obs.current = s.to_string();
                    check_ident(s)?;
                }
            }
            obs.count("short_strings_enumerated", alpha.len().pow(4) as u64);
            obs.evaluations += alpha.len().pow(4) as u64;
            return Ok(());
        }
        let s = gen::identish(r);
        obs.current = s.clone();
        let mask = check_ident(&s)?;
        for (k, name) in ["client_id", "identifier", "module_identifier", "module_version", "scoped_identifier", "message_type"].iter().enumerate() {
            if mask >> k & 1 == 1 {
                obs.count(&format!("accepted_{}", name), 1);
            }
        }
        // raw bytes, possibly invalid UTF-8
        let mut b = s.clone().into_bytes();
        gen::mutate(r, &mut b);
        let d = guard(|| {
            [ClientID::decode_argument(&b).is_some(), Identifier::decode_argument(&b).is_some(), ModuleIdentifier::decode_argument(&b).is_some(), ModuleVersion::decode_argument(&b).is_some(), ScopedIdentifier::decode_argument(&b).is_some(), MessageType::decode_argument(&b).is_some()]
        })
        .map_err(|p| format!("decoding {}: {}", show(&b), p))?;
        let w = [refspec::is_client_id(&b), refspec::is_identifier(&b), refspec::module_identifier(&b).is_some(), refspec::module_version(&b).is_some(), refspec::scoped_identifier(&b).is_some(), refspec::is_message_type(&b)];
        ensure!(d == w, "decoders on {} give {:?} instead of {:?}", show(&b), d, w);
        if mask == 0 {
            obs.count("refused", 1);
        } else {
            let t = relative(r, &s);
            let u = if r.below(3) == 0 { gen::identish(r) } else { relative(r, &t) };
            obs.current = format!("{} {} {}", s, t, u);
            let n = check_order(&[s.clone(), t, u])?;
            obs.count("comparisons", n);
        }
        obs.case(Some(fnv(s.as_bytes())));
        obs.sample(|| J::Obj(vec![("string".into(), J::s(s.clone())), ("accepted_mask".into(), J::Int(mask as i64))]));
        Ok(())
    });
}

// ------------------------------------------------------------------------------------------------ C07

fn derive(base: &str, s: ClientIDSuffix) -> Result<String, String> {
    let (size, v) = guard(|| {
        let rel = s.below(ClientID::parse(base).unwrap());
        if rel.base().as_str() != base || rel.suffix() != s {
            return (usize::MAX, vec![]);
        }
        let size = rel.get_size();
        let mut v = vec![b'!'; size];
        rel.encode(&mut v);
        (size, v)
    })
    .map_err(|p| format!("deriving {:?} below {:?}: {}", s, base, p))?;
    ensure!(size != usize::MAX, "base() or suffix() of {:?} below {:?} differ", s, base);
    ensure!(refspec::is_client_id(&v), "{:?} below {:?} is not a valid client ID: {}", s, base, show(&v));
    ensure!(v.starts_with(base.as_bytes()), "{:?} below {:?} does not begin with the base: {}", s, base, show(&v));
    Ok(String::from_utf8(v).unwrap())
}
fn sel(a: &str, b: &str) -> bool {
    ClientSelector::AtOrBelow(ClientID::parse(a).unwrap()).contains(ClientID::parse(b).unwrap())
}

fn check_pair(x: ClientIDSuffix, xs: &str, y: ClientIDSuffix, ys: &str) -> CaseResult {
    if x == y {
        ensure!(xs == ys, "{:?} gives different IDs", x);
        return Ok(());
    }
    ensure!(xs != ys, "{:?} and {:?} give the same ID {}", x, y, &xs[..xs.len().min(200)]);
    // is x at or below y?
    let below = if xs.len() + ys.len() < 4000 { sel(ys, xs) } else { xs.starts_with(ys) };
    let want = match (x, y) {
        (_, Own) => Some(true),
        (Own, _) => Some(false),
        (Child(i, _), Job(k)) => Some(i == k),
        (Job(_), Local(_)) => None,
        _ => Some(false),
    };
    if let Some(w) = want {
        ensure!(below == w, "{:?} is {}at or below {:?} ({} / {})", x, if below { "" } else { "not " }, y, &xs[..xs.len().min(100)], &ys[..ys.len().min(100)]);
    }
    Ok(())
}

fn index(r: &mut Rng, big: bool) -> u32 {
    let v = match r.below(if big { 9 } else { 6 }) {
        6 => (1u32 << r.range(16, 23)).wrapping_add(r.below(9) as u32).wrapping_sub(4),
        7 => r.below(1 << 23) as u32,
        8 => ((1u32 << r.range(16, 21)) * r.range(1, 3) as u32) | r.below(70) as u32,
        0 => r.below(130) as u32,
        1 => (61 * r.below(12)).wrapping_add(r.below(5)).wrapping_sub(2) as u32,
        2 => r.below(4000) as u32,
        3 => (62 * r.below(12)).wrapping_add(r.below(5)).wrapping_sub(2) as u32,
        4 => (*r.pick(&gen::dict().nums) as u32).wrapping_add(r.below(3) as u32).wrapping_sub(1),
        _ => 1 << r.below(17),
    };
    let most = if cfg!(miri) { 400 } else { 100_000 };
    if !big && v > most {
        v % most
    } else {
        v
    }
}

pub fn c07(ctx: &Ctx, obs: &mut Obs, slot: &Slot) {
    obs.rule = "derived IDs of generated bases and suffix sets: validity, base prefix, announced size, pairwise distinctness and the selector hierarchy; \
        one full grid of own, 400 locals, 400 jobs and 130x130 children; extreme 32-bit indexes; non-trivial: distinct pairs of suffixes compared"
        .into();
    let n = if ctx.thorough { 4_000_000 } else { 500_000 };
    let extremes: Vec<ClientIDSuffix> = vec![
        Local(u32::MAX), Job(u32::MAX), Child(0, u32::MAX), Child(u32::MAX, 0), Local(u32::MAX - 1), Job(u32::MAX - 1), Job(1 << 31), Local((1 << 31) - 1), Child(u32::MAX, u32::MAX),
        Child(u32::MAX - 1, 61), Job(u32::MAX - 60), Job(u32::MAX - 61), Local(16_777_216), Job(4_294_967_234),
    ];
    run_cases(ctx, obs, slot, n, |i, r, obs| {
        if i == 0 {
            // full grid
            let base = gen::client_id(r);
            let mut seen: HashMap<String, ClientIDSuffix> = HashMap::new();
            let mut all = vec![Own];
            all.extend((0..400).map(Local));
            all.extend((0..400).map(Job));
            for a in 0..130 {
                all.extend((0..130).map(|b| Child(a, b)));
            }
            for s in &all {
                obs.current = format!("{:?}", s);
                let d = derive(&base, *s)?;
                if let Some(o) = seen.insert(d.clone(), *s) {
                    return Err(format!("{:?} and {:?} give the same ID {}", o, s, d));
                }
            }
            obs.count("grid_ids", all.len() as u64);
            // all prefixes of every ID that are IDs themselves
            for (d, s) in &seen {
                for k in base.len()..=d.len() {
                    if let Some(o) = seen.get(&d[..k]) {
                        check_pair(*s, d, *o, &d[..k])?;
                        obs.evaluations += 1;
                    }
                }
            }
            return Ok(());
        }
        if (16..24).contains(&i) {
            // extreme indexes (IDs of tens of megabytes), spread over the shards
            let base = if r.chance(1, 2) { "a".to_string() } else { gen::client_id(r) };
            let per = if ctx.thorough { 3 } else { 2 };
            let mine: Vec<ClientIDSuffix> = (0..per).map(|k| extremes[((i - 16) as usize * per + k) % extremes.len()]).collect();
            let mut got: Vec<(ClientIDSuffix, String)> = vec![];
            for s in mine {
                obs.current = format!("{:?} below {}", s, base);
                let d = derive(&base, s)?;
                for o in [Own, Local(0), Job(0), Job(1), Child(0, 0), Job(60), Job(59)] {
                    let os = derive(&base, o)?;
                    check_pair(s, &d, o, &os)?;
                    check_pair(o, &os, s, &d)?;
                }
                for (o, os) in &got {
                    check_pair(s, &d, *o, os)?;
                    check_pair(*o, os, s, &d)?;
                }
                obs.max("longest_id", d.len() as u64);
                obs.count("extreme_suffixes", 1);
                obs.case(Some(fnv(format!("{:?}", s).as_bytes())));
                // the next smaller index must not collide
                let near: Vec<ClientIDSuffix> = match s {
                    Own => vec![],
                    Local(x) => vec![Local(x - 1), Local(x - 61)],
                    Job(x) => vec![Job(x - 1), Job(x - 61)],
                    Child(x, y) => [(x.wrapping_sub(1), y), (x, y.wrapping_sub(1))].iter().map(|&(a, b)| Child(a, b)).collect(),
                };
                for o in near {
                    let os = derive(&base, o)?;
                    check_pair(s, &d, o, &os)?;
                    check_pair(o, &os, s, &d)?;
                    obs.evaluations += 2;
                }
                got.push((s, d));
            }
            return Ok(());
        }
        if i % 63 == 9 && !cfg!(miri) {
            // indexes beyond 16 bits (IDs of up to some hundred kilobytes) against relatives of theirs
            let base = gen::client_id(r);
            let x = index(r, true);
            let y = index(r, true);
            let kin = |r: &mut Rng, x: u32| match r.below(8) {
                0 => x & 0xffff,
                1 => x >> 16,
                2 => x ^ (1 << r.below(24)),
                3 => x.wrapping_add(61),
                4 => x.wrapping_add(62),
                5 => x.wrapping_add(1),
                6 => x,
                _ => x.wrapping_sub(1).min(x),
            };
            let mut set = vec![Own, Local(x), Job(x), Child(x, y), Child(y, x), Child(x, 0), Child(0, x)];
            for _ in 0..3 {
                let (a, b) = (kin(r, x), kin(r, y));
                set.push(match r.below(4) {
                    0 => Local(a),
                    1 => Job(a),
                    2 => Child(a, b),
                    _ => Child(b, a),
                });
            }
            let mut ids = Vec::new();
            for s in &set {
                obs.current = format!("{:?} below {}", s, base);
                let d = derive(&base, *s)?;
                obs.max("longest_id", d.len() as u64);
                ids.push((*s, d));
            }
            for (x, xs) in &ids {
                for (y, ys) in &ids {
                    obs.current = format!("{:?} / {:?} below {}", x, y, base);
                    check_pair(*x, xs, *y, ys)?;
                    obs.case(if x != y { Some(fnv(format!("{:?}{:?}", x, y).as_bytes())) } else { None });
                }
            }
            obs.count("families_with_wide_indexes", 1);
            return Ok(());
        }
        let base = gen::any_client_id(r);
        let a = index(r, false);
        let b = index(r, false);
        let c = index(r, false);
        let near = |r: &mut Rng, x: u32| x.wrapping_add(r.below(5) as u32).wrapping_sub(2).min(2_000_000);
        let mut set = vec![Own, Local(a), Job(a), Child(a, b), Child(b, a), Local(b), Job(b), Child(a, c), Job(c)];
        for _ in 0..4 {
            let x = near(r, a);
            let y = near(r, b);
            set.push(match r.below(4) {
                0 => Local(x),
                1 => Job(x),
                2 => Child(x, y),
                _ => Child(y, x),
            });
        }
        let mut ids = Vec::new();
        for s in &set {
            obs.current = format!("{:?} below {}", s, base);
            ids.push((*s, derive(&base, *s)?));
        }
        for (x, xs) in &ids {
            for (y, ys) in &ids {
                obs.current = format!("{:?} / {:?} below {}", x, y, base);
                check_pair(*x, xs, *y, ys)?;
                obs.case(if x != y { Some(fnv(format!("{:?}{:?}", x, y).as_bytes())) } else { None });
            }
        }
        obs.sample(|| J::Obj(vec![("base".into(), J::s(base.clone())), ("ids".into(), J::Arr(ids.iter().take(5).map(|(s, d)| J::s(format!("{:?}={}", s, &d[..d.len().min(60)]))).collect()))]));
        Ok(())
    });
}

// ------------------------------------------------------------------------------------------------ C30

pub fn c30(ctx: &Ctx, obs: &mut Obs, slot: &Slot) {
    obs.rule = "selector membership compared with string prefix on generated ID families (equal, prefix, sibling, case variants, one-byte differences) \
        and all pairs of IDs up to length 3 over a small alphabet; order laws on triples; non-trivial: distinct pairs related by prefix or \
        differing in one character"
        .into();
    let n = if ctx.thorough { 10_000_000 } else { 2_000_000 };
    run_cases(ctx, obs, slot, n, |i, r, obs| {
        let ids: Vec<String> = if i == 0 {
            let al = ['a', 'A', 'b', '0'];
            let mut v: Vec<String> = vec![];
            for a in al {
                v.push(a.to_string());
                for b in al {
                    v.push(format!("{}{}", a, b));
                    for c in al {
                        v.push(format!("{}{}{}", a, b, c));
                    }
                }
            }
            v
        } else {
            let a = gen::client_id(r);
            let mut v = vec![a.clone(), a.clone()];
            for _ in 0..5 {
                let mut x = r.pick(&v).clone();
                match r.below(6) {
                    0 | 1 => x.push_str(&gen::client_id(r)),
                    2 if x.len() > 1 => {
                        let k = 1 + r.below(x.len() - 1);
                        x.truncate(k)
                    }
                    3 => {
                        let k = r.below(x.len());
                        let mut b = x.clone().into_bytes();
                        b[k] = *r.pick(&b"aA0zZ9"[..]);
                        x = String::from_utf8(b).unwrap();
                    }
                    5 if r.chance(1, 6) && x.len() < 600 => {
                        // far longer, by amounts that small integers do not tell from none
                        let n = *r.pick(&[64usize, 127, 128, 255, 256, 256, 257, 512, 1024, 65535, 65536]) * if cfg!(miri) { 0 } else { 1 };
                        x.push_str(&"z".repeat(n));
                    }
                    4 => x = if r.chance(1, 2) { x.to_lowercase() } else { x.to_uppercase() },
                    _ => x = format!("{}{}", r.pick(&["a", "0", "Z"]), x),
                }
                v.push(x);
            }
            v
        };
        obs.current = ids.iter().take(20).cloned().collect::<Vec<_>>().join(" ");
        for a in &ids {
            let ca = ClientID::parse(a).ok_or("generated ID refused")?;
            let (s1, s2) = (ClientSelector::AtOrBelow(ca), ClientSelector::StrictlyBelow(ca));
            for b in &ids {
                let cb = ClientID::parse(b).ok_or("generated ID refused")?;
                let (g1, g2) = guard(|| (s1.contains(cb), s2.contains(cb)))?;
                ensure!(g1 == b.starts_with(a.as_str()), "at or below {} {} {}", a, if g1 { "contains" } else { "does not contain" }, b);
                ensure!(g2 == (b.starts_with(a.as_str()) && a != b), "strictly below {} {} {}", a, if g2 { "contains" } else { "does not contain" }, b);
                let nt = b.starts_with(a.as_str()) || a.len() == b.len();
                obs.case(if nt { Some(fnv(format!("{}|{}", a, b).as_bytes())) } else { None });
                obs.count(if g2 { "strictly_below" } else if g1 { "equal" } else { "unrelated" }, 1);
                if i > 0 {
                    for c in &ids {
                        let cc = ClientID::parse(c).ok_or("generated ID refused")?;
                        let bc = ClientSelector::AtOrBelow(cb).contains(cc);
                        ensure!(!(g1 && bc) || s1.contains(cc), "not transitive on {} {} {}", a, b, c);
                    }
                }
            }
        }
        obs.sample(|| J::Obj(vec![("ids".into(), J::s(ids.iter().take(8).cloned().collect::<Vec<_>>().join(" ")))]));
        Ok(())
    });
}
