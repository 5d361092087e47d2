//! Input generators. Values are drawn from boundary-heavy distributions, from constants and strings found in the
//! sources under test (a dictionary, as fuzzers do), and from mutations of valid inputs.
use crate::refspec;
use crate::util::rng::Rng;

pub struct Dict {
    pub nums: Vec<u64>,
    pub strs: Vec<Vec<u8>>,
}

/// integer and string literals of the non-test sources (used only to generate inputs)
pub fn dict() -> &'static Dict {
    use std::sync::OnceLock;
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let mut nums = std::collections::BTreeSet::new();
        let mut strs = std::collections::BTreeSet::new();
        fn walk(p: &std::path::Path, out: &mut Vec<String>) {
            if let Ok(rd) = std::fs::read_dir(p) {
                let mut es: Vec<_> = rd.flatten().map(|e| e.path()).collect();
                es.sort();
                for e in es {
                    if e.is_dir() {
                        walk(&e, out);
                    } else if e.extension().map_or(false, |x| x == "rs") {
                        if let Ok(s) = std::fs::read_to_string(&e) {
                            out.push(s);
                        }
                    }
                }
            }
        }
        let mut files = Vec::new();
        if !cfg!(miri) {
            walk(std::path::Path::new("/repo/src"), &mut files);
        }
        for f in &files {
            for line in f.lines() {
                let t = line.trim_start();
                if t.starts_with("//") {
                    continue;
                }
                let b = t.as_bytes();
                let mut i = 0;
                while i < b.len() {
                    if b[i].is_ascii_digit() && (i == 0 || !(b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_')) {
                        let s = i;
                        while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                            i += 1;
                        }
                        let lit: String = t[s..i].chars().filter(|c| *c != '_').collect();
                        let v = if let Some(h) = lit.strip_prefix("0x") {
                            u64::from_str_radix(h.trim_end_matches(|c: char| !c.is_ascii_hexdigit()), 16).ok()
                        } else {
                            lit.chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().ok()
                        };
                        if let Some(v) = v {
                            nums.insert(v);
                        }
                    } else if b[i] == b'"' {
                        let s = i + 1;
                        i += 1;
                        while i < b.len() && b[i] != b'"' {
                            if b[i] == b'\\' {
                                i += 1;
                            }
                            i += 1;
                        }
                        if i <= b.len() && i > s && i - s <= 40 && !b[s..i].contains(&b'\\') {
                            strs.insert(b[s..i].to_vec());
                        }
                        i += 1;
                    } else {
                        i += 1;
                    }
                }
            }
        }
        nums.insert(1024);
        strs.insert(b"core1.set".to_vec());
        Dict { nums: nums.into_iter().collect(), strs: strs.into_iter().collect() }
    })
}

const LEADER: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz_AZaz__";
const FOLLOW: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz_-AZaz__----";
const ALNUM: &[u8] = b"0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz";

pub fn small_len(r: &mut Rng) -> usize {
    match r.below(10) {
        0..=5 => r.range(1, 4),
        6 | 7 => r.range(5, 12),
        8 => r.range(13, 40),
        _ => *r.pick(&[9usize, 10, 11, 31, 32, 63, 64, 99, 100, 101]),
    }
}
pub fn ident(r: &mut Rng) -> String {
    let n = small_len(r);
    let mut v = vec![if r.chance(1, 4) { *r.pick(&b"AZaz_"[..]) } else { *r.pick(LEADER) }];
    for _ in 1..n {
        v.push(*r.pick(FOLLOW));
    }
    String::from_utf8(v).unwrap()
}
pub fn version(r: &mut Rng, min: u32) -> u32 {
    let v = match r.below(8) {
        0 => *r.pick(&[0u32, 1, 2, 9, 10, 11, 99, 100, 255, 256, 999, 1000, 9999, 10000, 32767, 32768, 65534, 65535]),
        1 | 2 | 3 => r.below(10) as u32,
        4 => r.below(100) as u32,
        5 => r.below(2000) as u32,
        6 => (*r.pick(&dict().nums) % 65536) as u32,
        _ => r.below(65536) as u32,
    };
    v.max(min)
}
pub fn module(r: &mut Rng) -> String {
    match r.below(12) {
        0 => "core1".into(),
        1 => "posix1".into(),
        2 => "test1".into(),
        3 => format!("core{}", version(r, 1)),
        _ => format!("{}{}", ident(r), version(r, 1)),
    }
}
pub fn module_version(r: &mut Rng) -> String {
    format!("{}.{}", module(r), version(r, 0))
}
pub fn scoped(r: &mut Rng) -> String {
    if r.chance(1, 5) {
        let known = [
            "core1.set", "core1.sub", "core1.client-make", "core1.client-new", "core1.client-end", "posix1.client-hello",
            "posix1.server-hello", "posix1.parent-hello", "posix1.stdin-hello", "posix1.stdout-hello", "core2.client-end", "core1.client-ends",
        ];
        return r.pick(&known).to_string();
    }
    format!("{}.{}", module(r), ident(r))
}
pub fn msg_type(r: &mut Rng) -> String {
    if r.chance(1, 4) {
        r.pick(&["want", "have", "nope"]).to_string()
    } else {
        scoped(r)
    }
}
/// lengths around those at which someone might draw a line
pub fn long_len(r: &mut Rng) -> usize {
    let n = *r.pick(&[120usize, 126, 128, 250, 255, 256, 257, 300, 510, 512, 1000, 1022, 1024, 2048, 4095, 4097, 32768, 65535, 65536]);
    if cfg!(miri) { n % 300 } else { n + r.below(4) }
}
/// mostly like client_id, sometimes long
pub fn any_client_id(r: &mut Rng) -> String {
    let mut s = client_id(r);
    if r.chance(1, 40) {
        let n = long_len(r);
        s.extend(std::iter::repeat(*r.pick(&['0', 'z', 'Q'])).take(n));
    }
    s
}
pub fn client_id(r: &mut Rng) -> String {
    let n = small_len(r);
    String::from_utf8((0..n).map(|_| *r.pick(ALNUM)).collect()).unwrap()
}

const NONASCII: &[&str] = &[
    "\u{e9}", "\u{df}", "\u{430}", "\u{ff21}", "\u{ff11}", "\u{663}", "\u{b2}", "\u{200b}", "\u{1d7d8}", "\u{1f600}", "\u{0}", "\u{7f}", "\u{80}", "\u{a0}",
    "\u{212a}", "\u{17f}", "\u{130}", "\u{131}", "\u{301}", "\u{ffff}", "\u{10ffff}",
    "\u{feff}", "\u{fffd}", "\u{2028}", "\u{85}", "\u{c0}", "\u{7ff}", "\u{800}", "\u{d7ff}", "\u{e000}", "\u{10000}",
];

pub fn text(r: &mut Rng) -> String {
    let n = match r.below(6) {
        0 => 0,
        1 => 1,
        _ => small_len(r),
    };
    let mut s = String::new();
    for _ in 0..n {
        match r.below(8) {
            0 => s.push_str(r.pick(NONASCII)),
            1 => s.push(*r.pick(&[' ', '"', '\\', '\'', '{', '}', '|', ':', ',', '\n', '\t', '\r', '/', '.', '-', '_', '='])),
            _ => s.push(*r.pick(ALNUM) as char),
        }
    }
    s
}

/// a length likely to sit on a boundary
pub fn boundary_len(r: &mut Rng, max: usize) -> usize {
    let v = match r.below(8) {
        0 => *r.pick(&[0usize, 1, 2, 8, 9, 10, 11, 98, 99, 100, 101, 102, 255, 256, 257, 511, 512, 998, 999, 1000, 1001, 1002]),
        1 => (*r.pick(&dict().nums) as usize).wrapping_add(r.below(3)).wrapping_sub(1),
        2 => r.below(1024),
        3 => r.below(200),
        _ => r.below(20),
    };
    v.min(max)
}

/// argument bytes
pub fn arg(r: &mut Rng, max: usize) -> Vec<u8> {
    let n = boundary_len(r, max);
    let mut v: Vec<u8> = match r.below(12) {
        0 => vec![],
        1 => vec![r.next() as u8],
        2 => r.bytes(n),
        3 => (0..n).map(|_| *r.pick(&b"{}|:,0123456789"[..])).collect(),
        4 => (0..n).map(|_| *r.pick(&b"A Za.z_0-9\"\\'\x7f\x80\xff\n\r\t\0"[..])).collect(),
        5 => text(r).into_bytes(),
        6 => refspec::enc_str(&[&msg_type(r), &text(r)]),
        7 => r.pick(&dict().strs).clone(),
        8 => r.pick(&dict().nums).to_string().into_bytes(),
        9 => match r.below(6) {
            0 => module(r),
            1 => module_version(r),
            2 => scoped(r),
            3 => client_id(r),
            4 => msg_type(r),
            _ => ident(r),
        }
        .into_bytes(),
        10 => vec![*r.pick(&b"{}|:,09 \"\\\x00\xff"[..]); n],
        _ => (0..n).map(|_| *r.pick(ALNUM)).collect(),
    };
    v.truncate(max);
    v
}

pub fn nargs(r: &mut Rng) -> usize {
    match r.below(20) {
        0 => *r.pick(&[8usize, 9, 10, 11, 97, 98, 99, 100, 101, 200, 248, 300]),
        1 => r.below(60),
        _ => r.below(6),
    }
}

/// type and arguments, encoding at most `limit` bytes (not minimal: retries until it fits)
pub fn message(r: &mut Rng, limit: usize) -> (String, Vec<Vec<u8>>) {
    loop {
        let t = msg_type(r);
        let k = nargs(r);
        let mut left = limit as isize - t.len() as isize - 20;
        let mut args = Vec::new();
        for _ in 0..k {
            let a = if k > 30 { let m = r.below(3); r.bytes(m) } else { arg(r, left.max(0) as usize) };
            left -= a.len() as isize + 6;
            args.push(a);
        }
        if r.chance(1, 6) && !args.is_empty() {
            // pad the last argument so that the total comes out at or next to the limit
            let cur = wire(&t, &args).len() as isize;
            let target = limit as isize - *r.pick(&[0isize, 0, 1, 2, 3]);
            if target > cur {
                let l = args.last_mut().unwrap();
                let mut add = (target - cur) as usize;
                let old = l.len();
                add = add.saturating_sub(digits(old + add) - digits(old));
                let fill = r.next() as u8;
                l.extend(std::iter::repeat(fill).take(add));
            }
        }
        if wire(&t, &args).len() <= limit {
            return (t, args);
        }
        if limit < 30 {
            return ("want".into(), vec![]);
        }
    }
}
/// a well-formed message with many or long arguments, far beyond what the formatter produces
pub fn big_message(r: &mut Rng) -> (String, Vec<Vec<u8>>) {
    if !cfg!(any(miri, vt6_asan, vt6_msan)) && r.chance(1, 24) {
        // strings of a megabyte and more
        let n = *r.pick(&[(1usize << 20) - 1, 1 << 20, (1 << 20) + 1, 1_000_000, 2_097_153, 3_300_000]) + r.below(3);
        let mut args: Vec<Vec<u8>> = (0..r.below(3)).map(|_| arg(r, 300)).collect();
        let k = r.below(args.len() + 1);
        args.insert(k, vec![*r.pick(&b"a}{,9\0"[..]); n]);
        return (msg_type(r), args);
    }
    let mut t = msg_type(r);
    if t.contains('.') && r.chance(1, 8) {
        let n = long_len(r);
        t.extend(std::iter::repeat('t').take(n));
    }
    let fill = r.next() as u8;
    let most = if cfg!(miri) { 1200 } else { usize::MAX };
    let around = |r: &mut Rng, v: &[usize]| (*r.pick(v) + r.below(4) - 2).min(most);
    let mut args: Vec<Vec<u8>> = match r.below(3) {
        0 => {
            let n = around(r, &[255, 256, 512, 999, 1000, 1023, 1024, 2048, 4096, 10000, 32768, 65535, 65536]);
            let l = r.below(3);
            (0..n).map(|k| vec![(k as u8).wrapping_mul(fill); if r.chance(1, 30) { r.below(12) } else { l }]).collect()
        }
        1 => {
            let n = around(r, &[1000, 1024, 1025, 2048, 4096, 8192, 9999, 10000, 32768, 65535, 65536, 100000, 131072]);
            vec![if r.chance(1, 2) { r.bytes(n) } else { vec![fill; n] }]
        }
        _ => (0..r.below(12)).map(|_| { let n = around(r, &[2, 10, 100, 255, 256, 1000, 1024, 3000]); r.bytes(n) }).collect(),
    };
    if r.chance(1, 2) {
        for _ in 0..r.below(4) {
            let a = arg(r, 300);
            let k = r.below(args.len() + 1);
            args.insert(k, a);
        }
    }
    (t, args)
}
pub fn digits(mut n: usize) -> usize {
    let mut d = 1;
    while n > 9 {
        n /= 10;
        d += 1;
    }
    d
}
pub fn items(t: &str, args: &[Vec<u8>]) -> Vec<Vec<u8>> {
    let mut v = vec![t.as_bytes().to_vec()];
    v.extend(args.iter().cloned());
    v
}
pub fn wire(t: &str, args: &[Vec<u8>]) -> Vec<u8> {
    refspec::enc(&items(t, args))
}

/// small edits of a byte string, biased to the grammar's structure
pub fn mutate(r: &mut Rng, v: &mut Vec<u8>) {
    let k = 1 + r.below(3);
    for _ in 0..k {
        let n = v.len();
        match r.below(14) {
            0 if n > 0 => {
                let i = r.below(n);
                v[i] = r.next() as u8;
            }
            1 if n > 0 => {
                let i = r.below(n);
                v[i] ^= 1 << r.below(8);
            }
            2 => {
                let i = r.below(n + 1);
                v.insert(i, *r.pick(&b"{}|:,0123456789+- \x00\x80\xff."[..]));
            }
            3 if n > 0 => {
                let i = r.below(n);
                v.remove(i);
            }
            4 if n > 0 => {
                let i = r.below(n);
                v.truncate(i);
            }
            5 if n > 0 => {
                let i = r.below(n);
                let l = 1 + r.below((n - i).min(20));
                let s = v[i..i + l].to_vec();
                let j = r.below(n + 1);
                v.splice(j..j, s);
            }
            6 => {
                // change a number
                let ds: Vec<usize> = (0..n).filter(|&i| v[i].is_ascii_digit()).collect();
                if !ds.is_empty() {
                    let i = *r.pick(&ds);
                    let mut e = i;
                    while e < v.len() && v[e].is_ascii_digit() {
                        e += 1;
                    }
                    let old: u128 = String::from_utf8_lossy(&v[i..e]).parse().unwrap_or(0);
                    let new = match r.below(14) {
                        0 => format!("{}", old.wrapping_add(1)),
                        1 => format!("{}", old.saturating_sub(1)),
                        2 => format!("0{}", old),
                        3 => "18446744073709551615".into(),
                        4 => "18446744073709551616".into(),
                        5 => "18446744073709551614".into(),
                        6 => format!("{}", u64::MAX - r.below(2000) as u64),
                        7 => "99999999999999999999999999999999999999999".into(),
                        8 => format!("+{}", old),
                        9 => format!("-{}", old),
                        10 => format!("{}", r.pick(&dict().nums)),
                        11 => "".into(),
                        12 => format!("{}", r.below(2000)),
                        _ => "0".into(),
                    };
                    v.splice(i..e, new.into_bytes());
                }
            }
            7 => {
                let s = r.pick(&dict().strs).clone();
                let i = r.below(n + 1);
                v.splice(i..i, s);
            }
            8 => {
                let s = r.pick(NONASCII).as_bytes().to_vec();
                let i = r.below(n + 1);
                v.splice(i..i, s);
            }
            9 => {
                let (t, a) = message(r, 120);
                let s = wire(&t, &a);
                let i = if r.chance(1, 2) { n } else { r.below(n + 1) };
                v.splice(i..i, s);
            }
            10 => {
                // swap structural characters
                let ds: Vec<usize> = (0..n).filter(|&i| b"{}|:,".contains(&v[i])).collect();
                if !ds.is_empty() {
                    let i = *r.pick(&ds);
                    v[i] = *r.pick(&b"{}|:,;"[..]);
                }
            }
            11 => {
                let m = r.below(8);
                let s = r.bytes(m);
                v.extend(s);
            }
            12 if n > 1 => {
                let i = r.below(n - 1);
                v.swap(i, i + 1);
            }
            _ => {
                if n > 0 {
                    let i = r.below(n);
                    v.drain(..i);
                }
            }
        }
    }
}

/// an input for the message parser
pub fn parser_input(r: &mut Rng) -> Vec<u8> {
    match r.below(20) {
        0 => {
            let n = r.below(40);
            r.bytes(n)
        }
        1 => {
            let n = r.below(24);
            (0..n).map(|_| *r.pick(&b"{{{{1234|||:::,,,}}}}0019wantcore1.a"[..])).collect()
        }
        2..=5 => {
            let (t, a) = message(r, 1024);
            let mut v = wire(&t, &a);
            if r.chance(1, 2) {
                let n = r.below(20);
                v.extend(r.bytes(n));
            }
            v
        }
        6 => {
            // unrestricted length
            let (t, a) = message(r, 4000);
            wire(&t, &a)
        }
        7 => {
            // item list with an invalid or odd first item
            let (_, a) = message(r, 500);
            let mut t = msg_type(r).into_bytes();
            mutate(r, &mut t);
            let mut its = vec![t];
            its.extend(a);
            if r.chance(1, 8) {
                its.clear();
            }
            refspec::enc(&its)
        }
        _ => {
            let lim = if r.chance(1, 8) { 1024 } else { 150 };
            let (t, a) = message(r, lim);
            let mut v = wire(&t, &a);
            mutate(r, &mut v);
            v
        }
    }
}

/// a string near the identifier grammars
pub fn identish(r: &mut Rng) -> String {
    let base = match r.below(8) {
        0 => client_id(r),
        1 => ident(r),
        2 => module(r),
        3 => module_version(r),
        4 => scoped(r),
        5 => msg_type(r),
        6 => {
            let n = r.below(7);
            (0..n).map(|_| *r.pick(&['a', 'Z', '_', '-', '0', '1', '9', '.', '+', ' '])).collect()
        }
        _ => format!("{}{}.{}", ident(r), r.pick(&["0", "01", "1", "65535", "65536", "+1", "-1", "", "99999", "1 ", " 1", "1_0", "65540", "131073"]), r.pick(&["0", "00", "01", "1", "65535", "65536", "+1", "-0", "-1", "", "a", "99999", "1.", ".1", "65537", "70000"])),
    };
    if r.chance(1, 2) {
        return base;
    }
    let mut cs: Vec<char> = base.chars().collect();
    if r.chance(1, 40) {
        // a long one
        let n = long_len(r);
        let i = r.below(cs.len() + 1);
        let c = *r.pick(&['a', 'Z', '0', '9', '-', '_', 'q']);
        cs.splice(i..i, std::iter::repeat(c).take(n));
        if r.chance(1, 2) {
            return cs.into_iter().collect();
        }
    }
    for _ in 0..1 + r.below(2) {
        let i = r.below(cs.len() + 1);
        let c = match r.below(4) {
            0 => r.pick(NONASCII).chars().next().unwrap(),
            1 => char::from_u32(r.below(0x180) as u32).unwrap(),
            _ => *r.pick(&['.', '-', '_', '+', '0', '1', '9', 'a', 'Z', ' ', '@', '[', '`', '{', '/', ':', '\n', 'k', ',']),
        };
        match r.below(3) {
            0 => cs.insert(i, c),
            1 if i < cs.len() => cs[i] = c,
            _ => {
                if i < cs.len() {
                    cs.remove(i);
                } else {
                    cs.push(c)
                }
            }
        }
    }
    cs.into_iter().collect()
}

/// every byte string one edit away from `base`: substitution, insertion, deletion, transposition, truncation at every position
pub fn neighbours(base: &[u8], mut f: impl FnMut(&[u8]) -> Result<(), String>) -> Result<u64, String> {
    let mut n = 0;
    let mut v = base.to_vec();
    for p in 0..base.len() {
        for c in 0..=255u8 {
            v[p] = c;
            f(&v)?;
        }
        v[p] = base[p];
        n += 256;
    }
    for p in 0..=base.len() {
        let mut w = base[..p].to_vec();
        f(&w)?;
        w.push(0);
        w.extend(&base[p..]);
        for c in 0..=255u8 {
            w[p] = c;
            f(&w)?;
        }
        n += 257;
        if p < base.len() {
            w.remove(p);
            if p + 1 < base.len() {
                w.swap(p, p + 1);
                f(&w)?;
                w.swap(p, p + 1);
            }
            w.remove(p);
            f(&w)?;
            n += 2;
        }
    }
    Ok(n)
}
