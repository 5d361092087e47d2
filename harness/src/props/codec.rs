//! C01-C05, C08, C09: the wire format and argument codecs
use crate::ensure;
use crate::gen;
use crate::refspec::{self, Kind};
use crate::util::json::J;
use crate::util::report::{fnv, Obs};
use crate::util::rng::Rng;
use crate::util::run::{guard, run_cases, CaseResult, Ctx, Slot};
use crate::util::{hex, show};
use vt6::common::core::msg::{BufferTooSmallError, DecodeMessage, EncodeMessage, Message, MessageFormatter, ParseErrorKind};
use vt6::common::core::{ClientID, DecodeArgument, EncodeArgument, MessageType, ModuleIdentifier, ModuleVersion, ScopedIdentifier};
use vt6::msg::core::*;
use vt6::msg::posix::*;
use vt6::msg::{Have, Nope, Want};

pub fn kind(k: &ParseErrorKind) -> Kind {
    match k {
        ParseErrorKind::UnexpectedEOF => Kind::Eof,
        ParseErrorKind::ExpectedMessageOpener => Kind::Opener,
        ParseErrorKind::ExpectedMessageCloser => Kind::Closer,
        ParseErrorKind::ExpectedDecimalNumber => Kind::Number,
        ParseErrorKind::DecimalNumberTooLarge => Kind::TooLarge,
        ParseErrorKind::DecimalNumberHasLeadingZeroes => Kind::LeadingZero,
        ParseErrorKind::ExpectedListSigil => Kind::ListSigil,
        ParseErrorKind::ExpectedStringSigil => Kind::StringSigil,
        ParseErrorKind::ExpectedStringCloser => Kind::StringCloser,
        ParseErrorKind::ExpectedMessageType => Kind::NoType,
        ParseErrorKind::InvalidMessageType => Kind::BadType,
    }
}

/// format with the library, one byte-string argument at a time
pub fn format_bytes(buf: &mut [u8], t: &str, args: &[Vec<u8>]) -> Result<usize, BufferTooSmallError> {
    let mut f = MessageFormatter::new(buf, t, args.len());
    for a in args {
        f.add_argument(&a[..]);
    }
    f.finalize()
}

// ------------------------------------------------------------------------------------------------ C01

/// if the input is accepted: format its type and arguments again, expect the accepted bytes
fn reformat(v: &[u8]) -> Result<Option<usize>, String> {
    let Ok(res) = guard(|| Message::parse(v)) else { return Err(format!("parser panicked on {}", show(v))) };
    let Ok((m, len)) = res else { return Ok(None) };
    ensure!(len <= v.len(), "reported length {} exceeds the input of {} bytes: {}", len, v.len(), show(v));
    let t = m.parsed_type().as_str().to_string();
    let args: Vec<Vec<u8>> = m.arguments().map(|a| a.to_vec()).collect();
    let mut buf = vec![0xAA; 1100];
    let out = guard(|| format_bytes(&mut buf, &t, &args)).map_err(|p| format!("formatting an accepted message: {}", p))?;
    match out {
        Ok(k) => ensure!(buf[..k] == v[..len], "accepted {} but its type and arguments format as {}", show(&v[..len]), show(&buf[..k])),
        Err(BufferTooSmallError(k)) => {
            ensure!(len > 1024 && k == len - 1024, "accepted {} ({} bytes) does not format again: short by {}", show(&v[..len]), len, k)
        }
    }
    Ok(Some(len))
}

pub fn c01(ctx: &Ctx, obs: &mut Obs, slot: &Slot) {
    obs.rule = "generated messages are formatted, compared with the reference encoding and parsed back; generated, mutated and \
        spliced inputs are parsed and, if accepted, formatted again; non-trivial: distinct encodings that went through both directions"
        .into();
    let n = if ctx.thorough { 20_000_000 } else { 4_000_000 };
    run_cases(ctx, obs, slot, n, |i, r, obs| {
        if i % 3 == 2 {
            // parse -> format
            let v = gen::parser_input(r);
            obs.current = hex(&v);
            if i % 1000 == 2 {
                let lim = *r.pick(&[40, 60, 60, 90, 130]);
                let (t, a) = gen::message(r, lim);
                let mut accepted = 0;
                let n = gen::neighbours(&gen::wire(&t, &a), |w| Ok(accepted += reformat(w)?.is_some() as u64))?;
                obs.count("single_edit_neighbours", n);
                obs.count("accepted_inputs_reformatted", accepted);
                obs.evaluations += n;
            }
            if let Some(len) = reformat(&v)? {
                obs.count("accepted_inputs_reformatted", 1);
                obs.case(Some(fnv(&v[..len])));
            } else {
                obs.case(None);
            }
        } else {
            let lim = if r.chance(1, 20) { 3000 } else { 1024 };
            let (t, args) = gen::message(r, lim);
            let want = gen::wire(&t, &args);
            obs.current = hex(&want);
            let mut buf = vec![r.next() as u8; *r.pick(&[want.len(), 1024, 1024, 1200])];
            let out = guard(|| format_bytes(&mut buf, &t, &args)).map_err(|p| format!("formatting {}: {}", show(&want), p))?;
            match out {
                Ok(k) => {
                    ensure!(k == want.len() && buf[..k] == want[..], "message {} formatted as {}", show(&want), show(&buf[..k]));
                    let tail = if r.chance(1, 2) { 0 } else { r.below(40) };
                    let mut inp = buf[..k].to_vec();
                    if r.chance(1, 3) {
                        inp.extend(b"}}}{1|4:want,}".iter());
                    }
                    inp.extend(r.bytes(tail));
                    let Ok(p) = guard(|| Message::parse(&inp)) else { return Err(format!("parser panicked on {}", show(&inp))) };
                    match p {
                        Err(e) => return Err(format!("formatter output {} rejected: {}", show(&want), e)),
                        Ok((m, len)) => {
                            ensure!(len == k, "parser consumed {} of {} bytes of {}", len, k, show(&want));
                            ensure!(m.parsed_type().as_str() == t, "type {} came back as {}", t, m.parsed_type());
                            let got: Vec<&[u8]> = m.arguments().collect();
                            ensure!(got.len() == args.len() && got.iter().zip(&args).all(|(a, b)| a == b), "arguments of {} came back as {:?}", show(&want), got);
                        }
                    }
                    obs.count("formatted_and_parsed_back", 1);
                    obs.max("longest_message", k as u64);
                    obs.max("most_arguments", args.len() as u64);
                    obs.case(Some(fnv(&want)));
                    obs.sample(|| J::Obj(vec![("message".into(), J::s(show(&want)))]));
                }
                Err(BufferTooSmallError(k)) => {
                    let lim = buf.len().min(1024);
                    ensure!(want.len() > lim && k == want.len() - lim, "message of {} bytes refused in a buffer of {} (short by {})", want.len(), buf.len(), k);
                    obs.case(None);
                }
            }
        }
        Ok(())
    });
}

// ------------------------------------------------------------------------------------------------ C02

/// compare one parse with the reference; returns true if accepted
pub fn check_parse(v: &[u8], deep: bool) -> Result<bool, String> {
    let want = refspec::parse(v);
    let got = guard(|| Message::parse(v)).map_err(|p| format!("{} on {}", p, show(v)))?;
    match (&want, &got) {
        (Ok(w), Ok((m, len))) => {
            ensure!(*len == w.len, "length {} instead of {} for {}", len, w.len, show(v));
            ensure!(m.parsed_type().as_str().as_bytes() == &w.typ[..], "type {} instead of {} for {}", m.parsed_type(), show(&w.typ), show(v));
            let r = guard(|| {
                let mut it = m.arguments();
                for (k, a) in w.args.iter().enumerate() {
                    let left = w.args.len() - k;
                    if it.len() != left {
                        return Err(format!("iterator announces {} remaining arguments instead of {} in {}", it.len(), left, show(v)));
                    }
                    if it.size_hint() != (left, Some(left)) {
                        return Err(format!("size_hint {:?} with {} arguments remaining in {}", it.size_hint(), left, show(v)));
                    }
                    if deep && (left < 300 || k % 997 == 0) && it.clone().count() != left {
                        return Err(format!("a clone of the iterator yields {} arguments instead of {} in {}", it.clone().count(), left, show(v)));
                    }
                    match it.next() {
                        Some(x) if x == &a[..] => {}
                        x => return Err(format!("argument {} is {:?} instead of {} in {}", k, x.map(show), show(a), show(v))),
                    }
                }
                if it.len() != 0 || it.size_hint() != (0, Some(0)) {
                    return Err(format!("exhausted iterator announces {} arguments in {}", it.len(), show(v)));
                }
                for _ in 0..2 {
                    if it.next().is_some() {
                        return Err(format!("extra argument after the last one in {}", show(v)));
                    }
                }
                if deep {
                    if m.arguments().last().map(|x| x.to_vec()) != w.args.last().cloned() {
                        return Err(format!("last() differs in {}", show(v)));
                    }
                    let n = w.args.len();
                    for k in [0, 1, 2, 3, n / 2, n.saturating_sub(1), n, n + 1, n + 70] {
                        let mut it = m.arguments();
                        let want = w.args.get(k).map(|x| &x[..]);
                        if it.nth(k) != want {
                            return Err(format!("nth({}) differs in {}", k, show(v)));
                        }
                        let left = n.saturating_sub(k + 1);
                        if it.len() != left || it.size_hint() != (left, Some(left)) || it.next() != w.args.get(k + 1).map(|x| &x[..]).filter(|_| k < n) {
                            return Err(format!("after nth({}) the iterator announces {} instead of {} or continues elsewhere in {}", k, it.len(), left, show(v)));
                        }
                        if m.arguments().skip(k).step_by(2).map(|x| x.len()).ne(w.args.iter().skip(k).step_by(2).map(|x| x.len())) {
                            return Err(format!("skip({}).step_by(2) differs in {}", k, show(v)));
                        }
                    }
                    if m.arguments().fold(0usize, |h, x| h.wrapping_mul(31) + fnv(x) as usize % 1000) != w.args.iter().fold(0usize, |h, x| h.wrapping_mul(31) + fnv(x) as usize % 1000) {
                        return Err(format!("fold() differs in {}", show(v)));
                    }
                    let z = m.arguments().zip(0usize..).count();
                    if z != w.args.len() {
                        return Err(format!("zip yields {} items in {}", z, show(v)));
                    }
                    // arguments are slices of the input
                    for a in m.arguments() {
                        let (lo, hi) = (v.as_ptr() as usize, v.as_ptr() as usize + v.len());
                        if (a.as_ptr() as usize) < lo || a.as_ptr() as usize + a.len() > hi {
                            return Err("argument outside the input".to_string());
                        }
                    }
                }
                Ok(())
            })
            .map_err(|p| format!("iterating {}: {}", show(v), p))?;
            r?;
            Ok(true)
        }
        (Err((k, o)), Err(e)) => {
            ensure!(kind(&e.kind) == *k && e.offset == *o, "error {:?} at {} instead of {:?} at {} for {}", kind(&e.kind), e.offset, k, o, show(v));
            ensure!(e.buffer == v && e.buffer.as_ptr() == v.as_ptr(), "the error does not refer to the input");
            ensure!(e.is_incomplete() == (*k == Kind::Eof), "is_incomplete() wrong for {}", show(v));
            if deep {
                guard(|| format!("{} {:?}", e, e)).map_err(|p| format!("printing the error: {}", p))?;
            }
            Ok(false)
        }
        (Ok(w), Err(e)) => Err(format!("well-formed message rejected ({:?} at {}): {}", e.kind, e.offset, show(&v[..w.len]))),
        (Err((k, o)), Ok((_, len))) => Err(format!("accepted as a message of {} bytes although {:?} at {}: {}", len, k, o, show(v))),
    }
}

pub fn c02(ctx: &Ctx, obs: &mut Obs, slot: &Slot) {
    obs.rule = "parser verdict (message, length, remaining count at each step / error kind and offset) compared with an independent \
        reference parser on: generated and mutated inputs; for sampled messages every truncation and every single-byte substitution \
        at every position; all strings up to length 6 over a grammar alphabet; non-trivial: distinct inputs accepted, or rejected after \
        the first byte"
        .into();
    let n = if ctx.thorough { 12_000_000 } else { 2_000_000 };
    run_cases(ctx, obs, slot, n, |i, r, obs| {
        if i % 499 == 0 {
            // systematic neighbourhood of one message
            let lim = *r.pick(&[40, 60, 60, 90, 130]);
            let (t, a) = gen::message(r, lim);
            let mut v = gen::wire(&t, &a);
            if r.chance(1, 2) {
                v.push(*r.pick(&b"{0x}"[..]));
            }
            let cur = &mut obs.current;
            let n = gen::neighbours(&v, |w| {
                check_parse(w, false).map(|_| ()).map_err(|e| {
                    *cur = hex(w);
                    e
                })
            })?;
            obs.count("single_edit_neighbours", n);
            obs.evaluations += n;
            return Ok(());
        }
        if i % 499 == 1 {
            // a slice of the enumeration of all short strings after a well-formed start
            let starts: [&[u8]; 8] = [b"", b"{", b"{1", b"{1|", b"{1|4:want", b"{2|4:want,", b"{2|4:want,1:", b"{2|4:want,1:a,"];
            let alpha = b"{}|:,0129wa\x80+";
            let k = (i / 499) as usize;
            let s = starts[k % 8];
            let first = alpha[(k / 8) % alpha.len()];
            let mut v = s.to_vec();
            v.push(first);
            let l0 = v.len();
            for code in 0..alpha.len().pow(4) {
                v.truncate(l0);
                let mut c = code;
                for _ in 0..4 {
                    v.push(alpha[c % alpha.len()]);
                    c /= alpha.len();
                }
                if let Err(e) = check_parse(&v, false) {
                    obs.current = hex(&v);
                    return Err(e);
                }
            }
            obs.count("short_strings_enumerated", alpha.len().pow(4) as u64);
            obs.evaluations += alpha.len().pow(4) as u64;
            return Ok(());
        }
        if i % 499 == 2 {
            // far larger than what the formatter produces, whole, cut and edited
            let (t, a) = gen::big_message(r);
            let mut v = gen::wire(&t, &a);
            obs.current = show(&v[..v.len().min(400)]);
            ensure!(check_parse(&v, true)?, "large message refused");
            for _ in 0..6 {
                let cut = if r.chance(1, 2) { r.below(v.len() + 1) } else { v.len() - 1 - r.below(v.len().min(40)) };
                check_parse(&v[..cut], false)?;
            }
            gen::mutate(r, &mut v);
            check_parse(&v, true)?;
            obs.count("large_messages", 1);
            obs.max("largest_message", v.len() as u64);
            obs.max("most_arguments", a.len() as u64);
            obs.evaluations += 8;
            return Ok(());
        }
        let v = gen::parser_input(r);
        obs.current = hex(&v);
        let acc = check_parse(&v, true)?;
        match refspec::parse(&v) {
            Ok(_) => obs.count("accepted", 1),
            Err((k, _)) => obs.count(&format!("rejected_{:?}", k), 1),
        }
        let nt = acc || !matches!(refspec::parse(&v), Err((_, 0)));
        obs.case(if nt { Some(fnv(&v)) } else { None });
        obs.sample(|| J::Obj(vec![("input".into(), J::s(show(&v))), ("reference".into(), J::s(format!("{:?}", refspec::parse(&v).map(|m| m.len))))]));
        Ok(())
    });
}

// ------------------------------------------------------------------------------------------------ C03

#[derive(Clone, PartialEq, Debug)]
enum Verdict {
    Incomplete,
    Accepted(usize, String, Vec<Vec<u8>>),
    Malformed,
}
fn verdict(v: &[u8]) -> Result<Verdict, String> {
    guard(|| match Message::parse(v) {
        Ok((m, l)) => Verdict::Accepted(l, m.parsed_type().as_str().to_string(), m.arguments().map(|a| a.to_vec()).collect()),
        Err(e) if e.is_incomplete() => Verdict::Incomplete,
        Err(_) => Verdict::Malformed,
    })
}
pub fn c03(ctx: &Ctx, obs: &mut Obs, slot: &Slot) {
    obs.rule = "the parser's verdict on every prefix of an input (and on random extensions) must go incomplete* then stay accepted with the \
        same message or stay malformed; for messages well-formed by construction every proper prefix must be incomplete; non-trivial: \
        distinct inputs whose verdict changes along the way"
        .into();
    let n = if ctx.thorough { 10_000_000 } else { 1_000_000 };
    run_cases(ctx, obs, slot, n, |i, r, obs| {
        if i % 51 == 7 {
            // a message larger than the formatter produces: prefixes at and around every structural position near both ends, and sampled ones
            let (t, a) = gen::big_message(r);
            let mut v = gen::wire(&t, &a);
            let n = v.len();
            if r.chance(1, 2) {
                let k = r.below(40);
                v.extend(r.bytes(k));
            }
            obs.current = show(&v[..n.min(400)]);
            let mut ks: Vec<usize> = (0..n.min(40)).chain(n - n.min(40)..=v.len()).collect();
            for _ in 0..40 {
                ks.push(r.below(n));
            }
            for p in [256usize, 1000, 1024, 2048, 4096, 65536] {
                ks.extend((p - 2..p + 3).filter(|k| *k <= v.len()));
            }
            for k in ks {
                let cur = verdict(&v[..k])?;
                if k < n {
                    ensure!(cur == Verdict::Incomplete, "prefix of {} bytes of a valid message of {} bytes ({} arguments) is reported as {:.200}", k, n, a.len(), format!("{:?}", cur));
                } else {
                    ensure!(matches!(&cur, Verdict::Accepted(l, t2, a2) if *l == n && *t2 == t && *a2 == a), "valid message of {} bytes with {} more is reported differently", n, k - n);
                }
                obs.count("prefix_verdicts", 1);
            }
            obs.count("large_messages", 1);
            obs.max("largest_message", n as u64);
            obs.case(Some(fnv(&v)));
            return Ok(());
        }
        let (mut v, valid_len) = if i % 2 == 0 {
            let lim = if r.chance(1, 12) { 1024 } else { 200 };
            let (t, a) = gen::message(r, lim);
            let v = gen::wire(&t, &a);
            let n = v.len();
            (v, Some(n))
        } else {
            (gen::parser_input(r), None)
        };
        let ext = r.below(30);
        if r.chance(1, 2) {
            v.extend(r.bytes(ext));
        } else {
            let (t, a) = gen::message(r, 80);
            v.extend(gen::wire(&t, &a));
        }
        obs.current = hex(&v);
        let mut prev = Verdict::Incomplete;
        let mut changes = 0;
        for k in 0..=v.len() {
            let cur = verdict(&v[..k])?;
            if let Some(n) = valid_len {
                if k < n {
                    ensure!(cur == Verdict::Incomplete, "prefix of {} bytes of the valid message {} is reported as {:?}", k, show(&v[..n]), cur);
                } else {
                    ensure!(matches!(&cur, Verdict::Accepted(l, ..) if *l == n), "valid message {} with {} more bytes is reported as {:?}", show(&v[..n]), k - n, cur);
                }
            }
            match (&prev, &cur) {
                (Verdict::Incomplete, _) => {}
                (a, b) => ensure!(a == b, "verdict changed from {:?} to {:?} when byte {} arrived: {}", a, b, k - 1, show(&v[..k])),
            }
            if prev != cur {
                changes += 1;
            }
            if let Verdict::Accepted(l, ..) = &cur {
                ensure!(*l <= k, "accepted length {} beyond the {} bytes received", l, k);
            }
            prev = cur;
        }
        obs.count("prefix_verdicts", v.len() as u64 + 1);
        obs.count(match prev { Verdict::Incomplete => "end_incomplete", Verdict::Accepted(..) => "end_accepted", Verdict::Malformed => "end_malformed" }, 1);
        // further extensions of a decided input
        if prev != Verdict::Incomplete {
            for _ in 0..3 {
                let mut w = v.clone();
                let k = r.below(60);
                match r.below(3) {
                    0 => w.extend(r.bytes(k)),
                    1 => w.extend((0..k).map(|_| *r.pick(&b"0123456789{}|:,"[..]))),
                    _ => w.extend(vec![*r.pick(&b"09}{,"[..]); k * 20]),
                }
                obs.current = hex(&w);
                let cur = verdict(&w)?;
                ensure!(cur == prev, "verdict changed from {:?} to {:?} when extending {} to {}", prev, cur, show(&v), show(&w));
            }
        }
        obs.case(if changes > 0 { Some(fnv(&v)) } else { None });
        obs.sample(|| J::Obj(vec![("input".into(), J::s(show(&v))), ("final".into(), J::s(format!("{:?}", prev)))]));
        Ok(())
    });
}

// ------------------------------------------------------------------------------------------------ C04

fn check_format(want: &[u8], size: usize, canary: u8, f: &mut dyn FnMut(&mut [u8]) -> Result<usize, BufferTooSmallError>) -> Result<bool, String> {
    // the buffer sits inside a larger area so that a write outside of it is visible (or panics)
    let mut area = vec![canary; size + 64];
    let res = guard(|| f(&mut area[32..32 + size])).map_err(|p| format!("formatting {} into {} bytes: {}", show(want), size, p))?;
    let lim = size.min(1024);
    ensure!(area[..32].iter().chain(&area[32 + size..]).all(|&c| c == canary), "bytes outside the buffer were written");
    let buf = &area[32..32 + size];
    match res {
        Ok(k) => {
            ensure!(k <= lim, "reported {} bytes with a limit of {}", k, lim);
            ensure!(want.len() <= lim, "message of {} bytes reported as fitting into {}", want.len(), lim);
            ensure!(k == want.len() && &buf[..k] == want, "wrote {} instead of {} (buffer of {})", show(&buf[..k]), show(want), size);
            ensure!(buf[k..].iter().all(|&c| c == canary), "bytes after the message were changed (buffer of {}, message {})", size, show(want));
            Ok(true)
        }
        Err(BufferTooSmallError(k)) => {
            ensure!(want.len() > lim, "message of {} bytes refused with a limit of {}", want.len(), lim);
            ensure!(k == want.len() - lim, "shortfall reported as {} instead of {} (buffer of {}, message of {} bytes)", k, want.len() - lim, size, want.len());
            ensure!(buf[lim..].iter().all(|&c| c == canary), "bytes beyond the 1024-byte limit were written");
            Ok(false)
        }
    }
}

/// an argument of one of the supported types, with its reference encoding
pub enum Any {
    Bytes(Vec<u8>),
    Str(String),
    Bool(bool),
    U8(u8),
    I16(i16),
    U16(u16),
    I32(i32),
    U32(u32),
    I64(i64),
    U64(u64),
    I128(i128),
    U128(u128),
    Usize(usize),
    OptStr(Option<String>),
    Path(std::path::PathBuf),
    Module(String),
    Version(String),
    Scoped(String),
    Cid(String),
    Rel(String, vt6::client::core::ClientIDSuffix),
}
impl Any {
    pub fn gen(r: &mut Rng) -> Any {
        use std::os::unix::ffi::OsStringExt;
        match r.below(20) {
            0 => Any::Bool(r.chance(1, 2)),
            1 => Any::U8(int(r) as u8),
            2 => Any::I16(int(r) as i16),
            3 => Any::U16(int(r) as u16),
            4 => Any::I32(int(r) as i32),
            5 => Any::U32(int(r) as u32),
            6 => Any::I64(int(r) as i64),
            7 => Any::U64(int(r) as u64),
            8 => Any::I128(int(r) as i128),
            9 => Any::U128(int(r)),
            10 => Any::Usize(int(r) as usize),
            11 => Any::OptStr(if r.chance(1, 2) { Some(gen::text(r)) } else { None }),
            12 => Any::Path(std::ffi::OsString::from_vec(gen::arg(r, 60)).into()),
            13 => Any::Module(gen::module(r)),
            14 => Any::Version(gen::module_version(r)),
            15 => Any::Scoped(gen::scoped(r)),
            16 => Any::Cid(gen::client_id(r)),
            17 => {
                use vt6::client::core::ClientIDSuffix::*;
                let (a, b) = (r.below(400) as u32, r.below(200) as u32);
                let s = match r.below(4) {
                    0 => Own,
                    1 => Local(a),
                    2 => Job(a),
                    _ => Child(a, b),
                };
                Any::Rel(gen::client_id(r), s)
            }
            18 => Any::Str(gen::text(r)),
            _ => Any::Bytes(gen::arg(r, 300)),
        }
    }
    /// reference encoding (None: not modelled, only its size and stability are checked)
    pub fn text(&self) -> Option<Vec<u8>> {
        use std::os::unix::ffi::OsStrExt;
        Some(match self {
            Any::Bytes(b) => b.clone(),
            Any::Str(s) | Any::Module(s) | Any::Version(s) | Any::Scoped(s) | Any::Cid(s) => s.as_bytes().to_vec(),
            Any::Bool(b) => if *b { b"t".to_vec() } else { b"f".to_vec() },
            Any::U8(x) => x.to_string().into_bytes(),
            Any::I16(x) => x.to_string().into_bytes(),
            Any::U16(x) => x.to_string().into_bytes(),
            Any::I32(x) => x.to_string().into_bytes(),
            Any::U32(x) => x.to_string().into_bytes(),
            Any::I64(x) => x.to_string().into_bytes(),
            Any::U64(x) => x.to_string().into_bytes(),
            Any::I128(x) => x.to_string().into_bytes(),
            Any::U128(x) => x.to_string().into_bytes(),
            Any::Usize(x) => x.to_string().into_bytes(),
            Any::OptStr(o) => o.clone().unwrap_or_default().into_bytes(),
            Any::Path(p) => p.as_os_str().as_bytes().to_vec(),
            Any::Rel(..) => return None,
        })
    }
    pub fn with<R>(&self, f: &mut dyn FnMut(&dyn EncodeArgument) -> R) -> R {
        match self {
            Any::Bytes(b) => {
                // unsized: wrap
                struct W<'a>(&'a [u8]);
                impl EncodeArgument for W<'_> {
                    fn get_size(&self) -> usize {
                        self.0.get_size()
                    }
                    fn encode(&self, buf: &mut [u8]) {
                        self.0.encode(buf)
                    }
                }
                f(&W(b))
            }
            Any::Str(s) => {
                let o: Option<&str> = Some(s);
                f(&o)
            }
            Any::Bool(x) => f(x),
            Any::U8(x) => f(x),
            Any::I16(x) => f(x),
            Any::U16(x) => f(x),
            Any::I32(x) => f(x),
            Any::U32(x) => f(x),
            Any::I64(x) => f(x),
            Any::U64(x) => f(x),
            Any::I128(x) => f(x),
            Any::U128(x) => f(x),
            Any::Usize(x) => f(x),
            Any::OptStr(o) => {
                let o: Option<&str> = o.as_deref();
                f(&o)
            }
            Any::Path(p) => {
                let o = Some(p.as_path());
                f(&o)
            }
            Any::Module(s) => f(&ModuleIdentifier::parse(s).unwrap()),
            Any::Version(s) => f(&ModuleVersion::parse(s).unwrap()),
            Any::Scoped(s) => f(&ScopedIdentifier::parse(s).unwrap()),
            Any::Cid(s) => f(&ClientID::parse(s).unwrap()),
            Any::Rel(s, x) => f(&x.below(ClientID::parse(s).unwrap())),
        }
    }
}

/// integers biased to boundaries
pub fn int(r: &mut Rng) -> u128 {
    let v: u128 = match r.below(9) {
        0 => r.below(20) as u128,
        1 => 10u128.pow(r.below(39) as u32),
        2 => 10u128.pow(r.below(39) as u32).wrapping_sub(1),
        3 => 1u128 << r.below(128),
        4 => (1u128 << r.below(128)).wrapping_sub(1),
        5 => *r.pick(&gen::dict().nums) as u128,
        6 => (r.next() as u128) << 64 | r.next() as u128,
        7 => r.next() as u128 >> r.below(64),
        _ => ((r.next() as u128) << 64 | r.next() as u128) >> r.below(128),
    };
    let v = match r.below(6) {
        0 => v.wrapping_add(1),
        1 => v.wrapping_sub(1),
        _ => v,
    };
    if r.chance(1, 3) {
        v.wrapping_neg()
    } else {
        v
    }
}

pub fn c04(ctx: &Ctx, obs: &mut Obs, slot: &Slot) {
    obs.rule = "messages of plain and typed arguments and all typed messages are formatted into buffers of every size around their length, \
        0, and around 1024, inside a canary-filled area; result compared with the reference encoding and the exact shortfall; wrong \
        argument counts must not yield a message; non-trivial: distinct (message, buffer size) pairs"
        .into();
    let n = if ctx.thorough { 8_000_000 } else { 1_000_000 };
    run_cases(ctx, obs, slot, n, |i, r, obs| {
        let canary = *r.pick(&[0u8, 0xAA, 0xFF, b',', b'}']);
        // the message and how to format it
        enum M {
            Plain(String, Vec<Vec<u8>>),
            Mixed(String, Vec<Any>),
            Typed(Typed),
        }
        let m = match i % 3 {
            0 => {
                let lim = *r.pick(&[60, 200, 1024, 1100, 3000]);
                let (t, a) = gen::message(r, lim);
                M::Plain(t, a)
            }
            1 => {
                let k = gen::nargs(r).min(40);
                M::Mixed(gen::msg_type(r), (0..k).map(|_| Any::gen(r)).collect())
            }
            _ => M::Typed(Typed::gen(r, 1100)),
        };
        let want = match &m {
            M::Plain(t, a) => gen::wire(t, a),
            M::Mixed(t, a) => {
                let its: Vec<Vec<u8>> = a.iter().map(|x| x.text().unwrap_or_else(|| x.with(&mut |e| e.encode_to_vector()))).collect();
                gen::wire(t, &its)
            }
            M::Typed(t) => gen::wire(t.name(), &t.args()),
        };
        obs.current = hex(&want);
        let mut sizes: Vec<usize> = vec![0, 1, 2, want.len().saturating_sub(1), want.len(), want.len() + 1, 1023, 1024, 1025, 1026, 2048];
        if want.len() < 120 {
            sizes.extend(0..want.len() + 2);
        } else {
            for _ in 0..12 {
                sizes.push(r.below(want.len() + 40));
            }
        }
        if i % 211 < 3 && !cfg!(miri) {
            // far larger buffers than a message can fill
            let odd = r.below(1025);
            sizes.extend([4096, 32768, 65535, 65536, 65536 + odd, 131072, 131072 + want.len(), (1 << 20) + odd]);
            obs.max("largest_buffer", (1 << 20) + 1024);
        }
        for size in sizes {
            let fit = match &m {
                M::Plain(t, a) => check_format(&want, size, canary, &mut |b| format_bytes(b, t, a))?,
                M::Mixed(t, a) => check_format(&want, size, canary, &mut |b| {
                    let mut f = MessageFormatter::new(b, t, a.len());
                    for x in a {
                        x.with(&mut |e| {
                            struct D<'a>(&'a dyn EncodeArgument);
                            impl EncodeArgument for D<'_> {
                                fn get_size(&self) -> usize {
                                    self.0.get_size()
                                }
                                fn encode(&self, buf: &mut [u8]) {
                                    self.0.encode(buf)
                                }
                            }
                            f.add_argument(&D(e))
                        });
                    }
                    f.finalize()
                })?,
                M::Typed(t) => check_format(&want, size, canary, &mut |b| t.encode(b))?,
            };
            obs.count(if fit { "fitting" } else { "refused" }, 1);
            let mut key = want.clone();
            key.extend(size.to_le_bytes());
            obs.case(Some(fnv(&key)));
        }
        obs.sample(|| J::Obj(vec![("message".into(), J::s(show(&want)))]));
        // wrong argument counts never yield a message
        if i % 4 == 0 {
            let (t, a) = gen::message(r, 200);
            let announced = match r.below(6) {
                0 => a.len() + 1,
                1 => a.len() + 1 + r.below(5),
                2 => usize::MAX,
                3 => usize::MAX - 1,
                _ => a.len().wrapping_sub(1 + r.below(2)),
            };
            if announced != a.len() {
                let mut buf = vec![0u8; 1100];
                let res = guard(|| {
                    let mut f = MessageFormatter::new(&mut buf, &t, announced);
                    for x in &a {
                        f.add_argument(&x[..]);
                    }
                    f.finalize()
                });
                ensure!(!matches!(res, Ok(Ok(_))), "announced {} arguments, supplied {}, got a message: {}", announced, a.len(), show(&buf[..64]));
                obs.count("wrong_argument_counts", 1);
            }
        }
        Ok(())
    });
}

// ------------------------------------------------------------------------------------------------ C05

fn check_value<T: EncodeArgument + ?Sized>(v: &T, text: &[u8], what: &str) -> CaseResult {
    let (size, enc, enc2) = guard(|| {
        let size = v.get_size();
        let mut a = vec![0xEEu8; size];
        v.encode(&mut a);
        (size, a, v.encode_to_vector())
    })
    .map_err(|p| format!("encoding {} {}: {}", what, show(text), p))?;
    ensure!(size == text.len(), "{} {} announces {} bytes", what, show(text), size);
    ensure!(enc == text && enc2 == text, "{} encodes as {} instead of {}", what, show(&enc), show(text));
    Ok(())
}

macro_rules! int_checks {
    ($r:expr, $obs:expr, $v:expr, $bytes:expr; $($t:ident $signed:literal $bits:expr),*) => {
        $({
            let x = $v as $t;
            let text = x.to_string();
            check_value(&x, text.as_bytes(), stringify!($t))?;
            check_value(&Some(&x), text.as_bytes(), concat!("Option<&", stringify!($t), ">"))?;
            let d = guard(|| ($t::decode_argument(text.as_bytes()), Option::<$t>::decode_argument(text.as_bytes())))
                .map_err(|p| format!("decoding {}: {}", text, p))?;
            ensure!(d == (Some(x), Some(Some(x))), "{} {} decodes as {:?}", stringify!($t), text, d);
            check_dec_int::<$t>($bytes, ref_int($bytes, $signed, $bits).map(|v| v as $t), stringify!($t))?;
        })*
    };
}
/// reference decode; two's complement in u128
fn ref_int(b: &[u8], signed: bool, bits: u32) -> Option<u128> {
    if signed {
        refspec::canon_signed(b, bits).map(|v| v as u128)
    } else {
        refspec::canon(b, if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 })
    }
}
fn check_dec_int<T: for<'a> DecodeArgument<'a> + PartialEq + std::fmt::Debug>(b: &[u8], want: Option<T>, what: &str) -> CaseResult {
    let d = guard(|| T::decode_argument(b)).map_err(|p| format!("decoding {} as {}: {}", show(b), what, p))?;
    ensure!(d == want, "{} decodes {} as {:?} instead of {:?}", what, show(b), d, want);
    let o = guard(|| Option::<T>::decode_argument(b)).map_err(|p| format!("decoding {} as Option<{}>: {}", show(b), what, p))?;
    let want_o = if b.is_empty() { Some(None) } else { want.map(Some) };
    ensure!(o == want_o, "Option<{}> decodes {} as {:?} instead of {:?}", what, show(b), o, want_o);
    Ok(())
}
fn all_ints(b: &[u8]) -> CaseResult {
    macro_rules! go { ($($t:ident $s:literal $bits:expr),*) => { $( check_dec_int::<$t>(b, ref_int(b, $s, $bits).map(|v| v as $t), stringify!($t))?; )* } }
    go!(i8 true 8, u8 false 8, i16 true 16, u16 false 16, i32 true 32, u32 false 32, i64 true 64, u64 false 64, i128 true 128, u128 false 128, isize true 64, usize false 64);
    let want = match b {
        b"t" => Some(true),
        b"f" => Some(false),
        _ => None,
    };
    check_dec_int::<bool>(b, want, "bool")
}

pub fn c05(ctx: &Ctx, obs: &mut Obs, slot: &Slot) {
    use std::os::unix::ffi::OsStrExt;
    obs.rule = "encode/size/decode of every 8- and 16-bit integer, boundary-biased wider integers, booleans, strings, byte strings, paths and \
        options compared with canonical text; decoders compared with a reference on every byte string of length <= 2, on all strings of \
        length <= 5 over a numeric alphabet and on mutated numbers; non-trivial: distinct values / decoder inputs containing a digit or \
        non-ASCII byte"
        .into();
    let n = if ctx.thorough { 30_000_000 } else { 4_000_000 };
    run_cases(ctx, obs, slot, n, |i, r, obs| {
        if i < 64 {
            // slices of the 16-bit space and of the 2-byte inputs
            for v in (i * 1024)..((i + 1) * 1024) {
                let x = v as u16;
                check_value(&x, x.to_string().as_bytes(), "u16")?;
                check_value(&(x as i16), (x as i16).to_string().as_bytes(), "i16")?;
                check_value(&(x as u8), (x as u8).to_string().as_bytes(), "u8")?;
                check_value(&(x as i8), (x as i8).to_string().as_bytes(), "i8")?;
                ensure!(u16::decode_argument(x.to_string().as_bytes()) == Some(x), "u16 {}", x);
                ensure!(i16::decode_argument((x as i16).to_string().as_bytes()) == Some(x as i16), "i16 {}", x as i16);
                all_ints(&[(v >> 8) as u8, v as u8])?;
                all_ints(&[v as u8])?;
            }
            obs.count("exhaustive_16bit_values", 1024);
            obs.evaluations += 4096;
            return Ok(());
        }
        if i < 64 + 14 {
            let alpha = b"+-0123459 _.tf";
            let k = (i - 64) as usize;
            for code in 0..alpha.len().pow(4) {
                let mut v = vec![alpha[k]];
                let mut c = code;
                let l = 1 + code % 4;
                for _ in 0..l {
                    v.push(alpha[c % alpha.len()]);
                    c /= alpha.len();
                }
                if let Err(e) = all_ints(&v) {
                    obs.current = hex(&v);
                    return Err(e);
                }
            }
            obs.count("short_decoder_inputs_enumerated", alpha.len().pow(4) as u64);
            obs.evaluations += alpha.len().pow(4) as u64;
            return Ok(());
        }
        let v = int(r);
        // a decoder input near a number
        let mut b = match r.below(4) {
            0 => gen::arg(r, 60),
            1 => (v as i128).to_string().into_bytes(),
            2 => ((v as i64) >> r.below(50)).to_string().into_bytes(),
            _ => v.to_string().into_bytes(),
        };
        if r.chance(2, 3) {
            match r.below(9) {
                0 => b.insert(0, b'+'),
                1 => b.insert(0, b'0'),
                2 => b.insert(0, b'-'),
                3 => b.push(*r.pick(&b"0123456789 \n\x00_.e\x80"[..])),
                4 => b.insert(0, *r.pick(&b" \t\n_\xc2"[..])),
                5 => b = [b"-0".as_ref(), &b].concat(),
                6 => b = b"18446744073709551616340282366920938463463374607431768211456170141183460469231731687303715884105728"[r.below(20)..][..r.range(1, 45)].to_vec(),
                7 => {
                    let p = r.below(b.len() + 1);
                    b.splice(p..p, "\u{663}".bytes());
                }
                _ => gen::mutate(r, &mut b),
            }
        }
        obs.current = format!("value {} / decoder input {}", v, hex(&b));
        int_checks!(r, obs, v, &b; i8 true 8, u8 false 8, i16 true 16, u16 false 16, i32 true 32, u32 false 32, i64 true 64, u64 false 64, i128 true 128, u128 false 128, isize true 64, usize false 64);
        let flag = r.chance(1, 2);
        check_value(&flag, if flag { b"t" } else { b"f" }, "bool")?;
        ensure!(bool::decode_argument(if flag { b"t" } else { b"f" }) == Some(flag), "bool does not decode back");
        // strings, bytes, paths, options
        let a = gen::arg(r, 1200);
        check_value(&a[..], &a, "byte string")?;
        ensure!(<&[u8]>::decode_argument(&a) == Some(&a[..]), "byte string decodes differently");
        let s = gen::text(r);
        check_value(&s[..], s.as_bytes(), "string")?;
        check_value(&Some(&s[..]), s.as_bytes(), "Option<&str>")?;
        check_value(&None::<&str>, b"", "None")?;
        check_value(&Some(&a[..]), &a, "Option<&[u8]>")?;
        let p = std::path::Path::new(std::ffi::OsStr::from_bytes(&a));
        check_value(p, &a, "path")?;
        check_value(&Some(p), &a, "Option<&Path>")?;
        for x in [&a[..], s.as_bytes(), &b[..]] {
            let d = guard(|| (<&str>::decode_argument(x), <Option<&str>>::decode_argument(x), <Option<&[u8]>>::decode_argument(x), <&std::path::Path>::decode_argument(x)))
                .map_err(|p| format!("decoding {}: {}", show(x), p))?;
            let want = std::str::from_utf8(x).ok();
            ensure!(d.0 == want, "&str decodes {} as {:?}", show(x), d.0);
            ensure!(d.1 == if x.is_empty() { Some(None) } else { want.map(Some) }, "Option<&str> decodes {} as {:?}", show(x), d.1);
            ensure!(d.2 == if x.is_empty() { Some(None) } else { Some(Some(x)) }, "Option<&[u8]> decodes {} as {:?}", show(x), d.2);
            ensure!(d.3.map(|p| p.as_os_str().as_bytes()) == Some(x), "&Path decodes {} as {:?}", show(x), d.3);
        }
        obs.count("values", 20);
        obs.count("decoder_inputs", 4);
        let nt = b.iter().any(|c| c.is_ascii_digit() || *c >= 0x80);
        obs.case(if nt { Some(fnv(&b) ^ (v as u64).rotate_left(7)) } else { None });
        obs.sample(|| J::Obj(vec![("value".into(), J::s(v.to_string())), ("decoder_input".into(), J::s(show(&b)))]));
        Ok(())
    });
}

// ------------------------------------------------------------------------------------------------ C08

/// fields of one typed message
#[derive(Clone, Debug)]
pub enum Typed {
    Want(String),
    HaveVersion(String),
    HaveModule(String),
    Nope(String),
    ClientMake(String, [Option<String>; 3]),
    ClientNew(String),
    ClientEnd(String),
    ClientHello(String),
    StdinHello(String),
    StdoutHello(String),
    ParentHello(String, Vec<u8>),
    ServerHello(String, [Option<String>; 3]),
}
fn opt(r: &mut Rng) -> Option<String> {
    match r.below(4) {
        0 => None,
        1 => Some(String::new()),
        _ => Some(gen::text(r)),
    }
}
fn long(r: &mut Rng, max: usize) -> String {
    if r.chance(1, 8) {
        let n = r.below(max);
        let c = *r.pick(&['x', 'é', '{', '0']);
        std::iter::repeat(c).take(n / c.len_utf8()).collect()
    } else {
        gen::text(r)
    }
}
impl Typed {
    pub fn gen(r: &mut Rng, max: usize) -> Typed {
        match r.below(12) {
            0 => Typed::Want(gen::module(r)),
            1 => Typed::HaveVersion(gen::module_version(r)),
            2 => Typed::HaveModule(gen::module(r)),
            3 => Typed::Nope(gen::msg_type(r)),
            4 => Typed::ClientMake(gen::client_id(r), [opt(r), opt(r), opt(r)]),
            5 => Typed::ClientNew(long(r, max)),
            6 => Typed::ClientEnd(gen::client_id(r)),
            7 => Typed::ClientHello(long(r, max)),
            8 => Typed::StdinHello(long(r, max)),
            9 => Typed::StdoutHello(long(r, max)),
            10 => {
                let p = if r.chance(1, 8) { r.below(max) } else { 100 };
                Typed::ParentHello(gen::text(r), gen::arg(r, p))
            }
            _ => Typed::ServerHello(gen::client_id(r), [opt(r), opt(r), opt(r)]),
        }
    }
    pub fn name(&self) -> &'static str {
        match self {
            Typed::Want(_) => "want",
            Typed::HaveVersion(_) | Typed::HaveModule(_) => "have",
            Typed::Nope(_) => "nope",
            Typed::ClientMake(..) => "core1.client-make",
            Typed::ClientNew(_) => "core1.client-new",
            Typed::ClientEnd(_) => "core1.client-end",
            Typed::ClientHello(_) => "posix1.client-hello",
            Typed::StdinHello(_) => "posix1.stdin-hello",
            Typed::StdoutHello(_) => "posix1.stdout-hello",
            Typed::ParentHello(..) => "posix1.parent-hello",
            Typed::ServerHello(..) => "posix1.server-hello",
        }
    }
    pub fn args(&self) -> Vec<Vec<u8>> {
        match self {
            Typed::Want(s) | Typed::HaveVersion(s) | Typed::HaveModule(s) | Typed::Nope(s) | Typed::ClientNew(s) | Typed::ClientEnd(s) | Typed::ClientHello(s) | Typed::StdinHello(s) | Typed::StdoutHello(s) => {
                vec![s.as_bytes().to_vec()]
            }
            Typed::ParentHello(s, p) => vec![s.as_bytes().to_vec(), p.clone()],
            Typed::ClientMake(c, o) | Typed::ServerHello(c, o) => {
                let mut v = vec![c.as_bytes().to_vec()];
                v.extend(o.iter().map(|x| x.clone().unwrap_or_default().into_bytes()));
                v
            }
        }
    }
    pub fn encode(&self, b: &mut [u8]) -> Result<usize, BufferTooSmallError> {
        use std::os::unix::ffi::OsStrExt;
        match self {
            Typed::Want(s) => Want(ModuleIdentifier::parse(s).unwrap()).encode(b),
            Typed::HaveVersion(s) => Have::ThisModule(ModuleVersion::parse(s).unwrap()).encode(b),
            Typed::HaveModule(s) => Have::NotThisModule(ModuleIdentifier::parse(s).unwrap()).encode(b),
            Typed::Nope(s) => Nope(MessageType::parse(s).unwrap()).encode(b),
            Typed::ClientMake(c, o) => ClientMake { client_id: ClientID::parse(c).unwrap(), stdin_screen_id: o[0].as_deref(), stdout_screen_id: o[1].as_deref(), stderr_screen_id: o[2].as_deref() }.encode(b),
            Typed::ClientNew(s) => ClientNew { secret: s }.encode(b),
            Typed::ClientEnd(c) => ClientEnd { client_id: ClientID::parse(c).unwrap() }.encode(b),
            Typed::ClientHello(s) => ClientHello { secret: s }.encode(b),
            Typed::StdinHello(s) => StdinHello { secret: s }.encode(b),
            Typed::StdoutHello(s) => StdoutHello { secret: s }.encode(b),
            Typed::ParentHello(s, p) => ParentHello { client_secret: s, server_socket_path: std::path::Path::new(std::ffi::OsStr::from_bytes(p)) }.encode(b),
            Typed::ServerHello(c, o) => ServerHello { client_id: ClientID::parse(c).unwrap(), stdin_screen_id: o[0].as_deref(), stdout_screen_id: o[1].as_deref(), stderr_screen_id: o[2].as_deref() }.encode(b),
        }
    }
}

/// decode with every typed message; (name, fields as argument bytes with absent = empty)
pub fn decode_all(m: &Message) -> Vec<(&'static str, Vec<Vec<u8>>)> {
    use std::os::unix::ffi::OsStrExt;
    let mut out = Vec::new();
    let o = |x: Option<&str>| -> Vec<u8> { x.map(|s| { assert_present(s); s.as_bytes().to_vec() }).unwrap_or_default() };
    // a decoded optional field is never Some("")
    fn assert_present(s: &str) {
        if s.is_empty() {
            std::panic::panic_any("decoded an absent optional field as present");
        }
    }
    if let Some(Want(x)) = Want::decode_message(m) {
        out.push(("want", vec![x.as_str().as_bytes().to_vec()]));
    }
    match Have::decode_message(m) {
        Some(Have::ThisModule(v)) => out.push(("have", vec![format!("{}.{}", v.module().as_str(), v.minor_version()).into_bytes()])),
        Some(Have::NotThisModule(x)) => out.push(("have", vec![x.as_str().as_bytes().to_vec()])),
        None => {}
    }
    if let Some(Nope(x)) = Nope::decode_message(m) {
        out.push(("nope", vec![x.as_str().as_bytes().to_vec()]));
    }
    if let Some(x) = ClientMake::decode_message(m) {
        out.push(("client-make", vec![x.client_id.as_str().as_bytes().to_vec(), o(x.stdin_screen_id), o(x.stdout_screen_id), o(x.stderr_screen_id)]));
    }
    if let Some(x) = ClientNew::decode_message(m) {
        out.push(("client-new", vec![x.secret.as_bytes().to_vec()]));
    }
    if let Some(x) = ClientEnd::decode_message(m) {
        out.push(("client-end", vec![x.client_id.as_str().as_bytes().to_vec()]));
    }
    if let Some(x) = ClientHello::decode_message(m) {
        out.push(("client-hello", vec![x.secret.as_bytes().to_vec()]));
    }
    if let Some(x) = StdinHello::decode_message(m) {
        out.push(("stdin-hello", vec![x.secret.as_bytes().to_vec()]));
    }
    if let Some(x) = StdoutHello::decode_message(m) {
        out.push(("stdout-hello", vec![x.secret.as_bytes().to_vec()]));
    }
    if let Some(x) = ParentHello::decode_message(m) {
        out.push(("parent-hello", vec![x.client_secret.as_bytes().to_vec(), x.server_socket_path.as_os_str().as_bytes().to_vec()]));
    }
    if let Some(x) = ServerHello::decode_message(m) {
        out.push(("server-hello", vec![x.client_id.as_str().as_bytes().to_vec(), o(x.stdin_screen_id), o(x.stdout_screen_id), o(x.stderr_screen_id)]));
    }
    out
}

/// a message with a known type and fields that are right, nearly right or wrong
pub fn typedish(r: &mut Rng) -> (String, Vec<Vec<u8>>) {
    let t = Typed::gen(r, 200);
    let mut name = t.name().to_string();
    let mut args = t.args();
    for _ in 0..r.below(3) {
        match r.below(9) {
            0 => name = Typed::gen(r, 10).name().to_string(),
            1 => {
                let k = r.below(args.len() + 1);
                args.insert(k, gen::arg(r, 30));
            }
            2 => {
                if !args.is_empty() {
                    let k = r.below(args.len());
                    args.remove(k);
                }
            }
            3 | 4 => {
                if !args.is_empty() {
                    let k = r.below(args.len());
                    args[k] = match r.below(6) {
                        0 => vec![],
                        1 => vec![0xff],
                        2 => gen::identish(r).into_bytes(),
                        3 => gen::arg(r, 30),
                        4 => {
                            let mut x = args[k].clone();
                            gen::mutate(r, &mut x);
                            x
                        }
                        _ => gen::msg_type(r).into_bytes(),
                    };
                }
            }
            5 => args.swap_remove(0).clear(),
            6 => {
                // same name in another module or version
                name = match r.below(4) {
                    0 => name.replace("1.", "2."),
                    1 => name.replace("core", "posix"),
                    2 => name.replace("posix", "core"),
                    _ => format!("{}x", name),
                };
            }
            7 => args.extend(args.clone()),
            _ => args.clear(),
        }
        if args.is_empty() {
            break;
        }
    }
    if !refspec::is_message_type(name.as_bytes()) {
        name = "want".into();
    }
    (name, args)
}

pub fn c08(ctx: &Ctx, obs: &mut Obs, slot: &Slot) {
    obs.rule = "every typed message with generated fields is encoded, compared with the reference wire text, parsed and decoded by all eleven \
        decoders; correct, nearly correct and unrelated messages are decoded by all decoders and compared with the reference predicate \
        and fields; non-trivial: distinct messages bearing one of the known types"
        .into();
    let n = if ctx.thorough { 12_000_000 } else { 2_000_000 };
    run_cases(ctx, obs, slot, n, |i, r, obs| {
        let (t, args) = if i % 2 == 0 {
            let t = Typed::gen(r, 900);
            let want = gen::wire(t.name(), &t.args());
            obs.current = format!("{:?}", t);
            let mut buf = vec![0u8; 1024];
            let res = guard(|| t.encode(&mut buf)).map_err(|p| format!("encoding {:?}: {}", t, p))?;
            match res {
                Ok(k) => ensure!(buf[..k] == want[..], "{:?} encodes as {}", t, show(&buf[..k])),
                Err(BufferTooSmallError(k)) => ensure!(want.len() > 1024 && k == want.len() - 1024, "{:?} refused (short by {})", t, k),
            }
            obs.count("typed_messages_encoded", 1);
            (t.name().to_string(), t.args())
        } else if r.chance(1, 5) {
            gen::message(r, 300)
        } else {
            typedish(r)
        };
        let w = gen::wire(&t, &args);
        obs.current = hex(&w);
        let m = match guard(|| Message::parse(&w)) {
            Ok(Ok((m, _))) => m,
            Ok(Err(e)) => return Err(format!("well-formed message rejected: {} {}", show(&w), e)),
            Err(p) => return Err(p),
        };
        let got = guard(|| decode_all(&m)).map_err(|p| format!("decoding {}: {}", show(&w), p))?;
        let want = refspec::typed(t.as_bytes(), &args);
        match want {
            Some(name) => {
                ensure!(got.len() == 1, "{} decodes as {:?}", show(&w), got.iter().map(|x| x.0).collect::<Vec<_>>());
                ensure!(got[0].0 == name && got[0].1 == args, "{} decodes as {} {:?}", show(&w), got[0].0, got[0].1.iter().map(|x| show(x)).collect::<Vec<_>>());
                // Have distinguishes versions from modules
                if name == "have" {
                    let v = matches!(Have::decode_message(&m), Some(Have::ThisModule(_)));
                    ensure!(v == args[0].contains(&b'.'), "{} decoded to the wrong kind of have", show(&w));
                }
                obs.count(&format!("decoded_{}", name), 1);
            }
            None => {
                ensure!(got.is_empty(), "{} must not decode but decodes as {}", show(&w), got[0].0);
                obs.count("undecodable", 1);
            }
        }
        let known = t.starts_with("core1.client") || t.starts_with("posix1.") || refspec::is_eternal(t.as_bytes());
        obs.case(if known { Some(fnv(&w)) } else { None });
        obs.sample(|| J::Obj(vec![("message".into(), J::s(show(&w))), ("decodes_as".into(), J::s(want.unwrap_or("nothing")))]));
        Ok(())
    });
}

// ------------------------------------------------------------------------------------------------ C09

pub fn c09(ctx: &Ctx, obs: &mut Obs, slot: &Slot) {
    obs.rule = "messages are rendered, the rendering is checked to be printable ASCII and decoded by an independent reader that must recover the \
        exact items and quoting; non-trivial: distinct messages with at least one argument that needs quoting"
        .into();
    let n = if ctx.thorough { 30_000_000 } else { 4_000_000 };
    run_cases(ctx, obs, slot, n, |i, r, obs| {
        let (t, args) = if i < 256 {
            let c = i as u8;
            (gen::msg_type(r), vec![vec![c], vec![b'a', c], vec![c, b'a'], vec![c, c, c], vec![b'\\', c], vec![b'"', c]])
        } else if i % 64 == 0 {
            let (a, b) = (r.next() as u8, r.next() as u8);
            (gen::msg_type(r), (0..=255u8).map(|c| vec![a, c, b]).collect())
        } else {
            let lim = if r.chance(1, 10) { 1024 } else { 200 };
            gen::message(r, lim)
        };
        let w = gen::wire(&t, &args);
        obs.current = hex(&w);
        let s = match guard(|| Message::parse(&w).map(|(m, _)| format!("{}", m)).map_err(|e| e.to_string())) {
            Ok(Ok(s)) => s,
            Ok(Err(e)) => return Err(format!("well-formed message rejected: {} {}", show(&w), e)),
            Err(p) => return Err(p),
        };
        ensure!(s.bytes().all(|c| (0x20..0x7f).contains(&c)), "rendering of {} is not printable ASCII: {:?}", show(&w), s);
        let mut items = vec![t.as_bytes().to_vec()];
        items.extend(args.iter().cloned());
        match refspec::unrender(&s) {
            None => return Err(format!("rendering of {} cannot be read back: {}", show(&w), s)),
            Some(got) => {
                ensure!(got.iter().map(|x| &x.0).eq(items.iter()), "rendering of {} reads back differently: {}", show(&w), s);
                for (k, (a, q)) in got.iter().enumerate().skip(1) {
                    let bare = !a.is_empty() && a.iter().all(|&c| c.is_ascii_alphanumeric() || c == b'.' || c == b'_' || c == b'-');
                    ensure!(*q == !bare, "argument {} of {} is {} in {}", k, show(&w), if *q { "quoted" } else { "bare" }, s);
                    obs.count(if *q { "quoted_arguments" } else { "bare_arguments" }, 1);
                }
                ensure!(!got[0].1, "the message type is quoted in {}", s);
                obs.case(if got.iter().any(|x| x.1) { Some(fnv(&w)) } else { None });
            }
        }
        obs.sample(|| J::Obj(vec![("message".into(), J::s(show(&w))), ("rendering".into(), J::s(s.chars().take(300).collect::<String>()))]));
        Ok(())
    });
}
