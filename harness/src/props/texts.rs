//! C32: what the library writes for logs and people
use crate::ensure;
use crate::gen;
use crate::util::json::J;
use crate::util::{hex, show};
use crate::util::report::{fnv, Obs};
use crate::util::rng::Rng;
use crate::util::run::{guard, run_cases, Ctx, Slot};
use std::error::Error;
use vt6::client::EnvironmentError;
use vt6::common::core::msg::{Message, ParseError, ParseErrorKind};
use vt6::server::Notification;

const KINDS: &[ParseErrorKind] = &[
    ParseErrorKind::UnexpectedEOF,
    ParseErrorKind::ExpectedMessageOpener,
    ParseErrorKind::ExpectedMessageCloser,
    ParseErrorKind::ExpectedDecimalNumber,
    ParseErrorKind::DecimalNumberTooLarge,
    ParseErrorKind::DecimalNumberHasLeadingZeroes,
    ParseErrorKind::ExpectedListSigil,
    ParseErrorKind::ExpectedStringSigil,
    ParseErrorKind::ExpectedStringCloser,
    ParseErrorKind::ExpectedMessageType,
    ParseErrorKind::InvalidMessageType,
];

/// one line, nothing that a terminal acts upon
fn harmless(what: &str, s: &str) -> Result<(), String> {
    ensure!(!s.is_empty(), "the text of {} is empty", what);
    if let Some(c) = s.chars().find(|c| c.is_control() || matches!(c, '\u{2028}' | '\u{2029}' | '\u{202a}'..='\u{202e}' | '\u{2066}'..='\u{2069}')) {
        return Err(format!("the text of {} contains {:?}: {}", what, c, s.escape_debug()));
    }
    Ok(())
}

/// reads back the first quoted string; what follows it
fn unquote(s: &str) -> Option<(String, &str)> {
    let start = s.find('"')?;
    let mut out = String::new();
    let mut it = s[start + 1..].char_indices();
    while let Some((k, c)) = it.next() {
        match c {
            '"' => return Some((out, &s[start + 1 + k + 1..])),
            '\\' => match it.next()?.1 {
                'n' => out.push('\n'),
                'r' => out.push('\r'),
                't' => out.push('\t'),
                '0' => out.push('\0'),
                'u' => {
                    if it.next()?.1 != '{' {
                        return None;
                    }
                    let mut h = String::new();
                    loop {
                        match it.next()?.1 {
                            '}' => break,
                            c => h.push(c),
                        }
                    }
                    out.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?);
                }
                'x' => {
                    let h: String = [it.next()?.1, it.next()?.1].iter().collect();
                    out.push(char::from(u8::from_str_radix(&h, 16).ok()?));
                }
                c => out.push(c),
            },
            c => out.push(c),
        }
    }
    None
}

fn hostile(r: &mut Rng) -> Vec<u8> {
    let mut v = match r.below(8) {
        0 => gen::arg(r, 60),
        1 => gen::parser_input(r),
        2 => (0..r.below(40)).map(|_| r.next() as u8).collect(),
        3 => (0..r.below(40)).map(|_| r.below(33) as u8).collect(),
        4 => {
            let cs = ['\u{202e}', '\u{85}', '\u{9b}', '\u{7f}', '\u{1b}', '\u{2028}', '\u{2029}', '\u{feff}', '\u{0}', '"', '\\', '\'', '\n', '\r', 'a', 'ä', '€', '😀', '\u{300}', '\u{e000}', '\u{10ffff}', '\u{2066}'];
            (0..r.below(30)).map(|_| *r.pick(&cs)).collect::<String>().into_bytes()
        }
        5 => [&b"ok\n2020-01-01 client connection closed"[..], b"\x1b]0;title\x07", b"\x1b[2J", b"\r\n", b"\"; drop", b"\\\"\\", b"\\u{0}"][r.below(7)].to_vec(),
        6 => gen::text(r).into_bytes(),
        _ => {
            let n = r.below(1100);
            vec![r.next() as u8; n]
        }
    };
    if r.chance(1, 4) {
        gen::mutate(r, &mut v);
    }
    v
}

fn number_in(s: &str, n: usize) -> bool {
    s.split(|c: char| !c.is_ascii_digit()).any(|x| x == n.to_string())
}

fn notifications(r: &mut Rng, obs: &mut Obs) -> Result<(), String> {
    let b = hostile(r);
    obs.current = hex(&b);
    let reason = String::from_utf8_lossy(&b).escape_debug().to_string();
    let e: Box<dyn Error> = if r.chance(1, 2) { reason.clone().into() } else { std::io::Error::new(std::io::ErrorKind::Other, reason.clone()).into() };
    let all = [Notification::ConnectionOpened, Notification::ConnectionClosed, Notification::IncomingBytesDiscarded(&b), Notification::ConnectionIOError(e)];
    let mut texts = vec![];
    for (k, n) in all.iter().enumerate() {
        let name = ["ConnectionOpened", "ConnectionClosed", "IncomingBytesDiscarded", "ConnectionIOError"][k];
        let t = guard(|| n.to_string()).map_err(|p| format!("printing {}: {}", name, p))?;
        harmless(name, &t)?;
        let is_error = guard(|| n.is_error())?;
        ensure!(is_error == (k == 3), "{} is {}reported as an error", name, if is_error { "" } else { "not " });
        guard(|| format!("{:?}", n)).map_err(|p| format!("printing {}: {}", name, p))?;
        texts.push(t);
    }
    ensure!(texts[3].contains(&reason), "the text of an IO error does not say what it was: {} instead of {}", texts[3], reason);
    let want = String::from_utf8_lossy(&b);
    match unquote(&texts[2]) {
        Some((got, rest)) => ensure!(got == want && rest.is_empty(), "discarded {} is reported as {}", show(&b), texts[2]),
        None => return Err(format!("discarded {} is not quoted in {}", show(&b), texts[2])),
    }
    for i in 0..4 {
        for j in 0..i {
            ensure!(texts[i] != texts[j], "two different notifications have the same text: {}", texts[i]);
        }
    }
    obs.count("notifications", 4);
    obs.case(Some(fnv(&b)));
    obs.sample(|| J::Obj(vec![("bytes".into(), J::s(show(&b))), ("text".into(), J::s(texts[2].chars().take(200).collect::<String>()))]));
    Ok(())
}

fn errors(r: &mut Rng, obs: &mut Obs) -> Result<(), String> {
    let b = if r.chance(1, 2) { gen::parser_input(r) } else { hostile(r) };
    obs.current = hex(&b);
    let e = match guard(|| Message::parse(&b).map(|(m, n)| (m, n)))? {
        Ok((m, _)) => {
            // what is refused although it is a message
            let t = guard(|| (format!("{}", m), EnvironmentError::InvalidParentHello(m.clone()).to_string())).map_err(|p| format!("printing: {}", p))?;
            harmless("a message", &t.0)?;
            harmless("an invalid parent-hello", &t.1)?;
            ensure!(t.1.contains(&t.0), "the text of the error does not show the message that was refused: {} instead of {}", t.1, t.0);
            ensure!(t.1 != EnvironmentError::NoVT6Terminal.to_string(), "two different errors have the same text: {}", t.1);
            obs.count("messages", 1);
            obs.case(Some(fnv(&b)));
            return Ok(());
        }
        Err(e) => e,
    };
    // the real one, and others of the same form
    let other = ParseError { buffer: &b, offset: *r.pick(&[0, 1, 9, 10, 99, 100, 255, 256, 1023, 1024, 65536, usize::MAX, b.len()]), kind: r.pick(KINDS).clone() };
    for e in [e, other] {
        let (t, k) = guard(|| (e.to_string(), e.kind.to_string())).map_err(|p| format!("printing: {}", p))?;
        harmless("a parse error", &t)?;
        harmless("a kind of parse error", &k)?;
        ensure!(number_in(&t, e.offset), "the text of a parse error at offset {} is {}", e.offset, t);
        ensure!(t.contains(&k), "the text of the parse error {} is {}", k, t);
        ensure!(k == e.kind.to_str(), "a kind of parse error prints as {} and is {}", k, e.kind.to_str());
        for o in KINDS {
            ensure!((*o == e.kind) == (o.to_str() == k), "{:?} and {:?} have {} text: {}", o, e.kind, if *o == e.kind { "a different" } else { "the same" }, k);
            ensure!(*o == e.kind || !t.contains(o.to_str()), "the text of {:?} is {}", e.kind, t);
        }
        ensure!(e.is_incomplete() == (e.kind == ParseErrorKind::UnexpectedEOF), "{:?} is {}incomplete", e.kind, if e.is_incomplete() { "" } else { "not " });
        let t2 = guard(|| EnvironmentError::CorruptParentHello(e.clone()).to_string()).map_err(|p| format!("printing: {}", p))?;
        harmless("a corrupt parent-hello", &t2)?;
        ensure!(t2.contains(&t), "the text of the error does not tell what was wrong: {} instead of {}", t2, t);
        let t0 = EnvironmentError::NoVT6Terminal.to_string();
        harmless("a missing terminal", &t0)?;
        ensure!(t0 != t2 && t0 != t, "two different errors have the same text: {}", t0);
        guard(|| format!("{:?}", e)).map_err(|p| format!("printing: {}", p)).and_then(|d| harmless("the debugging form of a parse error", &d))?;
        obs.count("parse_errors", 1);
    }
    obs.case(Some(fnv(&b)));
    Ok(())
}

pub fn c32(ctx: &Ctx, obs: &mut Obs, slot: &Slot) {
    obs.rule = "notifications and errors that carry generated and hostile bytes are printed; the text has to be one line without anything a terminal acts upon, name the kind, and give \
        back the bytes, the offset, the reason and the message; non-trivial: distinct byte strings"
        .into();
    let n = if ctx.thorough { 20_000_000 } else { 3_000_000 };
    run_cases(ctx, obs, slot, n, |i, r, obs| if i % 2 == 0 { notifications(r, obs) } else { errors(r, obs) });
}
