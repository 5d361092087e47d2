//! Calls everything the message core offers on one input, and digests whatever comes back. Used by the
//! program without std and by the monitor with std; allocates nothing itself.
use core::fmt::Write;
use vt6::common::core::msg::*;
use vt6::common::core::*;
use vt6::msg::core::*;
use vt6::msg::posix::*;
use vt6::msg::{Have, Nope, Want};

pub const MAX: usize = 1 << 17;
/// sizes of buffers (interpreted, large ones would take too long)
const BIG: usize = if cfg!(miri) { 160 } else { 1400 };
const ARGUMENT: usize = if cfg!(miri) { 200 } else { 1500 };
const ARGUMENTS: usize = if cfg!(miri) { 2 } else { 8 };
pub const SECTIONS: usize = 6;
pub const NAMES: [&str; SECTIONS] = ["parsing and iterating", "typed messages", "argument values", "identifiers", "client IDs", "formatting"];

/// FNV-1a of what was written to it
pub struct Sink(pub u64);
impl Sink {
    fn new() -> Sink {
        Sink(0xcbf29ce484222325)
    }
    fn put(&mut self, b: &[u8]) {
        self.num(b.len() as u64);
        self.raw(b);
    }
    fn raw(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
        }
    }
    fn num(&mut self, n: u64) {
        self.raw(&n.to_le_bytes());
    }
    fn say(&mut self, a: core::fmt::Arguments) {
        let _ = self.write_fmt(a);
        self.num(0x5e);
    }
}
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        self.raw(s.as_bytes());
        Ok(())
    }
}

fn argument<T: EncodeArgument + ?Sized>(s: &mut Sink, v: &T) {
    let n = v.get_size();
    s.num(n as u64);
    let mut buf = [0u8; ARGUMENT];
    if n <= buf.len() {
        v.encode(&mut buf[..n]);
        s.raw(&buf[..n]);
    }
}
fn value<'a, T: DecodeArgument<'a> + EncodeArgument>(s: &mut Sink, b: &'a [u8]) {
    match T::decode_argument(b) {
        Some(v) => argument(s, &v),
        None => s.num(0x40),
    }
}
fn shown<'a, T: DecodeArgument<'a> + EncodeArgument + core::fmt::Display>(s: &mut Sink, b: &'a [u8]) {
    if let Some(v) = T::decode_argument(b) {
        s.say(format_args!("{} {:>5}", v, v));
    }
    value::<T>(s, b);
}
fn encoded(s: &mut Sink, m: &dyn EncodeMessage, sizes: &[usize]) {
    let mut buf = [0xa5u8; 1100];
    for n in sizes.iter().chain(&[1024usize, 1100]) {
        let n = (*n).min(buf.len());
        match m.encode(&mut buf[..n]) {
            Ok(k) => {
                s.num(k as u64);
                s.put(&buf[..k.min(n)]);
            }
            Err(BufferTooSmallError(k)) => s.num(k as u64 | 1 << 40),
        }
    }
}

fn items(s: &mut Sink, input: &[u8]) {
    let mut rest = input;
    for _ in 0..4 {
        match Message::parse(rest) {
            Ok((m, n)) => {
                s.num(n as u64);
                s.put(m.parsed_type().as_str().as_bytes());
                let mut it = m.arguments();
                let copy = it.clone();
                s.num(it.len() as u64);
                while let Some(a) = it.next() {
                    let (lo, hi) = it.size_hint();
                    s.num(lo as u64);
                    s.num(hi.map_or(1 << 50, |x| x as u64));
                    s.put(a);
                }
                for a in copy.clone().take(300) {
                    s.put(a);
                }
                s.say(format_args!("{} {:?} {:?}", m, m, copy));
                if n == 0 || n > rest.len() {
                    break;
                }
                rest = &rest[n..];
            }
            Err(e) => {
                s.num(e.offset as u64);
                s.put(e.buffer);
                s.say(format_args!("{} {} {:?} {}", e, e.kind, e.kind, e.kind.to_str()));
                s.num(e.is_incomplete() as u64);
                break;
            }
        }
    }
}

fn typed(s: &mut Sink, input: &[u8]) {
    let Ok((m, _)) = Message::parse(input) else { return };
    let sizes = [0, 1, input.len() % 64, input.len().saturating_sub(1), input.len()];
    macro_rules! each {
        ($($t:ident),*) => { $(
            if let Some(x) = $t::decode_message(&m) {
                s.put(stringify!($t).as_bytes());
                encoded(s, &x, &sizes);
            }
        )* };
    }
    each!(Want, Have, Nope, ClientMake, ClientNew, ClientEnd, ClientHello, ParentHello, ServerHello, StdinHello, StdoutHello);
    if let Some(x) = ParentHello::decode_message(&m) {
        s.put(x.client_secret.as_bytes());
        argument(s, x.server_socket_path);
    }
    if let Some(x) = ServerHello::decode_message(&m) {
        s.say(format_args!("{:?}", x));
    }
    if let Some(x) = ClientMake::decode_message(&m) {
        s.say(format_args!("{:?}", x));
    }
    if let Some(Have::ThisModule(v)) = Have::decode_message(&m) {
        s.say(format_args!("{} {}", v, v.minor_version()));
    }
}

fn values(s: &mut Sink, b: &[u8]) {
    macro_rules! ints {
        ($($t:ty),*) => { $( shown::<$t>(s, b); )* };
    }
    ints!(i8, u8, i16, u16, i32, u32, i64, u64, i128, u128, isize, usize, bool);
    shown::<Identifier>(s, b);
    shown::<ModuleIdentifier>(s, b);
    shown::<ModuleVersion>(s, b);
    shown::<ScopedIdentifier>(s, b);
    shown::<MessageType>(s, b);
    shown::<ClientID>(s, b);
    match <&str>::decode_argument(b) {
        Some(x) => argument(s, x),
        None => s.num(1),
    }
    match <&[u8]>::decode_argument(b) {
        Some(x) => argument(s, x),
        None => s.num(1),
    }
    match <Option<&str>>::decode_argument(b) {
        Some(x) => argument(s, &x),
        None => s.num(1),
    }
    match <Option<u32>>::decode_argument(b) {
        Some(x) => argument(s, &x.as_ref()),
        None => s.num(1),
    }
    match <Option<ClientID>>::decode_argument(b) {
        Some(x) => argument(s, &x.as_ref()),
        None => s.num(1),
    }
}

fn identifiers(s: &mut Sink, b: &[u8]) {
    let Ok(t) = core::str::from_utf8(b) else { return };
    if let Some(x) = Identifier::parse(t) {
        s.say(format_args!("{} {:?} {}", x, x, x.as_str()));
    }
    if let Some(x) = ModuleIdentifier::parse(t) {
        s.say(format_args!("{} {:?} {} {} {}", x, x, x.as_str(), x.name(), x.major_version()));
        for v in [0, 1, 9, 10, 99, 100, 999, 1000, 9999, 10000, 65535] {
            argument(s, &x.with_minor_version(v));
        }
    }
    if let Some(x) = ModuleVersion::parse(t) {
        s.say(format_args!("{} {} {}", x, x.module(), x.minor_version()));
    }
    if let Some(x) = ScopedIdentifier::parse(t) {
        s.say(format_args!("{} {:?} {} {} {}", x, x, x.as_str(), x.module(), x.member()));
    }
    match MessageType::parse(t) {
        Some(x @ MessageType::Scoped(_)) => s.say(format_args!("scoped {} {}", x, x.as_str())),
        Some(x) => s.say(format_args!("other {} {}", x, x.as_str())),
        None => {}
    }
    if let Some(x) = ClientID::parse(t) {
        s.say(format_args!("{} {:?} {}", x, x, x.as_str()));
        s.num(ClientID::parse("a").map_or(7, |y| (y == x) as u64));
    }
}

fn number(b: &[u8]) -> u32 {
    let mut n = [0u8; 4];
    for (x, y) in n.iter_mut().zip(b) {
        *x = *y;
    }
    // all magnitudes
    u32::from_le_bytes(n) >> (b.len() % 32)
}
fn client_ids(s: &mut Sink, b: &[u8]) {
    use vt6::client::core::ClientIDSuffix::*;
    let Some(base) = core::str::from_utf8(b).ok().and_then(ClientID::parse).or(ClientID::parse("b4se")) else { return };
    let (i, j) = (number(b), number(b.get(4..).unwrap_or(b)));
    for x in [Own, Local(i), Job(i), Child(i, j), Child(j, i), Local(j)] {
        let c = x.below(base);
        argument(s, &c);
        s.put(c.base().as_str().as_bytes());
        s.say(format_args!("{:?} {}", c.suffix(), c.suffix() == x));
    }
}

/// formats a message with the input as its recipe
fn formatting(s: &mut Sink, b: &[u8]) {
    let mut big = [0x5au8; BIG];
    let at = |i: usize| b.get(i).copied().unwrap_or(0);
    let size = match at(0) % 4 {
        0 => at(1) as usize,
        1 => 1000 + at(1) as usize % 50,
        2 => 1024,
        _ => BIG.saturating_sub(at(1) as usize),
    };
    let size = size.min(BIG);
    let n = at(2) as usize % 12;
    let rest = b.get(3..).unwrap_or(b"");
    let mut f = MessageFormatter::new(&mut big[..size], "vt6.x", n);
    let mut k = 0;
    for i in 0..n {
        let op = rest.get(k).copied().unwrap_or(i as u8);
        let len = (op as usize / 8).min(rest.len().saturating_sub(k + 1));
        let arg = rest.get(k + 1..k + 1 + len).unwrap_or(b"");
        match op % 8 {
            0 => f.add_argument(arg),
            1 => f.add_argument(core::str::from_utf8(arg).unwrap_or("\u{fffd}")),
            2 => f.add_argument(&number(arg)),
            3 => f.add_argument(&(number(arg) as i32 as i128 * 0x1234567890abcdef)),
            4 => f.add_argument(&(arg.len() % 2 == 1)),
            5 => f.add_argument(&Some(&(number(arg) as i16))),
            6 => f.add_argument(&None::<&u64>),
            _ => f.add_argument(rest.get(..300).unwrap_or(arg)),
        }
        k += 1 + len;
    }
    match f.finalize() {
        Ok(n) => {
            s.num(n as u64);
            s.put(&big[..n.min(size)]);
        }
        Err(BufferTooSmallError(n)) => s.num(n as u64 | 1 << 40),
    }
    // nothing beyond the buffer it was given
    s.put(&big[size..]);
}

pub fn run(input: &[u8]) -> [u64; SECTIONS] {
    let mut out = [0u64; SECTIONS];
    let parts: [fn(&mut Sink, &[u8]); SECTIONS] = [items, typed, values, identifiers, client_ids, formatting];
    for (o, f) in out.iter_mut().zip(parts) {
        let mut s = Sink::new();
        f(&mut s, input);
        *o = s.0;
    }
    // the arguments of a message are inputs as well
    if let Ok((m, _)) = Message::parse(input) {
        let t = m.parsed_type();
        for a in core::iter::once(t.as_str().as_bytes()).chain(m.arguments()).take(ARGUMENTS) {
            for (o, f) in out.iter_mut().zip(parts).skip(2) {
                let mut s = Sink(*o);
                f(&mut s, a);
                *o = s.0;
            }
        }
    }
    out
}
