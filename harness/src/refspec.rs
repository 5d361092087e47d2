//! Independent executable specification of the VT6 wire format, identifiers, argument codecs, client IDs and
//! rendering. Shares no code with vt6; written from vt6/foundation 1.0 as quoted in the crate's documentation.

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    Eof,
    Opener,
    Closer,
    Number,
    TooLarge,
    LeadingZero,
    ListSigil,
    StringSigil,
    StringCloser,
    NoType,
    BadType,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RefMsg {
    pub len: usize,
    pub typ: Vec<u8>,
    pub args: Vec<Vec<u8>>,
}

struct P<'a> {
    b: &'a [u8],
    i: usize,
}
impl<'a> P<'a> {
    fn lit(&mut self, c: u8, k: Kind) -> Result<(), (Kind, usize)> {
        match self.b.get(self.i) {
            None => Err((Kind::Eof, self.i)),
            Some(&x) if x == c => {
                self.i += 1;
                Ok(())
            }
            _ => Err((k, self.i)),
        }
    }
    fn num(&mut self) -> Result<usize, (Kind, usize)> {
        if self.i >= self.b.len() {
            return Err((Kind::Eof, self.i));
        }
        let s = self.i;
        let mut v: u128 = 0;
        while self.i < self.b.len() && self.b[self.i] >= 0x30 && self.b[self.i] <= 0x39 {
            v = v.saturating_mul(10).saturating_add((self.b[self.i] - 0x30) as u128);
            self.i += 1;
        }
        let n = self.i - s;
        if n == 0 {
            return Err((Kind::Number, s));
        }
        if n >= 2 && self.b[s] == 0x30 {
            return Err((Kind::LeadingZero, self.i));
        }
        if v > usize::MAX as u128 {
            return Err((Kind::TooLarge, self.i));
        }
        Ok(v as usize)
    }
    fn item(&mut self) -> Result<&'a [u8], (Kind, usize)> {
        let n = self.num()?;
        self.lit(b':', Kind::StringSigil)?;
        let left = self.b.len() - self.i;
        if n > left {
            return Err((Kind::Eof, self.b.len()));
        }
        let r = &self.b[self.i..self.i + n];
        self.i += n;
        self.lit(b',', Kind::StringCloser)?;
        Ok(r)
    }
}

pub fn parse(b: &[u8]) -> Result<RefMsg, (Kind, usize)> {
    let mut p = P { b, i: 0 };
    p.lit(b'{', Kind::Opener)?;
    let n = p.num()?;
    p.lit(b'|', Kind::ListSigil)?;
    if n == 0 {
        return Err((Kind::NoType, p.i));
    }
    let typ = p.item()?;
    if !is_message_type(typ) {
        return Err((Kind::BadType, p.i));
    }
    let mut args = Vec::new();
    let mut k = 1;
    while k < n {
        args.push(p.item()?.to_vec());
        k += 1;
    }
    p.lit(b'}', Kind::Closer)?;
    Ok(RefMsg { len: p.i, typ: typ.to_vec(), args })
}

/// the encoding of a list of items, valid or not
pub fn enc(items: &[Vec<u8>]) -> Vec<u8> {
    let mut v = format!("{{{}|", items.len()).into_bytes();
    for it in items {
        v.extend_from_slice(format!("{}:", it.len()).as_bytes());
        v.extend_from_slice(it);
        v.push(b',');
    }
    v.push(b'}');
    v
}
pub fn enc_str(items: &[&str]) -> Vec<u8> {
    enc(&items.iter().map(|s| s.as_bytes().to_vec()).collect::<Vec<_>>())
}

pub fn render(m: &RefMsg) -> String {
    let mut s = String::from("(");
    s.push_str(std::str::from_utf8(&m.typ).unwrap());
    for a in &m.args {
        s.push(' ');
        let bare = !a.is_empty() && a.iter().all(|&c| c.is_ascii_alphanumeric() || c == b'.' || c == b'_' || c == b'-');
        if bare {
            s.push_str(std::str::from_utf8(a).unwrap());
        } else {
            s.push('"');
            for &c in a {
                match c {
                    b'\t' => s.push_str("\\t"),
                    b'\n' => s.push_str("\\n"),
                    b'\r' => s.push_str("\\r"),
                    b'"' => s.push_str("\\\""),
                    b'\'' => s.push_str("\\'"),
                    b'\\' => s.push_str("\\\\"),
                    0x20..=0x7e => s.push(c as char),
                    _ => s.push_str(&format!("\\x{:02x}", c)),
                }
            }
            s.push('"');
        }
    }
    s.push(')');
    s
}

/// inverse of render: recover the items and whether each was quoted from a rendering (any escape style of Rust's escape_default)
pub fn unrender(s: &str) -> Option<Vec<(Vec<u8>, bool)>> {
    let b = s.as_bytes();
    if b.first() != Some(&b'(') || b.last() != Some(&b')') || b.len() < 2 {
        return None;
    }
    let b = &b[1..b.len() - 1];
    let mut i = 0;
    let mut items = Vec::new();
    loop {
        let mut cur = Vec::new();
        let quoted = i < b.len() && b[i] == b'"';
        if quoted {
            i += 1;
            loop {
                match *b.get(i)? {
                    b'"' => {
                        i += 1;
                        break;
                    }
                    b'\\' => {
                        match *b.get(i + 1)? {
                            b't' => cur.push(9),
                            b'n' => cur.push(10),
                            b'r' => cur.push(13),
                            b'x' => {
                                let h = std::str::from_utf8(b.get(i + 2..i + 4)?).ok()?;
                                cur.push(u8::from_str_radix(h, 16).ok()?);
                                i += 2;
                            }
                            c @ (b'"' | b'\'' | b'\\') => cur.push(c),
                            _ => return None,
                        }
                        i += 2;
                    }
                    c => {
                        cur.push(c);
                        i += 1;
                    }
                }
            }
        } else {
            while i < b.len() && b[i] != b' ' {
                if b[i] == b'"' || b[i] == b'\\' {
                    return None;
                }
                cur.push(b[i]);
                i += 1;
            }
            if cur.is_empty() {
                return None;
            }
        }
        items.push((cur, quoted));
        if i == b.len() {
            break;
        }
        if b[i] != b' ' {
            return None;
        }
        i += 1;
    }
    Some(items)
}

// ---------------------------------------------------------------- identifiers

fn leader(c: u8) -> bool {
    matches!(c, b'A'..=b'Z' | b'a'..=b'z' | b'_')
}
fn follow(c: u8) -> bool {
    leader(c) || c == b'-'
}
pub fn is_identifier(s: &[u8]) -> bool {
    !s.is_empty() && leader(s[0]) && s[1..].iter().all(|&c| follow(c))
}
pub fn is_client_id(s: &[u8]) -> bool {
    !s.is_empty() && s.iter().all(|&c| matches!(c, b'A'..=b'Z' | b'a'..=b'z' | b'0'..=b'9'))
}
/// canonical decimal in 0..=max
pub fn canon(s: &[u8], max: u128) -> Option<u128> {
    if s.is_empty() || s.len() > 39 || !s.iter().all(|c| matches!(c, b'0'..=b'9')) {
        return None;
    }
    if s[0] == b'0' && s.len() > 1 {
        return None;
    }
    let mut v: u128 = 0;
    for c in s {
        v = v.checked_mul(10)?.checked_add((c - b'0') as u128)?;
    }
    if v > max {
        None
    } else {
        Some(v)
    }
}
/// canonical signed decimal
pub fn canon_signed(s: &[u8], bits: u32) -> Option<i128> {
    let top = if bits == 128 { 1u128 << 127 } else { 1u128 << (bits - 1) };
    if s.first() == Some(&b'-') {
        let v = canon(&s[1..], top)?;
        if v == 0 {
            return None;
        }
        Some((v as i128).wrapping_neg())
    } else {
        canon(s, top - 1).map(|v| v as i128)
    }
}
/// (name, major)
pub fn module_identifier(s: &[u8]) -> Option<(Vec<u8>, u16)> {
    let k = s.iter().position(|c| c.is_ascii_digit())?;
    if !is_identifier(&s[..k]) {
        return None;
    }
    let v = canon(&s[k..], 65535)?;
    if v == 0 {
        return None;
    }
    Some((s[..k].to_vec(), v as u16))
}
/// (module, minor)
pub fn module_version(s: &[u8]) -> Option<(Vec<u8>, u16)> {
    let d = s.iter().position(|&c| c == b'.')?;
    module_identifier(&s[..d])?;
    Some((s[..d].to_vec(), canon(&s[d + 1..], 65535)? as u16))
}
/// (module, member)
pub fn scoped_identifier(s: &[u8]) -> Option<(Vec<u8>, Vec<u8>)> {
    let d = s.iter().position(|&c| c == b'.')?;
    module_identifier(&s[..d])?;
    if !is_identifier(&s[d + 1..]) {
        return None;
    }
    Some((s[..d].to_vec(), s[d + 1..].to_vec()))
}
pub fn is_eternal(s: &[u8]) -> bool {
    s == b"want" || s == b"have" || s == b"nope"
}
pub fn is_message_type(s: &[u8]) -> bool {
    is_eternal(s) || scoped_identifier(s).is_some()
}

// ---------------------------------------------------------------- typed messages

/// which typed message (by name) the given type and arguments denote, with the fields as raw argument bytes;
/// optional fields are empty when absent
pub fn typed(typ: &[u8], args: &[Vec<u8>]) -> Option<&'static str> {
    let utf8 = |a: &Vec<u8>| std::str::from_utf8(a).is_ok();
    let t = std::str::from_utf8(typ).ok()?;
    let n = args.len();
    match t {
        "want" if n == 1 && module_identifier(&args[0]).is_some() => Some("want"),
        "have" if n == 1 && (module_identifier(&args[0]).is_some() || module_version(&args[0]).is_some()) => Some("have"),
        "nope" if n == 1 && is_message_type(&args[0]) => Some("nope"),
        "core1.client-make" if n == 4 && is_client_id(&args[0]) && args[1..].iter().all(utf8) => Some("client-make"),
        "core1.client-new" if n == 1 && utf8(&args[0]) => Some("client-new"),
        "core1.client-end" if n == 1 && is_client_id(&args[0]) => Some("client-end"),
        "posix1.client-hello" if n == 1 && utf8(&args[0]) => Some("client-hello"),
        "posix1.stdin-hello" if n == 1 && utf8(&args[0]) => Some("stdin-hello"),
        "posix1.stdout-hello" if n == 1 && utf8(&args[0]) => Some("stdout-hello"),
        "posix1.parent-hello" if n == 2 && utf8(&args[0]) => Some("parent-hello"),
        "posix1.server-hello" if n == 4 && is_client_id(&args[0]) && args[1..].iter().all(utf8) => Some("server-hello"),
        _ => None,
    }
}

/// the library's name for a kind of error
pub fn kind_name(k: Kind) -> &'static str {
    match k {
        Kind::Eof => "UnexpectedEOF",
        Kind::Opener => "ExpectedMessageOpener",
        Kind::Closer => "ExpectedMessageCloser",
        Kind::Number => "ExpectedDecimalNumber",
        Kind::TooLarge => "DecimalNumberTooLarge",
        Kind::LeadingZero => "DecimalNumberHasLeadingZeroes",
        Kind::ListSigil => "ExpectedListSigil",
        Kind::StringSigil => "ExpectedStringSigil",
        Kind::StringCloser => "ExpectedStringCloser",
        Kind::NoType => "ExpectedMessageType",
        Kind::BadType => "InvalidMessageType",
    }
}
