pub mod alloc;
pub mod json;
pub mod quiesce;
pub mod report;
pub mod rng;
pub mod run;

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push_str(&format!("{:02x}", x));
    }
    s
}

/// printable rendering of bytes, bounded
pub fn show(b: &[u8]) -> String {
    let cut = if b.len() > 300 { 300 } else { b.len() };
    let mut s = String::new();
    for &x in &b[..cut] {
        for c in std::ascii::escape_default(x) {
            s.push(c as char);
        }
    }
    if cut < b.len() {
        s.push_str(&format!("...({} bytes)", b.len()));
    }
    s
}
