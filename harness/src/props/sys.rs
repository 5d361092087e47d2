//! C25: secrets; C26: the default socket path
use crate::ensure;
use crate::interpose::{self, RandPlan};
use crate::util::json::J;
use crate::util::report::{fnv, Obs};
use crate::util::rng::Rng;
use crate::util::run::{guard, run_cases, Ctx, Slot};
use crate::util::show;
use std::collections::{BTreeMap, HashSet};
use std::ffi::{OsStr, OsString};
use std::io::{Read, Write};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::fs::MetadataExt;
use std::path::{Path, PathBuf};
use std::sync::atomic::Ordering::SeqCst;
use std::sync::{Arc, Barrier};
use vt6::server::{ClientCredentials, ScreenCredentials};

// ---------------------------------------------------------------- C25

type Bits = [u64; 3];
/// the 192 bits a secret stands for
fn decode(s: &str) -> Result<Bits, String> {
    ensure!(s.len() == 32, "a secret has {} characters: {}", s.len(), show(s.as_bytes()));
    let mut bits = [0u64; 3];
    for (i, c) in s.bytes().enumerate() {
        let v = match c {
            b'A'..=b'Z' => c - b'A',
            b'a'..=b'z' => c - b'a' + 26,
            b'0'..=b'9' => c - b'0' + 52,
            b'-' => 62,
            b'_' => 63,
            _ => return Err(format!("a secret is not URL-safe: {}", show(s.as_bytes()))),
        } as u64;
        for k in 0..6 {
            if v >> (5 - k) & 1 == 1 {
                let n = i * 6 + k;
                bits[n / 64] |= 1 << (n % 64);
            }
        }
    }
    Ok(bits)
}
fn bit(b: &Bits, n: usize) -> u64 {
    b[n / 64] >> (n % 64) & 1
}
/// rank over GF(2)
fn rank(mut rows: Vec<Vec<u64>>) -> usize {
    let mut r = 0;
    let w = rows.first().map_or(0, |x| x.len());
    for col in 0..w * 64 {
        let Some(p) = (r..rows.len()).find(|i| rows[*i][col / 64] >> (col % 64) & 1 == 1) else { continue };
        rows.swap(r, p);
        let pivot = rows[r].clone();
        for (i, row) in rows.iter_mut().enumerate() {
            if i != r && row[col / 64] >> (col % 64) & 1 == 1 {
                for k in 0..w {
                    row[k] ^= pivot[k];
                }
            }
        }
        r += 1;
    }
    r
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum What {
    Client,
    Screen,
}
fn generate(w: What) -> Result<Vec<String>, String> {
    guard(|| match w {
        What::Client => {
            let c = ClientCredentials::generate();
            let s = c.secret().to_string();
            let d = c.clone();
            let moved = Box::new(c);
            (vec![s.clone()], d.secret() == s && moved.secret() == s && d.secret() == s && d.clone().secret() == s)
        }
        What::Screen => {
            let c = ScreenCredentials::generate();
            let v = vec![c.stdin_secret().to_string(), c.stdout_secret().to_string()];
            let d = c.clone();
            let moved = Box::new(c);
            let same = |x: &ScreenCredentials| x.stdin_secret() == v[0] && x.stdout_secret() == v[1];
            let ok = same(&d) && same(&moved) && same(&d) && same(&d.clone());
            (v, ok)
        }
    })
    .and_then(|(v, same)| if same { Ok(v) } else { Err("credentials or their clones change their secrets".into()) })
}

struct Source;
impl Drop for Source {
    fn drop(&mut self) {
        interpose::RAND_MODE.store(0, SeqCst);
        interpose::RAND_YIELD.store(0, SeqCst);
    }
}
fn with_source(w: What, plan: RandPlan) -> Result<(Vec<Bits>, usize), String> {
    *interpose::RAND.lock().unwrap_or_else(|e| e.into_inner()) = plan;
    interpose::RAND_MODE.store(2, SeqCst);
    let _off = Source;
    let v = generate(w)?;
    drop(_off);
    let used = interpose::RAND.lock().unwrap_or_else(|e| e.into_inner()).pos;
    Ok((v.iter().map(|s| decode(s)).collect::<Result<_, _>>()?, used))
}

/// how the secrets depend on what the random source delivers
fn dependence(r: &mut Rng, obs: &mut Obs) -> Result<(), String> {
    let w = *r.pick(&[What::Client, What::Screen]);
    let need = if w == What::Client { 24 } else { 48 };
    let mut rows: Vec<Vec<u64>> = vec![];
    let mut flips = 0u64;
    obs.current = format!("{:?} credentials with a random source under control", w);
    for _ in 0..6 {
        let data = r.bytes(512);
        let (base, used) = with_source(w, RandPlan { data: data.clone(), ..Default::default() })?;
        ensure!(used >= need, "{:?} credentials use {} random bytes only", w, used);
        let (again, _) = with_source(w, RandPlan { data: data.clone(), ..Default::default() })?;
        ensure!(again == base, "{:?} credentials depend on something else than the random source", w);
        // nothing is lost if the source is interrupted or delivers in pieces
        for _ in 0..4 {
            let (chunk, eintr) = (r.below(9), r.next() & r.next());
            let (b, _) = with_source(w, RandPlan { data: data.clone(), chunk, eintr, ..Default::default() })?;
            ensure!(b == base, "when the random source delivers {} bytes at a time and is interrupted ({:b}), the secrets are others", chunk, eintr);
            obs.count("interrupted_or_partial_deliveries", 1);
        }
        for k in 0..used.min(512) * 8 {
            let mut d = data.clone();
            d[k / 8] ^= 1 << (k % 8);
            let (b, _) = with_source(w, RandPlan { data: d, ..Default::default() })?;
            rows.push(b.iter().zip(&base).flat_map(|(x, y)| [x[0] ^ y[0], x[1] ^ y[1], x[2] ^ y[2]]).collect());
            flips += 1;
        }
        if rank(rows.clone()) == need * 8 {
            break;
        }
    }
    let k = rank(rows);
    ensure!(k == need * 8, "only {} of {} bits of {:?} credentials vary with the random source", k, need * 8, w);
    // no two deliveries of the source lead to the same secrets, whatever they have in common: all values of some six bits...
    let (start, nsec) = (r.below(4), if w == What::Client { 1 } else { 2 });
    for g in (start..32 * nsec).step_by(4) {
        let mut have = BTreeMap::new();
        let data = r.bytes(512);
        for v in 0..64u8 {
            let mut d = data.clone();
            for k in 0..6 {
                let n = g * 6 + k;
                d[n / 8] = d[n / 8] & !(0x80 >> (n % 8)) | (v >> (5 - k) & 1) << (7 - n % 8);
            }
            let (b, _) = with_source(w, RandPlan { data: d, ..Default::default() })?;
            if let Some(o) = have.insert(b, v) {
                return Err(format!("{:?} credentials are the same for two deliveries of the random source ({} and {} in bits {} to {})", w, o, v, g * 6, g * 6 + 5));
            }
            flips += 1;
        }
    }
    // ...and each byte where some other byte is special
    for _ in 0..150 {
        let mut data = r.bytes(512);
        let i = r.below(need);
        data[i] = if r.chance(3, 4) { *r.pick(&[0u8, 0, 0xff, 0xfb, 0x80, 0x7f, 1, b'-', b'\n']) } else { r.next() as u8 };
        if r.chance(1, 4) {
            data[(i + 1) % need] = data[i];
        }
        let (base, _) = with_source(w, RandPlan { data: data.clone(), ..Default::default() })?;
        for j in 0..need {
            let mut d = data.clone();
            d[j] ^= 1 << r.below(8);
            let (b, _) = with_source(w, RandPlan { data: d, ..Default::default() })?;
            ensure!(b != base, "{:?} credentials do not depend on byte {} of the random source if byte {} is {:#x}", w, j, i, data[i]);
            flips += 1;
        }
    }
    // no source, no secret
    let errno = *r.pick(&[libc::EIO, libc::EFAULT, libc::ENOSYS, libc::EPERM, libc::EAGAIN]);
    *interpose::RAND.lock().unwrap_or_else(|e| e.into_inner()) = RandPlan { errno, ..Default::default() };
    interpose::RAND_MODE.store(2, SeqCst);
    let _off = Source;
    let g = generate(w);
    drop(_off);
    ensure!(g.is_err(), "the random source fails (errno {}), and still there is the secret {:?}", errno, g.unwrap_or_default());
    obs.count("source_failures", 1);
    obs.count("source_bit_flips", flips);
    obs.case(Some(fnv(&r.next().to_le_bytes())));
    Ok(())
}

struct Stats {
    n: u64,
    ones: Vec<u64>,
    pairs: Vec<u64>,
    serial: Vec<u64>,
    last: Option<Bits>,
}
impl Stats {
    fn new() -> Stats {
        Stats { n: 0, ones: vec![0; 192], pairs: vec![0; 192 * 192], serial: vec![0; 192], last: None }
    }
    fn add(&mut self, b: &Bits) {
        self.n += 1;
        for i in 0..192 {
            if bit(b, i) == 1 {
                self.ones[i] += 1;
            }
        }
        for i in 0..192 {
            let x = if bit(b, i) == 1 { [!0u64; 3] } else { [0; 3] };
            for j in i + 1..192 {
                self.pairs[i * 192 + j] += (x[0] >> 0 & 1) ^ bit(b, j) ^ 1;
            }
        }
        if let Some(l) = &self.last {
            for i in 0..192 {
                self.serial[i] += bit(l, i) ^ bit(b, i) ^ 1;
            }
        }
        self.last = Some(*b);
    }
    fn judge(&self) -> Result<f64, String> {
        let n = self.n as f64;
        let z = |k: u64, n: f64| (k as f64 - n / 2.0) / (n.sqrt() / 2.0);
        let mut worst = 0f64;
        for i in 0..192 {
            let a = z(self.ones[i], n);
            ensure!(a.abs() < 7.5, "bit {} of a secret is set in {} of {} secrets", i, self.ones[i], self.n);
            let s = z(self.serial[i], n - 1.0);
            ensure!(s.abs() < 7.5, "bit {} is the same in {} of {} successive secrets", i, self.serial[i], self.n - 1);
            worst = worst.max(a.abs()).max(s.abs());
            for j in i + 1..192 {
                let p = z(self.pairs[i * 192 + j], n);
                ensure!(p.abs() < 7.5, "bits {} and {} are equal in {} of {} secrets", i, j, self.pairs[i * 192 + j], self.n);
                worst = worst.max(p.abs());
            }
        }
        Ok(worst)
    }
}

/// secrets of a child process
fn child(n: usize) -> Result<Vec<String>, String> {
    let mut p = [0i32; 2];
    unsafe {
        if libc::pipe(p.as_mut_ptr()) != 0 {
            return Err("harness: pipe".into());
        }
        match libc::fork() {
            0 => {
                let mut out = String::new();
                for _ in 0..n {
                    if let Ok(v) = generate(What::Client) {
                        out.push_str(&v[0]);
                        out.push('\n');
                    }
                }
                let mut f: std::fs::File = std::os::fd::FromRawFd::from_raw_fd(p[1]);
                let _ = f.write_all(out.as_bytes());
                drop(f);
                libc::_exit(0);
            }
            pid if pid > 0 => {
                libc::close(p[1]);
                let mut f: std::fs::File = std::os::fd::FromRawFd::from_raw_fd(p[0]);
                let mut s = String::new();
                let _ = f.read_to_string(&mut s);
                let mut st = 0;
                libc::waitpid(pid, &mut st, 0);
                ensure!(st == 0, "generating secrets in a child process ended with {:x}", st);
                Ok(s.lines().map(|x| x.to_string()).collect())
            }
            _ => Err("harness: fork".into()),
        }
    }
}

fn batch(r: &mut Rng, obs: &mut Obs, seen: &mut HashSet<Bits>, st: &mut Stats) -> Result<(), String> {
    let threads = *r.pick(&[1usize, 1, 2, 4, 8]);
    let each = 2000 / threads;
    let forks = r.chance(1, 4);
    obs.current = format!("{} threads generating {} credentials each{}", threads, each, if forks { ", and child processes" } else { "" });
    let (b0, c0) = (interpose::RAND_BYTES.load(SeqCst), interpose::RAND_CALLS.load(SeqCst));
    interpose::RAND_MODE.store(1, SeqCst);
    interpose::RAND_YIELD.store(if threads > 1 { *r.pick(&[0u64, 200, 1024]) } else { 0 }, SeqCst);
    let _off = Source;
    let mut all: Vec<String> = vec![];
    let go = |k: usize| -> Result<Vec<String>, String> {
        let mut v = vec![];
        for i in 0..each {
            v.extend(generate(if (i + k) % 3 == 0 { What::Screen } else { What::Client })?);
        }
        Ok(v)
    };
    if threads == 1 {
        all.extend(go(0)?);
    } else {
        let bar = Barrier::new(threads);
        let rs: Vec<_> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..threads)
                .map(|k| {
                    let (bar, go) = (&bar, &go);
                    s.spawn(move || {
                        bar.wait();
                        go(k)
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or(Err("panic in a thread".into()))).collect()
        });
        for x in rs {
            all.extend(x?);
        }
    }
    let got = interpose::RAND_BYTES.load(SeqCst) - b0;
    ensure!(got >= 24 * all.len() as u64, "for {} secrets, only {} bytes were taken from the random source", all.len(), got);
    obs.count("random_source_calls", interpose::RAND_CALLS.load(SeqCst) - c0);
    obs.count("random_source_bytes", got);
    drop(_off);
    if forks {
        let (a, b) = (child(20)?, child(20)?);
        // what this process does next
        let mut c = vec![];
        for _ in 0..20 {
            c.extend(generate(What::Client)?);
        }
        ensure!(a.len() == 20 && b.len() == 20, "a child process cannot generate secrets");
        obs.count("secrets_of_child_processes", 40);
        all.extend(a);
        all.extend(b);
        all.extend(c);
    }
    for s in &all {
        let b = decode(s)?;
        ensure!(seen.insert(b), "the secret {} was generated twice", s);
        st.add(&b);
    }
    obs.count("secrets", all.len() as u64);
    obs.case(Some(fnv(all[0].as_bytes())));
    obs.sample(|| J::s(format!("{} threads, first secret {}", threads, all[0])));
    Ok(())
}

pub fn c25(ctx: &Ctx, obs: &mut Obs, slot: &Slot) {
    obs.rule = "a batch of secrets generated by some threads and processes, or a controlled random source with all its single-bit changes; distinct by the first secret or the source".into();
    let mut seen = HashSet::new();
    let mut st = Stats::new();
    run_cases(ctx, obs, slot, u64::MAX / 2, |i, r, obs| {
        if (i / ctx.shards) % 3 == 0 {
            return dependence(r, obs);
        }
        batch(r, obs, &mut seen, &mut st)?;
        if st.n > 20_000 {
            let z = st.judge()?;
            obs.max("largest_bit_statistic_in_hundredths_of_sigma", (z * 100.0) as u64);
            obs.count("statistics_judged", 192 + 192 + 192 * 191 / 2);
            st = Stats::new();
            seen.clear();
        }
        Ok(())
    });
}

// ---------------------------------------------------------------- C26

#[derive(PartialEq, Debug, Clone)]
struct Entry {
    mode: u32,
    ino: u64,
    uid: u32,
    size: u64,
    mtime: (i64, i64),
    content: Vec<u8>,
}
fn snapshot(root: &Path, at: &Path, out: &mut BTreeMap<PathBuf, Entry>) {
    let Ok(m) = std::fs::symlink_metadata(at) else { return };
    let content = if m.is_file() {
        std::fs::read(at).unwrap_or_default()
    } else if m.file_type().is_symlink() {
        std::fs::read_link(at).map(|p| p.into_os_string().into_vec()).unwrap_or_default()
    } else {
        vec![]
    };
    out.insert(at.strip_prefix(root).unwrap_or(at).to_path_buf(), Entry { mode: m.mode(), ino: m.ino(), uid: m.uid(), size: m.size(), mtime: (m.mtime(), m.mtime_nsec()), content });
    if m.is_dir() {
        if let Ok(d) = std::fs::read_dir(at) {
            for e in d.flatten() {
                snapshot(root, &e.path(), out);
            }
        }
    }
}
/// places outside where something could appear
fn elsewhere() -> Vec<OsString> {
    let mut v = vec![];
    for d in ["/tmp", "/run", "/var/run", "/run/user/0", "/var/tmp", "/dev/shm", "/"] {
        if let Ok(rd) = std::fs::read_dir(d) {
            v.extend(rd.flatten().map(|e| e.path().into_os_string()).filter(|n| {
                let b = Path::new(n).file_name().unwrap_or_default().as_bytes();
                b.starts_with(b"vt6") && !b.starts_with(b"vt6mon") && !b.starts_with(b"vt6demo")
            }));
        }
    }
    v.sort();
    v
}
fn name(r: &mut Rng) -> Vec<u8> {
    match r.below(8) {
        6 => r.pick(&[&b"trailing "[..], b" leading", b"tab\t", b"newline\n", b"nl\r\n", b"\xc2\xa0", b" "]).to_vec(),
        7 => r.pick(&[&b"~"[..], b"$HOME", b"a:b", b"-n", b"'q'", b"\"q\"", b"..x", b"%t", b"*", b"UPPER", b"\\"]).to_vec(),
        0 => b"run".to_vec(),
        1 => b"with space and \n newline".to_vec(),
        2 => vec![0xff, 0xfe, b'x'],
        3 => "b\u{e4}\u{4e2d}".as_bytes().to_vec(),
        4 => vec![b'n'; *r.pick(&[100usize, 255])],
        _ => b"vt6".to_vec(),
    }
}
fn mk(p: &Path) -> Result<(), String> {
    std::fs::create_dir_all(p).map_err(|e| format!("harness: {}: {}", p.display(), e))
}
fn rm(p: &Path) {
    if p.starts_with("/tmp/") {
        let _ = std::fs::remove_dir_all(p);
    }
}

fn path_case(ctx: &Ctx, r: &mut Rng, obs: &mut Obs) -> Result<(), String> {
    let root = ctx.scratch.join("c26");
    rm(&root);
    for d in ["home", "tmp", "cwd", "elsewhere"] {
        mk(&root.join(d))?;
    }
    std::env::set_var("HOME", root.join("home"));
    std::env::set_var("TMPDIR", root.join("tmp"));
    for k in ["XDG_CACHE_HOME", "XDG_DATA_HOME", "XDG_STATE_HOME", "XDG_CONFIG_HOME"] {
        std::env::set_var(k, root.join("home"));
    }
    std::env::set_current_dir(root.join("cwd")).map_err(|e| format!("harness: {}", e))?;
    let base = root.join(OsStr::from_bytes(&name(r)));
    mk(&base)?;
    // what the variable says; is that a directory?
    let kinds = ["unset", "empty", "missing", "missing but for white space", "a file", "a directory", "a directory", "a directory", "a directory", "a symlink to a directory", "a dangling symlink", "relative", "relative and missing", "with a trailing slash", "with . and ..", "a socket", "too long", "below a file", "a file with a trailing slash"];
    let kind = *r.pick(&kinds);
    let mut is_dir = false;
    let mut dir = base.clone();
    let value: Option<Vec<u8>> = match kind {
        "unset" => None,
        "empty" => Some(vec![]),
        "missing but for white space" => {
            mk(&base.join("d"))?;
            Some([base.join("d").as_os_str().as_bytes(), *r.pick(&[&b" "[..], b"\n", b"\t"])].concat())
        }
        "missing" => Some(base.join("missing").into_os_string().into_vec()),
        "a file" | "a file with a trailing slash" => {
            let f = base.join("file");
            std::fs::write(&f, b"content").map_err(|e| format!("harness: {}", e))?;
            let mut v = f.into_os_string().into_vec();
            if kind != "a file" {
                v.push(b'/');
            }
            Some(v)
        }
        "below a file" => {
            let f = base.join("file");
            std::fs::write(&f, b"content").map_err(|e| format!("harness: {}", e))?;
            Some(f.join("x").into_os_string().into_vec())
        }
        "a symlink to a directory" => {
            let l = base.join("link");
            dir = root.join("elsewhere");
            std::os::unix::fs::symlink(&dir, &l).map_err(|e| format!("harness: {}", e))?;
            is_dir = true;
            Some(l.into_os_string().into_vec())
        }
        "a dangling symlink" => {
            let l = base.join("link");
            std::os::unix::fs::symlink(base.join("nothing"), &l).map_err(|e| format!("harness: {}", e))?;
            Some(l.into_os_string().into_vec())
        }
        "relative" => {
            dir = root.join("cwd").join("rel");
            mk(&dir)?;
            is_dir = true;
            Some(b"rel".to_vec())
        }
        "relative and missing" => Some(b"nowhere".to_vec()),
        "with a trailing slash" => {
            is_dir = true;
            let mut v = base.clone().into_os_string().into_vec();
            v.extend(*r.pick(&[&b"/"[..], b"//", b"/./"]));
            Some(v)
        }
        "with . and .." => {
            is_dir = true;
            mk(&base.join("x"))?;
            Some([base.as_os_str().as_bytes(), b"/./x/.."].concat())
        }
        "a socket" => {
            let s = root.join("sock");
            std::os::unix::net::UnixListener::bind(&s).ok();
            Some(s.into_os_string().into_vec())
        }
        "too long" => Some([base.as_os_str().as_bytes(), b"/", &vec![b'l'; *r.pick(&[256usize, 5000])][..]].concat()),
        _ => {
            is_dir = true;
            Some(base.clone().into_os_string().into_vec())
        }
    };
    // what is there already
    let mut exists = false;
    let mut ok = is_dir;
    let mut inside = "no vt6";
    if is_dir {
        std::fs::write(dir.join("other"), b"someone else's").map_err(|e| format!("harness: {}", e))?;
        inside = *r.pick(&["no vt6", "no vt6", "no vt6", "an empty vt6", "vt6 with content", "vt6 with the socket of this process", "vt6 is a file", "vt6 is a symlink to a directory", "vt6 is a dangling symlink", "not writable", "not writable, with vt6"]);
        let v = dir.join("vt6");
        let me = std::process::id().to_string();
        let w = |p: &Path, b: &[u8]| std::fs::write(p, b).map_err(|e| format!("harness: {}", e));
        match inside {
            "an empty vt6" => {
                mk(&v)?;
                exists = true;
            }
            "vt6 with content" => {
                mk(&v.join("4711"))?;
                w(&v.join("4711").join("x"), b"1")?;
                w(&v.join("99"), b"not a socket")?;
                exists = true;
            }
            "vt6 with the socket of this process" => {
                mk(&v)?;
                w(&v.join(&me), b"stale")?;
                exists = true;
            }
            "vt6 is a file" => {
                w(&v, b"file")?;
                ok = false;
            }
            "vt6 is a symlink to a directory" => {
                mk(&root.join("target"))?;
                std::os::unix::fs::symlink(root.join("target"), &v).map_err(|e| format!("harness: {}", e))?;
                exists = true;
            }
            "vt6 is a dangling symlink" => {
                std::os::unix::fs::symlink(root.join("no-target"), &v).map_err(|e| format!("harness: {}", e))?;
                ok = false;
            }
            "not writable" => ok = false,
            "not writable, with vt6" => {
                mk(&v)?;
                exists = true;
            }
            _ => {}
        }
        if exists && r.chance(1, 3) {
            use std::os::unix::fs::PermissionsExt;
            let _ = std::fs::set_permissions(&v, std::fs::Permissions::from_mode(*r.pick(&[0o700u32, 0o755, 0o500])));
        }
    }
    let unpriv = inside.starts_with("not writable");
    match &value {
        None => std::env::remove_var("XDG_RUNTIME_DIR"),
        Some(v) => std::env::set_var("XDG_RUNTIME_DIR", OsStr::from_bytes(v)),
    }
    let expect = value.as_ref().map(|v| Path::new(OsStr::from_bytes(v)).join("vt6").join(std::process::id().to_string()));
    obs.current = format!("XDG_RUNTIME_DIR is {} ({}); inside: {}", kind, value.as_ref().map_or("-".into(), |v| show(v)), inside);
    let mut before = BTreeMap::new();
    snapshot(&root, &root, &mut before);
    let out0 = elsewhere();

    // one call, repeated calls, or calls from several threads at once
    let threads = if unpriv { 1 } else { *r.pick(&[1usize, 1, 1, 2, 4, 8]) };
    let calls = *r.pick(&[1usize, 1, 2, 3]);
    let run = || -> Vec<std::io::Result<PathBuf>> { (0..calls).map(|_| vt6::server::default_socket_path()).collect() };
    let results: Vec<std::io::Result<PathBuf>> = if unpriv {
        // (as somebody who may not write there; concerns this thread only)
        let t = std::thread::scope(|s| {
            s.spawn(|| {
                unsafe {
                    libc::setfsgid(65534);
                    libc::setfsuid(65534);
                }
                guard(run)
            })
            .join()
        });
        t.map_err(|_| "harness: thread".to_string())??
    } else if threads == 1 {
        guard(run)?
    } else {
        let bar = Arc::new(Barrier::new(threads));
        let rs: Vec<_> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..threads)
                .map(|_| {
                    let (bar, run) = (bar.clone(), &run);
                    s.spawn(move || {
                        bar.wait();
                        guard(run)
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join()).collect()
        });
        let mut v = vec![];
        for x in rs {
            v.extend(x.map_err(|_| "harness: thread".to_string())??);
        }
        obs.count("concurrent_calls", v.len() as u64);
        v
    };
    let mut after = BTreeMap::new();
    snapshot(&root, &root, &mut after);
    for (k, res) in results.iter().enumerate() {
        match res {
            Ok(p) => {
                ensure!(ok, "call {} returned {} instead of an error", k, show(p.as_os_str().as_bytes()));
                let e = expect.as_ref().unwrap();
                ensure!(p == e, "call {} returned {} instead of {}", k, show(p.as_os_str().as_bytes()), show(e.as_os_str().as_bytes()));
            }
            Err(e) => ensure!(!ok, "call {} of {} failed: {}", k, results.len(), e),
        }
    }
    // the directory it is in exists
    let created = dir.strip_prefix(&root).map(|d| d.join("vt6")).unwrap_or_default();
    if ok {
        ensure!(dir.join("vt6").is_dir(), "after default_socket_path(), the directory of the socket does not exist");
    }
    for (p, e) in &after {
        match before.get(p) {
            None => ensure!(ok && !exists && *p == created && e.mode & libc::S_IFMT == libc::S_IFDIR, "default_socket_path() created {}", show(p.as_os_str().as_bytes())),
            Some(b) => {
                // (the directory in which vt6 was created has another modification time and size)
                let parent = ok && !exists && Some(&**p) == created.parent();
                if parent {
                    let mut e = e.clone();
                    e.mtime = b.mtime;
                    e.size = b.size;
                    ensure!(e == *b, "default_socket_path() changed {}", show(p.as_os_str().as_bytes()));
                } else {
                    ensure!(e == b, "default_socket_path() changed {}", show(p.as_os_str().as_bytes()));
                }
            }
        }
    }
    for p in before.keys() {
        ensure!(after.contains_key(p), "default_socket_path() removed {}", show(p.as_os_str().as_bytes()));
    }
    let out1 = elsewhere();
    for x in &out1 {
        ensure!(out0.contains(x), "default_socket_path() created {}", x.to_string_lossy());
    }
    // the same afterwards; and in a child, that of the child
    if ok && !unpriv {
        let again = vt6::server::default_socket_path();
        ensure!(again.as_ref().ok() == expect.as_ref(), "the second result differs from the first");
        if r.chance(1, 4) {
            child_path(value.as_ref().unwrap())?;
            obs.count("child_processes", 1);
        }
    }
    obs.count(&format!("XDG_RUNTIME_DIR {}", kind), 1);
    if is_dir {
        obs.count(&format!("inside: {}", inside), 1);
    }
    obs.count(if ok { "paths" } else { "errors" }, 1);
    obs.case(Some(fnv(format!("{:?}{}{}{}{}", value, kind, inside, threads, calls).as_bytes())));
    let cur = obs.current.clone();
    obs.sample(|| J::s(cur));
    Ok(())
}
fn child_path(value: &[u8]) -> Result<(), String> {
    let mut p = [0i32; 2];
    unsafe {
        if libc::pipe(p.as_mut_ptr()) != 0 {
            return Err("harness: pipe".into());
        }
        match libc::fork() {
            0 => {
                let r = vt6::server::default_socket_path().map(|p| p.into_os_string().into_vec()).unwrap_or_default();
                let mut f: std::fs::File = std::os::fd::FromRawFd::from_raw_fd(p[1]);
                let _ = f.write_all(&r);
                drop(f);
                libc::_exit(0);
            }
            pid if pid > 0 => {
                libc::close(p[1]);
                let mut f: std::fs::File = std::os::fd::FromRawFd::from_raw_fd(p[0]);
                let mut s = vec![];
                let _ = f.read_to_end(&mut s);
                let mut st = 0;
                libc::waitpid(pid, &mut st, 0);
                let want = Path::new(OsStr::from_bytes(value)).join("vt6").join(pid.to_string());
                ensure!(st == 0 && Path::new(OsStr::from_bytes(&s)) == want, "in the child process {}, the path is {}", pid, show(&s));
                Ok(())
            }
            _ => Err("harness: fork".into()),
        }
    }
}

pub fn c26(ctx: &Ctx, obs: &mut Obs, slot: &Slot) {
    obs.rule = "a call of default_socket_path() in a prepared environment; distinct by the value of the variable, what is there already, and the number of threads and calls".into();
    run_cases(ctx, obs, slot, u64::MAX / 2, |_, r, obs| path_case(ctx, r, obs));
    let _ = std::env::set_current_dir("/");
    rm(&ctx.scratch.join("c26"));
}
