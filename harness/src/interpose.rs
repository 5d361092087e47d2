//! Stands in for some libc calls of this process, to count the server's connection sockets, make their send buffers
//! small, and let their reads and writes fail. Everything else goes straight to the kernel. Also the random source.
use std::sync::atomic::{AtomicI32, AtomicI64, AtomicU64, AtomicU8, Ordering::SeqCst};

const N: usize = 65536;
/// 1 = a connection the server accepted
static KIND: [AtomicU8; N] = [const { AtomicU8::new(0) }; N];
pub static SERVER_LIVE: AtomicI64 = AtomicI64::new(0);
pub static ACCEPTED: AtomicU64 = AtomicU64::new(0);
/// send buffer size for accepted connections (0: leave alone)
pub static SNDBUF: AtomicI32 = AtomicI32::new(0);
/// the n-th read / write on a server connection from now fails (0: never)
pub static FAIL_READ: AtomicI64 = AtomicI64::new(0);
pub static FAIL_WRITE: AtomicI64 = AtomicI64::new(0);
pub static FAIL_ERRNO: AtomicI32 = AtomicI32::new(libc::EIO);
pub static FAILED: AtomicU64 = AtomicU64::new(0);
pub static READS: AtomicU64 = AtomicU64::new(0);
pub static WRITES: AtomicU64 = AtomicU64::new(0);
pub static PARTIAL_WRITES: AtomicU64 = AtomicU64::new(0);
pub static BLOCKED_WRITES: AtomicU64 = AtomicU64::new(0);

/// while set, this client's end is filled up again whenever the server has read: a client that is always faster
pub static PUMP_FD: AtomicI32 = AtomicI32::new(-1);
pub static PUMP_LEFT: AtomicI64 = AtomicI64::new(0);
static PUMP: std::sync::Mutex<(Vec<u8>, usize)> = std::sync::Mutex::new((Vec::new(), 0));

/// `left` bytes of repetitions of `unit`, of which the first `off` bytes were written already
pub fn pump(fd: i32, unit: Vec<u8>, off: usize, left: usize) {
    *PUMP.lock().unwrap_or_else(|e| e.into_inner()) = (unit, off);
    PUMP_LEFT.store(left as i64, SeqCst);
    PUMP_FD.store(fd, SeqCst);
}
unsafe fn after_read(fd: i32) {
    let to = PUMP_FD.load(SeqCst);
    if to < 0 || !is_server(fd) {
        return;
    }
    let e = *libc::__errno_location();
    if let Ok(mut g) = PUMP.try_lock() {
        let (u, off) = &mut *g;
        while PUMP_LEFT.load(SeqCst) > 0 && !u.is_empty() {
            let n = (u.len() - *off).min(PUMP_LEFT.load(SeqCst) as usize);
            let k = libc::syscall(libc::SYS_sendto, to, u.as_ptr().add(*off), n, libc::MSG_NOSIGNAL | libc::MSG_DONTWAIT, 0usize, 0usize) as isize;
            if k <= 0 {
                break;
            }
            *off = (*off + k as usize) % u.len();
            PUMP_LEFT.fetch_sub(k as i64, SeqCst);
        }
    }
    *libc::__errno_location() = e;
}

// ---- the calls of one thread, for the discovery of descriptor 60
/// thread whose calls are recorded
pub static WATCH_TID: AtomicI32 = AtomicI32::new(0);
/// bit j: the j-th read of descriptor 60 by that thread is interrupted
pub static EINTR_MASK: AtomicU64 = AtomicU64::new(0);
static CALLS: std::sync::Mutex<Vec<(char, i32, isize)>> = std::sync::Mutex::new(Vec::new());
pub fn watch(mask: u64) {
    let mut c = CALLS.lock().unwrap_or_else(|e| e.into_inner());
    c.clear();
    c.reserve(5000);
    EINTR_MASK.store(mask, SeqCst);
    WATCH_TID.store(unsafe { libc::syscall(libc::SYS_gettid) } as i32, SeqCst);
}
pub fn unwatch() -> Vec<(char, i32, isize)> {
    WATCH_TID.store(0, SeqCst);
    std::mem::take(&mut *CALLS.lock().unwrap_or_else(|e| e.into_inner()))
}
unsafe fn watched() -> bool {
    let w = WATCH_TID.load(SeqCst);
    w != 0 && w == libc::syscall(libc::SYS_gettid) as i32
}
unsafe fn call(op: char, fd: i32, r: isize) -> isize {
    if watched() {
        let e = *libc::__errno_location();
        if let Ok(mut c) = CALLS.try_lock() {
            if c.len() < 4096 {
                c.push((op, fd, r));
            }
        }
        *libc::__errno_location() = e;
    }
    r
}
unsafe fn interrupted(fd: i32) -> bool {
    if fd != 60 || EINTR_MASK.load(SeqCst) == 0 || !watched() {
        return false;
    }
    let m = EINTR_MASK.load(SeqCst);
    EINTR_MASK.store(m >> 1, SeqCst);
    m & 1 == 1
}

fn is_server(fd: i32) -> bool {
    fd >= 0 && (fd as usize) < N && KIND[fd as usize].load(SeqCst) == 1
}
unsafe fn fail(e: i32) -> isize {
    *libc::__errno_location() = e;
    -1
}
/// reads (r) and writes (w) on sockets of the server that failed, with their errno
pub static FAILURES: std::sync::Mutex<Vec<(char, i32)>> = std::sync::Mutex::new(Vec::new());
unsafe fn noted(op: char, fd: i32, r: isize) -> isize {
    if r < 0 && is_server(fd) {
        let e = *libc::__errno_location();
        if e != libc::EAGAIN && e != libc::EINTR {
            if let Ok(mut f) = FAILURES.lock() {
                if f.len() < 4096 {
                    f.push((op, e));
                }
            }
        }
        *libc::__errno_location() = e;
    }
    r
}
fn hit(c: &AtomicI64) -> bool {
    if c.load(SeqCst) == 0 {
        return false;
    }
    if c.fetch_sub(1, SeqCst) == 1 {
        FAILED.fetch_add(1, SeqCst);
        return true;
    }
    false
}
unsafe fn accepted(fd: i32) {
    if fd >= 0 && (fd as usize) < N {
        ACCEPTED.fetch_add(1, SeqCst);
        SERVER_LIVE.fetch_add(1, SeqCst);
        KIND[fd as usize].store(1, SeqCst);
        let s = SNDBUF.load(SeqCst);
        if s > 0 {
            libc::setsockopt(fd, libc::SOL_SOCKET, libc::SO_SNDBUF, &s as *const i32 as *const libc::c_void, 4);
        }
    }
}
unsafe fn reading(fd: i32) -> Option<isize> {
    if interrupted(fd) {
        return Some(call('i', fd, fail(libc::EINTR)));
    }
    if is_server(fd) {
        READS.fetch_add(1, SeqCst);
        if hit(&FAIL_READ) {
            return Some(noted('r', fd, fail(FAIL_ERRNO.load(SeqCst))));
        }
    }
    None
}
unsafe fn writing(fd: i32) -> Option<isize> {
    if is_server(fd) {
        WRITES.fetch_add(1, SeqCst);
        if hit(&FAIL_WRITE) {
            return Some(noted('w', fd, fail(FAIL_ERRNO.load(SeqCst))));
        }
    }
    None
}
unsafe fn wrote(fd: i32, want: usize, got: isize) -> isize {
    if is_server(fd) {
        if got >= 0 && (got as usize) < want {
            PARTIAL_WRITES.fetch_add(1, SeqCst);
        } else if got < 0 && *libc::__errno_location() == libc::EAGAIN {
            BLOCKED_WRITES.fetch_add(1, SeqCst);
        }
    }
    noted('w', fd, got)
}

/// What the calls below stand in for: the kernel, or a sanitizer's own stand-ins, which must see the calls
#[cfg(not(any(vt6_asan, vt6_tsan, vt6_msan)))]
mod real {
    use libc::*;
    pub unsafe fn accept4(fd: i32, a: *mut sockaddr, l: *mut socklen_t, flags: i32) -> i32 {
        syscall(SYS_accept4, fd, a, l, flags) as i32
    }
    pub unsafe fn close(fd: i32) -> i32 {
        syscall(SYS_close, fd) as i32
    }
    pub unsafe fn read(fd: i32, b: *mut c_void, n: usize) -> isize {
        syscall(SYS_read, fd, b, n) as isize
    }
    pub unsafe fn recv(fd: i32, b: *mut c_void, n: usize, flags: i32) -> isize {
        syscall(SYS_recvfrom, fd, b, n, flags, 0usize, 0usize) as isize
    }
    pub unsafe fn readv(fd: i32, v: *const iovec, n: i32) -> isize {
        syscall(SYS_readv, fd, v, n) as isize
    }
    pub unsafe fn write(fd: i32, b: *const c_void, n: usize) -> isize {
        syscall(SYS_write, fd, b, n) as isize
    }
    pub unsafe fn send(fd: i32, b: *const c_void, n: usize, flags: i32) -> isize {
        syscall(SYS_sendto, fd, b, n, flags, 0usize, 0usize) as isize
    }
    pub unsafe fn writev(fd: i32, v: *const iovec, n: i32) -> isize {
        syscall(SYS_writev, fd, v, n) as isize
    }
}
#[cfg(any(vt6_asan, vt6_tsan, vt6_msan))]
mod real {
    use libc::*;
    extern "C" {
        #[link_name = "__interceptor_accept4"]
        pub fn accept4(fd: i32, a: *mut sockaddr, l: *mut socklen_t, flags: i32) -> i32;
        #[cfg(vt6_tsan)]
        #[link_name = "__interceptor_close"]
        pub fn close(fd: i32) -> i32;
        #[link_name = "__interceptor_read"]
        pub fn read(fd: i32, b: *mut c_void, n: usize) -> isize;
        #[link_name = "__interceptor_recv"]
        pub fn recv(fd: i32, b: *mut c_void, n: usize, flags: i32) -> isize;
        #[link_name = "__interceptor_readv"]
        pub fn readv(fd: i32, v: *const iovec, n: i32) -> isize;
        #[link_name = "__interceptor_write"]
        pub fn write(fd: i32, b: *const c_void, n: usize) -> isize;
        #[link_name = "__interceptor_send"]
        pub fn send(fd: i32, b: *const c_void, n: usize, flags: i32) -> isize;
        #[link_name = "__interceptor_writev"]
        pub fn writev(fd: i32, v: *const iovec, n: i32) -> isize;
    }
    #[cfg(any(vt6_asan, vt6_msan))]
    pub unsafe fn close(fd: i32) -> i32 {
        syscall(SYS_close, fd) as i32
    }
}

#[cfg_attr(not(miri), no_mangle)]
pub unsafe extern "C" fn accept4(fd: i32, a: *mut libc::sockaddr, l: *mut libc::socklen_t, flags: i32) -> i32 {
    let r = real::accept4(fd, a, l, flags);
    accepted(r);
    r
}
#[cfg_attr(not(miri), no_mangle)]
pub unsafe extern "C" fn accept(fd: i32, a: *mut libc::sockaddr, l: *mut libc::socklen_t) -> i32 {
    let r = real::accept4(fd, a, l, 0);
    accepted(r);
    r
}
/// descriptors that were closed though not open
pub static BAD_CLOSES: AtomicU64 = AtomicU64::new(0);
pub static BAD_CLOSE_AT: std::sync::Mutex<Option<String>> = std::sync::Mutex::new(None);
unsafe fn bad_close(fd: i32) {
    if BAD_CLOSES.fetch_add(1, SeqCst) == 0 {
        let at = format!("descriptor {}\n{}", fd, std::backtrace::Backtrace::force_capture());
        *BAD_CLOSE_AT.lock().unwrap_or_else(|e| e.into_inner()) = Some(at);
        fail(libc::EBADF);
    }
}
#[cfg_attr(not(miri), no_mangle)]
pub unsafe extern "C" fn close(fd: i32) -> i32 {
    if is_server(fd) {
        KIND[fd as usize].store(0, SeqCst);
        SERVER_LIVE.fetch_sub(1, SeqCst);
    }
    let r = real::close(fd);
    if r < 0 && *libc::__errno_location() == libc::EBADF {
        bad_close(fd);
    }
    call('c', fd, r as isize) as i32
}
#[cfg_attr(not(miri), no_mangle)]
pub unsafe extern "C" fn read(fd: i32, b: *mut libc::c_void, n: usize) -> isize {
    if let Some(e) = reading(fd) {
        return e;
    }
    if is_random_file(fd) {
        return random(b as *mut u8, n, || real::read(fd, b, n));
    }
    let r = noted('r', fd, real::read(fd, b, n));
    after_read(fd);
    call('r', fd, r)
}
#[cfg_attr(not(miri), no_mangle)]
pub unsafe extern "C" fn recv(fd: i32, b: *mut libc::c_void, n: usize, flags: i32) -> isize {
    if let Some(e) = reading(fd) {
        return e;
    }
    let r = noted('r', fd, real::recv(fd, b, n, flags));
    after_read(fd);
    call('r', fd, r)
}
#[cfg_attr(not(miri), no_mangle)]
pub unsafe extern "C" fn readv(fd: i32, v: *const libc::iovec, n: i32) -> isize {
    if let Some(e) = reading(fd) {
        return e;
    }
    let r = noted('r', fd, real::readv(fd, v, n));
    after_read(fd);
    call('r', fd, r)
}
#[cfg_attr(not(miri), no_mangle)]
pub unsafe extern "C" fn write(fd: i32, b: *const libc::c_void, n: usize) -> isize {
    call('w', fd, 0);
    if let Some(e) = writing(fd) {
        return e;
    }
    let r = real::write(fd, b, n);
    wrote(fd, n, r)
}
#[cfg_attr(not(miri), no_mangle)]
pub unsafe extern "C" fn send(fd: i32, b: *const libc::c_void, n: usize, flags: i32) -> isize {
    call('w', fd, 0);
    if let Some(e) = writing(fd) {
        return e;
    }
    let r = real::send(fd, b, n, flags);
    wrote(fd, n, r)
}
#[cfg_attr(not(miri), no_mangle)]
pub unsafe extern "C" fn writev(fd: i32, v: *const libc::iovec, n: i32) -> isize {
    call('w', fd, 0);
    if let Some(e) = writing(fd) {
        return e;
    }
    let r = real::writev(fd, v, n);
    let want: usize = (0..n.max(0)).map(|i| (*v.add(i as usize)).iov_len).sum();
    wrote(fd, want, r)
}

/// ThreadSanitizer does not know that this duplicates a descriptor (mio's epoll descriptor, whose events order memory)
#[cfg(vt6_tsan)]
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: i32, cmd: i32, arg: usize) -> i32 {
    extern "C" {
        fn __interceptor_dup(fd: i32) -> i32;
    }
    if cmd == libc::F_DUPFD_CLOEXEC {
        let r = __interceptor_dup(fd);
        if r >= 0 {
            libc::syscall(libc::SYS_fcntl, r, libc::F_SETFD, libc::FD_CLOEXEC);
        }
        return r;
    }
    libc::syscall(libc::SYS_fcntl, fd, cmd, arg) as i32
}

pub fn reset() {
    SNDBUF.store(0, SeqCst);
    FAIL_READ.store(0, SeqCst);
    FAIL_WRITE.store(0, SeqCst);
    FAILED.store(0, SeqCst);
    let mut f = FAILURES.lock().unwrap_or_else(|e| e.into_inner());
    f.clear();
    f.reserve(4096);
    drop(f);
    PUMP_FD.store(-1, SeqCst);
    PUMP_LEFT.store(0, SeqCst);
}

// ---- the system's random source

/// 0: not observed; 1: observed; 2: replaced by RandPlan
pub static RAND_MODE: AtomicI32 = AtomicI32::new(0);
pub static RAND_BYTES: AtomicU64 = AtomicU64::new(0);
pub static RAND_CALLS: AtomicU64 = AtomicU64::new(0);
/// chance (of 1024) to lose the processor after a call
pub static RAND_YIELD: AtomicU64 = AtomicU64::new(0);
#[derive(Clone, Default)]
pub struct RandPlan {
    /// what it delivers; then zeroes
    pub data: Vec<u8>,
    pub pos: usize,
    /// bytes per call (0: as many as asked for)
    pub chunk: usize,
    /// bit j: the j-th call is interrupted
    pub eintr: u64,
    /// every call fails
    pub errno: i32,
}
pub static RAND: std::sync::Mutex<RandPlan> = std::sync::Mutex::new(RandPlan { data: Vec::new(), pos: 0, chunk: 0, eintr: 0, errno: 0 });

unsafe fn random(b: *mut u8, n: usize, real: impl FnOnce() -> isize) -> isize {
    match RAND_MODE.load(SeqCst) {
        0 => real(),
        2 => {
            RAND_CALLS.fetch_add(1, SeqCst);
            let mut p = RAND.lock().unwrap_or_else(|e| e.into_inner());
            if p.errno != 0 {
                return fail(p.errno);
            }
            let e = p.eintr;
            p.eintr >>= 1;
            if e & 1 == 1 {
                return fail(libc::EINTR);
            }
            let k = if p.chunk > 0 { n.min(p.chunk) } else { n };
            for i in 0..k {
                *b.add(i) = p.data.get(p.pos + i).copied().unwrap_or(0);
            }
            p.pos += k;
            RAND_BYTES.fetch_add(k as u64, SeqCst);
            k as isize
        }
        _ => {
            let r = real();
            RAND_CALLS.fetch_add(1, SeqCst);
            if r > 0 {
                RAND_BYTES.fetch_add(r as u64, SeqCst);
            }
            let y = RAND_YIELD.load(SeqCst);
            if y > 0 {
                let z = RAND_CALLS.load(SeqCst).wrapping_mul(0x9E3779B97F4A7C15) >> 40;
                if (z & 1023) < y {
                    std::thread::yield_now();
                }
            }
            r
        }
    }
}
fn is_random_file(fd: i32) -> bool {
    RAND_MODE.load(SeqCst) != 0 && std::fs::read_link(format!("/proc/self/fd/{}", fd)).map_or(false, |p| p.ends_with("urandom") || p.ends_with("random"))
}
#[cfg(target_arch = "x86_64")]
unsafe fn kernel(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    std::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    if r < 0 && r > -4096 {
        return fail(-r as i32);
    }
    r
}
#[cfg_attr(not(miri), no_mangle)]
pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    if n == libc::SYS_getrandom && RAND_MODE.load(SeqCst) != 0 {
        return random(a as *mut u8, b, || kernel(n, a, b, c, d, e, f)) as i64;
    }
    kernel(n, a, b, c, d, e, f) as i64
}
#[cfg_attr(not(miri), no_mangle)]
pub unsafe extern "C" fn getrandom(b: *mut u8, n: usize, flags: u32) -> isize {
    random(b, n, || kernel(libc::SYS_getrandom, b as usize, n, flags as usize, 0, 0, 0))
}
#[cfg_attr(not(miri), no_mangle)]
pub unsafe extern "C" fn getentropy(b: *mut u8, n: usize) -> i32 {
    if n > 256 {
        return fail(libc::EIO) as i32;
    }
    let mut k = 0;
    while k < n {
        let r = getrandom(b.add(k), n - k, 0);
        if r < 0 && *libc::__errno_location() != libc::EINTR {
            return -1;
        }
        k += r.max(0) as usize;
    }
    0
}

// ---- calls that change the process or the file system beyond descriptors
thread_local! {
    /// record what this thread calls
    pub static NOTE_CALLS: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
pub static CHANGES: std::sync::Mutex<Vec<(&'static str, String)>> = std::sync::Mutex::new(Vec::new());
#[cfg(not(any(miri, vt6_asan, vt6_tsan, vt6_msan)))]
mod changes {
    use super::*;
    use libc::*;
    unsafe fn note(name: &'static str, arg: String) {
        let e = *__errno_location();
        if NOTE_CALLS.try_with(|c| c.get()).unwrap_or(false) {
            if let Ok(mut v) = CHANGES.try_lock() {
                if v.len() < 100 {
                    v.push((name, arg));
                }
            }
        }
        *__errno_location() = e;
    }
    unsafe fn text(p: *const c_char) -> String {
        if p.is_null() {
            return String::new();
        }
        std::ffi::CStr::from_ptr(p).to_string_lossy().to_string()
    }
    macro_rules! paths {
        ($($name:ident = $nr:ident ( $($a:ident : $t:ty),* ) [ $($shown:ident),* ];)*) => ($(
            #[no_mangle]
            pub unsafe extern "C" fn $name($($a: $t),*) -> i32 {
                let mut s: Vec<String> = vec![];
                $( s.push(text($shown)); )*
                note(stringify!($name), s.join(" "));
                let mut v = [0usize; 6];
                let mut _i = 0;
                $( v[_i] = $a as usize; _i += 1; )*
                kernel($nr, v[0], v[1], v[2], v[3], v[4], v[5]) as i32
            }
        )*);
    }
    type P = *const c_char;
    paths! {
        chdir = SYS_chdir (p: P) [p];
        fchdir = SYS_fchdir (fd: i32) [];
        chroot = SYS_chroot (p: P) [p];
        chmod = SYS_chmod (p: P, m: mode_t) [p];
        fchmod = SYS_fchmod (fd: i32, m: mode_t) [];
        chown = SYS_chown (p: P, u: uid_t, g: gid_t) [p];
        lchown = SYS_lchown (p: P, u: uid_t, g: gid_t) [p];
        mkdir = SYS_mkdir (p: P, m: mode_t) [p];
        rmdir = SYS_rmdir (p: P) [p];
        unlink = SYS_unlink (p: P) [p];
        unlinkat = SYS_unlinkat (d: i32, p: P, f: i32) [p];
        rename = SYS_rename (a: P, b: P) [a, b];
        link = SYS_link (a: P, b: P) [a, b];
        linkat = SYS_linkat (x: i32, a: P, y: i32, b: P, f: i32) [a, b];
        symlink = SYS_symlink (a: P, b: P) [a, b];
        truncate = SYS_truncate (p: P, n: off_t) [p];
        truncate64 = SYS_truncate (p: P, n: off_t) [p];
        setpriority = SYS_setpriority (w: i32, i: id_t, p: i32) [];
        setrlimit = SYS_setrlimit (w: i32, l: *const rlimit) [];
        setrlimit64 = SYS_setrlimit (w: i32, l: *const rlimit) [];
        setuid = SYS_setuid (u: uid_t) [];
        setgid = SYS_setgid (u: gid_t) [];
        setpgid = SYS_setpgid (a: pid_t, b: pid_t) [];
        setsid = SYS_setsid () [];
        kill = SYS_kill (a: pid_t, s: i32) [];
        alarm = SYS_alarm (n: u32) [];
    }
    #[no_mangle]
    pub unsafe extern "C" fn umask(m: mode_t) -> mode_t {
        note("umask", format!("{:03o}", m));
        kernel(SYS_umask, m as usize, 0, 0, 0, 0, 0) as mode_t
    }
    #[no_mangle]
    pub unsafe extern "C" fn open64(p: P, flags: i32, m: mode_t) -> i32 {
        if flags & (O_CREAT | O_WRONLY | O_RDWR | O_TRUNC) != 0 {
            note("open", text(p));
        }
        kernel(SYS_open, p as usize, flags as usize, m as usize, 0, 0, 0) as i32
    }
    unsafe fn next(name: &[u8]) -> *mut c_void {
        dlsym(RTLD_NEXT, name.as_ptr() as P)
    }
    #[no_mangle]
    pub unsafe extern "C" fn setenv(n: P, v: P, o: i32) -> i32 {
        note("setenv", text(n));
        let f: unsafe extern "C" fn(P, P, i32) -> i32 = std::mem::transmute(next(b"setenv\0"));
        f(n, v, o)
    }
    #[no_mangle]
    pub unsafe extern "C" fn unsetenv(n: P) -> i32 {
        note("unsetenv", text(n));
        let f: unsafe extern "C" fn(P) -> i32 = std::mem::transmute(next(b"unsetenv\0"));
        f(n)
    }
    #[no_mangle]
    pub unsafe extern "C" fn sigaction(s: i32, a: *const c_void, o: *mut c_void) -> i32 {
        if !a.is_null() {
            note("sigaction", format!("signal {}", s));
        }
        let f: unsafe extern "C" fn(i32, *const c_void, *mut c_void) -> i32 = std::mem::transmute(next(b"sigaction\0"));
        f(s, a, o)
    }
    #[no_mangle]
    pub unsafe extern "C" fn signal(s: i32, h: usize) -> usize {
        note("signal", format!("signal {}", s));
        let f: unsafe extern "C" fn(i32, usize) -> usize = std::mem::transmute(next(b"signal\0"));
        f(s, h)
    }
    #[no_mangle]
    pub unsafe extern "C" fn fork() -> pid_t {
        note("fork", String::new());
        let f: unsafe extern "C" fn() -> pid_t = std::mem::transmute(next(b"fork\0"));
        f()
    }
    #[no_mangle]
    pub unsafe extern "C" fn posix_spawnp(a: usize, p: P, c: usize, d: usize, e: usize, g: usize) -> i32 {
        note("posix_spawnp", text(p));
        let f: unsafe extern "C" fn(usize, P, usize, usize, usize, usize) -> i32 = std::mem::transmute(next(b"posix_spawnp\0"));
        f(a, p, c, d, e, g)
    }
}
