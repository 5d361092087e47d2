//! A program without std and without an allocator which uses the library's message core: reads inputs
//! (length as 4 bytes little-endian, then that many bytes) from standard input, and writes the digests of
//! everything the library makes of each to standard output. A panic ends the process.
#![no_std]
#![no_main]

mod driver;

#[link(name = "c")]
extern "C" {
    fn read(fd: i32, buf: *mut u8, n: usize) -> isize;
    fn write(fd: i32, buf: *const u8, n: usize) -> isize;
    fn _exit(code: i32) -> !;
}

#[panic_handler]
fn panic(_: &core::panic::PanicInfo) -> ! {
    unsafe { _exit(101) }
}
/// what unoptimised parts of core refer to; never called, as nothing unwinds
#[no_mangle]
pub extern "C" fn rust_eh_personality() {}
#[no_mangle]
pub extern "C" fn _Unwind_Resume() -> ! {
    unsafe { _exit(102) }
}

fn fill(buf: &mut [u8]) -> bool {
    let mut got = 0;
    while got < buf.len() {
        let n = unsafe { read(0, buf[got..].as_mut_ptr(), buf.len() - got) };
        if n <= 0 {
            return false;
        }
        got += n as usize;
    }
    true
}

static mut BUF: [u8; driver::MAX] = [0; driver::MAX];

#[no_mangle]
pub extern "C" fn main(_argc: i32, _argv: *const *const u8) -> i32 {
    let buf: &'static mut [u8; driver::MAX] = unsafe { &mut *core::ptr::addr_of_mut!(BUF) };
    loop {
        let mut len = [0u8; 4];
        if !fill(&mut len) {
            return 0;
        }
        let len = u32::from_le_bytes(len) as usize;
        if len > buf.len() || !fill(&mut buf[..len]) {
            return 2;
        }
        let d = driver::run(&buf[..len]);
        let mut out = [0u8; 8 * driver::SECTIONS];
        for (i, x) in d.iter().enumerate() {
            out[i * 8..i * 8 + 8].copy_from_slice(&x.to_le_bytes());
        }
        if unsafe { write(1, out.as_ptr(), out.len()) } != out.len() as isize {
            return 3;
        }
    }
}
