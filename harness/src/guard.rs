//! Input memory that ends (or starts) at an inaccessible page, and crash reporting.
use std::sync::atomic::{AtomicU64, Ordering};

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(addr: *mut u8, len: usize, prot: i32) -> i32;
    fn signal(sig: i32, handler: usize) -> usize;
    fn sigaltstack(new: *const Stack, old: *mut Stack) -> i32;
    fn sigaction(sig: i32, act: *const Action, old: *mut Action) -> i32;
    fn write(fd: i32, buf: *const u8, n: usize) -> isize;
    fn _exit(code: i32) -> !;
}
#[repr(C)] struct Stack { sp: *mut u8, flags: i32, size: usize }
#[repr(C)] struct Action { handler: usize, mask: [u64; 16], flags: i32, restorer: usize }

const PAGE: usize = 4096;

pub struct Guard { base: *mut u8, size: usize }

impl Guard {
    pub fn new(size: usize) -> Guard {
        let size = (size + PAGE - 1) / PAGE * PAGE;
        unsafe {
            let p = mmap(std::ptr::null_mut(), size + 2 * PAGE, 3, 0x22, -1, 0);
            assert!(p as isize != -1);
            assert_eq!(mprotect(p, PAGE, 0), 0);
            assert_eq!(mprotect(p.add(PAGE + size), PAGE, 0), 0);
            Guard { base: p.add(PAGE), size }
        }
    }
    /// A copy of `data` that is followed (or, with `low`, preceded) by an inaccessible page.
    pub fn place<'a>(&'a self, data: &[u8], low: bool) -> &'a [u8] {
        assert!(data.len() <= self.size);
        unsafe {
            let p = if low { self.base } else { self.base.add(self.size - data.len()) };
            std::ptr::copy_nonoverlapping(data.as_ptr(), p, data.len());
            std::slice::from_raw_parts(p, data.len())
        }
    }
}

thread_local!(pub static THREAD: std::cell::Cell<usize> = const { std::cell::Cell::new(0) });
pub const MAX_THREADS: usize = 64;
#[allow(clippy::declare_interior_mutable_const)]
const Z: AtomicU64 = AtomicU64::new(0);
/// Case every thread works on, for crash reports and the watchdog.
pub static CASE: [AtomicU64; MAX_THREADS] = [Z; MAX_THREADS];
pub static TICK: [AtomicU64; MAX_THREADS] = [Z; MAX_THREADS];

pub fn set_case(id: u64) {
    let t = THREAD.with(|t| t.get());
    CASE[t].store(id, Ordering::Relaxed);
    TICK[t].fetch_add(1, Ordering::Relaxed);
}

/// Input of the current case of a thread, for crash reports.
pub static INPUT: [AtomicU64; MAX_THREADS] = [Z; MAX_THREADS];
pub static INPUT_LEN: [AtomicU64; MAX_THREADS] = [Z; MAX_THREADS];
pub fn set_input(b: &[u8]) {
    let t = THREAD.with(|t| t.get());
    INPUT_LEN[t].store(0, Ordering::SeqCst);
    INPUT[t].store(b.as_ptr() as u64, Ordering::SeqCst);
    INPUT_LEN[t].store(b.len() as u64, Ordering::SeqCst);
}
fn report_input(t: usize) {
    let n = INPUT_LEN[t].load(Ordering::SeqCst) as usize;
    if n == 0 { return; }
    let p = INPUT[t].load(Ordering::SeqCst) as *const u8;
    let mut out = [0u8; 4200];
    out[..7].copy_from_slice(b"\nINPUT ");
    let mut k = 7;
    for i in 0..n.min(2000) {
        let b = unsafe { *p.add(i) };
        for d in [b >> 4, b & 15] { out[k] = if d < 10 { 48 + d } else { 87 + d }; k += 1; }
    }
    out[k] = 10; k += 1;
    unsafe { write(1, out.as_ptr(), k); }
}

fn report(what: &str, case: u64) -> ! {
    let msg = format!("\nCRASH {} {}\n", what, case);
    unsafe { write(1, msg.as_ptr(), msg.len()); _exit(3) }
}

extern "C" fn on_segv(_sig: i32) {
    let t = THREAD.with(|t| t.get());
    report_input(t);
    report("memory", CASE[t].load(Ordering::Relaxed));
}

pub fn install() {
    unsafe {
        let _ = signal;
        alt_stack();
        for sig in [11, 7, 4, 6] {
            let a = Action { handler: on_segv as extern "C" fn(i32) as usize, mask: [0; 16], flags: 0x08000000, restorer: 0 };
            sigaction(sig, &a, std::ptr::null_mut());
        }
    }
}

pub fn alt_stack() {
    unsafe {
        let mem = Box::leak(vec![0u8; 1 << 16].into_boxed_slice());
        let s = Stack { sp: mem.as_mut_ptr(), flags: 0, size: mem.len() };
        sigaltstack(&s, std::ptr::null_mut());
    }
}

/// Reports a thread that stays in one case for too long.
pub fn watchdog(threads: usize, seconds: u64) {
    std::thread::spawn(move || {
        let mut last = vec![(0u64, 0u64); threads];
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            for t in 0..threads {
                let tick = TICK[t].load(Ordering::Relaxed);
                let busy = CASE[t].load(Ordering::Relaxed) != 0;
                if busy && tick == last[t].0 {
                    last[t].1 += 1;
                    if last[t].1 >= seconds { report_input(t); report("hang", CASE[t].load(Ordering::Relaxed)); }
                } else { last[t] = (tick, 0); }
            }
        }
    });
}
