//! The only way the harness calls the code under test.

use boxcars::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! {
    static IN_IMPL: Cell<bool> = const { Cell::new(false) };
    static CUR: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static MSG: Cell<Option<String>> = const { Cell::new(None) };
}

/// A single parse holding more than this ends the process with ALLOC_EXIT.
pub const HARD_CAP: i64 = 6 << 30;
pub const ALLOC_EXIT: i32 = 77;

pub struct Alloc;

fn grow(n: i64) {
    let c = CUR.with(|c| {
        c.set(c.get() + n);
        c.get()
    });
    PEAK.with(|p| {
        if c > p.get() {
            p.set(c)
        }
    });
    if c > HARD_CAP && IN_IMPL.with(|x| x.get()) {
        let m = b"allocation cap hit\n";
        unsafe {
            libc::write(2, m.as_ptr() as *const _, m.len());
            libc::_exit(ALLOC_EXIT)
        }
    }
}

unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        crate::sched::point();
        grow(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        crate::sched::point();
        grow(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        crate::sched::point();
        CUR.with(|c| c.set(c.get() - l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        crate::sched::point();
        grow(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}

/// A panic outside the code under test is an error of the harness.
pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        if IN_IMPL.with(|x| x.get()) {
            let what = i
                .payload()
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| i.payload().downcast_ref::<String>().cloned())
                .unwrap_or_default();
            let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            MSG.with(|m| m.set(Some(format!("{what} at {at}"))));
        } else {
            eprintln!("harness error: {i}");
            unsafe { libc::_exit(2) }
        }
    }));
}

/// Runs `f` in the code under test; a panic comes back as its message.
pub fn call<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    IN_IMPL.with(|x| x.set(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_IMPL.with(|x| x.set(false));
    r.map_err(|_| MSG.with(|m| m.take()).unwrap_or_default())
}

/// Peak of live bytes allocated while `f` ran, on this thread.
pub fn peak_of<T>(f: impl FnOnce() -> T) -> (T, i64) {
    let base = CUR.with(|c| c.get());
    PEAK.with(|p| p.set(base));
    let r = f();
    (r, PEAK.with(|p| p.get()) - base)
}

/// Processor time `f` took on this thread, in nanoseconds.
pub fn cpu_of<T>(f: impl FnOnce() -> T) -> (T, u64) {
    let now = || unsafe {
        let mut t: libc::timespec = std::mem::zeroed();
        libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t);
        t.tv_sec as u64 * 1_000_000_000 + t.tv_nsec as u64
    };
    let a = now();
    let r = f();
    (r, now() - a)
}

pub enum Got {
    Ok(Box<Replay>),
    Err(Box<ParseError>),
    Panic(String),
}

/// Where `MC_DUMP` says inputs go.
fn dump(d: &[u8]) {
    use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
    static TO: std::sync::OnceLock<Option<String>> = std::sync::OnceLock::new();
    static N: AtomicUsize = AtomicUsize::new(0);
    if let Some(p) = TO.get_or_init(|| std::env::var("MC_DUMP").ok()) {
        std::fs::write(format!("{p}.{}", N.fetch_add(1, SeqCst)), d).unwrap();
    }
}

thread_local! {
    static TAKEN: std::cell::RefCell<Option<Vec<Vec<u8>>>> = const { std::cell::RefCell::new(None) };
}

/// What `f` would parse; nothing is parsed.
pub fn inputs_of(f: impl FnOnce()) -> Vec<Vec<u8>> {
    TAKEN.with(|t| *t.borrow_mut() = Some(vec![]));
    f();
    TAKEN.with(|t| t.borrow_mut().take()).unwrap()
}

pub fn parse(d: &[u8], crc: CrcCheck, net: NetworkParse) -> Got {
    dump(d);
    let taken = TAKEN.with(|t| t.borrow_mut().as_mut().map(|v| v.push(d.to_vec())).is_some());
    if taken {
        return Got::Err(Box::new(ParseError::ListTooLarge(0)));
    }
    match call(|| ParserBuilder::new(d).with_crc_check(crc).with_network_parse(net).parse()) {
        Ok(Ok(r)) => Got::Ok(Box::new(r)),
        Ok(Err(e)) => Got::Err(Box::new(e)),
        Err(m) => Got::Panic(m),
    }
}

pub const CRCS: [CrcCheck; 3] = [CrcCheck::Never, CrcCheck::OnError, CrcCheck::Always];
pub const NETS: [NetworkParse; 3] =
    [NetworkParse::Always, NetworkParse::IgnoreOnError, NetworkParse::Never];
