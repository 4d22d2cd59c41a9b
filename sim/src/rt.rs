//! Rust view of the deterministic simulation runtime (csrc/simrt.c).
use std::ffi::{c_void, CString};

pub const NFAULT: usize = 17;
pub const FAULT_NAMES: [&str; NFAULT] = [
    "short_read", "short_write", "eintr", "read_eio", "read_eio_sticky", "write_eio", "enospc", "enospc_once",
    "open_fail", "crash_in_io", "crash_at_step", "thread_stall", "clock_jump", "spurious_wakeup", "thread_create_fail",
    "slow_io", "metadata_op_fail",
];
pub const F_SHORT_READ: usize = 0;
pub const F_SHORT_WRITE: usize = 1;
pub const F_EINTR: usize = 2;
pub const F_READ_EIO: usize = 3;
pub const F_READ_EIO_STICKY: usize = 4;
pub const F_WRITE_EIO: usize = 5;
pub const F_ENOSPC: usize = 6;
pub const F_ENOSPC_ONCE: usize = 7;
pub const F_OPEN_FAIL: usize = 8;
pub const F_CRASH_IO: usize = 9;
pub const F_CRASH_STEP: usize = 10;
pub const F_STALL: usize = 11;
pub const F_CLOCK: usize = 12;
pub const F_SPURIOUS: usize = 13;
pub const F_THREAD_FAIL: usize = 14;
pub const F_SLOW_IO: usize = 15;
pub const F_META_FAIL: usize = 16;

pub const V_NONE: u32 = 0;
pub const V_OK: u32 = 1;
pub const V_VIOLATION: u32 = 2;
pub const V_HANG: u32 = 3;
pub const V_CRASHED: u32 = 4;
pub const V_ERROR: u32 = 5;

pub const EV_NAMES: [&str; 11] =
    ["", "preempt", "yield", "stall", "io_fault", "clock_jump", "spurious", "wake_select", "thread_fail", "crash_step", "slow_io"];
pub const EV_PREEMPT: u32 = 1;
pub const EV_YIELD: u32 = 2;
pub const EV_STALL: u32 = 3;
pub const EV_WAKESEL: u32 = 7;

#[repr(C)]
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Ev {
    pub kind: u32,
    pub a: u32,
    pub at: u64,
    pub c: i64,
}

#[repr(C)]
pub struct Cfg {
    pub seed: u64,
    pub replay: u32,
    pub policy: u32,
    pub preempt_mean: u32,
    pub yield_ppm: u32,
    pub wakesel_ppm: u32,
    pub fault_ppm: [u32; NFAULT],
    pub fault_max: u32,
    pub ncpu: u32,
    pub stall_len: u32,
    pub crash_lo: u64,
    pub crash_hi: u64,
    pub noprog_yields: u64,
    pub max_edges: u64,
    pub scope: [u8; 256],
    pub filter: [u8; 64],
    pub nev: u64,
    pub ev: *const Ev,
}

pub const COVBYTES: usize = 1 << 16;
pub const EVCAP: usize = 600_000;
pub const MSGCAP: usize = 8192;
pub const TRACECAP: usize = 256;

#[repr(C)]
pub struct Shared {
    pub verdict: u32,
    pub nthreads: u32,
    pub msg: [u8; MSGCAP],
    pub panics: [u8; MSGCAP],
    pub trace: [[u8; 160]; TRACECAP],
    pub ntrace: u32,
    pub pad: u32,
    pub edges: u64,
    pub yields: u64,
    pub switches: u64,
    pub ioops: u64,
    pub futex_waits: u64,
    pub sim_ns: u64,
    pub io_bytes: u64,
    pub ileave_hash: u64,
    pub event_hash: u64,
    pub injected: [u64; NFAULT],
    pub nev: u64,
    pub ev_overflow: u64,
    pub user: [u64; 8],
    pub ev: [Ev; EVCAP],
    pub cov: [u8; COVBYTES],
}

extern "C" {
    fn sim_run(sh: *mut Shared, cfg: *const Cfg, f: extern "C" fn(*mut c_void) -> *mut c_void, arg: *mut c_void) -> !;
    fn sim_freeze();
    fn sim_is_active() -> i32;
    fn sim_progress();
    fn sim_yield();
    fn sim_point();
    fn sim_tid() -> i32;
    fn sim_yields() -> u64;
    fn sim_ioops() -> u64;
    fn sim_work(k: i32) -> u64;
    fn sim_yield_work() -> u64;
    fn sim_live_threads() -> i32;
    fn sim_open_files(names: *mut u8, cap: usize) -> i32;
    fn sim_heap(mark: i32) -> u64;
    fn sim_injected(k: i32) -> u64;
    fn sim_faults_off();
    fn sim_note(m: *const i8);
    fn sim_verdict(v: i32, m: *const i8);
    fn sim_panic_note(m: *const u8, n: usize);
    fn sim_sizeof_shared() -> usize;
    fn sim_sizeof_cfg() -> usize;
    fn sim_hold(on: i32);
    fn sim_shared_ptr() -> *mut Shared;
    fn sim_arena_on();
    fn sim_alloc(n: usize, al: usize, zero: i32) -> *mut u8;
    fn sim_free(p: *mut u8, n: usize, al: usize);
    fn sim_realloc(p: *mut u8, old: usize, al: usize, n: usize) -> *mut u8;
}

/// Allocator with addresses that depend on the run alone.
pub struct Arena;
unsafe impl std::alloc::GlobalAlloc for Arena {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        sim_alloc(l.size(), l.align(), 0)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        sim_alloc(l.size(), l.align(), 1)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        sim_free(p, l.size(), l.align())
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        sim_realloc(p, l.size(), l.align(), n)
    }
}
#[global_allocator]
static ARENA: Arena = Arena;

/// Called once in the process of a run.
pub fn arena_on() {
    unsafe { sim_arena_on() }
}

pub fn check_layout() {
    unsafe {
        assert_eq!(sim_sizeof_shared(), std::mem::size_of::<Shared>(), "layout of sim_shared");
        assert_eq!(sim_sizeof_cfg(), std::mem::size_of::<Cfg>(), "layout of sim_cfg");
    }
}

pub fn new_shared() -> *mut Shared {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<Shared>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        p as *mut Shared
    }
}

impl Shared {
    pub fn reset(&mut self) {
        unsafe {
            let base = self as *mut Shared as *mut u8;
            let ev = &self.ev as *const _ as usize - base as usize;
            std::ptr::write_bytes(base, 0, ev);
            std::ptr::write_bytes(self.cov.as_mut_ptr(), 0, COVBYTES);
        }
    }
    pub fn text(b: &[u8]) -> String {
        let n = b.iter().position(|c| *c == 0).unwrap_or(b.len());
        String::from_utf8_lossy(&b[..n]).into_owned()
    }
    pub fn last_steps(&self, k: usize) -> Vec<String> {
        let n = self.ntrace as usize;
        let from = n.saturating_sub(k.min(TRACECAP));
        (from..n).map(|i| Self::text(&self.trace[i % TRACECAP])).collect()
    }
}

extern "C" fn trampoline(p: *mut c_void) -> *mut c_void {
    let f: Box<Box<dyn FnOnce()>> = unsafe { Box::from_raw(p as *mut Box<dyn FnOnce()>) };
    f();
    std::ptr::null_mut()
}

/// Runs `f` as thread 0 of a simulation, in this process; never returns.
pub fn run(sh: *mut Shared, cfg: &Cfg, f: Box<dyn FnOnce()>) -> ! {
    let b = Box::into_raw(Box::new(f));
    unsafe { sim_run(sh, cfg, trampoline, b as *mut c_void) }
}

/// Ends the simulated part: from here on only the calling thread runs, with real I/O.
pub fn freeze() {
    unsafe { sim_freeze() }
}
pub fn active() -> bool {
    unsafe { sim_is_active() != 0 }
}
pub fn progress() {
    unsafe { sim_progress() }
}
pub fn yield_now() {
    unsafe { sim_yield() }
}
pub fn point() {
    unsafe { sim_point() }
}
pub fn tid() -> i32 {
    unsafe { sim_tid() }
}
pub fn steps() -> u64 {
    unsafe { sim_yields() }
}
pub fn ioops() -> u64 {
    unsafe { sim_ioops() }
}
/// work done so far by all threads: basic blocks entered, file operations, bytes read and written, bytes allocated
pub fn work() -> [u64; 4] {
    unsafe { [sim_work(0), sim_ioops(), sim_work(1), sim_work(2)] }
}
/// threads of the run that have not ended
pub fn yield_work() -> u64 {
    unsafe { sim_yield_work() }
}
pub fn live_threads() -> i32 {
    unsafe { sim_live_threads() }
}
/// files of the scratch folder that are open, with their names
pub fn open_files() -> (i32, String) {
    let mut b = vec![0u8; 2000];
    let n = unsafe { sim_open_files(b.as_mut_ptr(), b.len()) };
    (n, Shared::text(&b))
}
/// bytes allocated now; starts a new measurement of `heap_peak`
pub fn heap_mark() -> u64 {
    unsafe { sim_heap(1) }
}
/// the most bytes that were allocated at a time since the mark
pub fn heap_peak() -> u64 {
    unsafe { sim_heap(0) }
}
pub fn injected(k: usize) -> u64 {
    unsafe { sim_injected(k as i32) }
}
/// failing (not merely partial or interrupted) storage faults injected so far
pub fn hard_faults() -> u64 {
    [F_READ_EIO, F_READ_EIO_STICKY, F_WRITE_EIO, F_ENOSPC, F_ENOSPC_ONCE, F_OPEN_FAIL, F_META_FAIL, F_THREAD_FAIL].iter().map(|k| injected(*k)).sum()
}
pub fn faults_off() {
    unsafe { sim_faults_off() }
}
pub fn note(m: &str) {
    let c = CString::new(m.replace('\0', " ")).unwrap();
    unsafe { sim_note(c.as_ptr()) }
}
pub fn verdict(v: u32, m: &str) {
    let c = CString::new(m.replace('\0', " ")).unwrap();
    unsafe { sim_verdict(v as i32, c.as_ptr()) }
}
pub fn panic_note(m: &str) {
    unsafe {
        if !sim_shared_ptr().is_null() {
            sim_panic_note(m.as_ptr(), m.len())
        }
    }
}
/// counters of the run being judged, for the process that looks at what a crash left behind
pub static CUR: std::sync::atomic::AtomicPtr<Shared> = std::sync::atomic::AtomicPtr::new(std::ptr::null_mut());
pub fn user_get(k: usize) -> u64 {
    let p = CUR.load(std::sync::atomic::Ordering::SeqCst);
    if p.is_null() {
        0
    } else {
        unsafe { (*p).user[k] }
    }
}
pub fn user_add(k: usize, v: u64) {
    unsafe {
        let s = sim_shared_ptr();
        if !s.is_null() {
            (*s).user[k] += v
        }
    }
}

/// Runs `f` without any scheduling point: for the history kept by the harness.
pub fn atomically<R>(f: impl FnOnce() -> R) -> R {
    unsafe { sim_hold(1) };
    let r = f();
    unsafe { sim_hold(0) };
    r
}
