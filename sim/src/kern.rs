//! The kernel of the simulator: one runnable thread at a time, switched only
//! where the plan of the run says; simulated futexes, clocks, entropy and
//! environment; the allocator's arena with its faults.
//!
//! Simulated threads are OS threads that hold a baton. All state here is
//! touched by the baton holder only.
#![allow(static_mut_refs)]
use crate::rng::mix;
use crate::sys::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::arch::asm;
use std::fmt::Write;
use std::ptr::{addr_of_mut, null_mut};
use std::sync::atomic::{AtomicU32, Ordering};

pub const MAXT: usize = 32;
pub const EDGE: u8 = 1;
pub const ALLOC: u8 = 2;
pub const HOT: u8 = 4;
pub const SYNC: u8 = 8;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum State {
    Free,
    Runnable,
    /// Waits for something the library waits for: a futex or a timer.
    Blocked,
    /// Waits for the workload: a slot to be filled or a thread to end.
    Held,
    /// Stopped by the plan until nothing else can run.
    Stalled,
    Done,
}

/// What the allocator refuses.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub struct AllocFault {
    /// 0 none, 1 the n-th allocation, 2 the n-th and all later ones,
    /// 3 beyond n bytes in use.
    pub mode: u8,
    pub n: u64,
}

pub struct Ctx {
    pub id: usize,
    pub state: State,
    pub baton: AtomicU32,
    /// Not zero while the simulator's own code runs on this thread.
    pub shield: u32,
    pub op: u32,
    pub edges: u64,
    pub edge_cap: u64,
    pub allocs: u64,
    pub live: i64,
    pub peak: i64,
    pub fault: AllocFault,
    pub fired: u32,
    pub unwinding: bool,
    wait_addr: usize,
    deadline: u64,
    timed_out: bool,
    hold: Option<fn(usize) -> bool>,
    hold_arg: usize,
    pub stall_mask: u8,
    pub stall_left: u64,
    pub stalls: u32,
    entropy: u64,
    entropy_calls: usize,
    pthread: Pthread,
    start: Option<extern "C" fn(*mut u8) -> *mut u8>,
    arg: *mut u8,
    ending: u8,
    /// The thread that library code was running on when it made this one, + 1.
    by: usize,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Seg {
    pub mask: u8,
    pub count: u32,
    pub target: u8,
}

/// Counters of a run, reported to the parent.
#[derive(Clone, Copy, Default)]
#[repr(C)]
pub struct Stats {
    pub steps: u64,
    pub switches: u64,
    pub preemptions: u64,
    pub hot: u64,
    pub allocs: u64,
    pub alloc_faults: u64,
    pub entropy_reads: u64,
    pub entropy_faults: u64,
    pub clock_reads: u64,
    pub clock_jumps: u64,
    pub env_reads: u64,
    pub futex_waits: u64,
    pub futex_wakes: u64,
    pub spurious_wakes: u64,
    pub stalls: u64,
    pub sleeps: u64,
    pub spawned: u64,
    pub sink_faults: u64,
    pub recycled: u64,
    pub reentries: u64,
    pub sim_ns: u64,
    pub sched_hash: u64,
    pub event_hash: u64,
    pub pair_new: u64,
}
pub const NSTATS: usize = std::mem::size_of::<Stats>() / 8;

/// What a child process leaves behind.
#[repr(C)]
pub struct Res {
    pub done: u64,
    pub stats: Stats,
    pub len: usize,
    pub buf: [u8; RES_BUF],
}
pub const RES_BUF: usize = 4 << 20;

/// Shared by all processes: blocks and switch pairs reached so far.
#[repr(C)]
pub struct Cov {
    pub edges: [u8; 1 << 16],
    pub pairs: [u8; 1 << 20],
    pub scheds: [u8; 1 << 22],
    pub events: [u8; 1 << 22],
}

pub struct Kernel {
    pub t: [Ctx; MAXT],
    pub n: usize,
    cur: usize,
    main_baton: AtomicU32,
    pub segs: &'static [Seg],
    seg_i: usize,
    seg_left: u32,
    seg_mask: u8,
    pub quantum: u32,
    pub st: Stats,
    pub clock_base: u64,
    clock_add: u64,
    real_add: i64,
    pub clock_jumps: &'static [i64],
    pub entropy_seed: u64,
    pub entropy_faults: &'static [u8],
    pub env_seed: u64,
    pub spurious: u64,
    pub stack_of: [usize; MAXT],
    effects: u32,
    last_guard: u32,
    pub key: u32,
    pub round: u32,
    /// Nothing the workload still waits for will come.
    pub abandon: bool,
}

const CTX0: Ctx = Ctx {
    id: 0,
    state: State::Free,
    baton: AtomicU32::new(0),
    shield: 1,
    op: 0,
    edges: 0,
    edge_cap: u64::MAX,
    allocs: 0,
    live: 0,
    peak: 0,
    fault: AllocFault { mode: 0, n: 0 },
    fired: 0,
    unwinding: false,
    wait_addr: 0,
    deadline: 0,
    timed_out: false,
    hold: None,
    hold_arg: 0,
    stall_mask: 0,
    stall_left: 0,
    stalls: 0,
    entropy: 0,
    entropy_calls: 0,
    pthread: 0,
    start: None,
    arg: null_mut(),
    ending: 0,
    by: 0,
};

pub static mut K: Kernel = Kernel {
    t: [CTX0; MAXT],
    n: 0,
    cur: 0,
    main_baton: AtomicU32::new(0),
    segs: &[],
    seg_i: 0,
    seg_left: 0,
    seg_mask: 0,
    quantum: 20_000,
    st: Stats {
        steps: 0,
        switches: 0,
        preemptions: 0,
        hot: 0,
        allocs: 0,
        alloc_faults: 0,
        entropy_reads: 0,
        entropy_faults: 0,
        clock_reads: 0,
        clock_jumps: 0,
        env_reads: 0,
        futex_waits: 0,
        futex_wakes: 0,
        spurious_wakes: 0,
        stalls: 0,
        sleeps: 0,
        spawned: 0,
        sink_faults: 0,
        recycled: 0,
        reentries: 0,
        sim_ns: 0,
        sched_hash: 0,
        event_hash: 0,
        pair_new: 0,
    },
    clock_base: 1_000_000_000_000,
    clock_add: 0,
    real_add: 0,
    clock_jumps: &[],
    entropy_seed: 0,
    entropy_faults: &[],
    env_seed: 0,
    spurious: 0,
    stack_of: [0; MAXT],
    effects: 0,
    last_guard: 0,
    key: 0,
    round: 0,
    abandon: false,
};
pub static mut RES: *mut Res = null_mut();
pub static mut COV: *mut Cov = null_mut();
static mut REAL_CREATE: usize = 0;
static mut REAL_JOIN: usize = 0;
static mut NGUARDS: u32 = 0;

#[thread_local]
static mut CUR: *mut Ctx = null_mut();

#[inline]
pub fn k() -> &'static mut Kernel {
    unsafe { &mut *addr_of_mut!(K) }
}
/// The simulated thread this code runs on, if any.
#[inline]
pub fn cur() -> Option<&'static mut Ctx> {
    unsafe { CUR.as_mut() }
}
/// As `cur`, but only while library code runs.
#[inline]
fn live() -> Option<&'static mut Ctx> {
    unsafe { CUR.as_mut().filter(|c| c.shield == 0) }
}
pub fn guards() -> u32 {
    unsafe { NGUARDS }
}

pub unsafe fn init() {
    REAL_CREATE = dlsym(-1isize as *mut u8, b"pthread_create\0".as_ptr()) as usize;
    REAL_JOIN = dlsym(-1isize as *mut u8, b"pthread_join\0".as_ptr()) as usize;
    RES = map(0, std::mem::size_of::<Res>(), true).cast();
    arena_init();
    if pthread_key_create(addr_of_mut!(K.key), Some(thread_end)) != 0 || REAL_CREATE == 0 || REAL_JOIN == 0 {
        eprintln!("simulator: cannot set up threads");
        _exit(2);
    }
}

// ---------------------------------------------------------------- reporting

struct ResWriter;
impl Write for ResWriter {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        unsafe {
            let r = &mut *RES;
            let n = s.len().min(RES_BUF - r.len);
            r.buf[r.len..r.len + n].copy_from_slice(&s.as_bytes()[..n]);
            r.len += n;
        }
        Ok(())
    }
}

/// Appends a line to what the parent will read. Call shielded.
pub fn emit(args: std::fmt::Arguments) {
    let _ = ResWriter.write_fmt(args);
    let _ = ResWriter.write_str("\n");
}

/// Ends the run at once with a violation.
pub fn fatal(class: &str, msg: std::fmt::Arguments) -> ! {
    emit(format_args!("V {class} {msg}"));
    finish_run();
    unsafe { _exit(0) }
}

pub fn finish_run() {
    let kk = k();
    kk.st.sim_ns = kk.st.steps * 10 + kk.clock_add;
    unsafe {
        (*RES).stats = kk.st;
        (*RES).done = 1;
    }
}

// --------------------------------------------------------------- scheduling

#[inline]
fn fold(v: u64) {
    let s = &mut k().st;
    s.event_hash = (s.event_hash ^ v).wrapping_mul(0x100_0000_01b3).rotate_left(23);
}

#[inline]
fn step(c: &mut Ctx, kind: u8, what: u64) {
    let kk = k();
    kk.st.steps += 1;
    if c.stall_mask & kind != 0 {
        c.stall_left -= 1;
        if c.stall_left == 0 {
            c.stall_mask = 0;
            c.stalls += 1;
            kk.st.stalls += 1;
            c.state = State::Stalled;
            fold(what ^ 0x57a11);
            reschedule(c);
        }
    }
    if kk.seg_mask & kind != 0 {
        kk.seg_left -= 1;
        if kk.seg_left == 0 {
            fold(what);
            reschedule(c);
        }
    }
}

fn load_seg() -> usize {
    let kk = k();
    if kk.seg_i < kk.segs.len() {
        let s = kk.segs[kk.seg_i];
        kk.seg_i += 1;
        kk.seg_left = s.count.max(1);
        kk.seg_mask = s.mask;
        s.target as usize % kk.n
    } else {
        kk.seg_left = kk.quantum;
        kk.seg_mask = EDGE | ALLOC | HOT | SYNC;
        (kk.cur + 1) % kk.n
    }
}

fn now() -> u64 {
    let kk = k();
    kk.clock_base + kk.st.steps * 10 + kk.clock_add
}

/// Picks who runs next; returns when it is this thread's turn again, or at
/// once if this thread is done.
fn reschedule(c: &mut Ctx) {
    let kk = k();
    let me = c.id;
    let want = load_seg();
    let next = loop {
        let mut found = None;
        for i in 0..kk.n {
            let j = (want + i) % kk.n;
            let t = &mut kk.t[j];
            if t.state == State::Held && (kk.abandon || t.hold.map_or(true, |f| f(t.hold_arg))) {
                t.state = State::Runnable;
            }
            if t.state == State::Runnable {
                found = Some(j);
                break;
            }
        }
        if let Some(j) = found {
            break Some(j);
        }
        // Nobody can run: let time pass, then wake the stalled.
        let due = kk.t[..kk.n]
            .iter()
            .filter(|t| t.state == State::Blocked && t.deadline != u64::MAX)
            .map(|t| t.deadline)
            .min();
        if let Some(d) = due {
            let n = now();
            if d > n {
                kk.clock_add += d - n;
            }
            for t in &mut kk.t[..kk.n] {
                if t.state == State::Blocked && t.deadline <= now() {
                    t.state = State::Runnable;
                    t.timed_out = true;
                }
            }
            continue;
        }
        let blocked = kk.t[..kk.n].iter().filter(|t| t.state == State::Blocked).count();
        if kk.t[..kk.n].iter().any(|t| t.state == State::Stalled) {
            if blocked > 0 {
                c.shield += 1;
                emit(format_args!(
                    "V blocked {blocked} caller(s) wait for a caller that is stopped inside its call"
                ));
                c.shield -= 1;
            }
            for t in &mut kk.t[..kk.n] {
                if t.state == State::Stalled {
                    t.state = State::Runnable;
                }
            }
            continue;
        }
        if blocked > 0 {
            c.shield += 1;
            fatal("deadlock", format_args!("{blocked} caller(s) wait for each other for ever"));
        }
        if kk.t[..kk.n].iter().any(|t| t.state == State::Held) {
            // What the workload waits for will not come (an earlier call was
            // cut short): go on without.
            if kk.abandon {
                c.shield += 1;
                fatal("harness", format_args!("workload waits for itself"));
            }
            kk.abandon = true;
            continue;
        }
        break None;
    };
    let Some(next) = next else {
        kk.main_baton.store(1, Ordering::SeqCst);
        unsafe { futex_wake(kk.main_baton.as_ptr()) };
        return;
    };
    if next != me {
        kk.st.switches += 1;
        if c.state == State::Runnable {
            kk.st.preemptions += 1;
        }
        let h = &mut kk.st.sched_hash;
        *h = mix(*h ^ ((me as u64) << 40) ^ ((next as u64) << 48) ^ kk.st.steps);
        fold(((next as u64) << 8) | 1);
        unsafe {
            if !COV.is_null() {
                let p = mix(u64::from(kk.last_guard) << 16 ^ kk.t[next].wait_addr as u64 & 0xffff) as usize & ((1 << 20) - 1);
                let b = &mut (*COV).pairs[p];
                if *b == 0 {
                    *b = 1;
                    kk.st.pair_new += 1;
                }
            }
        }
        c.wait_addr = kk.last_guard as usize;
        kk.cur = next;
        let done = c.state == State::Done;
        let t = &kk.t[next];
        t.baton.store(1, Ordering::SeqCst);
        unsafe { futex_wake(t.baton.as_ptr()) };
        if !done {
            take_baton(c);
        }
    }
}

fn take_baton(c: &Ctx) {
    while c.baton.swap(0, Ordering::SeqCst) == 0 {
        unsafe { futex_wait(c.baton.as_ptr(), 0) };
    }
}

/// Blocks the calling thread until it is woken or simulated `deadline`.
fn block(c: &mut Ctx, addr: usize, deadline: u64) -> bool {
    c.state = State::Blocked;
    c.wait_addr = addr;
    c.deadline = deadline;
    c.timed_out = false;
    BLOCK_ADDR.with_slot(c.id, addr);
    reschedule(c);
    BLOCK_ADDR.with_slot(c.id, 0);
    c.timed_out
}

/// Futex addresses by thread (`wait_addr` doubles as coverage memory).
struct BlockAddrs(std::cell::UnsafeCell<[usize; MAXT]>);
unsafe impl Sync for BlockAddrs {}
impl BlockAddrs {
    fn with_slot(&self, i: usize, v: usize) {
        unsafe { (*self.0.get())[i] = v };
    }
    fn get(&self, i: usize) -> usize {
        unsafe { (*self.0.get())[i] }
    }
}
static BLOCK_ADDR: BlockAddrs = BlockAddrs(std::cell::UnsafeCell::new([0; MAXT]));

/// Holds the calling thread (workload, not library) until `f(arg)`.
pub fn hold(f: fn(usize) -> bool, arg: usize) {
    let c = cur().expect("simulated thread");
    if f(arg) {
        return;
    }
    c.hold = Some(f);
    c.hold_arg = arg;
    c.state = State::Held;
    reschedule(c);
}

pub const STACKS: usize = 0x2000_0000_0000;
pub const STACK_STRIDE: usize = 1 << 28;

extern "C" fn trampoline(p: *mut u8) -> *mut u8 {
    unsafe {
        let c = &mut *p.cast::<Ctx>();
        CUR = c;
        pthread_setspecific(K.key, p);
        take_baton(c);
        c.start.expect("start routine")(c.arg)
    }
}

unsafe extern "C" fn thread_end(p: *mut u8) {
    let c = &mut *p.cast::<Ctx>();
    if c.ending < 2 {
        // Run after all other thread-local destructors.
        c.ending += 1;
        pthread_setspecific(K.key, p);
        return;
    }
    c.shield = 1;
    c.state = State::Done;
    c.stall_mask = 0;
    fold(0xd01e);
    let me = c.id;
    CUR = null_mut();
    // Joiners poll the state through `Held`-like blocking on our address.
    for t in &mut k().t[..k().n] {
        if t.state == State::Blocked && BLOCK_ADDR.get(t.id) == JOIN + me {
            t.state = State::Runnable;
        }
    }
    reschedule(c);
}
const JOIN: usize = 1 << 60;

fn reset_ctx(id: usize) -> &'static mut Ctx {
    let c = &mut k().t[id];
    *c = CTX0;
    c.id = id;
    c.state = State::Runnable;
    c.entropy = mix(k().entropy_seed ^ mix(id as u64 + 1 + (u64::from(k().round) << 32)));
    c
}

type CreateFn = unsafe extern "C" fn(*mut Pthread, *const [u64; 8], extern "C" fn(*mut u8) -> *mut u8, *mut u8) -> i32;
type JoinFn = unsafe extern "C" fn(Pthread, *mut *mut u8) -> i32;

/// Creates simulated thread `id`, to run `start(arg)` on a stack of
/// `stack` bytes at a fixed address, from the main thread of the run.
pub unsafe fn spawn(id: usize, stack: usize, start: extern "C" fn(*mut u8) -> *mut u8, arg: *mut u8) {
    let c = reset_ctx(id);
    c.start = Some(start);
    c.arg = arg;
    let attr = stack_attr(id, stack);
    let f: CreateFn = std::mem::transmute(REAL_CREATE);
    if f(&mut c.pthread, &attr, trampoline, (c as *mut Ctx).cast()) != 0 {
        fatal("harness", format_args!("cannot create a thread"));
    }
}

unsafe fn stack_attr(id: usize, stack: usize) -> [u64; 8] {
    let size = (stack + 0xffff) & !0xffff;
    let base = STACKS + id * STACK_STRIDE;
    if k().stack_of[id] < size {
        if k().stack_of[id] != 0 {
            munmap((base - 0x1000 + 0x10000) as *mut u8, k().stack_of[id] + 0x1000);
        }
        // One more page, never accessible, below.
        map(base - 0x1000 + 0x10000, size + 0x1000, false);
        mprotect((base - 0x1000 + 0x10000) as *mut u8, 0x1000, 0);
        k().stack_of[id] = size;
    }
    let mut attr = [0u64; 8];
    pthread_attr_init(&mut attr);
    pthread_attr_setstack(&mut attr, (base + 0x10000) as *mut u8, size);
    attr
}

/// Bytes of the stack of thread `id` that were ever touched.
pub unsafe fn stack_used(id: usize) -> usize {
    let size = k().stack_of[id];
    let base = (STACKS + id * STACK_STRIDE + 0x10000) as *mut u8;
    let mut v = vec![0u8; size / 4096];
    mincore(base, size, v.as_mut_ptr());
    let first = v.iter().position(|b| b & 1 != 0).unwrap_or(v.len());
    size - first * 4096
}

/// Runs all spawned threads to their end.
pub unsafe fn run(n: usize) {
    let kk = k();
    kk.n = n;
    kk.seg_i = 0;
    kk.main_baton.store(0, Ordering::SeqCst);
    kk.cur = n - 1;
    let want = load_seg();
    let first = (0..n).map(|i| (want + i) % n).find(|&j| kk.t[j].state == State::Runnable);
    let Some(first) = first else {
        fatal("harness", format_args!("nothing to run"));
    };
    kk.cur = first;
    kk.t[first].baton.store(1, Ordering::SeqCst);
    futex_wake(kk.t[first].baton.as_ptr());
    while kk.main_baton.load(Ordering::SeqCst) == 0 {
        futex_wait(kk.main_baton.as_ptr(), 0);
    }
    let f: JoinFn = std::mem::transmute(REAL_JOIN);
    for i in 0..n {
        f(kk.t[i].pthread, null_mut());
    }
}

// --------------------------------------------------- compiler-placed callbacks

#[no_mangle]
extern "C" fn __sanitizer_cov_trace_pc_guard(g: *const u32) {
    let Some(c) = live() else { return };
    c.edges += 1;
    let g = unsafe { *g };
    k().last_guard = g;
    unsafe {
        if !COV.is_null() {
            // Shared with the other workers: written once only.
            let seen = &mut (*COV).edges[g as usize & 0xffff];
            if *seen == 0 {
                *seen = 1;
            }
        }
    }
    if c.edges > c.edge_cap {
        c.shield += 1;
        fatal("steps", format_args!("a call did not end within {} steps", c.edge_cap));
    }
    step(c, EDGE, u64::from(g));
}

#[no_mangle]
unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(a: *mut u32, b: *mut u32) {
    let mut p = a;
    while p < b {
        if *p == 0 {
            NGUARDS += 1;
            *p = NGUARDS;
        }
        p = p.add(1);
    }
}

/// Bytes moved in bulk are work as well: sixteen of them count as a block.
#[inline]
fn moved(n: usize) {
    if let Some(c) = live() {
        c.edges += n as u64 >> 4;
        if c.edges > c.edge_cap {
            c.shield += 1;
            fatal("steps", format_args!("a call did not end within {} steps", c.edge_cap));
        }
    }
}

#[no_mangle]
unsafe extern "C" fn memcpy(to: *mut u8, from: *const u8, n: usize) -> *mut u8 {
    asm!("rep movsb", inout("rcx") n => _, inout("rdi") to => _, inout("rsi") from => _, options(nostack, preserves_flags));
    moved(n);
    to
}
#[no_mangle]
unsafe extern "C" fn memmove(to: *mut u8, from: *const u8, n: usize) -> *mut u8 {
    if (to as usize).wrapping_sub(from as usize) >= n {
        return memcpy(to, from, n);
    }
    asm!("std", "rep movsb", "cld", inout("rcx") n => _, inout("rdi") to.add(n).sub(1) => _, inout("rsi") from.add(n).sub(1) => _, options(nostack));
    moved(n);
    to
}
#[no_mangle]
unsafe extern "C" fn memset(to: *mut u8, b: i32, n: usize) -> *mut u8 {
    asm!("rep stosb", inout("rcx") n => _, inout("rdi") to => _, in("al") b as u8, options(nostack, preserves_flags));
    moved(n);
    to
}

#[inline]
fn access(p: *const u8) {
    if p >= std::ptr::addr_of!(DATA_START) && p < std::ptr::addr_of!(DATA_END) {
        if let Some(c) = live() {
            k().st.hot += 1;
            step(c, HOT, 0x407);
        }
    }
}
macro_rules! accesses { ($($n:ident)*) => { $(#[no_mangle] extern "C" fn $n(p: *const u8) { access(p) })* } }
accesses!(__sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16
          __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16);

// ------------------------------------------------------------ libc, taken over

unsafe fn raw_or_errno(n: i64, a: u64, b: u64, c: u64, d: u64, e: u64, f: u64) -> i64 {
    let r = raw6(n, a, b, c, d, e, f);
    if (-4095..0).contains(&r) {
        set_errno(-r as i32);
        -1
    } else {
        r
    }
}

#[repr(C)]
pub struct Timespec {
    sec: i64,
    nsec: i64,
}
impl Timespec {
    fn ns(&self) -> u64 {
        (self.sec as u64).wrapping_mul(1_000_000_000).wrapping_add(self.nsec as u64)
    }
}

#[no_mangle]
unsafe extern "C" fn syscall(n: i64, a: u64, b: u64, c: u64, d: u64, e: u64, f: u64) -> i64 {
    if let Some(t) = live() {
        match n {
            202 => return sim_futex(t, a, b, c, d),
            318 => return getrandom(a as *mut u8, b as usize, c as u32) as i64,
            24 => return i64::from(sched_yield()),
            228 => return i64::from(clock_gettime(a as i32, b as *mut Timespec)),
            _ => {}
        }
    }
    raw_or_errno(n, a, b, c, d, e, f)
}

unsafe fn sim_futex(t: &mut Ctx, addr: u64, op: u64, val: u64, timeout: u64) -> i64 {
    let kk = k();
    match op & 0x7f {
        0 | 9 => {
            step(t, SYNC, 0xf0);
            kk.st.futex_waits += 1;
            if *(addr as *const u32) != val as u32 {
                set_errno(11);
                return -1;
            }
            if kk.spurious != 0 && mix(kk.spurious ^ kk.st.futex_waits) % 4 == 0 {
                kk.st.spurious_wakes += 1;
                set_errno(4);
                return -1;
            }
            let deadline = if timeout == 0 {
                u64::MAX
            } else {
                let ts = (*(timeout as *const Timespec)).ns();
                if op & 0x7f == 0 {
                    now().saturating_add(ts)
                } else {
                    ts
                }
            };
            if block(t, addr as usize, deadline) {
                set_errno(110);
                return -1;
            }
            0
        }
        1 | 10 => {
            kk.st.futex_wakes += 1;
            let mut woken = 0;
            // Which waiter wakes is the plan's choice.
            let first = mix(kk.spurious ^ kk.st.futex_wakes) as usize;
            for i in 0..kk.n {
                let j = (first + i) % kk.n;
                if woken < val && kk.t[j].state == State::Blocked && BLOCK_ADDR.get(j) == addr as usize {
                    kk.t[j].state = State::Runnable;
                    woken += 1;
                }
            }
            step(t, SYNC, 0xf1);
            woken as i64
        }
        _ => {
            set_errno(38);
            -1
        }
    }
}

#[no_mangle]
unsafe extern "C" fn getrandom(p: *mut u8, n: usize, flags: u32) -> isize {
    let kk = k();
    let Some(c) = cur() else {
        return raw_or_errno(318, p as u64, n as u64, u64::from(flags), 0, 0, 0) as isize;
    };
    let mut len = n;
    if c.shield == 0 {
        kk.st.entropy_reads += 1;
        let f = kk.entropy_faults.get(c.entropy_calls).copied().unwrap_or(0);
        c.entropy_calls += 1;
        match f {
            1 => {
                kk.st.entropy_faults += 1;
                set_errno(4);
                return -1;
            }
            2 if n > 1 => {
                kk.st.entropy_faults += 1;
                len = n / 2;
            }
            3 if flags & 4 != 0 => {
                kk.st.entropy_faults += 1;
                set_errno(22);
                return -1;
            }
            _ => {}
        }
    }
    for i in 0..len {
        if i % 8 == 0 {
            c.entropy = mix(c.entropy);
        }
        // Entropy seed 0: the degenerate source, all zeros.
        *p.add(i) = if kk.entropy_seed == 0 { 0 } else { (c.entropy >> (8 * (i % 8))) as u8 };
    }
    len as isize
}

#[no_mangle]
unsafe extern "C" fn clock_gettime(id: i32, ts: *mut Timespec) -> i32 {
    let kk = k();
    if live().is_none() {
        return raw_or_errno(228, id as u64, ts as u64, 0, 0, 0, 0) as i32;
    }
    let i = kk.st.clock_reads as usize;
    kk.st.clock_reads += 1;
    if let Some(&j) = kk.clock_jumps.get(i) {
        if j != 0 {
            kk.st.clock_jumps += 1;
        }
        // Only the real-time clock may go back.
        kk.real_add = kk.real_add.wrapping_add(j);
        if j > 0 {
            kk.clock_add += j as u64;
        }
    }
    let mut t = now();
    if id == 0 {
        t = (t as i64).wrapping_add(1_600_000_000_000_000_000).wrapping_add(kk.real_add) as u64;
    }
    (*ts).sec = (t / 1_000_000_000) as i64;
    (*ts).nsec = (t % 1_000_000_000) as i64;
    0
}

#[no_mangle]
unsafe extern "C" fn sched_yield() -> i32 {
    if let Some(c) = live() {
        fold(0x71e1d);
        reschedule(c);
        return 0;
    }
    raw6(24, 0, 0, 0, 0, 0, 0) as i32
}

unsafe fn sleep_until(c: &mut Ctx, t: u64) -> i32 {
    k().st.sleeps += 1;
    block(c, 0, t);
    0
}

#[no_mangle]
unsafe extern "C" fn nanosleep(req: *const Timespec, rem: *mut Timespec) -> i32 {
    if let Some(c) = live() {
        let t = now().saturating_add((*req).ns());
        return sleep_until(c, t);
    }
    raw_or_errno(35, req as u64, rem as u64, 0, 0, 0, 0) as i32
}

#[no_mangle]
unsafe extern "C" fn clock_nanosleep(id: i32, flags: i32, req: *const Timespec, rem: *mut Timespec) -> i32 {
    if let Some(c) = live() {
        let t = if flags & 1 != 0 { (*req).ns() } else { now().saturating_add((*req).ns()) };
        return sleep_until(c, t);
    }
    -(raw6(230, id as u64, flags as u64, req as u64, rem as u64, 0, 0) as i32)
}

extern "C" {
    static environ: *const *const u8;
}
#[no_mangle]
unsafe extern "C" fn getenv(name: *const u8) -> *const u8 {
    const VALUES: [&[u8]; 6] = [b"1\0", b"0\0", b"\0", b"true\0", b"debug\0", b"4096\0"];
    let mut len = 0;
    let mut h = 0u64;
    while *name.add(len) != 0 {
        h = mix(h ^ u64::from(*name.add(len)));
        len += 1;
    }
    if live().is_some() {
        k().st.env_reads += 1;
        let s = k().env_seed;
        if s == 0 {
            return std::ptr::null();
        }
        let v = mix(s ^ h) as usize % (VALUES.len() + 1);
        return VALUES.get(v).map_or(std::ptr::null(), |v| v.as_ptr());
    }
    let mut e = environ;
    while !e.is_null() && !(*e).is_null() {
        let s = *e;
        if (0..len).all(|i| *s.add(i) == *name.add(i)) && *s.add(len) == b'=' {
            return s.add(len + 1);
        }
        e = e.add(1);
    }
    std::ptr::null()
}

// The rest of what a process is told by its system. A library may ask; what it
// is told is the plan's choice (`env`), and no file is ever touched.

fn told(c: &Ctx, what: u64, bytes: *const u8) -> u64 {
    let _ = c;
    k().st.env_reads += 1;
    if k().env_seed == 0 {
        return 0;
    }
    let mut h = k().env_seed ^ what;
    if !bytes.is_null() {
        let mut p = bytes;
        unsafe {
            while *p != 0 {
                h = mix(h ^ u64::from(*p));
                p = p.add(1);
            }
        }
    }
    mix(h) | 1
}

#[no_mangle]
unsafe extern "C" fn getpid() -> i32 {
    match live() {
        Some(c) => 4242 + (told(c, 1, null_mut()) % 30_000) as i32,
        None => raw6(39, 0, 0, 0, 0, 0, 0) as i32,
    }
}

#[no_mangle]
unsafe extern "C" fn sched_getaffinity(pid: i32, n: usize, set: *mut u8) -> i32 {
    let Some(c) = live() else {
        let r = raw_or_errno(204, pid as u64, n as u64, set as u64, 0, 0, 0);
        if r < 0 {
            return -1;
        }
        for i in r as usize..n {
            *set.add(i) = 0;
        }
        return 0;
    };
    let v = told(c, 2, null_mut());
    let cpus = if v == 0 { 8 } else { [1, 2, 3, 64, 128][v as usize / 2 % 5] };
    for i in 0..n {
        *set.add(i) = if i < cpus / 8 { 0xff } else if i == cpus / 8 { (1u16 << (cpus % 8)) as u8 - 1 } else { 0 };
    }
    0
}

#[no_mangle]
unsafe extern "C" fn getcwd(buf: *mut u8, n: usize) -> *mut u8 {
    let Some(c) = live() else {
        return if raw_or_errno(79, buf as u64, n as u64, 0, 0, 0, 0) < 0 { null_mut() } else { buf };
    };
    let v = told(c, 3, null_mut());
    let s: &[u8] = if v == 0 { b"/\0" } else { [&b"/tmp\0"[..], b"/home/user/project\0"][v as usize / 2 % 2] };
    if buf.is_null() || n < s.len() {
        set_errno(34);
        return null_mut();
    }
    std::ptr::copy_nonoverlapping(s.as_ptr(), buf, s.len());
    buf
}

/// A file in memory with something in it.
unsafe fn told_file(v: u64) -> i32 {
    const TEXT: [&[u8]; 5] = [b"1\n", b"0\n", b"", b"limit = 10\nmode = block\n", b"\xff\xfe\0garbage"];
    let fd = raw_or_errno(319, b"sim\0".as_ptr() as u64, 1, 0, 0, 0, 0);
    if fd >= 0 && v != 0 {
        let t = TEXT[v as usize / 16 % 5];
        raw6(1, fd as u64, t.as_ptr() as u64, t.len() as u64, 0, 0, 0);
        raw6(8, fd as u64, 0, 0, 0, 0, 0);
    }
    fd as i32
}

#[no_mangle]
unsafe extern "C" fn openat64(dir: i32, path: *const u8, flags: i32, mode: u32) -> i32 {
    let Some(c) = live() else {
        return raw_or_errno(257, dir as u64, path as u64, flags as u64, u64::from(mode), 0, 0) as i32;
    };
    if flags & 0o1103 != 0 {
        effect("opened a file for writing", &[]);
    }
    let v = told(c, 4, path);
    let create = flags & 0o100 != 0;
    if v / 2 % 3 == 0 && create || v != 0 && v / 2 % 3 == 1 {
        return told_file(if create { 0 } else { v });
    }
    set_errno(if v != 0 && v / 2 % 3 == 2 { [13, 28, 24, 5][v as usize / 16 % 4] } else { 2 });
    -1
}
#[no_mangle]
unsafe extern "C" fn open64(path: *const u8, flags: i32, mode: u32) -> i32 {
    openat64(-100, path, flags, mode)
}

#[no_mangle]
unsafe extern "C" fn statx(dir: i32, path: *const u8, flags: i32, mask: u32, out: *mut u8) -> i32 {
    if let Some(c) = live() {
        if *path != 0 {
            let v = told(c, 4, path);
            if v == 0 || v / 2 % 3 != 1 {
                set_errno(2);
                return -1;
            }
            std::ptr::write_bytes(out, 0, 256);
            *out.cast::<u32>() = 0x7ff;
            *out.add(28).cast::<u16>() = 0o100_644;
            return 0;
        }
    }
    raw_or_errno(332, dir as u64, path as u64, flags as u64, u64::from(mask), out as u64, 0) as i32
}

#[no_mangle]
unsafe extern "C" fn isatty(fd: i32) -> i32 {
    if let Some(c) = live() {
        return i32::from(told(c, 5 + fd as u64, null_mut()) / 2 % 2 == 1);
    }
    let mut termios = [0u8; 64];
    i32::from(raw_or_errno(16, fd as u64, 0x5401, termios.as_mut_ptr() as u64, 0, 0, 0) == 0)
}

#[no_mangle]
unsafe extern "C" fn readlink(path: *const u8, buf: *mut u8, n: usize) -> isize {
    let Some(c) = live() else {
        return raw_or_errno(89, path as u64, buf as u64, n as u64, 0, 0, 0) as isize;
    };
    let v = told(c, 9, path);
    if v / 2 % 3 == 0 {
        set_errno(2);
        return -1;
    }
    let s: &[u8] = [&b"/usr/bin/program"[..], b"/opt/scanner/bin/scand"][v as usize / 16 % 2];
    let n = n.min(s.len());
    std::ptr::copy_nonoverlapping(s.as_ptr(), buf, n);
    n as isize
}

/// The arguments the process was started with.
static mut ARGS: (i32, *const *mut u8) = (0, std::ptr::null());
#[used]
#[link_section = ".init_array.00098"]
static TAKE_ARGS: unsafe extern "C" fn(i32, *const *mut u8) = take_args;
unsafe extern "C" fn take_args(n: i32, args: *const *mut u8) {
    ARGS = (n, args);
}
/// Has the process of a run see other arguments, no longer than its own.
pub unsafe fn set_args() {
    const WORDS: [&[u8]; 5] = [b"-v", b"x", b"", b"test", b"-debug"];
    for i in 0..ARGS.0 as usize {
        let a = *ARGS.1.add(i);
        let mut len = 0;
        while *a.add(len) != 0 {
            len += 1;
        }
        let w = WORDS[mix(k().env_seed ^ (i as u64 + 77)) as usize % WORDS.len()];
        let n = w.len().min(len);
        std::ptr::copy_nonoverlapping(w.as_ptr(), a, n);
        *a.add(n) = 0;
    }
}

// What a library call has no business doing. It is noted, and not done.

fn effect(what: &str, detail: &[u8]) {
    let Some(c) = cur() else { return };
    let kk = k();
    kk.effects += 1;
    if kk.effects > 3 {
        return;
    }
    c.shield += 1;
    if detail.is_empty() {
        emit(format_args!("V effect a call {what}"));
    } else {
        let d = String::from_utf8_lossy(&detail[..detail.len().min(200)]).into_owned();
        emit(format_args!("V effect a call {what}: {d:?}"));
    }
    c.shield -= 1;
}

#[no_mangle]
unsafe extern "C" fn write(fd: i32, p: *const u8, n: usize) -> isize {
    if live().is_some() && (1..=2).contains(&fd) {
        effect(["wrote to standard output", "wrote to standard error"][fd as usize - 1], std::slice::from_raw_parts(p, n));
        return n as isize;
    }
    raw_or_errno(1, fd as u64, p as u64, n as u64, 0, 0, 0) as isize
}
#[no_mangle]
unsafe extern "C" fn writev(fd: i32, v: *const [usize; 2], n: i32) -> isize {
    if live().is_some() && (1..=2).contains(&fd) {
        let mut sum = 0;
        for i in 0..n.max(0) as usize {
            let [p, n] = *v.add(i);
            if n > 0 {
                write(fd, p as *const u8, n);
            }
            sum += n as isize;
        }
        return sum;
    }
    raw_or_errno(20, fd as u64, v as u64, n as u64, 0, 0, 0) as isize
}
#[no_mangle]
unsafe extern "C" fn read(fd: i32, p: *mut u8, n: usize) -> isize {
    if live().is_some() && fd == 0 {
        effect("read from standard input", &[]);
        return 0;
    }
    raw_or_errno(0, fd as u64, p as u64, n as u64, 0, 0, 0) as isize
}
#[no_mangle]
unsafe extern "C" fn exit(code: i32) -> ! {
    if let Some(c) = live() {
        c.shield += 1;
        fatal("effect", format_args!("a call ended the process"));
    }
    let f: unsafe extern "C" fn(i32) -> ! = std::mem::transmute(dlsym(-1isize as *mut u8, b"exit\0".as_ptr()));
    f(code)
}

/// Called when library code returns to the program on the calling thread.
pub fn back() {
    let me = cur().expect("simulated thread").id;
    let kk = k();
    for i in 0..kk.n {
        if kk.t[i].by == me + 1 && kk.t[i].state != State::Done {
            kk.t[i].by = 0;
            effect("returned while a thread it started was running", &[]);
        }
    }
}

macro_rules! effects {
    ($($name:ident($($a:ident),*) $what:literal;)*) => {
        $(#[no_mangle]
        unsafe extern "C" fn $name($($a: usize),*) -> usize {
            if live().is_some() {
                effect($what, &[]);
                return 0;
            }
            let f: unsafe extern "C" fn($(effects!(@ $a)),*) -> usize =
                std::mem::transmute(dlsym(-1isize as *mut u8, concat!(stringify!($name), "\0").as_ptr()));
            f($($a),*)
        })*
    };
    (@ $a:ident) => { usize };
}
effects! {
    setenv(a, b, c) "set an environment variable";
    unsetenv(a) "removed an environment variable";
    putenv(a) "set an environment variable";
    chdir(a) "changed the working directory";
    fchdir(a) "changed the working directory";
    umask(a) "changed the umask";
    sigaction(a, b, c) "changed how a signal is handled";
    unlink(a) "removed a file";
    rmdir(a) "removed a directory";
    mkdir(a, b) "made a directory";
    rename(a, b) "renamed a file";
    execve(a, b, c) "started another program";
    socket(a, b, c) "opened a socket";
    setpriority(a, b, c) "changed the priority of the process";
    nice(a) "changed the priority of the process";
    signal(a, b) "changed how a signal is handled";
    sigprocmask(a, b, c) "changed the signal mask";
    pthread_sigmask(a, b, c) "changed the signal mask";
    setrlimit64(a, b) "changed a resource limit";
    setlocale(a, b) "changed the locale";
    alarm(a) "set a timer";
    setitimer(a, b, c) "set a timer";
    kill(a, b) "sent a signal";
    fork() "started a process";
    posix_spawn(a, b, c, d, e, g) "started another program";
    posix_spawnp(a, b, c, d, e, g) "started another program";
    truncate64(a, b) "changed a file";
    ftruncate64(a, b) "changed a file";
    chmod(a, b) "changed a file";
    symlink(a, b) "made a link";
    link(a, b) "made a link";
    linkat(a, b, c, d, e) "made a link";
    unlinkat(a, b, c) "removed a file";
    mkdirat(a, b, c) "made a directory";
    bind(a, b, c) "opened a socket";
    dup2(a, b) "replaced a file descriptor";
}

#[no_mangle]
unsafe extern "C" fn pthread_create(
    out: *mut Pthread,
    attr: *const [u64; 8],
    start: extern "C" fn(*mut u8) -> *mut u8,
    arg: *mut u8,
) -> i32 {
    let f: CreateFn = std::mem::transmute(if REAL_CREATE == 0 {
        dlsym(-1isize as *mut u8, b"pthread_create\0".as_ptr()) as usize
    } else {
        REAL_CREATE
    });
    let Some(c) = live() else {
        return f(out, attr, start, arg);
    };
    c.shield += 1;
    let kk = k();
    kk.st.spawned += 1;
    if kk.n >= MAXT {
        fatal("harness", format_args!("too many threads"));
    }
    let id = kk.n;
    let t = reset_ctx(id);
    t.start = Some(start);
    t.arg = arg;
    t.shield = 0;
    t.op = c.op;
    t.by = c.id + 1;
    // On a stack at a fixed address, of the size asked for.
    let mut size = 8usize << 20;
    if !attr.is_null() {
        pthread_attr_getstacksize(attr, &mut size);
    }
    let mine = stack_attr(id, size.clamp(0x10000, STACK_STRIDE / 2));
    let r = f(&mut t.pthread, &mine, trampoline, (t as *mut Ctx).cast());
    if r == 0 {
        *out = t.pthread;
        kk.n += 1;
    } else {
        t.state = State::Free;
    }
    c.shield -= 1;
    r
}

/// The threads' stacks have guard pages, though not of the system's making.
#[no_mangle]
unsafe extern "C" fn pthread_getattr_np(t: Pthread, attr: *mut [u64; 8]) -> i32 {
    let f: unsafe extern "C" fn(Pthread, *mut [u64; 8]) -> i32 =
        std::mem::transmute(dlsym(-1isize as *mut u8, b"pthread_getattr_np\0".as_ptr()));
    let r = f(t, attr);
    if r == 0 && cur().is_some() {
        pthread_attr_setguardsize(attr, 4096);
    }
    r
}

#[no_mangle]
unsafe extern "C" fn pthread_join(t: Pthread, ret: *mut *mut u8) -> i32 {
    let f: JoinFn = std::mem::transmute(if REAL_JOIN == 0 {
        dlsym(-1isize as *mut u8, b"pthread_join\0".as_ptr()) as usize
    } else {
        REAL_JOIN
    });
    if let Some(c) = live() {
        let kk = k();
        if let Some(j) = (0..kk.n).find(|&j| kk.t[j].pthread == t) {
            while kk.t[j].state != State::Done {
                block(c, JOIN + j, u64::MAX);
            }
        }
    }
    f(t, ret)
}

// ------------------------------------------------------------------ allocator

/// Arena of the blocks allocated by library code in a run: at fixed addresses,
/// with guard bytes, and with a seeded policy for recycling.
pub struct Arena {
    pub base: usize,
    pub top: usize,
    pub mode: u8,
    pub seed: u64,
    free: [*mut Head; 48],
    pub live_blocks: i64,
    pub live_bytes: i64,
    pub errors: u32,
    all: *mut *mut Head,
    pub nall: usize,
    limit: usize,
}
const ARENA: usize = 0x1000_0000_0000;
const ARENA_SIZE: usize = 2 << 30;
const ALL: usize = 0x3000_0000_0000;

#[repr(C)]
pub struct Head {
    magic: u64,
    pub size: u64,
    class: u32,
    align: u32,
    pub thread: u16,
    state: u16,
    pub op: u32,
    next: *mut Head,
    serial: u64,
    pub round: u32,
    pad: u32,
    magic2: u64,
}
const HEAD: usize = std::mem::size_of::<Head>();
const MAGIC: u64 = 0x51b1_0c6e_a110_c8ed;
const TAIL: usize = 16;
const LIVE: u16 = 0x11fe;
const DEAD: u16 = 0xdead;

pub static mut A: Arena = Arena {
    base: 0,
    top: 0,
    mode: 0,
    seed: 0,
    free: [null_mut(); 48],
    live_blocks: 0,
    live_bytes: 0,
    errors: 0,
    all: null_mut(),
    nall: 0,
    limit: 0,
};

unsafe fn arena_init() {
    A.base = map(ARENA, ARENA_SIZE, false) as usize;
    A.top = A.base + 64;
    A.limit = A.base + (256 << 20);
    A.all = map(ALL, 1 << 30, false).cast();
}

fn mem_error(c: &mut Option<&'static mut Ctx>, msg: std::fmt::Arguments) {
    unsafe {
        A.errors += 1;
        if A.errors <= 3 {
            if let Some(c) = c {
                c.shield += 1;
            }
            emit(format_args!("V memory {msg}"));
            if let Some(c) = c {
                c.shield -= 1;
            }
        }
    }
}

unsafe fn tail_ok(h: *mut Head) -> bool {
    let t = (h as usize + HEAD + (*h).size as usize) as *const u8;
    (0..TAIL).all(|i| *t.add(i) == 0xc5)
}

const FILL_MAX: usize = 1 << 14;

unsafe fn dead_ok(h: *mut Head) -> bool {
    let d = (h as usize + HEAD) as *const u8;
    let n = ((*h).size as usize).min(FILL_MAX);
    std::slice::from_raw_parts(d, n).iter().all(|&b| b == 0xdd)
}

/// What memory holds when it is handed out: zeros in a canonical run.
unsafe fn fill(d: *mut u8, n: usize, serial: u64) {
    let s = A.seed >> 8;
    let b = match if A.seed == 0 { 0 } else { s % 5 } {
        0 => 0,
        1 => 0xff,
        2 => (s >> 8) as u8,
        3 => 1 << (s >> 8 & 7),
        _ => {
            // All bytes different.
            let mut x = mix(s ^ serial);
            for i in 0..n.min(FILL_MAX) {
                x = x.wrapping_mul(0x5851_f42d_4c95_7f2d).wrapping_add(1);
                *d.add(i) = (x >> 56) as u8;
            }
            return;
        }
    };
    std::ptr::write_bytes(d, b, n.min(FILL_MAX));
}

unsafe fn arena_alloc(c: &mut Ctx, l: Layout) -> *mut u8 {
    let size = l.size().max(1);
    let align = l.align().max(16);
    let class = (usize::BITS - (size - 1).leading_zeros()).max(5);
    let cap = 1usize << class;
    let kk = k();
    kk.st.allocs += 1;
    let recycle = match A.mode {
        1 => true,
        2 if A.top + cap + (1 << 20) <= A.limit => mix(A.seed ^ kk.st.allocs) & 1 == 0,
        _ => A.top + cap + (1 << 20) > A.limit,
    };
    let mut h: *mut Head = null_mut();
    if recycle && align == 16 && !A.free[class as usize].is_null() {
        h = A.free[class as usize];
        A.free[class as usize] = (*h).next;
        kk.st.recycled += 1;
        if !dead_ok(h) {
            mem_error(&mut Some(&mut *(c as *mut Ctx)), format_args!("a block was written after it was freed"));
        }
    } else {
        let gap = if A.mode == 0 { 0 } else { (mix(A.seed ^ A.top as u64) & 0x1f) as usize * 16 };
        let d = (A.top + gap + HEAD + align - 1) & !(align - 1);
        let end = d + cap + TAIL;
        if end > A.base + ARENA_SIZE {
            c.shield += 1;
            fatal("memlimit", format_args!("the calls of a run took more than 2 GiB"));
        }
        A.top = (end + 15) & !15;
        h = if h.is_null() { (d - HEAD) as *mut Head } else { h };
        (*h).class = class;
        (*h).next = null_mut();
        *A.all.add(A.nall) = h;
        A.nall += 1;
    }
    (*h).magic = MAGIC;
    (*h).magic2 = !MAGIC;
    (*h).size = l.size() as u64;
    (*h).align = l.align() as u32;
    (*h).state = LIVE;
    (*h).thread = c.id as u16;
    (*h).op = c.op;
    (*h).round = kk.round;
    (*h).serial = c.allocs;
    let d = (h as usize + HEAD) as *mut u8;
    fill(d, l.size(), (*h).serial);
    std::ptr::write_bytes(d.add(l.size()), 0xc5, TAIL);
    A.live_blocks += 1;
    A.live_bytes += l.size() as i64;
    c.live += l.size() as i64;
    c.peak = c.peak.max(c.live);
    d
}

unsafe fn arena_free(p: *mut u8, l: Layout) {
    let mut c = cur();
    let h = (p as usize - HEAD) as *mut Head;
    if (*h).magic != MAGIC || (*h).magic2 != !MAGIC {
        return mem_error(&mut c, format_args!("free of a bad pointer, or bytes before a block were overwritten"));
    }
    if (*h).state != LIVE {
        return mem_error(&mut c, format_args!("a block of {} bytes was freed twice", (*h).size));
    }
    if (*h).size != l.size() as u64 || (*h).align != l.align() as u32 {
        return mem_error(&mut c, format_args!("a block of {} bytes was freed as {}", (*h).size, l.size()));
    }
    if !tail_ok(h) {
        mem_error(&mut c, format_args!("bytes after a block of {} bytes were overwritten", (*h).size));
    }
    (*h).state = DEAD;
    A.live_blocks -= 1;
    A.live_bytes -= (*h).size as i64;
    let o = &mut k().t[(*h).thread as usize];
    if o.op == (*h).op && (*h).round == k().round {
        o.live -= (*h).size as i64;
    }
    std::ptr::write_bytes(p, 0xdd, l.size().min(FILL_MAX));
    let class = (*h).class as usize;
    if (*h).align <= 16 {
        (*h).next = A.free[class];
        A.free[class] = h;
    }
}

/// Checks every block; call shielded or from the main thread.
pub unsafe fn arena_check() {
    let mut c = cur();
    for i in 0..A.nall {
        let h = *A.all.add(i);
        if (*h).magic != MAGIC || (*h).magic2 != !MAGIC {
            mem_error(&mut c, format_args!("bytes before a block were overwritten"));
        } else if (*h).state == LIVE {
            if !tail_ok(h) {
                mem_error(&mut c, format_args!("bytes after a block of {} bytes were overwritten", (*h).size));
            }
        } else if !dead_ok(h) {
            mem_error(&mut c, format_args!("a block was written after it was freed"));
        }
    }
}

pub struct SimAlloc;
#[global_allocator]
static ALLOCATOR: SimAlloc = SimAlloc;

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let Some(c) = live() else {
            return System.alloc(l);
        };
        step(c, ALLOC, l.size() as u64);
        let n = c.allocs;
        c.allocs += 1;
        if !c.unwinding {
            let f = c.fault;
            let hit = match f.mode {
                1 => n == f.n,
                2 => n >= f.n,
                3 => c.live + l.size() as i64 > f.n as i64,
                _ => false,
            };
            if hit {
                c.fired += 1;
                k().st.alloc_faults += 1;
                fold(0xfa11);
                return null_mut();
            }
        }
        arena_alloc(c, l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if (ARENA..ARENA + ARENA_SIZE).contains(&(p as usize)) {
            if let Some(c) = live() {
                step(c, ALLOC, 0xf5ee);
            }
            arena_free(p, l);
        } else {
            System.dealloc(p, l);
        }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if live().is_none() {
            return System.alloc_zeroed(l);
        }
        let p = self.alloc(l);
        if !p.is_null() {
            std::ptr::write_bytes(p, 0, l.size());
        }
        p
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if live().is_none() && !(ARENA..ARENA + ARENA_SIZE).contains(&(p as usize)) {
            return System.realloc(p, l, new);
        }
        let nl = Layout::from_size_align_unchecked(new, l.align());
        let q = self.alloc(nl);
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(new));
            self.dealloc(p, l);
        }
        q
    }
}

/// Unwinds from an allocation failure (installed as the allocation error hook).
pub struct SimOom;
pub fn on_alloc_error(_: Layout) {
    if let Some(c) = cur() {
        if c.shield == 0 {
            c.unwinding = true;
            std::panic::resume_unwind(Box::new(SimOom));
        }
    }
}
