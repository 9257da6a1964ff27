//! What runs inside the process of one run: the plan's threads, calling the
//! real library.
#![allow(static_mut_refs)]
use crate::canon;
use crate::content::Built;
use crate::kern::{self, cur, emit, fatal, k, AllocFault, State};
use crate::plan::{Call, Op, Plan, Sink};
use crate::sys::{_exit, signal};
use crate::rng::mix;
use crate::sys::map;
use rescan::{CompileError, Database, Flags, Mode, SomHorizon};
use std::fmt::{self, Write};
use std::mem::ManuallyDrop;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

const NSLOTS: usize = 64;
type Outcome = Result<Database, CompileError>;

/// At a fixed place, so that runs do not depend on the heap they start with.
struct Slot {
    val: Option<ManuallyDrop<Outcome>>,
    state: u8, // 0 empty, 1 filled, 2 will never be filled, 3 dropped
    refs: u32,
    doomed: bool,
    hash: u64,
    /// The error text when the call returned.
    text: Option<String>,
}
const EMPTY: Slot = Slot { val: None, state: 0, refs: 0, doomed: false, hash: 0, text: None };
static mut SLOTS: [Slot; NSLOTS] = [EMPTY; NSLOTS];
static mut PLAN: *const Plan = std::ptr::null();
static mut OBS: [u64; kern::MAXT] = [0; kern::MAXT];
static mut MESSAGE: [Option<String>; kern::MAXT] = [const { None }; kern::MAXT];
/// The step bound of a call, as a function of its weight.
pub static mut STEP_CAP: fn(u64) -> u64 = |_| 400_000_000;

/// Report the mode of databases and the text of dumps.
pub static mut SAY: bool = false;
/// Report what calls build.
pub static mut SAY_BUILT: bool = false;
static mut BUILT: [Option<Built>; kern::MAXT] = [const { None }; kern::MAXT];

fn plan() -> &'static Plan {
    unsafe { &*PLAN }
}

// ------------------------------------------------------------- observing

#[no_mangle]
pub fn rescan_sim_observe(what: &str, value: &dyn fmt::Debug) {
    let Some(c) = cur() else { return };
    c.shield += 1;
    if unsafe { SAY_BUILT } {
        unsafe { BUILT[c.id].get_or_insert_with(Built::new).see(what, value) };
    }
    if plan().observe {
        let h = what.bytes().fold(7, |h, b| mix(h ^ u64::from(b)));
        let v = canon::hash(value);
        unsafe { OBS[c.id] = mix(OBS[c.id] ^ h ^ v) };
    }
    c.shield -= 1;
}

pub fn panic_hook(info: &std::panic::PanicHookInfo) {
    let Some(c) = cur() else {
        eprintln!("simulator: {info}");
        return;
    };
    c.shield += 1;
    if std::env::var_os("SIM_STDERR").is_some() { eprintln!("{info}"); }
    let p = info.payload();
    let m = p.downcast_ref::<&str>().map(|s| (*s).to_string()).or_else(|| p.downcast_ref::<String>().cloned());
    let l = info.location().map_or(String::new(), |l| format!(" at {}:{}", l.file(), l.line()));
    unsafe { MESSAGE[c.id] = Some(m.unwrap_or_default() + &l) };
    c.shield -= 1;
}

/// Runs library code on the calling simulated thread.
pub fn lib<R>(f: impl FnOnce() -> R) -> Result<R, Box<dyn std::any::Any + Send>> {
    let c = cur().expect("simulated thread");
    debug_assert!(c.shield == 1);
    c.shield = 0;
    let r = catch_unwind(AssertUnwindSafe(f));
    c.shield = 1;
    c.unwinding = false;
    kern::back();
    r
}

struct Marker;

pub enum Caught {
    Oom,
    Sink,
    Panic(String),
}
pub fn caught(e: Box<dyn std::any::Any + Send>) -> Caught {
    let id = cur().expect("simulated thread").id;
    if e.is::<kern::SimOom>() {
        Caught::Oom
    } else if e.is::<Marker>() {
        Caught::Sink
    } else {
        Caught::Panic(unsafe { MESSAGE[id].take() }.unwrap_or_else(|| "payload without message".into()))
    }
}

// ------------------------------------------------------------- arguments

const ARGS: usize = 0x3800_0000_0000;
const ARGS_STRIDE: usize = 1 << 30;
static mut ARGS_MAPPED: [bool; kern::MAXT] = [false; kern::MAXT];
static mut ARGS_TOP: [usize; kern::MAXT] = [0; kern::MAXT];

struct Args {
    exprs: &'static [&'static str],
    flags: &'static [Flags],
    ids: &'static [u32],
    from: usize,
    to: usize,
}

unsafe fn place<T: Copy>(id: usize, v: &[T]) -> &'static mut [T] {
    let a = std::mem::align_of::<T>();
    let base = ARGS + id * ARGS_STRIDE;
    let at = (base + ARGS_TOP[id] + a - 1) & !(a - 1);
    ARGS_TOP[id] = at - base + std::mem::size_of_val(v);
    if ARGS_TOP[id] > ARGS_STRIDE {
        fatal("harness", format_args!("too many arguments"));
    }
    let p = at as *mut T;
    std::ptr::copy_nonoverlapping(v.as_ptr(), p, v.len());
    std::slice::from_raw_parts_mut(p, v.len())
}

unsafe fn make_args(call: &Call, suffix: Option<u32>) -> Args {
    let id = cur().expect("simulated thread").id;
    if !ARGS_MAPPED[id] {
        map(ARGS + id * ARGS_STRIDE, ARGS_STRIDE, false);
        ARGS_MAPPED[id] = true;
    }
    let mode = plan().args;
    // Long soaks come round to the same memory.
    if mode == 1 || ARGS_TOP[id] > ARGS_STRIDE / 2 {
        ARGS_TOP[id] = 0;
    }
    let from = ARGS_TOP[id];
    let mut exprs: Vec<&'static str> = Vec::with_capacity(call.exprs.len());
    for (i, e) in call.exprs.iter().enumerate() {
        if mode == 2 && suffix.is_none() {
            if let Some(j) = call.exprs[..i.min(64)].iter().position(|f| f == e) {
                exprs.push(exprs[j]);
                continue;
            }
        }
        let b: &[u8] = if let Some(n) = suffix {
            let s = format!("{e}{n:06}");
            place(id, s.as_bytes())
        } else {
            place(id, e.as_bytes())
        };
        exprs.push(std::str::from_utf8_unchecked(b));
    }
    let flags: Vec<Flags> = call.flags.iter().map(|&f| flags_of(f)).collect();
    let ids: Vec<u32> = call.ids.iter().map(|&i| suffix.map_or(i, |n| i.wrapping_add(n.wrapping_mul(101)))).collect();
    Args {
        exprs: place(id, &exprs),
        flags: place(id, &flags),
        ids: place(id, &ids),
        from,
        to: ARGS_TOP[id],
    }
}

unsafe fn forget_args(a: &Args) {
    let id = cur().expect("simulated thread").id;
    if plan().args != 2 {
        std::ptr::write_bytes((ARGS + id * ARGS_STRIDE + a.from) as *mut u8, b'Z', a.to - a.from);
    }
}

fn mode_of(m: u8) -> Mode {
    match m {
        0 => Mode::Block,
        1 => Mode::Stream(None),
        2 => Mode::Stream(Some(SomHorizon::Large)),
        3 => Mode::Stream(Some(SomHorizon::Medium)),
        4 => Mode::Stream(Some(SomHorizon::Small)),
        _ => Mode::Vectored,
    }
}

/// The flags as a program names them.
fn flags_of(bits: u16) -> Flags {
    const NAMED: [Flags; 11] = [
        Flags::CASELESS,
        Flags::DOTALL,
        Flags::MULTILINE,
        Flags::SINGLEMATCH,
        Flags::ALLOWEMPTY,
        Flags::UTF8,
        Flags::UCP,
        Flags::PREFILTER,
        Flags::SOM_LEFTMOST,
        Flags::COMBINATION,
        Flags::QUIET,
    ];
    let mut f = Flags::empty();
    for (i, n) in NAMED.into_iter().enumerate() {
        if bits >> i & 1 == 1 {
            f |= n;
        }
    }
    f
}

fn do_compile(call: &Call, a: &Args) -> Outcome {
    let mode = mode_of(call.mode);
    #[cfg(rescan_sim_inner)]
    if let Some(t) = call.tune {
        let n = |i: usize| t[i] as usize;
        let limits = rescan::sim::limits::Limits {
            literals: t[0] != 0,
            shortcut: t[1] != 0,
            small_write: t[2] != 0,
            small_write_length: n(3),
            small_write_patterns: n(4),
            small_write_literals: n(5),
            patterns: n(6),
            length: n(7),
            reports: n(8),
        };
        return rescan::sim::limits::compile(a.exprs, a.flags, a.ids, &mode, &limits);
    }
    if call.single {
        rescan::compile(a.exprs[0], a.flags[0], &mode)
    } else {
        rescan::compile_multi(a.exprs, a.flags, a.ids, &mode)
    }
}

// --------------------------------------------------------------- results

pub fn escape_line(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n")
}

#[cfg(rescan_sim)]
fn db_hash(db: &Database) -> u64 {
    crate::rng::mix(canon::hash(db) ^ crate::rng::mix(canon::hash(rescan::sim::engine(db))))
}
#[cfg(not(rescan_sim))]
fn db_hash(_: &Database) -> u64 {
    0
}

/// The mode an engine shows, if it shows just one.
#[cfg(rescan_sim)]
fn mode_word(db: &Database) -> String {
    let t = format!("{:?}", rescan::sim::engine(db));
    let words: Vec<&str> = t.split(|c: char| !c.is_alphanumeric() && c != '_').collect();
    let seen: Vec<&str> = ["Block", "Stream", "Vectored"].into_iter().filter(|m| words.contains(m)).collect();
    if let [m] = seen[..] {
        m.into()
    } else {
        String::new()
    }
}
#[cfg(not(rescan_sim))]
fn mode_word(_: &Database) -> String {
    String::new()
}

/// (kind, digest of everything observable, error text)
fn describe(o: &Outcome) -> (&'static str, u64, String) {
    match o {
        Ok(db) => ("ok", if plan().observe { db_hash(db) } else { 0 }, if unsafe { SAY } { mode_word(db) } else { String::new() }),
        Err(_) if plan().quiet => ("err", 0, "?".into()),
        Err(e) => ("err", 0, print_error(e)),
    }
}

/// What identifies an error: its kind and its text. Its other fields are its
/// own business.
fn error_text(debug: &str, display: &str) -> String {
    let kind = debug.split_once("kind: ").map_or("", |(_, r)| r.split(|c: char| !c.is_alphanumeric()).next().unwrap_or(""));
    escape_line(&format!("{kind}: {display}"))
}

pub fn begin(op: u32, fault: AllocFault, cap: u64) {
    let c = cur().expect("simulated thread");
    c.op = op;
    c.edges = 0;
    c.edge_cap = cap;
    c.allocs = 0;
    c.live = 0;
    c.peak = 0;
    c.fired = 0;
    c.fault = fault;
    unsafe {
        OBS[c.id] = 0;
        BUILT[c.id] = None;
    }
}

pub fn end_op() {
    let c = cur().expect("simulated thread");
    c.fault = AllocFault::default();
    c.edge_cap = u64::MAX;
}

fn on_drop<F: FnMut()>(f: F) -> impl Drop {
    struct D<F: FnMut()>(F);
    impl<F: FnMut()> Drop for D<F> {
        fn drop(&mut self) {
            (self.0)();
        }
    }
    D(f)
}

const NAMES: [&str; 6] = ["main", "", "worker", "tokio-runtime-worker", "r\u{e9}scan \u{1f600}", "unnamed-thread-with-a-name-longer-than-most-are"];

struct Cross<T>(T);
unsafe impl<T> Send for Cross<T> {}
impl<T> Cross<T> {
    fn get(self) -> T {
        self.0
    }
}

/// The call on a thread of its own, as an ordinary program would make one:
/// started through `std::thread`, with a name.
fn on_thread(name: &str, call: &Call, a: &Args) -> Result<Outcome, Box<dyn std::any::Any + Send>> {
    let me = cur().expect("simulated thread").id;
    let mut child = me;
    let f = Cross((call, a, &mut child as *mut usize));
    let r = lib(|| {
        std::thread::scope(|s| {
            let t = std::thread::Builder::new().name(name.into()).stack_size(16 << 20).spawn_scoped(s, move || {
                let (call, a, child) = f.get();
                let id = cur().expect("simulated thread").id;
                unsafe {
                    *child = id;
                    OBS[id] = 0;
                    BUILT[id] = None;
                }
                Cross(do_compile(call, a))
            });
            match t.expect("cannot start a thread").join() {
                Ok(r) => r.get(),
                Err(e) => resume_unwind(e),
            }
        })
    });
    unsafe {
        OBS[me] = OBS[child];
        if child != me {
            MESSAGE[me] = MESSAGE[child].take();
            BUILT[me] = BUILT[child].take();
        }
    }
    r
}

/// The call `n` bytes further down the stack.
#[inline(never)]
fn deeper<R>(n: usize, f: impl FnOnce() -> R) -> R {
    let mut pad = [0u8; 4096];
    std::hint::black_box(&mut pad);
    if n <= pad.len() {
        return f();
    }
    let r = deeper(n - pad.len(), f);
    std::hint::black_box(&mut pad);
    r
}

/// Runs `f` as `ctx` says, as far as that is not up to the thread.
fn in_ctx(ctx: u8, f: impl FnOnce()) {
    match ctx {
        // From a destructor, while a panic unwinds.
        1 => {
            let mut f = Some(f);
            let _ = catch_unwind(AssertUnwindSafe(|| {
                let _g = on_drop(|| {
                    if let Some(f) = f.take() {
                        f();
                    }
                });
                resume_unwind(Box::new(Marker));
            }));
        }
        10 => deeper(0x1_3000, f),
        _ => f(),
    }
}

fn compile_op(op: u32, call: &Call, slot: Option<u8>, ctx: u8, fault: AllocFault) {
    let suffix = if plan().fresh { Some(k().round) } else { None };
    let a = unsafe { make_args(call, suffix) };
    begin(op, fault, unsafe { STEP_CAP }(call.weight()));
    let mut res = None;
    if (4..10).contains(&ctx) {
        res = Some(on_thread(NAMES[ctx as usize - 4], call, &a));
    } else {
        in_ctx(ctx, || res = Some(lib(|| do_compile(call, &a))));
    }
    let res = res.expect("call made");
    let c = cur().expect("simulated thread");
    let t = c.id;
    let (edges, peak, allocs, fired) = (c.edges, c.peak, c.allocs, c.fired);
    end_op();
    unsafe { forget_args(&a) };
    #[cfg(rescan_sim_inner)]
    if call.tune.is_some() {
        let l = rescan::sim::limits::usual();
        let b = |b: bool| u64::from(b);
        let n = |n: usize| n as u64;
        let l = [
            b(l.literals),
            b(l.shortcut),
            b(l.small_write),
            n(l.small_write_length),
            n(l.small_write_patterns),
            n(l.small_write_literals),
            n(l.patterns),
            n(l.length),
            n(l.reports),
        ];
        if l != crate::plan::USUAL.map(u64::from) {
            emit(format_args!("V rule operation {op}: the usual limits are {l:?}, not {:?}", crate::plan::USUAL));
        }
    }
    let (kind, hash, text) = match &res {
        Ok(o) => describe(o),
        Err(_) => ("", 0, String::new()),
    };
    let obs = mix(unsafe { OBS[t] } ^ hash);
    let say = |kind: &str, text: &str| {
        emit(format_args!(
            "O {} {t} {op} {kind} {obs:x} {edges} {peak} {allocs} {fired} {text}",
            k().round
        ));
    };
    let o = match res {
        Ok(o) => o,
        Err(e) => {
            match caught(e) {
                Caught::Oom => say("oom", ""),
                Caught::Panic(m) => say("panic", &escape_line(&m)),
                Caught::Sink => say("panic", "foreign payload"),
            }
            if let Some(s) = slot {
                unsafe { SLOTS[s as usize].state = 2 };
            }
            return;
        }
    };
    if kind == "ok" {
        if let Some(b) = unsafe { BUILT[t].take() } {
            for (i, s) in b.0.iter().enumerate() {
                match s {
                    Some(s) => emit(format_args!("B {op} {i} {}", crate::content::brief(s))),
                    None => emit(format_args!("B {op} {i} ?")),
                }
            }
        }
    }
    say(kind, &text);
    match slot {
        Some(s) => unsafe {
            let s = &mut SLOTS[s as usize];
            if s.state == 0 {
                s.hash = hash;
                s.text = (o.is_err() && !plan().quiet).then_some(text);
                s.val = Some(ManuallyDrop::new(o));
                s.state = 1;
            } else {
                drop_result(o);
            }
        },
        None => drop_result(o),
    }
}

fn drop_result(o: Outcome) {
    if let Err(e) = lib(move || drop(o)) {
        match caught(e) {
            Caught::Panic(m) => emit(format_args!("V panic dropping a result: {}", escape_line(&m))),
            _ => emit(format_args!("V drop a result was not dropped but unwound from: it needed memory that was refused")),
        }
    }
}

/// The error as the program sees it, printed while others run.
fn print_error(e: &CompileError) -> String {
    let r = lib(|| (format!("{e:?}"), format!("{e}")));
    match r {
        // A copy in the simulator's own memory.
        Ok(s) => {
            let t = error_text(&s.0, &s.1);
            let _ = lib(move || drop(s));
            t
        }
        Err(e) => match caught(e) {
            Caught::Panic(m) => format!("(a panic: {m})"),
            _ => "(unwound)".into(),
        },
    }
}

fn look_at(i: u8, o: &Outcome, when: &str) {
    let s = unsafe { &SLOTS[i as usize] };
    match o {
        Ok(db) => {
            if plan().observe && db_hash(db) != s.hash {
                emit(format_args!("V changed {when}, a database is not as it was returned"));
            }
        }
        Err(e) => {
            let now = if cur().is_some() { print_error(e) } else { error_text(&format!("{e:?}"), &format!("{e}")) };
            if s.text.as_ref().map_or(false, |t| *t != now) {
                emit(format_args!(
                    "V changed {when}, the error {:?} had become {:?}",
                    clip(s.text.as_deref().unwrap_or("")),
                    clip(&now)
                ));
            }
        }
    }
}

fn look_op(slot: u8) {
    if let Some(o) = acquire(slot) {
        look_at(slot, o, "later in the run");
        release(slot);
    }
}

fn slot_ready(i: usize) -> bool {
    unsafe { SLOTS[i].state != 0 }
}

/// Waits for a slot; `None` if there is nothing in it.
fn acquire(i: u8) -> Option<&'static Outcome> {
    kern::hold(slot_ready, i as usize);
    let s = unsafe { &mut SLOTS[i as usize] };
    if s.state != 1 || s.doomed {
        return None;
    }
    s.refs += 1;
    s.val.as_deref()
}

fn release(i: u8) {
    let s = unsafe { &mut SLOTS[i as usize] };
    s.refs -= 1;
    if s.doomed && s.refs == 0 && s.state == 1 {
        s.state = 3;
        let v = s.val.take().expect("filled slot");
        drop_result(ManuallyDrop::into_inner(v));
    }
}

/// Steps that handling a result of a call of weight `w` may take.
fn result_cap(w: u64) -> u64 {
    1_000_000 + 2_000 * w
}

fn drop_op(op: u32, slot: u8, ctx: u8, fault: AllocFault) {
    let Some(o) = acquire(slot) else { return };
    if !plan().quiet {
        look_at(slot, o, "before it was dropped");
    }
    unsafe { SLOTS[slot as usize].doomed = true };
    in_ctx(ctx, || {
        begin(op, fault, result_cap(plan().maker(slot).map_or(0, |m| m.1.weight())));
        release(slot);
        end_op();
    });
}

/// The program panics, and its hook hears of it whatever the library does.
fn panic_op() {
    let id = cur().expect("simulated thread").id;
    unsafe { MESSAGE[id] = None };
    let r = lib(|| panic!("the program's own"));
    let heard = unsafe { MESSAGE[id].take() }.map_or(false, |m| m.starts_with("the program's own"));
    if r.is_ok() || !heard {
        emit(format_args!("V effect a panic of the program did not reach the program's panic hook"));
    }
}

#[cfg(rescan_sim)]
fn scan_op(op: u32, slot: u8, len: u32) {
    let Some(Ok(db)) = acquire(slot).map(|o| o.as_ref()) else { return };
    begin(op, AllocFault::default(), unsafe { STEP_CAP }(u64::from(len) + 1));
    let mut data = vec![0u8; len as usize];
    for (i, b) in data.iter_mut().enumerate() {
        *b = b'a' + (mix(i as u64 ^ u64::from(op)) % 4) as u8;
    }
    let r = lib(|| {
        let mut scratch = rescan::sim::new_scratch();
        match rescan::scan(db, &data, &mut scratch) {
            Ok(()) => "ok",
            Err(rescan::Error::Invalid) => "invalid",
            Err(rescan::Error::ScanTerminated) => "terminated",
            Err(rescan::Error::Unknown) => "unknown",
        }
    });
    end_op();
    let r = r.map_err(|e| match caught(e) {
        Caught::Panic(m) => m,
        _ => "unwound".into(),
    });
    match r {
        Ok("ok") => {}
        Ok(r) => emit(format_args!("V scan a scan returned {r}")),
        Err(m) => emit(format_args!("V scan a scan panicked: {}", escape_line(&m))),
    }
    let want = unsafe { SLOTS[slot as usize].hash };
    if plan().observe && db_hash(db) != want {
        emit(format_args!("V dbchanged the database is not as it was compiled after a scan"));
    }
    release(slot);
}
#[cfg(not(rescan_sim))]
fn scan_op(_: u32, slot: u8, _: u32) {
    if acquire(slot).is_some() {
        release(slot);
    }
}

// ----------------------------------------------------------------- sinks

struct FaultySink<'a> {
    sink: Sink,
    got: String,
    writes: u32,
    failed: bool,
    /// What it calls at write `n`.
    call: &'a dyn Fn(),
}

impl<'a> FaultySink<'a> {
    fn new(sink: Sink, call: &'a dyn Fn()) -> Self {
        Self { sink, got: String::new(), writes: 0, failed: false, call }
    }
    fn write(&mut self, s: &str) -> fmt::Result {
        let i = self.writes;
        self.writes += 1;
        let n = self.sink.n;
        match self.sink.kind {
            1 if i >= n => self.fail(),
            3 if i == n => self.fail(),
            4 if i == n => {
                self.failed = true;
                k().st.sink_faults += 1;
                let c = cur().expect("simulated thread");
                c.shield -= 1;
                resume_unwind(Box::new(Marker));
            }
            2 if self.got.len() + s.len() > n as usize => {
                // Takes what fits: a torn write.
                let mut fit = (n as usize).saturating_sub(self.got.len());
                while !s.is_char_boundary(fit) {
                    fit -= 1;
                }
                self.got.push_str(&s[..fit]);
                self.sink.n = 0;
                self.fail()
            }
            kind => {
                if kind > 5 && i == n {
                    k().st.reentries += 1;
                    nested(self.call);
                }
                self.got.push_str(s);
                Ok(())
            }
        }
    }
    fn fail(&mut self) -> fmt::Result {
        self.failed = true;
        k().st.sink_faults += 1;
        Err(fmt::Error)
    }
}

/// Runs `f`, which may make calls, in the middle of a call.
fn nested(f: &dyn Fn()) {
    let c = cur().expect("simulated thread");
    let keep = (c.op, c.edges, c.edge_cap, c.allocs, c.live, c.peak, c.fired, c.fault, c.unwinding);
    let obs = unsafe { OBS[c.id] };
    f();
    let c = cur().expect("simulated thread");
    (c.op, c.edges, c.edge_cap, c.allocs, c.live, c.peak, c.fired, c.fault, c.unwinding) = keep;
    unsafe { OBS[c.id] = obs };
}

impl Write for FaultySink<'_> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let c = cur().expect("simulated thread");
        c.shield += 1;
        let r = self.write(s);
        c.shield -= 1;
        r
    }
}

/// A byte stream with interrupted and short writes, full after `n` bytes.
struct Stream<'a, 'b>(&'a mut FaultySink<'b>);
impl std::io::Write for Stream<'_, '_> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let c = cur().expect("simulated thread");
        c.shield += 1;
        let f = &mut *self.0;
        let i = f.writes;
        f.writes += 1;
        let r = if i % 3 == 1 {
            k().st.sink_faults += 1;
            Err(std::io::Error::from(std::io::ErrorKind::Interrupted))
        } else if f.got.len() >= f.sink.n as usize {
            f.failed = true;
            k().st.sink_faults += 1;
            Err(std::io::Error::from_raw_os_error(28))
        } else {
            let n = b.len().min(1 + i as usize % 3).min(f.sink.n as usize - f.got.len());
            for &x in &b[..n] {
                f.got.push(x as char);
            }
            Ok(n)
        };
        c.shield -= 1;
        r
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// What came of printing into a sink.
pub struct Shot {
    pub got: String,
    pub ok: bool,
    pub failed: bool,
    /// Ended by a failed allocation.
    oom: bool,
}

pub type Print<'a> = &'a dyn Fn(&mut dyn Write) -> fmt::Result;

pub fn shoot(what: &str, sink: Sink, call: &dyn Fn(), print: Print) -> Shot {
    let mut f = FaultySink::new(sink, call);
    let r = if sink.kind == 5 {
        struct P<'a>(Print<'a>);
        impl fmt::Display for P<'_> {
            fn fmt(&self, out: &mut fmt::Formatter) -> fmt::Result {
                (self.0)(out)
            }
        }
        let mut s = Stream(&mut f);
        lib(|| std::io::Write::write_fmt(&mut s, format_args!("{}", P(print))).map_err(|_| fmt::Error))
    } else {
        lib(|| print(&mut f))
    };
    let mut oom = false;
    let ok = match r {
        Ok(r) => r.is_ok(),
        Err(e) => {
            match caught(e) {
                Caught::Sink => {}
                Caught::Oom => oom = true,
                Caught::Panic(m) => emit(format_args!("V sink {what} panicked: {}", escape_line(&m))),
            }
            f.failed |= !oom;
            false
        }
    };
    Shot { got: f.got, ok, failed: f.failed, oom }
}

/// Judges what came of printing through a sink against the complete text.
pub fn judge_shot(what: &str, s: &Shot, kind: u8, full: Option<&str>) {
    if s.failed && s.ok {
        emit(format_args!("V sink {what}: the sink failed and the caller was told of success"));
    }
    if !s.failed && !s.ok && !s.oom {
        emit(format_args!("V sink {what}: the sink took everything and the caller was told of failure"));
    }
    let Some(full) = full else { return };
    // The stream sees bytes; texts are compared as bytes there too.
    let want: String = if kind == 5 { full.bytes().map(|b| b as char).collect() } else { full.to_string() };
    if !want.starts_with(&s.got) {
        emit(format_args!(
            "V sink {what}: the sink holds {:?}, which is not how {:?} begins",
            clip(&s.got),
            clip(&want)
        ));
    } else if s.ok && !s.failed && s.got != want {
        emit(format_args!("V sink {what}: the text is cut short without a failure"));
    }
}

pub fn clip(s: &str) -> String {
    s.chars().take(200).collect()
}

fn say_print(op: u32, style: u8, got: &str) {
    if style == 0 || style == 3 {
        let t = cur().expect("simulated thread").id;
        emit(format_args!("P {} {t} {op} {style} {}", k().round, escape_line(got)));
    }
}

fn print_op(op: u32, slot: u8, style: u8, sink: Sink, ctx: u8, fault: AllocFault) {
    let Some(o) = acquire(slot) else { return };
    if let Err(e) = o {
        let maker = plan().maker(slot);
        let cap = result_cap(maker.map_or(0, |m| m.1.weight()));
        let print = |w: &mut dyn Write| match style {
            0 => write!(w, "{e}"),
            1 => write!(w, "{e:?}"),
            2 => write!(w, "{e:#?}"),
            _ => write!(w, "<{e:>60}>"),
        };
        let plain = |what: &str| {
            begin(op, AllocFault::default(), cap);
            let s = shoot(what, Sink::default(), &|| {}, &print);
            end_op();
            judge_shot(what, &s, 0, None);
            if s.ok {
                say_print(op, style, &s.got);
            }
            s.got
        };
        let again = || match (sink.kind, maker) {
            (7, Some((n, call))) => call_from_sink(n, call),
            _ => drop(plain("an error, printed from a sink")),
        };
        // Only the text for users stays the same while others print it.
        let strict = style == 0 || style == 3 || plan().threads.len() == 1;
        let before = (style == 1 || style == 2).then(|| plain("an error"));
        in_ctx(ctx, || {
            begin(op, fault, cap);
            let s = shoot("an error", sink, &again, &print);
            end_op();
            let full = plain("an error, after a failure");
            judge_shot("an error", &s, sink.kind, strict.then_some(&full));
            if strict && before.map_or(false, |b| b != full) {
                emit(format_args!("V sink an error prints differently after a failure"));
            }
        });
    }
    release(slot);
}

/// A compile call made by a sink.
fn call_from_sink(op: u32, call: &Call) {
    let a = unsafe { make_args(call, None) };
    begin(op, AllocFault::default(), unsafe { STEP_CAP }(call.weight()));
    let r = lib(|| do_compile(call, &a));
    let c = cur().expect("simulated thread");
    let (t, edges, peak, allocs) = (c.id, c.edges, c.peak, c.allocs);
    end_op();
    unsafe { forget_args(&a) };
    let (kind, hash, text) = match r {
        Ok(o) => {
            let d = describe(&o);
            drop_result(o);
            d
        }
        Err(e) => match caught(e) {
            Caught::Panic(m) => ("panic", 0, m),
            _ => ("oom", 0, String::new()),
        },
    };
    let obs = mix(unsafe { OBS[t] } ^ hash);
    emit(format_args!("O {} {t} {op} {kind} {obs:x} {edges} {peak} {allocs} 0 {text}", k().round));
}

#[cfg(rescan_sim)]
fn dump_op(op: u32, expr: &str, flags: u16, sink: Sink) {
    const CAP: u64 = 4_000_000_000;
    struct D<'a>(&'a mut dyn Write);
    impl Write for D<'_> {
        fn write_str(&mut self, s: &str) -> fmt::Result {
            self.0.write_str(s)
        }
    }
    begin(op, AllocFault::default(), CAP);
    let flags = flags_of(flags);
    let mut full = String::new();
    match lib(|| rescan::sim::dump(expr, flags, &mut full)) {
        Ok(Err(e)) => {
            if unsafe { SAY } {
                emit(format_args!("T {op} {}", print_error(&e)));
            }
            let _ = lib(move || drop(e));
        }
        Ok(Ok(r)) => {
            if unsafe { SAY } {
                emit(format_args!("T {op} {}", crate::model::brief(&full)));
            }
            if r.is_err() {
                emit(format_args!("V sink the dump of an expression failed on a sink that takes everything"));
            }
            let print = |w: &mut dyn Write| {
                rescan::sim::dump(expr, flags, &mut D(w)).unwrap_or(Err(fmt::Error))
            };
            let plain = |what: &str| {
                begin(op, AllocFault::default(), CAP);
                let s = shoot(what, Sink::default(), &|| {}, &print);
                judge_shot(what, &s, 0, Some(&full));
            };
            let s = shoot("a dump", sink, &|| plain("a dump, from a sink"), &print);
            judge_shot("a dump", &s, sink.kind, Some(&full));
            plain("a dump, after a failure");
        }
        Err(e) => {
            if let Caught::Panic(m) = caught(e) {
                emit(format_args!("V sink a dump panicked: {}", escape_line(&m)));
            }
        }
    }
    end_op();
    let h = full.bytes().fold(0, |h, b| mix(h ^ u64::from(b)));
    emit(format_args!("D {op} {h:x}"));
}
#[cfg(not(rescan_sim))]
fn dump_op(_: u32, _: &str, _: u16, _: Sink) {}

// ----------------------------------------------------------------- soaks

fn soak_op(op: u32, call: &Call, n: u32, vary: bool) {
    let t = cur().expect("simulated thread").id;
    let mut first: Option<(String, u64)> = None;
    let mut held = [0i64; 3];
    let mut net = 0;
    for i in 0..n {
        let a = unsafe { make_args(call, if vary { Some(i + k().round * n) } else { None }) };
        begin(op, AllocFault::default(), unsafe { STEP_CAP }(call.weight() + 8));
        let r = lib(|| do_compile(call, &a));
        unsafe { forget_args(&a) };
        let (kind, hash, text) = match r {
            Err(e) => match caught(e) {
                Caught::Panic(m) => ("panic", 0, m),
                _ => ("oom", 0, String::new()),
            },
            Ok(o) => {
                let d = describe(&o);
                drop_result(o);
                d
            }
        };
        let c = cur().expect("simulated thread");
        net += c.live;
        let digest = if vary { 0 } else { mix(unsafe { OBS[t] } ^ hash) };
        // Numbers differ with the arguments; what is left must not.
        let text = if vary { text.replace(|c: char| c.is_ascii_digit(), "") } else { text };
        let what = (format!("{kind} {text}"), digest);
        match &first {
            None => {
                if !vary {
                    emit(format_args!(
                        "O {} {t} {op} {kind} {digest:x} {} {} {} 0 {text}",
                        k().round,
                        c.edges,
                        c.peak,
                        c.allocs
                    ));
                }
                first = Some(what);
            }
            Some(f) if *f != what => {
                emit(format_args!(
                    "V soak call {i} of {n} returned {:?} where the first returned {:?}",
                    clip(&what.0),
                    clip(&f.0)
                ));
                break;
            }
            _ => {}
        }
        for (j, d) in [4, 2, 1].into_iter().enumerate() {
            if i + 1 == n / d {
                held[j] = net;
            }
        }
    }
    end_op();
    if n >= 128 && held[0] > 0 && held[0] < held[1] && held[1] < held[2] {
        emit(format_args!(
            "V growth {} bytes in use after {} calls, {} after {}, {} after {n}",
            held[0],
            n / 4,
            held[1],
            n / 2,
            held[2]
        ));
    }
}

/// One call with `n` times the same expression.
fn many_op(op: u32, n: u32, expr: &str, flags: u16) {
    let t = cur().expect("simulated thread").id;
    begin(op, AllocFault::default(), u64::MAX);
    let e: &'static str = unsafe { &*(expr as *const str) };
    let n = n as usize;
    let (exprs, flags, ids) = (vec![e; n], vec![flags_of(flags); n], vec![0u32; n]);
    let r = lib(|| rescan::compile_multi(&exprs, &flags, &ids, &Mode::Block));
    end_op();
    let (kind, text) = match r {
        Ok(o) => {
            let (kind, _, text) = describe(&o);
            drop_result(o);
            (kind, text)
        }
        Err(e) => match caught(e) {
            Caught::Panic(m) => ("panic", escape_line(&m)),
            _ => ("oom", String::new()),
        },
    };
    emit(format_args!("O {} {t} {op} {kind} 0 0 0 0 0 {text}", k().round));
}

// --------------------------------------------------------------- threads

fn run_op(op: u32, o: &Op) {
    match o {
        Op::Compile { call, slot, ctx, fault } => compile_op(op, call, *slot, *ctx, *fault),
        Op::Scan { slot, len } => scan_op(op, *slot, *len),
        Op::Look { slot } => look_op(*slot),
        Op::Drop { slot, ctx, fault } => drop_op(op, *slot, *ctx, *fault),
        Op::Print { slot, style, sink, ctx, fault } => print_op(op, *slot, *style, *sink, *ctx, *fault),
        Op::Panic => panic_op(),
        Op::Dump { expr, flags, sink } => dump_op(op, expr, *flags, *sink),
        Op::Soak { call, n, vary } => soak_op(op, call, *n, *vary),
        Op::Many { n, expr, flags } => many_op(op, *n, expr, *flags),
        Op::Sets { steps, fault, ctx, .. } if crate::values::about(steps) => {
            in_ctx(*ctx, || crate::values::run(op, steps, *fault));
        }
        Op::Sets { steps, sink, fault, ctx } => in_ctx(*ctx, || crate::sets::run(op, steps, *sink, *fault)),
    }
}

fn op_ctx(o: &Op) -> u8 {
    match o {
        Op::Compile { ctx, .. } | Op::Print { ctx, .. } | Op::Drop { ctx, .. } | Op::Sets { ctx, .. } => *ctx,
        _ => 0,
    }
}

fn run_ops(id: usize, pick: fn(u8) -> bool) {
    let base: usize = plan().threads[..id].iter().map(|t| t.ops.len()).sum();
    for (i, o) in plan().threads[id].ops.iter().enumerate() {
        if pick(op_ctx(o)) {
            run_op((base + i + 1) as u32, o);
        }
    }
}

struct Early(usize);
struct Late(usize);
impl Drop for Early {
    fn drop(&mut self) {
        run_ops(self.0, |c| c == 2);
    }
}
impl Drop for Late {
    fn drop(&mut self) {
        run_ops(self.0, |c| c == 3);
    }
}
thread_local! {
    static EARLY: std::cell::OnceCell<Early> = const { std::cell::OnceCell::new() };
    static LATE: std::cell::OnceCell<Late> = const { std::cell::OnceCell::new() };
}

fn ended(i: usize) -> bool {
    k().t[i].state == State::Done
}

extern "C" fn thread_main(arg: *mut u8) -> *mut u8 {
    let id = arg as usize;
    let t = &plan().threads[id];
    if let Some(a) = t.after {
        kern::hold(ended, a as usize % plan().threads.len());
    }
    let c = cur().expect("simulated thread");
    if let Some((m, n)) = t.stall {
        c.stall_mask = m;
        c.stall_left = u64::from(n.max(1));
    }
    if t.ops.iter().any(|o| op_ctx(o) == 2) {
        EARLY.with(|e| drop(e.set(Early(id))));
    }
    run_ops(id, |c| c < 2 || c > 3);
    if t.ops.iter().any(|o| op_ctx(o) == 3) {
        LATE.with(|e| drop(e.set(Late(id))));
    }
    std::ptr::null_mut()
}

// --------------------------------------------------------------- the run

struct Probe<T>(std::marker::PhantomData<T>);
#[allow(dead_code)]
trait NotShareable {
    const SHAREABLE: bool = false;
}
impl<T> NotShareable for Probe<T> {}
impl<T: Send + Sync> Probe<T> {
    const SHAREABLE: bool = true;
}

/// std's B-trees end the process, by an illegal instruction, when an allocation
/// fails while a root is replaced: the program does not unwind from that
/// failure, and nothing can be said about the run.
extern "C" fn on_illegal(sig: i32) {
    match cur() {
        Some(c) if c.unwinding => {
            c.shield += 1;
            emit(format_args!("A {}", c.op));
            kern::finish_run();
            unsafe { _exit(0) }
        }
        // By default, then: the instruction is met again.
        _ => drop(unsafe { signal(sig, 0) }),
    }
}

/// Runs `p`; results go to the shared memory.
pub fn run(p: &'static Plan) {
    unsafe { signal(4, on_illegal as extern "C" fn(i32) as usize) };
    let kk = k();
    unsafe { PLAN = p };
    kk.segs = Vec::leak(p.segs.clone());
    kk.quantum = p.quantum.max(1);
    kk.entropy_seed = p.entropy;
    kk.entropy_faults = Vec::leak(p.entropy_faults.clone());
    kk.clock_base = p.clock_base;
    kk.clock_jumps = Vec::leak(p.clock_jumps.clone());
    kk.env_seed = p.env;
    if p.env != 0 {
        unsafe { kern::set_args() };
    }
    kk.spurious = p.spurious;
    unsafe {
        kern::A.mode = p.arena_mode;
        kern::A.seed = p.arena_seed;
    }
    if p.probe && !Probe::<CompileError>::SHAREABLE {
        emit(format_args!("V errnotsync an error cannot be sent to or shared with another thread"));
    }
    if p.probe && !Probe::<Database>::SHAREABLE {
        emit(format_args!("V notsync a database cannot be sent to or shared with another thread"));
    }
    for round in 0..p.rounds.max(1) {
        kk.round = round;
        kk.abandon = false;
        for (id, t) in p.threads.iter().enumerate() {
            unsafe { kern::spawn(id, t.stack, thread_main, id as *mut u8) };
        }
        unsafe { kern::run(p.threads.len()) };
        for (i, s) in unsafe { SLOTS.iter_mut() }.enumerate() {
            if let Some(v) = &s.val {
                look_at(i as u8, v, "at the end of the run");
            }
            if let Some(v) = s.val.take() {
                drop(ManuallyDrop::into_inner(v));
            }
            *s = EMPTY;
        }
        unsafe {
            kern::arena_check();
            emit(format_args!("R {round} {} {}", kern::A.live_blocks, kern::A.live_bytes));
        }
        let stacks: Vec<String> =
            (0..p.threads.len()).map(|i| unsafe { kern::stack_used(i) }.to_string()).collect();
        emit(format_args!("S {round} {}", stacks.join(" ")));
        if kk.t[..kk.n].iter().any(|t| t.state != State::Done) {
            fatal("harness", format_args!("a thread is not done"));
        }
    }
    kern::finish_run();
}
