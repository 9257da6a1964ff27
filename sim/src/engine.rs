//! Runs plans in processes of their own, judges them, and searches.
use crate::content;
use crate::exec;
use crate::gen::Dict;
use crate::kern::{self, AllocFault, Cov, Stats, NSTATS};
use crate::model;
use crate::plan::{Call, Op, Plan, USUAL};
use crate::props::{memory_bound, step_bound, Prop, World, PROPS};
use crate::report;
use crate::rng::{mix, Rng};
use crate::sys::*;
use std::collections::HashMap;
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, AtomicU8, Ordering};
use std::time::Instant;

#[allow(dead_code)]
#[derive(Clone, Debug, Default)]
pub struct Rec {
    pub round: u32,
    pub thread: usize,
    pub op: usize,
    pub kind: String,
    pub hash: String,
    pub edges: u64,
    pub peak: u64,
    pub allocs: u64,
    pub fired: u32,
    pub text: String,
}

#[derive(Default)]
pub struct Out {
    pub done: bool,
    pub signal: i32,
    pub stats: Stats,
    pub recs: Vec<Rec>,
    /// Complete texts printed: operation, style, text.
    pub prints: Vec<(usize, u8, String)>,
    /// Trees dumped: operation, and what the model says in brief.
    pub dumps: Vec<(usize, String)>,
    /// What the call of an operation built, by subject.
    pub builts: Vec<(usize, usize, String)>,
    pub viols: Vec<Violation>,
    pub rounds: Vec<(i64, i64)>,
    pub stacks: Vec<usize>,
    pub digest: u64,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Violation {
    pub class: String,
    pub msg: String,
}

const EPOCH: u64 = 64;

// ------------------------------------------------------------ one process

pub fn run_child(p: &Plan, secs: u32) -> Out {
    unsafe {
        let res = &mut *kern::RES;
        res.done = 0;
        res.len = 0;
        let pid = fork();
        if pid < 0 {
            eprintln!("simulator: cannot fork");
            _exit(2);
        }
        if pid == 0 {
            prctl(1, 9, 0, 0, 0);
            // Processor time: nothing else on the machine may make a run
            // too slow. The clock on the wall is for those that sleep.
            let t = [0, 0, u64::from(secs), 0];
            raw6(38, 2, t.as_ptr() as u64, 0, 0, 0, 0);
            alarm((secs * 8).min(400));
            let fd = open(b"/dev/null\0".as_ptr().cast(), 2);
            if std::env::var_os("SIM_STDERR").is_none() {
                dup2(fd, 2);
            }
            dup2(fd, 1);
            exec::run(&*(p as *const Plan));
            _exit(0);
        }
        let mut st = 0;
        while waitpid(pid, &mut st, 0) != pid {}
        let mut o = Out { done: res.done == 1 && st == 0, signal: st & 0x7f, stats: res.stats, ..Out::default() };
        if res.done == 0 {
            o.stats = Stats::default();
        }
        parse(&String::from_utf8_lossy(&res.buf[..res.len]), &mut o);
        o
    }
}

fn parse(s: &str, o: &mut Out) {
    let mut digest = o.stats.event_hash;
    for line in s.lines() {
        for b in line.bytes() {
            digest = (digest ^ u64::from(b)).wrapping_mul(0x100_0000_01b3);
        }
        let mut f = line.splitn(2, ' ');
        match f.next() {
            Some("V") => {
                let (class, msg) = f.next().unwrap_or("").split_once(' ').unwrap_or(("harness", line));
                o.viols.push(Violation { class: class.into(), msg: msg.into() });
            }
            Some("R") => {
                let v: Vec<i64> = f.next().unwrap_or("").split(' ').filter_map(|x| x.parse().ok()).collect();
                if v.len() == 3 {
                    o.rounds.push((v[1], v[2]));
                }
            }
            Some("S") => {
                o.stacks = f.next().unwrap_or("").split(' ').skip(1).filter_map(|x| x.parse().ok()).collect();
            }
            Some("P") => {
                let v: Vec<&str> = f.next().unwrap_or("").splitn(5, ' ').collect();
                if let [_, _, op, style, text] = v[..] {
                    o.prints.push((op.parse().unwrap_or(0), style.parse().unwrap_or(0), text.into()));
                }
            }
            Some("B") => {
                let v: Vec<&str> = f.next().unwrap_or("").splitn(3, ' ').collect();
                if let [op, subject, text] = v[..] {
                    o.builts.push((op.parse().unwrap_or(0), subject.parse().unwrap_or(0), text.into()));
                }
            }
            Some("T") => {
                if let Some((op, text)) = f.next().unwrap_or("").split_once(' ') {
                    o.dumps.push((op.parse().unwrap_or(0), text.into()));
                }
            }
            Some("O") => {
                let v: Vec<&str> = f.next().unwrap_or("").splitn(10, ' ').collect();
                let n = |i: usize| v.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
                if v.len() == 10 {
                    o.recs.push(Rec {
                        round: n(0) as u32,
                        thread: n(1) as usize,
                        op: n(2) as usize,
                        kind: v[3].into(),
                        hash: v[4].into(),
                        edges: n(5),
                        peak: n(6),
                        allocs: n(7),
                        fired: n(8) as u32,
                        text: v[9].into(),
                    });
                }
            }
            _ => {}
        }
    }
    o.digest = mix(digest);
}

// ---------------------------------------------------------------- judging

/// What a call does on its own.
pub struct Ref {
    pub rec: Rec,
    /// How its error prints, by style.
    pub prints: Vec<(u8, String)>,
    /// It does not even return then: not something to compare with.
    pub bad: Option<String>,
}

pub struct Judge {
    pub prop: &'static Prop,
    memo: HashMap<(Call, bool), Rc<Ref>>,
    pub execs: u64,
    pub refs: u64,
}

impl Judge {
    pub fn new(prop: &'static Prop) -> Self {
        // Only C07 is about the number of steps; elsewhere the bound only
        // catches calls that would never end.
        unsafe {
            exec::SAY = matches!(prop.id, "C15" | "C16" | "C24" | "C27");
            exec::SAY_BUILT = matches!(prop.id, "C17" | "C18" | "C24" | "C27");
            exec::STEP_CAP = if prop.id == "C07" { step_bound } else { |w| 20_000_000 + 60_000 * w.min(100_000) };
        }
        Self { prop, memo: HashMap::new(), execs: 0, refs: 0 }
    }

    pub fn reference(&mut self, call: &Call, observe: bool) -> Rc<Ref> {
        if let Some(r) = self.memo.get(&(call.clone(), observe)) {
            return r.clone();
        }
        if self.memo.len() > 4_000 {
            self.memo.clear();
        }
        let mut p = Plan::one(Op::compile(call.clone(), None));
        p.observe = observe;
        if matches!(self.prop.id, "C09" | "C12") {
            let print = |style| Op::print(0, style, Default::default());
            p.threads[0].ops = vec![Op::compile(call.clone(), Some(0)), print(0), print(3)];
        }
        self.refs += 1;
        let o = run_child(&p, 60);
        let rec = o.recs.first().cloned().unwrap_or_default();
        let bad = if !o.done {
            Some(format!("the call alone ends the process (signal {})", o.signal))
        } else if let Some(v) = o.viols.first() {
            Some(format!("the call alone: {}", v.msg))
        } else if rec.kind != "ok" && rec.kind != "err" {
            Some(format!("the call alone: {} {}", rec.kind, rec.text))
        } else {
            None
        };
        let prints = o.prints.into_iter().map(|p| (p.1, p.2)).collect();
        let r = Rc::new(Ref { rec, prints, bad });
        self.memo.insert((call.clone(), observe), r.clone());
        r
    }

    fn run(&mut self, p: &Plan, secs: u32) -> Out {
        self.execs += 1;
        run_child(p, secs)
    }

    /// All that is wrong with a run of `p`, as far as the property goes.
    pub fn judge(&mut self, p: &Plan, secs: u32) -> (Out, Vec<Violation>) {
        let o = self.run(p, secs);
        let mut v = o.viols.clone();
        let calls = calls_of(p);
        let wants_refs = self.prop.classes.contains(&"mismatch");
        let mut all_good = true;
        let relative = !matches!(self.prop.id, "C06" | "C07");
        if relative {
            // What a call does on its own is C07's business.
            for c in calls.iter().flatten() {
                if !o.done || !v.is_empty() {
                    all_good &= self.reference(c, p.observe).bad.is_none();
                }
            }
        }
        if !o.done {
            let class = if matches!(o.signal, 14 | 27) { "hang" } else { "crash" };
            v.push(Violation { class: class.into(), msg: format!("the process ended with signal {}", o.signal) });
        }
        if relative && !all_good {
            v.retain(|x| !matches!(x.class.as_str(), "crash" | "hang" | "steps" | "soak" | "memlimit" | "deadlock"));
        }
        for r in &o.recs {
            let Some(Some(call)) = calls.get(r.op.wrapping_sub(1)) else { continue };
            if p.fresh {
                continue;
            }
            if r.kind == "panic" && !relative {
                v.push(Violation { class: "panic".into(), msg: format!("operation {}: a call panicked: {}", r.op, r.text) });
            }
            if !wants_refs || (relative && r.kind == "panic" && r.fired > 0) {
                if relative && r.kind == "panic" && r.fired == 0 && self.reference(call, p.observe).bad.is_none() {
                    v.push(Violation { class: "panic".into(), msg: format!("operation {}: a call panicked: {}", r.op, r.text) });
                }
                continue;
            }
            let want = self.reference(call, p.observe);
            if want.bad.is_some() {
                continue;
            }
            let text = p.quiet && r.kind == "err" || want.rec.text == r.text;
            let same = want.rec.kind == r.kind && text && want.rec.hash == r.hash;
            if same {
                continue;
            }
            let got = describe(r);
            let exp = describe(&want.rec);
            if r.fired > 0 && self.prop.id != "C10" {
                // Cut short, or reported as a lack of resources.
                if r.kind == "oom" || (r.kind == "err" && r.text.contains("ResourceLimit")) {
                    continue;
                }
                v.push(Violation {
                    class: "contained".into(),
                    msg: format!("operation {}: after a failed allocation the call returned {got}; without: {exp}", r.op),
                });
            } else {
                let class = if r.kind == "panic" { "panic" } else { "mismatch" };
                v.push(Violation {
                    class: class.into(),
                    msg: format!("operation {}: the call returned {got}; alone: {exp}", r.op),
                });
            }
        }
        if matches!(self.prop.id, "C09" | "C12") {
            let ops: Vec<&Op> = p.threads.iter().flat_map(|t| &t.ops).collect();
            for (op, style, text) in &o.prints {
                let Some(Op::Print { slot, .. }) = ops.get(op.wrapping_sub(1)) else { continue };
                let Some((_, call)) = p.maker(*slot) else { continue };
                let want = self.reference(call, p.observe);
                let Some((_, alone)) = want.prints.iter().find(|x| x.0 == *style) else { continue };
                if want.bad.is_none() && alone != text {
                    v.push(Violation {
                        class: "printed".into(),
                        msg: format!("operation {op}: an error was printed as {text:?}; alone: {alone:?}"),
                    });
                }
            }
        }
        if self.prop.id == "C10" {
            for c in calls.iter().flatten() {
                let r = self.reference(c, p.observe);
                if r.bad.is_none() && r.rec.peak > memory_bound(c.weight()) {
                    v.push(Violation {
                        class: "mismatch".into(),
                        msg: format!(
                            "a call with expressions of weight {} had {} bytes in use, over the budget of {}",
                            c.weight(),
                            r.rec.peak,
                            memory_bound(c.weight())
                        ),
                    });
                }
            }
        }
        if self.prop.classes.contains(&"leak") && o.done && all_good && o.rounds.first().map_or(false, |r| r.0 > 0) {
            if let Some(l) = self.leak(p) {
                v.push(l);
            }
        }
        match self.prop.id {
            "C15" => rules(p, &o, &calls, &mut v),
            "C16" => trees(p, &o, &mut v),
            "C17" => contents(&o, &calls, 0..4, &mut v),
            "C27" => {
                rules(p, &o, &calls, &mut v);
                // What is said of literals may come before or after the choice.
                contents(&o, &calls, 2..content::SUBJECTS.len(), &mut v);
            }
            "C24" => {
                rules(p, &o, &calls, &mut v);
                contents(&o, &calls, 0..content::SUBJECTS.len(), &mut v);
            }
            "C18" => contents(&o, &calls, 4..content::SUBJECTS.len(), &mut v),
            _ => {}
        }
        let harness = v.iter().find(|x| x.class == "harness").cloned();
        v.retain(|x| self.prop.classes.contains(&x.class.as_str()));
        if let Some(h) = harness {
            v.insert(0, h);
        }
        (o, v)
    }

    /// Memory is left at the end of a run. Is it a fixed amount, such as a
    /// table made once, or does it grow with every round of the same?
    fn leak(&mut self, p: &Plan) -> Option<Violation> {
        for fresh in [false, true] {
            let mut q = p.clone();
            q.rounds = 24;
            q.fresh = fresh;
            for t in &mut q.threads {
                for o in &mut t.ops {
                    if let Op::Soak { n, .. } = o {
                        *n = (*n).min(50);
                    }
                }
            }
            let o = self.run(&q, 300);
            if !o.done || o.rounds.len() != 24 {
                continue;
            }
            // In use after each round, by bytes; growth in every third of the
            // rounds, and at least every other round.
            let b: Vec<i64> = o.rounds.iter().map(|r| r.1).collect();
            let grew = |from: usize, to: usize| (from..to).filter(|&i| b[i + 1] > b[i]).count();
            if b[7] < b[15] && b[15] < b[23] && grew(0, 23) >= 12 && grew(15, 23) >= 4 {
                return Some(Violation {
                    class: "leak".into(),
                    msg: format!(
                        "memory in use after all results were dropped: {} bytes after 1 round of the run, {} after 8, {} after 16, {} after 24{}",
                        b[0], b[7], b[15], b[23],
                        if fresh { " (other expressions in every round)" } else { "" }
                    ),
                });
            }
        }
        None
    }
}

/// Every call that was not cut short returned what the model says.
fn rules(p: &Plan, o: &Out, calls: &[Option<Call>], v: &mut Vec<Violation>) {
    if p.fresh {
        return;
    }
    let ops: Vec<&Op> = p.threads.iter().flat_map(|t| &t.ops).collect();
    for r in &o.recs {
        let i = r.op.wrapping_sub(1);
        let want = match (ops.get(i), calls.get(i)) {
            (Some(Op::Many { n, expr, flags }), _) => model::many(*n as usize, expr, *flags),
            (_, Some(Some(c))) => model::answer(c),
            _ => None,
        };
        let Some((kind, text)) = want else { continue };
        if r.fired > 0 || r.kind == "oom" {
            continue;
        }
        let unsaid = r.text.is_empty() && kind == "ok" || p.quiet && kind == "err";
        // Too few arguments: an error, whichever.
        if r.kind != kind || r.text != text && !unsaid && text != "*" {
            v.push(Violation {
                class: "rule".into(),
                msg: format!(
                    "operation {}: the call returned {}; by the rules: {}",
                    r.op,
                    said(&r.kind, &r.text),
                    said(kind, &text)
                ),
            });
        }
    }
}

fn said(kind: &str, text: &str) -> String {
    let t: String = text.chars().take(300).collect();
    match kind {
        "ok" => format!("a database of mode {t}"),
        "err" => format!("the error {t}"),
        k => format!("{k} {t}"),
    }
}

/// Every dump shows the tree the model has.
fn trees(p: &Plan, o: &Out, v: &mut Vec<Violation>) {
    let ops: Vec<&Op> = p.threads.iter().flat_map(|t| &t.ops).collect();
    for (op, got) in &o.dumps {
        let Some(Op::Dump { expr, flags, .. }) = ops.get(op.wrapping_sub(1)) else { continue };
        let want = model::dumped(expr, *flags);
        if want != *got {
            v.push(Violation {
                class: "tree".into(),
                msg: format!("operation {op}: the tree was shown as {got:?}; by the rules: {want:?}"),
            });
        }
    }
}

/// Every call that succeeded built what the model says, as far as that can be
/// seen.
fn contents(o: &Out, calls: &[Option<Call>], subjects: std::ops::Range<usize>, v: &mut Vec<Violation>) {
    let mut last: Option<(usize, [String; content::SUBJECTS.len()])> = None;
    for (op, i, got) in &o.builts {
        let Some(Some(c)) = calls.get(op.wrapping_sub(1)) else { continue };
        if !subjects.contains(i) || got == "?" {
            continue;
        }
        if last.as_ref().map_or(true, |l| l.0 != *op) {
            // Which calls succeed is C15's business.
            if model::answer(c).map_or(true, |a| a.0 != "ok") {
                continue;
            }
            last = Some((*op, model::built(c)));
        }
        let Some((_, want)) = &last else { continue };
        let want = content::brief(&want[*i]);
        if want != *got {
            v.push(Violation {
                class: "built".into(),
                msg: format!("operation {op}: the call built {} {got:?}; by the rules: {want:?}", content::SUBJECTS[*i]),
            });
        }
    }
}

fn describe(r: &Rec) -> String {
    let t: String = r.text.chars().take(300).collect();
    match r.kind.as_str() {
        "ok" => format!("a database (content {})", r.hash),
        "err" => format!("the error {t}"),
        k => format!("{k} {t}"),
    }
}

/// The call of each operation, by number less one.
fn calls_of(p: &Plan) -> Vec<Option<Call>> {
    p.threads
        .iter()
        .flat_map(|t| &t.ops)
        .map(|o| match o {
            Op::Compile { call, .. } => Some(call.clone()),
            Op::Soak { call, vary: false, .. } => Some(call.clone()),
            _ => None,
        })
        .collect()
}

// ----------------------------------------------------------------- search

pub const NCOUNT: usize = 28;
pub const COUNTERS: [&str; NCOUNT] = [
    "runs", "library_processes", "reference_processes", "calls", "calls_in_soaks", "nontrivial", "threads",
    "alloc_fail_one", "alloc_fail_from", "alloc_fail_budget", "stalled_callers", "calls_while_unwinding",
    "calls_in_thread_exit", "databases_scanned", "sinks_failing", "accepted", "rejected", "cut_short",
    "max_steps_of_a_call", "max_bytes_of_a_call", "max_stack_bytes", "worst_steps_permille", "worst_bytes_permille", "late_epochs",
    "drops_without_memory", "subjects_compared", "subjects_not_readable", "set_steps",
];

#[repr(C)]
pub struct Shared {
    pub worst: AtomicU64,
    pub harness: AtomicU64,
    pub distinct: AtomicU64,
    pub interleavings: AtomicU64,
    pub workers: [std::cell::UnsafeCell<[u64; NSTATS + NCOUNT]>; 64],
    pub cov: Cov,
}

pub struct Search {
    pub prop: &'static Prop,
    pub seed: u64,
    pub runs: u64,
    pub workers: usize,
    pub cap: f64,
    pub dict: Dict,
}

impl Search {
    /// Plans of the epoch of run `i`, up to and including run `i`.
    fn plans(&self, judge: &mut Judge, from: u64, to: u64, each: &mut dyn FnMut(u64, Plan, &mut Judge) -> bool) {
        let epoch = from / EPOCH;
        let mut er = Rng::new(self.seed ^ mix(epoch), mix(self.prop.id.bytes().fold(0, |h, b| h * 31 + u64::from(b))));
        let mut pool = Vec::new();
        let mut calls = Vec::new();
        for i in from..to {
            let mut r = Rng(er.next());
            let p = {
                let mut cost = |c: &Call| {
                    let f = judge.reference(c, !matches!(judge.prop.id, "C07" | "C10"));
                    (f.rec.allocs, f.rec.edges, f.rec.kind == "err")
                };
                let mut w = World { dict: &self.dict, pool: std::mem::take(&mut pool), calls: std::mem::take(&mut calls), cost: &mut cost };
                let p = (self.prop.make)(&mut r, &mut w);
                pool = w.pool;
                calls = w.calls;
                p
            };
            if !each(i, p, judge) {
                return;
            }
        }
    }

    pub fn plan(&self, i: u64) -> Plan {
        let mut judge = Judge::new(self.prop);
        let mut last = Plan::default();
        let from = i / EPOCH * EPOCH;
        self.plans(&mut judge, from, i + 1, &mut |_, p, _| {
            last = p;
            true
        });
        last
    }

    fn work(&self, me: usize, sh: &Shared, start: Instant) {
        let mut judge = Judge::new(self.prop);
        let mut st = [0u64; NSTATS + NCOUNT];
        let epochs = (self.runs + EPOCH - 1) / EPOCH;
        let mut e = me as u64;
        while e < epochs {
            if start.elapsed().as_secs_f64() > self.cap {
                st[NSTATS + 23] += 1;
                break;
            }
            let from = e * EPOCH;
            let to = (from + EPOCH).min(self.runs);
            self.plans(&mut judge, from, to, &mut |i, p, judge| {
                if i > sh.worst.load(Ordering::SeqCst) || sh.harness.load(Ordering::SeqCst) != 0 {
                    return false;
                }
                let (o, v) = judge.judge(&p, 30);
                account(&mut st, &p, &o, judge, sh);
                if let Some(first) = v.first() {
                    // Once more, with more time: a run is repeatable.
                    let (_, w) = judge.judge(&p, 120);
                    if first.class == "harness" {
                        eprintln!("simulator: run {i}: {}", first.msg);
                        sh.harness.store(1, Ordering::SeqCst);
                    } else if w.iter().any(|x| x.class == first.class) {
                        sh.worst.fetch_min(i, Ordering::SeqCst);
                    } else if first.class != "hang" {
                        eprintln!("simulator: run {i} is not repeatable: {first:?} then {w:?}");
                        sh.harness.store(1, Ordering::SeqCst);
                    }
                }
                true
            });
            st[NSTATS + 1] = judge.execs;
            st[NSTATS + 2] = judge.refs;
            e += self.workers as u64;
        }
        unsafe { *sh.workers[me].get() = st };
    }

    /// Runs the search; the index of the first run that broke the property.
    pub fn go(&self, sh: &'static Shared) -> Option<u64> {
        sh.worst.store(u64::MAX, Ordering::SeqCst);
        let start = Instant::now();
        let mut pids = Vec::new();
        for w in 0..self.workers {
            let pid = unsafe { fork() };
            if pid == 0 {
                unsafe {
                    prctl(1, 9, 0, 0, 0);
                    kern::RES = map(0, std::mem::size_of::<kern::Res>(), true).cast();
                }
                self.work(w, sh, start);
                unsafe { _exit(0) };
            }
            pids.push(pid);
        }
        for p in pids {
            let mut st = 0;
            while unsafe { waitpid(p, &mut st, 0) } != p {}
            if st != 0 {
                eprintln!("simulator: a worker ended with status {st:#x}");
                sh.harness.store(1, Ordering::SeqCst);
            }
        }
        let w = sh.worst.load(Ordering::SeqCst);
        (w != u64::MAX).then_some(w)
    }
}

fn account(st: &mut [u64; NSTATS + NCOUNT], p: &Plan, o: &Out, judge: &mut Judge, sh: &Shared) {
    let s: &[u64; NSTATS] = unsafe { &*(&o.stats as *const Stats).cast() };
    for i in 0..NSTATS {
        st[i] = st[i].wrapping_add(s[i]);
    }
    let c = &mut st[NSTATS..];
    c[0] += 1;
    c[6] += p.threads.len() as u64;
    let calls = calls_of(p);
    let mut shared_db = false;
    let mut looked = false;
    let mut dropped = false;
    let mut panics = 0u64;
    let mut depth = 0u64;
    let mut history = 0;
    for (ti, t) in p.threads.iter().enumerate() {
        c[10] += u64::from(t.stall.is_some());
        for (oi, op) in t.ops.iter().enumerate() {
            match op {
                Op::Compile { ctx, call, .. } => {
                    c[3] += 1;
                    c[11] += u64::from(*ctx == 1);
                    c[12] += u64::from(*ctx > 1);
                    if judge.prop.id == "C06" {
                        depth = depth.max(nesting(call));
                    }
                }
                Op::Soak { n, .. } => c[4] += u64::from(*n),
                Op::Scan { slot, .. } => {
                    c[13] += 1;
                    shared_db |= !p.threads[ti].ops.iter().any(|o| matches!(o, Op::Compile { slot: Some(s), .. } if s == slot));
                }
                Op::Print { sink, .. } | Op::Dump { sink, .. } => c[14] += u64::from(sink.kind != 0),
                Op::Look { .. } => looked |= oi > 0,
                Op::Drop { fault, .. } => {
                    dropped = true;
                    c[24] += u64::from(fault.mode != 0);
                }
                Op::Panic => panics += 1,
                Op::Sets { steps, sink, .. } => {
                    c[27] += steps.len() as u64;
                    c[14] += u64::from(sink.kind != 0);
                    history = history.max(steps.len());
                }
                Op::Many { .. } => c[3] += 1,
            }
        }
    }
    let mut fired = false;
    let mut big = false;
    for r in &o.recs {
        match r.kind.as_str() {
            "ok" => c[15] += 1,
            "err" => c[16] += 1,
            _ => c[17] += 1,
        }
        c[18] = c[18].max(r.edges);
        c[19] = c[19].max(r.peak);
        if let Some(Some(call)) = calls.get(r.op.wrapping_sub(1)) {
            if !p.fresh {
                c[21] = c[21].max(r.edges * 1000 / step_bound(call.weight()));
                c[22] = c[22].max(r.peak * 1000 / memory_bound(call.weight()));
            }
            big |= call.weight() >= 64;
        }
        if r.fired > 0 {
            fired = true;
            let op = p.threads.iter().flat_map(|t| &t.ops).nth(r.op - 1);
            if let Some(Op::Compile { fault, .. }) = op {
                c[6 + fault.mode.clamp(1, 3) as usize] += 1;
            }
        }
    }
    for b in &o.builts {
        c[if b.2 == "?" { 26 } else { 25 }] += 1;
    }
    for s in &o.stacks {
        c[20] = c[20].max(*s as u64);
    }
    let x = &o.stats;
    let nontrivial = match judge.prop.id {
        "C01" => x.preemptions > 0,
        "C02" => o.recs.len() >= 2,
        "C03" => fired,
        "C04" => x.allocs >= 8,
        "C05" => x.entropy_reads + x.clock_reads + x.env_reads > 0 || p.arena_mode != 0 || p.args != 0,
        "C06" => depth >= 100,
        "C07" => x.stalls > 0 || o.recs.iter().any(|r| r.edges >= 1000),
        "C08" => shared_db,
        "C09" => x.sink_faults > 0,
        "C11" => looked,
        "C12" => x.preemptions + x.stalls + x.reentries + x.sink_faults > 0,
        "C13" => dropped,
        "C15" => o.recs.len() >= 2 && o.recs.iter().any(|r| r.kind == "err"),
        "C16" => x.preemptions > 0 || o.dumps.len() >= 2,
        "C25" | "C26" | "C28" | "C29" => history >= 3,
        "C17" | "C18" | "C24" | "C27" => o.recs.len() >= 2 && o.builts.iter().any(|b| b.2 != "?"),
        "C14" => fired || x.preemptions > 0 || panics > 0,
        _ => big,
    };
    if nontrivial {
        c[5] += 1;
        let i = mix(o.digest) as usize & ((1 << 22) - 1);
        let b: &AtomicU8 = unsafe { &*(&sh.cov.events[i] as *const u8).cast() };
        if b.swap(1, Ordering::Relaxed) == 0 {
            sh.distinct.fetch_add(1, Ordering::Relaxed);
        }
    }
    if x.switches > 0 {
        let i = mix(x.sched_hash) as usize & ((1 << 22) - 1);
        let b: &AtomicU8 = unsafe { &*(&sh.cov.scheds[i] as *const u8).cast() };
        if b.swap(1, Ordering::Relaxed) == 0 {
            sh.interleavings.fetch_add(1, Ordering::Relaxed);
        }
    }
}

fn nesting(c: &Call) -> u64 {
    let mut best = 0;
    for e in &c.exprs {
        let mut d = 0i64;
        for b in e.bytes() {
            d += match b {
                b'(' => 1,
                b')' => -1,
                _ => 0,
            };
            best = best.max(d);
        }
    }
    best as u64
}

// -------------------------------------------------------------- minimising

fn smaller(p: &Plan) -> Vec<Plan> {
    let mut v = Vec::new();
    let mut push = |f: &dyn Fn(&mut Plan)| {
        let mut q = p.clone();
        f(&mut q);
        if q != *p {
            v.push(q);
        }
    };
    // Coarse first.
    for i in 0..p.threads.len() {
        if p.threads.len() > 1 {
            push(&|q| {
                q.threads.remove(i);
                for t in &mut q.threads {
                    t.after = match t.after {
                        Some(a) if a as usize == i => None,
                        Some(a) if a as usize > i => Some(a - 1),
                        a => a,
                    };
                }
                // A thread cannot wait for itself.
                for (j, t) in q.threads.iter_mut().enumerate() {
                    if t.after.map_or(false, |a| a as usize >= j) {
                        t.after = None;
                    }
                }
            });
        }
    }
    let n = p.segs.len();
    push(&|q| q.segs.clear());
    let mut chunk = n / 2;
    while chunk >= 1 {
        let mut at = 0;
        while at < n {
            push(&|q| drop(q.segs.drain(at..(at + chunk).min(n))));
            at += chunk;
        }
        chunk /= 2;
    }
    push(&|q| q.quantum = 2_000_000);
    for i in 0..p.threads.len() {
        let ops = p.threads[i].ops.len();
        if ops > 3 {
            push(&|q| drop(q.threads[i].ops.drain(..ops / 2)));
            push(&|q| drop(q.threads[i].ops.drain(ops / 2..)));
        }
        for j in 0..ops {
            push(&|q| drop(q.threads[i].ops.remove(j)));
        }
        push(&|q| q.threads[i].stall = None);
        push(&|q| q.threads[i].after = None);
        push(&|q| {
            if let Some((_, n)) = &mut q.threads[i].stall {
                *n = (*n / 2).max(1);
            }
        });
    }
    push(&|q| q.entropy_faults.clear());
    push(&|q| q.clock_jumps.clear());
    push(&|q| q.clock_base = Plan::default().clock_base);
    push(&|q| q.entropy = Plan::default().entropy);
    push(&|q| q.env = 0);
    push(&|q| q.quiet = false);
    push(&|q| q.spurious = 0);
    push(&|q| q.arena_mode = 0);
    push(&|q| q.arena_seed = 0);
    push(&|q| q.args = 0);
    for i in 0..p.threads.len() {
        for j in 0..p.threads[i].ops.len() {
            let op = |f: &dyn Fn(&mut Op)| {
                let mut q = p.clone();
                f(&mut q.threads[i].ops[j]);
                q
            };
            let mut add = |q: Plan| {
                if q != *p {
                    v.push(q);
                }
            };
            if let Op::Compile { .. } = &p.threads[i].ops[j] {
                add(op(&|o| if let Op::Compile { fault, .. } = o { *fault = AllocFault::default() }));
                add(op(&|o| if let Op::Compile { fault, .. } = o { if fault.mode == 2 { fault.mode = 1 } }));
                add(op(&|o| if let Op::Compile { fault, .. } = o { if fault.mode < 3 { fault.n /= 2 } }));
                add(op(&|o| if let Op::Compile { ctx, .. } = o { *ctx = 0 }));
                add(op(&|o| if let Op::Compile { slot, .. } = o { *slot = None }));
            }
            if let Op::Print { .. } | Op::Drop { .. } = &p.threads[i].ops[j] {
                add(op(&|o| {
                    if let Op::Print { fault, .. } | Op::Drop { fault, .. } = o {
                        *fault = AllocFault::default()
                    }
                }));
                add(op(&|o| {
                    if let Op::Print { ctx, .. } | Op::Drop { ctx, .. } = o {
                        *ctx = 0
                    }
                }));
                add(op(&|o| if let Op::Print { sink, .. } = o { *sink = Default::default() }));
                add(op(&|o| if let Op::Print { style, .. } = o { *style = 0 }));
                add(op(&|o| if let Op::Print { sink, .. } = o { sink.n /= 2 }));
            }
            if let Op::Soak { n, .. } = &p.threads[i].ops[j] {
                for m in [n / 8, n / 2, n * 3 / 4, n - n / 16, n.saturating_sub(1)] {
                    add(op(&|o| if let Op::Soak { n, .. } = o { *n = m.max(1) }));
                }
                add(op(&|o| if let Op::Soak { vary, .. } = o { *vary = false }));
            }
            if let Op::Dump { expr, .. } | Op::Many { expr, .. } = &p.threads[i].ops[j] {
                for e in shorter(expr) {
                    add(op(&|o| if let Op::Dump { expr, .. } | Op::Many { expr, .. } = o { *expr = e.clone() }));
                }
                add(op(&|o| if let Op::Dump { flags, .. } | Op::Many { flags, .. } = o { *flags = 0 }));
                add(op(&|o| if let Op::Dump { flags, .. } | Op::Many { flags, .. } = o { *flags &= 1 }));
                add(op(&|o| if let Op::Dump { sink, .. } = o { *sink = Default::default() }));
            }
            if let Op::Sets { steps, .. } = &p.threads[i].ops[j] {
                let n = steps.len();
                let set = |f: &dyn Fn(&mut Vec<Vec<u8>>)| {
                    op(&|o| if let Op::Sets { steps, .. } = o { f(steps) })
                };
                let mut chunk = n.div_ceil(2);
                while chunk >= 1 {
                    for at in (0..n).step_by(chunk) {
                        add(set(&|s| drop(s.drain(at..(at + chunk).min(n)))));
                    }
                    chunk /= 2;
                }
                for k in 0..n {
                    if steps[k].len() > 4 {
                        add(set(&|s| {
                            let to = (s[k].len() / 2).max(3);
                            s[k].truncate(to);
                        }));
                        add(set(&|s| drop(s[k].remove(2))));
                    }
                }
                add(op(&|o| if let Op::Sets { fault, .. } = o { *fault = AllocFault::default() }));
                add(op(&|o| if let Op::Sets { ctx, .. } = o { *ctx = 0 }));
                add(op(&|o| if let Op::Sets { sink, .. } = o { *sink = Default::default() }));
                add(op(&|o| if let Op::Sets { sink, .. } = o { sink.n /= 2 }));
            }
            let Some(call) = call_of(&p.threads[i].ops[j]) else { continue };
            let n = call.exprs.len();
            let edit = |f: &dyn Fn(&mut Call)| {
                op(&|o| match o {
                    Op::Compile { call, .. } | Op::Soak { call, .. } => f(call),
                    _ => {}
                })
            };
            if !call.single {
                let cut = |c: &mut Call, from: usize, to: usize| {
                    let (f, i) = (c.flags.len(), c.ids.len());
                    drop(c.exprs.drain(from..to));
                    drop(c.flags.drain(from.min(f)..to.min(f)));
                    drop(c.ids.drain(from.min(i)..to.min(i)));
                };
                let mut chunk = n / 2;
                let mut tries = 0;
                while chunk >= 1 && tries < 64 {
                    let mut at = 0;
                    while at < n && tries < 64 {
                        add(edit(&|c| cut(c, at, (at + chunk).min(n))));
                        at += chunk;
                        tries += 1;
                    }
                    chunk /= 2;
                }
            }
            for x in 0..n.min(8) {
                for e in shorter(&call.exprs[x]) {
                    add(edit(&|c| c.exprs[x] = e.clone()));
                }
            }
            add(edit(&|c| c.flags.iter_mut().for_each(|f| *f = 0)));
            for b in 0..11 {
                add(edit(&|c| c.flags.iter_mut().for_each(|f| *f &= !(1 << b))));
            }
            add(edit(&|c| c.ids.iter_mut().for_each(|f| *f = 0)));
            add(edit(&|c| c.mode = 0));
            if call.tune.is_some() {
                add(edit(&|c| c.tune = None));
                for k in 0..9 {
                    add(edit(&|c| c.tune.iter_mut().for_each(|t| t[k] = USUAL[k])));
                }
            }
        }
    }
    v
}

fn call_of(o: &Op) -> Option<&Call> {
    match o {
        Op::Compile { call, .. } | Op::Soak { call, .. } => Some(call),
        _ => None,
    }
}

fn shorter(s: &str) -> Vec<String> {
    let c: Vec<char> = s.chars().collect();
    let n = c.len();
    let mut v = Vec::new();
    let mut chunk = n / 2;
    while chunk >= 1 && v.len() < 40 {
        let mut at = 0;
        while at < n && v.len() < 40 {
            v.push(c[..at].iter().chain(&c[(at + chunk).min(n)..]).collect());
            at += chunk;
        }
        chunk /= 2;
    }
    v
}

/// Makes a plan that breaks the property smaller for as long as it still
/// breaks it in the same way.
pub fn minimise(judge: &mut Judge, p: Plan, mut found: Vec<Violation>, class: &str, secs: f64) -> (Plan, Vec<Violation>) {
    let start = Instant::now();
    let mut best = p;
    // Each trial of a hang costs its full time limit.
    let limit = if class == "hang" { 3 } else { 20 };
    'again: while start.elapsed().as_secs_f64() < secs {
        for q in smaller(&best) {
            if start.elapsed().as_secs_f64() > secs {
                break;
            }
            if q.threads.iter().all(|t| t.ops.is_empty()) {
                continue;
            }
            let (_, v) = judge.judge(&q, limit);
            if v.iter().any(|x| x.class == class) {
                best = q;
                found = v;
                continue 'again;
            }
        }
        break;
    }
    found.retain(|x| x.class == class);
    (best, found)
}

// ------------------------------------------------------------------- main

pub fn main() -> i32 {
    let a: Vec<String> = std::env::args().collect();
    let flag = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned();
    let num = |n: &str, d: f64| flag(n).and_then(|x| x.parse::<f64>().ok()).unwrap_or(d);
    let find = |id: &str| PROPS.iter().find(|p| p.id == id);
    match a.get(1).map(String::as_str) {
        Some("check") => {
            let Some(prop) = a.get(2).and_then(|id| find(id)) else { return usage() };
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1u64);
            let tier = if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") { "thorough" } else { "quick" };
            let runs = if tier == "thorough" { prop.thorough } else { prop.quick };
            let s = Search {
                prop,
                seed,
                runs: num("--runs", runs as f64) as u64,
                workers: num("--workers", std::thread::available_parallelism().map_or(8, |n| n.get()) as f64).min(64.0) as usize,
                cap: num("--cap", if tier == "thorough" { 3600.0 } else { 200.0 }),
                dict: Dict::load("/repo/src"),
            };
            report::check(&s, tier, flag("--carry"), flag("--keep"))
        }
        Some("replay") => report::replay(a.get(2).map_or("", String::as_str)),
        Some("plan") => {
            let Some(prop) = a.get(2).and_then(|id| find(id)) else { return usage() };
            let s = Search { prop, seed: num("--seed", 1.0) as u64, runs: 0, workers: 1, cap: 0.0, dict: Dict::load("/repo/src") };
            let p = s.plan(a.get(3).and_then(|x| x.parse().ok()).unwrap_or(0));
            print!("{}", p.text());
            if a.iter().any(|x| x == "--run") {
                let mut j = Judge::new(prop);
                let (o, v) = j.judge(&p, 60);
                println!("done {} signal {} {v:?}", o.done, o.signal);
                for r in &o.recs {
                    println!("{r:?}");
                }
                println!("{:?} {:?}", o.rounds, o.stacks);
            }
            if Plan::parse(&p.text()).as_ref() != Some(&p) {
                println!("DOES NOT READ BACK");
                return 2;
            }
            0
        }
        Some("selftest") => report::selftest(find(a.get(2).map_or("", String::as_str)), num("--runs", 2000.0) as u64),
        _ => usage(),
    }
}

fn usage() -> i32 {
    eprintln!("simulator check ID | replay FILE | plan ID INDEX [--run] | selftest [ID]");
    2
}
