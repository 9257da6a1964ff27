//! The properties: what a run for each looks like, and what counts as broken.
use crate::gen::{self, Dict, Taste, LARGE, MIXED, SMALL};
use crate::kern::{AllocFault, Seg, ALLOC, EDGE, HOT, SYNC};
use crate::plan::{Call, Op, Plan, Sink, Thread, STACK};
use crate::rng::Rng;

pub struct Prop {
    pub id: &'static str,
    /// What is evidence against the property, among all that runs report.
    pub classes: &'static [&'static str],
    pub quick: u64,
    pub thorough: u64,
    pub make: fn(&mut Rng, &mut World) -> Plan,
    pub rule: &'static str,
}

/// What the plans of an epoch share.
pub struct World<'a> {
    pub dict: &'a Dict,
    pub pool: Vec<String>,
    pub calls: Vec<Call>,
    /// Allocations and steps of a call on its own, and whether it is refused.
    pub cost: &'a mut dyn FnMut(&Call) -> (u64, u64, bool),
}

/// Bound on the basic blocks of library code that a call may enter.
pub fn step_bound(weight: u64) -> u64 {
    100_000 + 800 * weight
}
/// Bound on the bytes a call may have allocated at any moment.
pub fn memory_bound(weight: u64) -> u64 {
    262_144 + 1_000 * weight
}

pub const PROPS: &[Prop] = &[
    Prop {
        id: "C01",
        classes: &["mismatch", "panic", "crash", "hang", "deadlock", "memory", "steps", "soak", "memlimit"],
        quick: 60000,
        thorough: 3000000,
        make: c01,
        rule: "a run is 2 to 6 threads with 1 to 4 compile calls each under one seeded schedule; non-trivial if a thread was preempted inside a call at least once",
    },
    Prop {
        id: "C02",
        classes: &["mismatch", "panic", "crash", "hang", "deadlock", "memory", "steps", "soak", "memlimit"],
        quick: 4000,
        thorough: 150000,
        make: c02,
        rule: "a run is a history of 3 to 40 operations and soaks of up to 131,072 calls on one or more threads, each compile compared with the same call in a fresh process; non-trivial if at least two calls were compared",
    },
    Prop {
        id: "C03",
        classes: &["mismatch", "contained", "crash", "hang", "deadlock", "memory", "leak", "steps", "memlimit"],
        quick: 20000,
        thorough: 1000000,
        make: c03,
        rule: "a run is 1 to 3 threads with calls of which at least one meets a failing allocation; non-trivial if the allocation failure was reached",
    },
    Prop {
        id: "C04",
        classes: &["leak", "growth"],
        quick: 8000,
        thorough: 300000,
        make: c04,
        rule: "a run is a history of compile, print and drop operations on one or more threads after which the allocator must be empty; non-trivial if calls allocated at least 8 blocks",
    },
    Prop {
        id: "C05",
        classes: &["mismatch", "panic", "crash", "hang", "deadlock", "memory", "steps", "memlimit"],
        quick: 60000,
        thorough: 3000000,
        make: c05,
        rule: "a run repeats calls under a different entropy stream, clock, environment, memory layout or calling context and compares with the canonical one; non-trivial if at least one of them was consulted or differed",
    },
    Prop {
        id: "C06",
        classes: &["crash"],
        quick: 8000,
        thorough: 300000,
        make: c06,
        rule: "a run is one call with a nested expression on a stack of exactly the stated size, with or without a failing allocation; non-trivial if the expression nests at least 100 deep",
    },
    Prop {
        id: "C07",
        classes: &["panic", "crash", "hang", "blocked", "deadlock", "steps", "memlimit"],
        quick: 50000,
        thorough: 2500000,
        make: c07,
        rule: "a run is 1 to 4 callers of which some are stopped inside a call until all others are done; non-trivial if a caller was stopped inside a call, or a call entered 1,000 basic blocks or more",
    },
    Prop {
        id: "C08",
        classes: &["scan", "dbchanged", "notsync", "leak", "memory", "crash", "hang", "panic", "deadlock", "memlimit"],
        quick: 60000,
        thorough: 3000000,
        make: c08,
        rule: "a run hands databases from compiling threads to scanning and dropping ones under one seeded schedule; non-trivial if a database was used by a thread other than its maker",
    },
    Prop {
        id: "C09",
        classes: &["sink", "printed", "crash", "hang", "steps"],
        quick: 150000,
        thorough: 6000000,
        make: c09,
        rule: "a run prints errors and parse trees into sinks that fail at a seeded point; non-trivial if a sink refused a write",
    },
    Prop {
        id: "C10",
        classes: &["mismatch", "memlimit", "crash"],
        quick: 20000,
        thorough: 1000000,
        make: c10,
        rule: "a run is one or more calls with an allocator that refuses to go beyond the budget; non-trivial if the expressions of a call come to 64 bytes or more",
    },
    Prop {
        id: "C11",
        classes: &["changed", "errnotsync", "memory", "crash"],
        quick: 30000,
        thorough: 1500000,
        make: c11,
        rule: "a run makes results, keeps them through other calls, cut-short calls, soaks, drops and thread exits on several threads, and looks at them again; non-trivial if a result was looked at after another operation",
    },
    Prop {
        id: "C12",
        classes: &["sink", "printed", "mismatch", "panic", "crash", "hang", "deadlock", "blocked", "memory", "steps"],
        quick: 60000,
        thorough: 3000000,
        make: c12,
        rule: "a run makes errors and prints them on several threads at once, into sinks that fail or call the library again, from destructors, with failing allocations and with callers stopped for good; non-trivial if a thread was preempted or stopped, or a sink failed or called the library",
    },
    Prop {
        id: "C13",
        classes: &["drop", "panic", "crash", "hang", "deadlock", "blocked", "memory", "steps", "leak"],
        quick: 60000,
        thorough: 3000000,
        make: c13,
        rule: "a run makes results and drops them while the allocator refuses all memory, on a stack of 256 KiB, from destructors, and while other callers are stopped for good; non-trivial if a result was dropped so",
    },
    Prop {
        id: "C14",
        classes: &["effect"],
        quick: 60000,
        thorough: 3000000,
        make: c14,
        rule: "a run makes, prints, scans with and drops results on several threads, with failing allocations and panics of the program's own in between, over a system that notes what is asked of it; non-trivial if an allocation failed, a thread was preempted or the program panicked",
    },
    Prop {
        id: "C15",
        classes: &["rule"],
        quick: 120000,
        thorough: 6000000,
        make: c15,
        rule: "a run is a history of 1 to 18 calls on 1 to 3 threads, with failing allocations, stopped callers and other environments, and what every call returns is compared with a model of the rules; non-trivial if at least two calls returned, one of them an error",
    },
    Prop {
        id: "C16",
        classes: &["tree"],
        quick: 120000,
        thorough: 6000000,
        make: c16,
        rule: "a run is a history of 1 to 12 parses on 1 to 3 threads, with other calls, failing sinks and failing allocations in between, and every tree is compared with a model of the grammar; non-trivial if a thread was preempted or at least two trees were compared",
    },
    Prop {
        id: "C17",
        classes: &["built"],
        quick: 100000,
        thorough: 5000000,
        make: c17,
        rule: "a run is a history of 1 to 15 calls on 1 to 3 threads, with failing allocations, stopped callers and other environments; the properties, literals and graphs that every successful call makes of its expressions are compared with a model; non-trivial if at least two calls returned and something could be compared",
    },
    Prop {
        id: "C18",
        classes: &["built"],
        quick: 100000,
        thorough: 5000000,
        make: c17,
        rule: "a run is a history of 1 to 15 calls on 1 to 3 threads, with failing allocations, stopped callers and other environments; the tries, reports, match ids and exhaustion keys that every successful call ends up with are compared with a model; non-trivial if at least two calls returned and something could be compared",
    },
    Prop {
        id: "C24",
        classes: &["rule", "built"],
        quick: 100000,
        thorough: 3000000,
        make: c24,
        rule: "a run is a history of 1 to 15 batches on 1 to 3 threads, most with fewer or more flags or ids than expressions, with failing allocations, stopped callers and other environments; verdicts and what is built are compared with a model; non-trivial if at least two calls returned and something built could be compared",
    },
    Prop {
        id: "C25",
        classes: &["set", "sink", "crash", "hang", "deadlock", "memory", "steps", "memlimit"],
        quick: 200000,
        thorough: 8000000,
        make: c25,
        rule: "a run is 1 to 9 histories of up to 60 operations on four character sets, on 1 to 3 threads, with failing allocations and sinks, stopped callers and backward ranges; after every operation every byte is compared with a model, and every answer; non-trivial if a history has three operations or more",
    },
    Prop {
        id: "C26",
        classes: &["described", "sink", "crash", "hang", "deadlock", "memory", "steps", "memlimit"],
        quick: 150000,
        thorough: 6000000,
        make: c26,
        rule: "a run is 1 to 9 histories of up to 40 operations on four character sets that are described on the way, on 1 to 3 threads, with failing sinks and allocations and stopped callers; every description is read back and compared with a model of the set; non-trivial if a history has three operations or more",
    },
    Prop {
        id: "C28",
        classes: &["value", "crash", "hang", "deadlock", "memory", "steps", "memlimit"],
        quick: 150000,
        thorough: 8000000,
        make: c28,
        rule: "a run is 1 to 9 histories of up to 40 operations on four literals, and of questions about depths and alignments, on 1 to 3 threads, with failing allocations and stopped callers; after every operation the literal is read back and compared with a model, and so is every answer; non-trivial if a history has three operations or more",
    },
    Prop {
        id: "C29",
        classes: &["report", "crash", "hang", "deadlock", "memory", "steps", "memlimit"],
        quick: 150000,
        thorough: 8000000,
        make: c29,
        rule: "a run is 1 to 9 histories of up to 80 operations on the reports of a batch (numbers of reports, match ids, exhaustion keys) with limits near what they need, on 1 to 3 threads, with failing allocations and stopped callers; every answer is compared with a model, and all again in the end; non-trivial if a history has three operations or more",
    },
    Prop {
        id: "C27",
        classes: &["rule", "built"],
        quick: 80000,
        thorough: 3000000,
        make: c27,
        rule: "a run is a history of 1 to 15 batches on 1 to 3 threads, each with limits of its own near what it needs, with failing allocations, stopped callers and other environments; verdicts and what is built are compared with a model; non-trivial if at least two calls returned and something built could be compared",
    },
];

// ------------------------------------------------------------- ingredients

fn thread(ops: Vec<Op>) -> Thread {
    Thread { stack: STACK, stall: None, after: None, ops }
}

fn compile(call: Call) -> Op {
    Op::Compile { call, slot: None, ctx: 0, fault: AllocFault::default() }
}

impl World<'_> {
    /// One of the epoch's calls, or a near twin.
    fn call(&mut self, r: &mut Rng, t: Taste) -> Call {
        if self.calls.len() < 14 || r.pct(8) {
            let c = gen::call(r, self.dict, t, &mut self.pool);
            if self.calls.len() < 14 {
                self.calls.push(c.clone());
            } else {
                let i = r.below(self.calls.len());
                self.calls[i] = c.clone();
            }
            return c;
        }
        let mut c = r.pick(&self.calls).clone();
        if r.pct(12) {
            self.twin(r, &mut c);
        }
        c
    }

    fn twin(&mut self, r: &mut Rng, c: &mut Call) {
        match r.below(4) {
            0 => c.mode = r.below(6) as u8,
            1 if !c.flags.is_empty() => {
                let i = r.below(c.flags.len());
                c.flags[i] ^= 1 << r.below(11);
            }
            2 if !c.ids.is_empty() && !c.single => {
                let i = r.below(c.ids.len());
                c.ids[i] = [0, 1, 2, 7][r.below(4)];
            }
            _ if !c.exprs.is_empty() => {
                let i = r.below(c.exprs.len());
                c.exprs[i] = gen::expr(r, self.dict, SMALL, &self.pool);
            }
            _ => {}
        }
    }
}

/// A schedule for `n` threads whose work comes to about `steps` events.
fn schedule(r: &mut Rng, p: &mut Plan, steps: u64) {
    let n = p.threads.len();
    let steps = steps.clamp(4, 2_000_000) as usize;
    let seg = |mask: u8, count: usize, r: &mut Rng| Seg { mask, count: count as u32, target: r.below(n) as u8 };
    match r.below(8) {
        // A few preemptions at uniformly chosen steps.
        0 | 1 => {
            for _ in 0..r.range(1, 6) {
                let c = r.range(1, steps);
                p.segs.push(seg(EDGE, c, r));
            }
        }
        // Slices of all scales.
        2 | 3 => {
            for _ in 0..r.range(4, 120) {
                let c = r.log(steps);
                p.segs.push(seg(EDGE, c, r));
            }
        }
        // Switches around shared memory, locks and the allocator.
        4 => {
            for _ in 0..r.range(4, 200) {
                let m = [HOT, HOT | SYNC, HOT | ALLOC, SYNC | ALLOC, HOT | SYNC | ALLOC][r.below(5)];
                let c = r.log(6);
                p.segs.push(seg(m, c, r));
            }
        }
        5 => {
            for _ in 0..r.range(2, 60) {
                let c = r.log(40);
                let m = if r.pct(50) { ALLOC } else { HOT };
                p.segs.push(seg(m, c, r));
                let c = r.log(200);
                p.segs.push(seg(EDGE, c, r));
            }
        }
        // Round robin with a fixed slice.
        6 => p.quantum = r.log(steps.min(20_000)).max(steps / 20_000) as u32,
        // One long run-up, then fine slices.
        _ => {
            let c = r.range(1, steps);
            p.segs.push(seg(EDGE, c, r));
            for _ in 0..r.range(10, 150) {
                let c = r.log(12);
                p.segs.push(seg(EDGE, c, r));
            }
        }
    }
    p.spurious = if r.pct(30) { r.next() | 1 } else { 0 };
}

fn total_steps(w: &mut World, p: &Plan) -> u64 {
    let mut s = 0;
    for t in &p.threads {
        for o in &t.ops {
            s += match o {
                Op::Compile { call, .. } => (w.cost)(call).1,
                Op::Soak { call, n, .. } => (w.cost)(call).1 * u64::from(*n),
                _ => 30,
            };
        }
    }
    s
}

fn layout(r: &mut Rng, p: &mut Plan) {
    p.arena_mode = r.below(3) as u8;
    p.arena_seed = r.next();
    p.args = r.below(3) as u8;
}

fn sink(r: &mut Rng) -> Sink {
    let kind = r.below(6) as u8;
    let n = match kind {
        2 | 5 => r.log(160) as u32 - 1,
        _ => r.log(24) as u32 - 1,
    };
    Sink { kind, n }
}

fn alloc_fault(r: &mut Rng, allocs: u64) -> AllocFault {
    let n = r.below(allocs.max(1) as usize) as u64;
    match r.below(10) {
        0..=5 => AllocFault { mode: 1, n },
        6..=8 => AllocFault { mode: 2, n },
        _ => AllocFault { mode: 3, n: r.log(20_000) as u64 },
    }
}

// -------------------------------------------------------------- properties

fn c01(r: &mut Rng, w: &mut World) -> Plan {
    let mut p = Plan::default();
    let most = if r.pct(80) { 3 } else { 6 };
    let n = r.range(2, most);
    let same = r.pct(25).then(|| w.call(r, SMALL));
    for _ in 0..n {
        let mut ops = Vec::new();
        let most = if r.pct(75) { 2 } else { 4 };
        for _ in 0..r.range(1, most) {
            let c = match &same {
                Some(c) => {
                    let mut c = c.clone();
                    if r.pct(40) {
                        w.twin(r, &mut c);
                    }
                    c
                }
                None => {
                    let t = if r.pct(95) { SMALL } else { MIXED };
                    w.call(r, t)
                }
            };
            ops.push(compile(c));
        }
        if r.pct(2) {
            let call = w.call(r, SMALL);
            ops.push(Op::Soak { call, n: r.log(200) as u32, vary: r.pct(50) });
        }
        p.threads.push(thread(ops));
    }
    if r.pct(15) {
        let i = r.range(1, n - 1);
        p.threads[i].after = Some(r.below(i) as u8);
    }
    layout(r, &mut p);
    let s = total_steps(w, &p);
    schedule(r, &mut p, s);
    p
}

fn c02(r: &mut Rng, w: &mut World) -> Plan {
    let mut p = Plan { quantum: 2_000_000, ..Plan::default() };
    let n = if r.pct(60) { 1 } else { r.range(2, 4) };
    let taste = match r.below(40) {
        0 => LARGE,
        1..=6 => MIXED,
        _ => SMALL,
    };
    let mut budget = if r.pct(15) { 40 } else { 12 };
    for i in 0..n {
        let mut ops = Vec::new();
        let mut open: Vec<u8> = Vec::new();
        for _ in 0..r.range(2, budget.max(3)) {
            match r.below(20) {
                0..=11 => ops.push(compile(w.call(r, taste))),
                12 | 13 if open.len() < 10 => {
                    let s = (i * 16 + open.len()) as u8;
                    open.push(s);
                    let call = w.call(r, taste);
                    ops.push(Op::Compile { call, slot: Some(s), ctx: 0, fault: AllocFault::default() });
                }
                14 if !open.is_empty() => ops.push(Op::drop(*r.pick(&open))),
                15 if !open.is_empty() => {
                    ops.push(Op::print(*r.pick(&open), r.below(4) as u8, sink(r)));
                }
                16 => {
                    let call = w.call(r, taste);
                    let fault = alloc_fault(r, (w.cost)(&call).0);
                    ops.push(Op::Compile { call: call.clone(), slot: None, ctx: 0, fault });
                    if r.pct(40) {
                        ops.push(compile(call));
                    }
                }
                17 if !open.is_empty() => ops.push(Op::Scan { slot: *r.pick(&open), len: r.log(64) as u32 }),
                18 => {
                    let call = w.call(r, taste);
                    ops.push(Op::Compile { call, slot: None, ctx: r.range(0, 1) as u8, fault: AllocFault::default() });
                }
                _ => {
                    // A long history of short calls.
                    let call = Call {
                        exprs: vec![["a", "ab", "(a|b)", "(", "fooBar"][r.below(5)].into()],
                        flags: vec![[0, 1, 8][r.below(3)]],
                        ids: vec![r.below(3) as u32],
                        mode: r.below(6) as u8,
                        single: r.pct(50),
                        tune: None,
                    };
                    let n = match r.below(100) {
                        0 => 66_000 + r.below(4_000),
                        // Where counters wrap, or just before.
                        1 => (1 << r.range(15, 17)) - r.below(6),
                        2 | 3 => (1 << r.range(6, 14)) - r.below(6),
                        4 => w.dict.number(r, 20_000).max(1),
                        5..=15 => r.log(4_200),
                        _ => r.log(300),
                    };
                    ops.push(Op::Soak { call, n: n as u32, vary: r.pct(40) });
                }
            }
        }
        // Probe at the end of the history.
        for _ in 0..r.range(1, 3) {
            ops.push(compile(w.call(r, taste)));
        }
        let mut t = thread(ops);
        if i > 0 {
            t.after = Some((i - 1) as u8);
        }
        p.threads.push(t);
        budget = 8;
    }
    layout(r, &mut p);
    p
}

fn c03(r: &mut Rng, w: &mut World) -> Plan {
    let mut p = Plan::default();
    let taste = if r.pct(85) { SMALL } else { MIXED };
    let n = [1, 1, 1, 2, 2, 3][r.below(6)];
    let mut left: Vec<Call> = Vec::new();
    for i in 0..n {
        let mut ops = Vec::new();
        let faulty = r.below(2);
        for j in 0..r.range(2, 4) {
            let mut call = w.call(r, taste);
            if r.pct(60) {
                call = or_many(r, call);
            }
            if r.pct(25) {
                // Faults on the way to an error.
                for _ in 0..6 {
                    if (w.cost)(&call).2 {
                        break;
                    }
                    call = w.call(r, taste);
                }
            }
            let fault = if (j == faulty && (i == 0 || r.pct(50))) || r.pct(20) {
                let a = (w.cost)(&call).0;
                alloc_fault(r, a)
            } else {
                AllocFault::default()
            };
            let ctx = u8::from(r.pct(10));
            let again = fault.mode != 0 && r.pct(60);
            if again {
                left.push(call.clone());
            }
            ops.push(Op::Compile { call: call.clone(), slot: None, ctx, fault });
            if again && r.pct(70) {
                ops.push(compile(call));
            }
        }
        // What was cut short, again, here or on another thread.
        for call in left.drain(..r.below(left.len() + 1)) {
            ops.push(compile(call));
        }
        p.threads.push(thread(ops));
    }
    layout(r, &mut p);
    if n > 1 {
        let s = total_steps(w, &p);
        schedule(r, &mut p, s);
    }
    p
}

/// The call, or at times one with many groups or alternatives.
fn or_many(r: &mut Rng, mut call: Call) -> Call {
    if r.pct(5) {
        let i = r.below(call.exprs.len().max(1));
        if let Some(e) = call.exprs.get_mut(i) {
            *e = gen::many(r);
        }
    }
    call
}

fn c04(r: &mut Rng, w: &mut World) -> Plan {
    let mut p = Plan::default();
    let taste = match r.below(20) {
        0 => LARGE,
        1..=5 => MIXED,
        _ => SMALL,
    };
    let n = [1, 1, 1, 2, 3][r.below(5)];
    let mut slot = 0u8;
    for i in 0..n {
        let mut ops = Vec::new();
        for _ in 0..r.range(1, 8) {
            match r.below(12) {
                0..=5 => {
                    let call = w.call(r, taste);
                    ops.push(compile(or_many(r, call)));
                },
                6 | 7 if slot < 60 => {
                    let call = w.call(r, taste);
                    let call = or_many(r, call);
                    let ctx = u8::from(r.pct(15));
                    ops.push(Op::Compile { call, slot: Some(slot), ctx, fault: AllocFault::default() });
                    slot += 1;
                }
                8 if slot > 0 => ops.push(Op::drop(r.below(slot as usize) as u8)),
                9 if slot > 0 => {
                    let s = r.below(slot as usize) as u8;
                    ops.push(Op::print(s, r.below(4) as u8, sink(r)));
                }
                10 => {
                    let call = w.call(r, SMALL);
                    let n = match r.below(20) {
                        0 => r.range(1_000, 5_000),
                        _ => r.log(400),
                    };
                    ops.push(Op::Soak { call, n: n as u32, vary: r.pct(60) });
                }
                _ => {
                    let call = w.call(r, taste);
                    let call = or_many(r, call);
                    let ctx = [0, 2, 3][r.below(3)];
                    ops.push(Op::Compile { call, slot: None, ctx, fault: AllocFault::default() });
                }
            }
        }
        let mut t = thread(ops);
        if i > 0 && r.pct(30) {
            t.after = Some(r.below(i) as u8);
        }
        p.threads.push(t);
    }
    layout(r, &mut p);
    if n > 1 {
        let s = total_steps(w, &p);
        schedule(r, &mut p, s);
    }
    p
}

fn c05(r: &mut Rng, w: &mut World) -> Plan {
    let mut p = Plan::default();
    let n = [1, 1, 1, 2][r.below(4)];
    for _ in 0..n {
        let mut ops = Vec::new();
        for _ in 0..r.range(1, 3) {
            let t = match r.below(40) {
                0 => LARGE,
                1..=6 => MIXED,
                _ => SMALL,
            };
            let call = w.call(r, t);
            let ctx = match r.below(10) {
                0..=4 => 0,
                5 | 6 => r.range(1, 3) as u8,
                7 | 8 => r.range(4, 9) as u8,
                _ => 10,
            };
            ops.push(Op::Compile { call, slot: None, ctx, fault: AllocFault::default() });
        }
        p.threads.push(thread(ops));
    }
    layout(r, &mut p);
    // What is not varied in a run stays canonical, so that a violation says
    // more about its cause.
    if r.pct(80) {
        p.entropy = if r.pct(10) { 0 } else { r.next() };
    }
    if r.pct(30) {
        p.entropy_faults = (0..r.range(1, 6)).map(|_| r.below(4) as u8).collect();
    }
    if r.pct(50) {
        p.clock_base = match r.below(4) {
            0 => 0,
            1 => r.log(1 << 40) as u64,
            2 => 4_000_000_000_000_000_000,
            _ => r.next() >> 3,
        };
        p.clock_jumps = (0..r.below(8))
            .map(|_| {
                let j = r.log(1 << 55) as i64;
                if r.pct(50) {
                    -j
                } else {
                    j
                }
            })
            .collect();
    }
    if r.pct(50) {
        p.env = r.next() | 1;
    }
    if n > 1 {
        let s = total_steps(w, &p);
        schedule(r, &mut p, s);
    }
    p
}

fn c06(r: &mut Rng, _: &mut World) -> Plan {
    let len = match r.below(4) {
        0 => r.range(15_950, 16_000),
        1 | 2 => r.range(8_000, 16_000),
        _ => r.log(16_000),
    };
    let mut e = gen::deep(r, len);
    if r.pct(25) {
        // Several shapes nested in one another.
        let k = r.range(2, 4);
        e = (0..k).map(|_| gen::deep(r, len / k)).collect();
    }
    if r.pct(15) {
        // A few stray characters.
        for _ in 0..r.range(1, 3) {
            let at = r.below(e.len() + 1);
            e.insert(at, *r.pick(&['a', 'B', '(', ')', '|', '*']));
        }
    }
    e.truncate(16_000);
    let call = Call { exprs: vec![e], flags: vec![gen::flags(r)], ids: vec![r.below(3) as u32], mode: r.below(6) as u8, single: r.pct(50), tune: None };
    let fault = match r.below(10) {
        0..=5 => AllocFault::default(),
        6..=8 => AllocFault { mode: 1 + r.below(2) as u8, n: r.log(60_000) as u64 },
        _ => AllocFault { mode: 3, n: r.log(8 << 20) as u64 },
    };
    let stack = if cfg!(debug_assertions) { 8 << 20 } else { 2 << 20 };
    let ctx = u8::from(r.pct(10));
    let mut p = Plan {
        threads: vec![Thread { stack, stall: None, after: None, ops: vec![Op::Compile { call, slot: Some(0), ctx, fault }, Op::print(0, 0, Sink::default()), Op::drop(0)] }],
        observe: false,
        ..Plan::default()
    };
    layout(r, &mut p);
    p
}

fn c07(r: &mut Rng, w: &mut World) -> Plan {
    let mut p = Plan::default();
    if r.next() % 200 < 3 {
        p.threads.push(thread(vec![compile(gen::stress(r, w.dict))]));
        p.observe = false;
        layout(r, &mut p);
        return p;
    }
    if r.next() % 1000 < 7 {
        // Does the fifty-thousandth call take longer than the first?
        let mut ops = Vec::new();
        for _ in 0..r.range(1, 2) {
            let e = ["a", "ab", "(a|b)", "(", "fooBar", "a)", "(*X)", "(a)(b)"][r.below(8)];
            let k = if r.pct(80) { 1 } else { 3 };
            let call = Call {
                exprs: vec![e.into(); k],
                flags: vec![[0, 1, 8][r.below(3)]; k],
                ids: (0..k).map(|_| r.below(3) as u32).collect(),
                mode: r.below(6) as u8,
                single: k == 1 && r.pct(50),
                tune: None,
            };
            let n = [2_000, 5_000, 10_000, 30_000, if k == 1 { 67_000 } else { 20_000 }][r.below(5)];
            ops.push(Op::Soak { call, n, vary: r.pct(80) });
        }
        ops.push(compile(w.call(r, SMALL)));
        p.threads.push(thread(ops));
        p.observe = false;
        p.quiet = true;
        layout(r, &mut p);
        return p;
    }
    let n = if r.pct(30) { 1 } else { r.range(2, 4) };
    for i in 0..n {
        let mut ops = Vec::new();
        for _ in 0..r.range(1, 3) {
            let t = match r.below(20) {
                0 => LARGE,
                1..=4 => MIXED,
                _ => SMALL,
            };
            let call = w.call(r, t);
            let ctx = [0, 0, 0, 0, 0, 1, 2, 3][r.below(8)];
            ops.push(Op::Compile { call, slot: None, ctx, fault: AllocFault::default() });
        }
        let mut t = thread(ops);
        if n > 1 && (i == 0 || r.pct(40)) {
            let s: u64 = t.ops.iter().map(|o| if let Op::Compile { call, .. } = o { (w.cost)(call).1 } else { 0 }).sum();
            t.stall = Some(match r.below(4) {
                0 => (ALLOC, r.log(60) as u32),
                1 => (HOT | SYNC, r.log(8) as u32),
                _ => (EDGE, r.range(1, s.clamp(2, 4_000_000) as usize) as u32),
            });
        }
        p.threads.push(t);
    }
    p.observe = false;
    layout(r, &mut p);
    if n > 1 {
        let s = total_steps(w, &p);
        schedule(r, &mut p, s);
    }
    p
}

fn c08(r: &mut Rng, w: &mut World) -> Plan {
    let mut p = Plan { probe: true, ..Plan::default() };
    let makers = r.range(1, 2);
    let users = r.range(1, 3);
    let mut slots = 0u8;
    for _ in 0..makers {
        let mut ops = Vec::new();
        for _ in 0..r.range(1, 2) {
            let mut call = w.call(r, SMALL);
            if r.pct(60) {
                // Databases, not errors.
                call = Call {
                    exprs: (0..r.range(1, 3)).map(|_| gen::literal(r, 3).replace(['[', '*'], "x")).collect(),
                    ..Call::default()
                };
                call.flags = call.exprs.iter().map(|_| [0, 1, 0x100][r.below(3)]).collect();
                call.ids = call.exprs.iter().map(|_| r.below(3) as u32).collect();
                call.mode = r.below(6) as u8;
            }
            ops.push(Op::Compile { call, slot: Some(slots), ctx: u8::from(r.pct(8)), fault: AllocFault::default() });
            slots += 1;
        }
        if r.pct(40) {
            ops.push(Op::Scan { slot: slots - 1, len: r.log(64) as u32 });
        }
        p.threads.push(thread(ops));
    }
    for _ in 0..users {
        let mut ops = Vec::new();
        for _ in 0..r.range(1, 5) {
            let slot = r.below(slots as usize) as u8;
            ops.push(match r.below(6) {
                0 => Op::drop(slot),
                1 => compile(w.call(r, SMALL)),
                _ => Op::Scan { slot, len: r.log(300) as u32 - 1 },
            });
        }
        let mut t = thread(ops);
        if r.pct(20) {
            t.after = Some(r.below(makers) as u8);
        }
        p.threads.push(t);
    }
    layout(r, &mut p);
    let s = total_steps(w, &p);
    schedule(r, &mut p, s);
    p
}

fn c11(r: &mut Rng, w: &mut World) -> Plan {
    let mut p = Plan { probe: true, ..Plan::default() };
    let makers = r.range(1, 2);
    let mut slots = 0u8;
    let quiet = r.pct(25);
    let one = |r: &mut Rng, w: &mut World, i: usize, lookers: bool, slots: &mut u8| {
        let mut ops = Vec::new();
        for _ in 0..r.range(2, 10) {
            let kind = if *slots == 0 || (ops.is_empty() && !lookers) { 0 } else { r.below(16) };
            match kind {
                0..=4 if *slots < 60 && !lookers => {
                    let t = if r.pct(92) { SMALL } else { MIXED };
                    let mut call = w.call(r, t);
                    for _ in 0..3 {
                        if (w.cost)(&call).2 {
                            break;
                        }
                        call = w.call(r, SMALL);
                    }
                    let ctx = if r.pct(12) { [1, 2, 3, 4, 6][r.below(5)] } else { 0 };
                    ops.push(Op::Compile { call, slot: Some(*slots), ctx, fault: AllocFault::default() });
                    *slots += 1;
                }
                0..=6 => ops.push(compile(w.call(r, SMALL))),
                7 => {
                    let call = w.call(r, SMALL);
                    let fault = if quiet { AllocFault::default() } else { alloc_fault(r, (w.cost)(&call).0) };
                    ops.push(Op::Compile { call, slot: None, ctx: 0, fault });
                }
                8 => {
                    let call = w.call(r, SMALL);
                    ops.push(Op::Soak { call, n: r.log(300) as u32, vary: r.pct(50) });
                }
                9 => ops.push(Op::drop(r.below(*slots as usize) as u8)),
                10 => ops.push(Op::print(r.below(*slots as usize) as u8, r.below(4) as u8, sink(r))),
                11 => ops.push(Op::Scan { slot: r.below(*slots as usize) as u8, len: r.log(64) as u32 }),
                _ => ops.push(Op::Look { slot: r.below(*slots as usize) as u8 }),
            }
        }
        let mut t = thread(ops);
        if i > 0 && r.pct(35) {
            t.after = Some(r.below(i) as u8);
        }
        t
    };
    for i in 0..makers {
        let t = one(r, w, i, false, &mut slots);
        p.threads.push(t);
    }
    for i in 0..r.below(3) {
        let t = one(r, w, makers + i, true, &mut slots);
        p.threads.push(t);
    }
    layout(r, &mut p);
    if r.pct(60) {
        p.args = r.below(2) as u8;
    }
    if p.threads.len() > 1 {
        let s = total_steps(w, &p);
        schedule(r, &mut p, s);
    }
    p
}

fn c09(r: &mut Rng, w: &mut World) -> Plan {
    let mut p = Plan::default();
    let mut ops = Vec::new();
    for _ in 0..r.range(1, 3) {
        if r.pct(45) {
            let mut call = w.call(r, SMALL);
            if r.pct(50) {
                // Most of the calls should have something to print.
                let e = ["(", ")", "(*", "a(b(c", "é", "(*FOO)a", "x)y", "aé😀"][r.below(8)];
                let at = r.below(call.exprs.len() + 1);
                call.exprs.insert(at, e.into());
                call.flags.insert(at.min(call.flags.len()), 0);
                call.ids.insert(at.min(call.ids.len()), 9);
                call.single = false;
            }
            ops.push(Op::Compile { call, slot: Some(ops.len() as u8), ctx: 0, fault: AllocFault::default() });
            let slot = ops.len() as u8 - 1;
            for _ in 0..r.range(1, 4) {
                ops.push(Op::print(slot, r.below(4) as u8, sink(r)));
            }
        } else {
            let t = if r.pct(90) { SMALL } else { Taste { max_len: 120, huge: 0, batch: 0 } };
            let mut expr = gen::expr(r, w.dict, t, &w.pool);
            if r.pct(30) {
                let n = r.range(1, 30);
                expr = gen::deep(r, n);
            }
            let mut s = sink(r);
            if r.pct(30) && s.kind != 0 {
                s.n = r.log(3_000) as u32;
            }
            ops.push(Op::Dump { expr, flags: gen::flags(r), sink: s });
        }
    }
    p.threads.push(thread(ops));
    p.observe = false;
    // Otherwise the errors are printed once before.
    p.quiet = r.pct(50);
    layout(r, &mut p);
    p
}

fn c10(r: &mut Rng, w: &mut World) -> Plan {
    let mut p = Plan::default();
    let n = [1, 1, 2][r.below(3)];
    if r.pct(4) {
        let call = gen::stress(r, w.dict);
        let fault = AllocFault { mode: 3, n: memory_bound(call.weight()) };
        p.threads.push(thread(vec![Op::Compile { call, slot: None, ctx: 0, fault }]));
        p.observe = false;
        return p;
    }
    for _ in 0..n {
        let t = [SMALL, MIXED, LARGE, LARGE][r.below(4)];
        let call = w.call(r, t);
        let n = memory_bound(call.weight());
        let fault = AllocFault { mode: 3, n };
        p.threads.push(thread(vec![Op::Compile { call, slot: None, ctx: 0, fault }]));
    }
    p.observe = r.pct(20);
    layout(r, &mut p);
    if n > 1 {
        let s = total_steps(w, &p);
        schedule(r, &mut p, s);
    }
    p
}

/// A call that is refused, if one is found.
fn refused(r: &mut Rng, w: &mut World) -> Call {
    let mut call = w.call(r, SMALL);
    for _ in 0..3 {
        if (w.cost)(&call).2 {
            return call;
        }
        call = w.call(r, SMALL);
    }
    if r.pct(70) {
        let e = ["(", ")", "(*", "a(b(c", "\u{e9}", "(*FOO)a", "x)y", "a\u{e9}\u{1f600}", "((((a)))))", "(a|b"][r.below(10)];
        let n = r.range(1, 3);
        call = Call { exprs: vec!["a".into(); n], flags: vec![0; n], ids: vec![9; n], mode: 0, single: n == 1, tune: None };
        call.exprs[n - 1] = e.into();
    }
    call
}

fn c12(r: &mut Rng, w: &mut World) -> Plan {
    let mut p = Plan::default();
    let makers = r.range(1, 2);
    let n = makers + r.below(4);
    let mut slots = 0u8;
    let mut prints = 0u64;
    for i in 0..n {
        let mut ops = Vec::new();
        if i < makers {
            for _ in 0..r.range(1, 3) {
                ops.push(Op::compile(refused(r, w), Some(slots)));
                slots += 1;
            }
        }
        for _ in 0..r.range(1, 4) {
            if r.pct(12) {
                ops.push(compile(w.call(r, SMALL)));
                continue;
            }
            if r.pct(6) {
                let expr = gen::expr(r, w.dict, SMALL, &w.pool);
                ops.push(Op::Dump { expr, flags: gen::flags(r), sink: Sink { kind: 6, n: r.log(40) as u32 - 1 } });
                continue;
            }
            let sink = match r.below(10) {
                0..=3 => Sink::default(),
                4..=6 => Sink { kind: r.range(6, 7) as u8, n: r.below(4) as u32 },
                _ => sink(r),
            };
            let ctx = match r.below(12) {
                0 => 1,
                1 => 2,
                2 => 3,
                3 => 10,
                _ => 0,
            };
            let fault = match r.below(10) {
                0 => AllocFault { mode: 1, n: r.below(4) as u64 },
                1 => AllocFault { mode: 2, n: r.below(3) as u64 },
                _ => AllocFault::default(),
            };
            let style = [0, 0, 0, 3, 3, 1, 2][r.below(7)];
            let slot = r.below(slots as usize) as u8;
            prints += 1;
            ops.push(Op::Print { slot, style, sink, ctx, fault });
        }
        p.threads.push(thread(ops));
    }
    p.quiet = r.pct(50);
    layout(r, &mut p);
    let s = total_steps(w, &p) + 800 * prints;
    if n > 1 {
        if r.pct(35) {
            let i = r.below(n);
            let kind = [EDGE, EDGE, EDGE, SYNC | HOT, ALLOC][r.below(5)];
            let most = if kind == EDGE { s as usize } else { 40 };
            p.threads[i].stall = Some((kind, r.range(1, most.max(2)) as u32));
        }
        schedule(r, &mut p, s);
    }
    p
}

fn c13(r: &mut Rng, w: &mut World) -> Plan {
    let mut p = Plan::default();
    let makers = r.range(1, 2);
    let mut slots = 0u8;
    for _ in 0..makers {
        let mut ops = Vec::new();
        for _ in 0..r.range(1, 4) {
            let t = match r.below(40) {
                0 => LARGE,
                1..=6 => MIXED,
                _ => SMALL,
            };
            let mut call = w.call(r, t);
            match r.below(10) {
                0 => {
                    // Deep ones.
                    let most = if r.pct(20) { 16_000 } else { 3_000 };
                    let n = r.log(most);
                    let mut e = gen::deep(r, n);
                    e.truncate(16_000);
                    call = Call { exprs: vec![e], flags: vec![gen::flags(r)], ids: vec![1], mode: 0, single: r.pct(50), tune: None };
                }
                1 => call = refused(r, w),
                _ => {}
            }
            let ctx = if r.pct(10) { r.range(1, 3) as u8 } else { 0 };
            let fault = if r.pct(10) { alloc_fault(r, (w.cost)(&call).0) } else { AllocFault::default() };
            ops.push(Op::Compile { call, slot: Some(slots), ctx, fault });
            if r.pct(30) {
                ops.push(drop_of(r, slots));
            }
            slots += 1;
        }
        p.threads.push(thread(ops));
    }
    for _ in 0..r.range(1, 3) {
        let mut ops = Vec::new();
        for _ in 0..r.range(1, 4) {
            let slot = r.below(slots as usize) as u8;
            ops.push(match r.below(8) {
                0 => compile(w.call(r, SMALL)),
                1 => Op::print(slot, r.below(4) as u8, sink(r)),
                _ => drop_of(r, slot),
            });
        }
        let small = ops.iter().all(|o| matches!(o, Op::Drop { .. }));
        let mut t = thread(ops);
        if small && r.pct(70) {
            t.stack = 256 << 10;
        }
        if r.pct(20) {
            t.after = Some(r.below(makers) as u8);
        }
        p.threads.push(t);
    }
    p.quiet = r.pct(50);
    p.observe = false;
    layout(r, &mut p);
    let s = total_steps(w, &p);
    if r.pct(35) {
        let i = r.below(p.threads.len());
        let kind = [EDGE, EDGE, SYNC | HOT, ALLOC][r.below(4)];
        let most = if kind == EDGE { s as usize } else { 40 };
        p.threads[i].stall = Some((kind, r.range(1, most.clamp(2, 4_000_000)) as u32));
    }
    schedule(r, &mut p, s);
    p
}

fn drop_of(r: &mut Rng, slot: u8) -> Op {
    let ctx = if r.pct(30) { r.range(1, 3) as u8 } else { 0 };
    let fault = if r.pct(70) { AllocFault { mode: 2, n: 0 } } else { AllocFault::default() };
    Op::Drop { slot, ctx, fault }
}

fn c14(r: &mut Rng, w: &mut World) -> Plan {
    let mut p = Plan::default();
    let n = [1, 1, 2, 2, 3][r.below(5)];
    let mut slots = 0u8;
    for i in 0..n {
        let mut ops = Vec::new();
        for _ in 0..r.range(1, 5) {
            match r.below(12) {
                0..=4 => {
                    let t = match r.below(40) {
                        0 => LARGE,
                        1..=5 => MIXED,
                        _ => SMALL,
                    };
                    let call = if r.pct(30) { refused(r, w) } else { w.call(r, t) };
                    let fault = if r.pct(35) { alloc_fault(r, (w.cost)(&call).0) } else { AllocFault::default() };
                    let ctx = if r.pct(10) { [1, 2, 3, 10][r.below(4)] } else { 0 };
                    ops.push(Op::Compile { call, slot: Some(slots), ctx, fault });
                    slots += 1;
                }
                5 | 6 if slots > 0 => ops.push(Op::print(r.below(slots as usize) as u8, r.below(4) as u8, sink(r))),
                7 if slots > 0 => ops.push(drop_of(r, r.clone().below(slots as usize) as u8)),
                8 if slots > 0 => ops.push(Op::Scan { slot: r.below(slots as usize) as u8, len: r.log(64) as u32 }),
                9 => {
                    let call = w.call(r, SMALL);
                    let n = if r.pct(4) { r.range(1_000, 5_000) } else { r.log(200) };
                    ops.push(Op::Soak { call, n: n as u32, vary: r.pct(50) });
                }
                _ => ops.push(Op::Panic),
            }
        }
        // Where nothing is prepared any more.
        if i + 1 == n && r.pct(30) {
            ops.push(Op::Panic);
        }
        p.threads.push(thread(ops));
    }
    p.observe = false;
    p.quiet = r.pct(50);
    if r.pct(50) {
        p.env = r.next() | 1;
    }
    if r.pct(30) {
        p.entropy_faults = (0..r.range(1, 6)).map(|_| r.below(4) as u8).collect();
    }
    layout(r, &mut p);
    if n > 1 {
        let s = total_steps(w, &p);
        schedule(r, &mut p, s);
    }
    p
}

/// Without a model's help: what may surround a call.
fn surroundings(r: &mut Rng, p: &mut Plan, weight: u64) {
    layout(r, p);
    if r.pct(30) {
        p.entropy = r.next();
        p.env = r.next() | 1;
        p.clock_base = r.next() >> 3;
    }
    if r.pct(10) {
        p.entropy_faults = (0..r.range(1, 6)).map(|_| r.below(4) as u8).collect();
    }
    if p.threads.len() > 1 {
        if r.pct(8) {
            let i = r.below(p.threads.len());
            p.threads[i].stall = Some((EDGE, r.range(1, 30 * weight.clamp(10, 100_000) as usize) as u32));
        }
        schedule(r, p, 30 * weight);
    }
}

fn c24(r: &mut Rng, w: &mut World) -> Plan {
    batches(r, w, gen::sliced)
}

fn c27(r: &mut Rng, w: &mut World) -> Plan {
    batches(r, w, gen::limited)
}

/// Histories of batches of some kind on one or more threads.
fn batches(r: &mut Rng, w: &mut World, kind: fn(&mut Rng, &Dict, bool) -> Call) -> Plan {
    let mut p = Plan::default();
    let n = [1, 1, 1, 2, 3][r.below(5)];
    let mut weight = 0;
    for i in 0..n {
        let mut ops = Vec::new();
        for _ in 0..r.range(1, 5) {
            let call = if r.pct(8) { w.call(r, SMALL) } else { kind(r, w.dict, n == 1) };
            weight += call.weight();
            let fault = if r.pct(12) {
                AllocFault { mode: 1 + r.below(2) as u8, n: r.log(300) as u64 - 1 }
            } else {
                AllocFault::default()
            };
            let ctx = if r.pct(8) { r.range(1, 10) as u8 } else { 0 };
            ops.push(Op::Compile { call, slot: None, ctx, fault });
        }
        let mut t = thread(ops);
        if i > 0 && r.pct(30) {
            t.after = Some(r.below(i) as u8);
        }
        p.threads.push(t);
    }
    p.observe = false;
    surroundings(r, &mut p, weight);
    p
}

/// Histories of character sets on one or more threads.
fn set_plan(r: &mut Rng, w: &mut World, history: fn(&mut Rng) -> Vec<Vec<u8>>) -> Plan {
    let mut p = Plan::default();
    let n = [1, 1, 1, 2, 3][r.below(5)];
    for i in 0..n {
        let mut ops = Vec::new();
        for _ in 0..r.range(1, 3) {
            if r.pct(4) {
                let call = w.call(r, SMALL);
                ops.push(Op::compile(call, None));
            }
            let fault = if r.pct(15) {
                AllocFault { mode: 1 + r.below(2) as u8, n: r.log(12) as u64 - 1 }
            } else {
                AllocFault::default()
            };
            let mut sink = if r.pct(25) { Sink { kind: [1, 2, 3, 4, 5, 6][r.below(6)], ..sink(r) } } else { Sink::default() };
            if sink.kind != 0 && r.pct(40) {
                sink.n = r.below(4) as u32;
            }
            let ctx = if r.pct(8) { r.range(1, 3) as u8 } else { 0 };
            ops.push(Op::Sets { steps: history(r), sink, ctx, fault });
        }
        let mut t = thread(ops);
        if i > 0 && r.pct(30) {
            t.after = Some(r.below(i) as u8);
        }
        p.threads.push(t);
    }
    p.observe = false;
    surroundings(r, &mut p, 2_000);
    p
}

fn c25(r: &mut Rng, w: &mut World) -> Plan {
    set_plan(r, w, |r| gen::sets(r, &[32, 32, 33, 33, 34, 34, 35, 35, 36, 36, 37, 38, 39, 41], 60))
}

fn c26(r: &mut Rng, w: &mut World) -> Plan {
    set_plan(r, w, |r| gen::sets(r, &[40, 40, 40, 40, 40, 37], 40))
}

fn c28(r: &mut Rng, w: &mut World) -> Plan {
    set_plan(r, w, gen::values)
}

fn c29(r: &mut Rng, w: &mut World) -> Plan {
    set_plan(r, w, gen::reports)
}

fn c15(r: &mut Rng, w: &mut World) -> Plan {
    let mut p = Plan::default();
    if r.next() % 6000 == 0 {
        let n = [8_000_000, 8_000_001][r.below(2)];
        let expr = [")", "(", "(*X)", "\u{e9}", "()("][r.below(5)].to_string();
        p.threads.push(thread(vec![Op::Many { n, expr, flags: gen::flags(r) }]));
        p.observe = false;
        return p;
    }
    let n = [1, 1, 1, 2, 3][r.below(5)];
    let mut weight = 0;
    for i in 0..n {
        let mut ops = Vec::new();
        for _ in 0..r.range(1, 6) {
            let call = match r.below(10) {
                0 if r.pct(15) => {
                    let t = if r.pct(20) { LARGE } else { MIXED };
                    gen::call(r, w.dict, t, &mut w.pool)
                }
                0..=7 => gen::ruled(r, w.dict, n == 1),
                _ => w.call(r, SMALL),
            };
            weight += call.weight();
            let fault = if r.pct(12) {
                AllocFault { mode: 1 + r.below(2) as u8, n: r.log(300) as u64 - 1 }
            } else {
                AllocFault::default()
            };
            let ctx = if r.pct(8) { r.range(1, 10) as u8 } else { 0 };
            if r.pct(1) && call.weight() < 1_000 {
                ops.push(Op::Soak { call: call.clone(), n: r.log(300) as u32, vary: r.pct(60) });
            }
            ops.push(Op::Compile { call, slot: None, ctx, fault });
        }
        let mut t = thread(ops);
        if i > 0 && r.pct(30) {
            t.after = Some(r.below(i) as u8);
        }
        p.threads.push(t);
    }
    p.observe = false;
    surroundings(r, &mut p, weight);
    p
}

fn c16(r: &mut Rng, w: &mut World) -> Plan {
    let mut p = Plan::default();
    let n = [1, 1, 1, 2, 3][r.below(5)];
    let mut weight = 0;
    for i in 0..n {
        let mut ops = Vec::new();
        for _ in 0..r.range(1, 4) {
            if r.pct(15) {
                let call = w.call(r, SMALL);
                weight += call.weight();
                let fault = if r.pct(30) { AllocFault { mode: 1, n: r.log(200) as u64 - 1 } } else { AllocFault::default() };
                ops.push(Op::Compile { call, slot: None, ctx: u8::from(r.pct(10)), fault });
                continue;
            }
            let mut expr = gen::parsed(r, w.dict, &w.pool);
            if expr.len() < 60 {
                if w.pool.len() < 24 {
                    w.pool.push(expr.clone());
                } else {
                    let i = r.below(24);
                    w.pool[i] = expr.clone();
                }
            }
            if r.pct(6) {
                let at = r.below(expr.len() + 1);
                if expr.is_char_boundary(at) {
                    expr.insert_str(at, ["(", ")", "|", "((", "\u{e9}"][r.below(5)]);
                }
            }
            weight += expr.len() as u64 * 4;
            let flags = if r.pct(40) { r.below(2) as u16 } else { gen::flags(r) };
            let sink = if r.pct(15) { sink(r) } else { Sink::default() };
            ops.push(Op::Dump { expr, flags, sink });
        }
        let mut t = thread(ops);
        if i > 0 && r.pct(30) {
            t.after = Some(r.below(i) as u8);
        }
        p.threads.push(t);
    }
    p.observe = false;
    surroundings(r, &mut p, weight * 10);
    p
}

fn c17(r: &mut Rng, w: &mut World) -> Plan {
    let mut p = Plan::default();
    let n = [1, 1, 1, 2, 3][r.below(5)];
    let mut weight = 0;
    for i in 0..n {
        let mut ops = Vec::new();
        for _ in 0..r.range(1, 5) {
            let call = match r.below(10) {
                0 => w.call(r, SMALL),
                1 => gen::ruled(r, w.dict, false),
                _ => gen::accepted(r, w.dict, n == 1),
            };
            weight += call.weight();
            let fault = if r.pct(12) {
                AllocFault { mode: 1 + r.below(2) as u8, n: r.log(300) as u64 - 1 }
            } else {
                AllocFault::default()
            };
            let ctx = if r.pct(8) { r.range(1, 10) as u8 } else { 0 };
            if r.pct(1) && call.weight() < 1_000 {
                ops.push(Op::Soak { call: call.clone(), n: r.log(300) as u32, vary: r.pct(60) });
            }
            ops.push(Op::Compile { call, slot: None, ctx, fault });
        }
        let mut t = thread(ops);
        if i > 0 && r.pct(30) {
            t.after = Some(r.below(i) as u8);
        }
        p.threads.push(t);
    }
    p.observe = false;
    p.quiet = true;
    surroundings(r, &mut p, weight);
    p
}
