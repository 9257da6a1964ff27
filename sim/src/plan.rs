//! A run, written out in full: nothing a run does depends on anything else.
use crate::kern::{AllocFault, Seg};
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Call {
    pub exprs: Vec<String>,
    pub flags: Vec<u16>,
    pub ids: Vec<u32>,
    pub mode: u8,
    /// Through `compile`, not `compile_multi`.
    pub single: bool,
    /// Other limits than the usual ones.
    pub tune: Option<Tune>,
}

/// Limits: literals, shortcut, tries (0 or 1); length of a literal, expressions
/// and literals for tries; expressions, their length, and reports.
pub type Tune = [u32; 9];
pub const USUAL: Tune = [1, 1, 1, 70, 10_000, 10_000, 8_000_000, 16_000, 32_000_000];

impl Call {
    /// The limits it is to be compiled with.
    pub fn limits(&self) -> Tune {
        self.tune.unwrap_or(USUAL)
    }
}

impl Call {
    /// What the bounds of C07 and C10 are proportional to.
    pub fn weight(&self) -> u64 {
        self.exprs.iter().map(|e| e.len() as u64 + 1).sum()
    }
}

/// How a sink fails: 0 never; 1 refuses the n-th write and all later ones;
/// 2 is full after n bytes; 3 refuses the n-th write only; 4 panics at the
/// n-th write; 5 an `io::Write` with short and interrupted writes that fails
/// after n bytes; 6 prints the same thing elsewhere at the n-th write; 7
/// compiles at the n-th write.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct Sink {
    pub kind: u8,
    pub n: u32,
}

/// Who makes a call: 0 ordinary code, 1 a destructor during unwinding, 2 a
/// thread-local destructor registered before the library was first used on the
/// thread, 3 one registered after; 4 to 9 a thread started through `std::thread`,
/// under different names; 10 code with 76 KB more on its stack.
pub type Where = u8;

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Compile { call: Call, slot: Option<u8>, ctx: Where, fault: AllocFault },
    Scan { slot: u8, len: u32 },
    Drop { slot: u8, ctx: Where, fault: AllocFault },
    /// Look whether a result is still what it was.
    Look { slot: u8 },
    /// Style: 0 Display, 1 Debug, 2 alternate Debug, 3 padded Display.
    Print { slot: u8, style: u8, sink: Sink, ctx: Where, fault: AllocFault },
    Dump { expr: String, flags: u16, sink: Sink },
    /// The call `n` times over, results dropped at once; with `vary`, each
    /// with a different suffix to its expressions and different ids.
    Soak { call: Call, n: u32, vary: bool },
    /// One call with `n` times the same expression.
    Many { n: u32, expr: String, flags: u16 },
    /// A history of character sets: each step a code and its arguments.
    Sets { steps: Vec<Vec<u8>>, sink: Sink, ctx: Where, fault: AllocFault },
    /// The program itself panics, and expects its panic hook to be called.
    Panic,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Thread {
    pub stack: usize,
    /// Stop after this many events of these kinds.
    pub stall: Option<(u8, u32)>,
    /// Start when that thread has ended.
    pub after: Option<u8>,
    pub ops: Vec<Op>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Plan {
    pub threads: Vec<Thread>,
    pub segs: Vec<Seg>,
    pub quantum: u32,
    pub entropy: u64,
    pub entropy_faults: Vec<u8>,
    pub clock_base: u64,
    pub clock_jumps: Vec<i64>,
    pub env: u64,
    pub spurious: u64,
    pub arena_mode: u8,
    pub arena_seed: u64,
    /// Placing of arguments: 0 fresh memory per call, overwritten after it;
    /// 1 the same memory for every call of a thread; 2 fresh, never
    /// overwritten, equal expressions shared.
    pub args: u8,
    pub rounds: u32,
    /// New arguments in every round.
    pub fresh: bool,
    pub observe: bool,
    /// Do not look at errors when they are returned.
    pub quiet: bool,
    /// Check that databases may be shared between threads at all.
    pub probe: bool,
}

pub const STACK: usize = 128 << 20;

impl Default for Plan {
    fn default() -> Self {
        Self {
            threads: vec![],
            segs: vec![],
            quantum: 20_000,
            entropy: 0x5eed,
            entropy_faults: vec![],
            clock_base: 1_000_000_000_000,
            clock_jumps: vec![],
            env: 0,
            spurious: 0,
            arena_mode: 0,
            arena_seed: 0,
            args: 0,
            rounds: 1,
            fresh: false,
            observe: true,
            quiet: false,
            probe: false,
        }
    }
}

impl Plan {
    pub fn one(op: Op) -> Self {
        Self { threads: vec![Thread { stack: STACK, stall: None, after: None, ops: vec![op] }], ..Self::default() }
    }
}

// ------------------------------------------------------------------ as text

fn esc(s: &str) -> String {
    // Runs are long and common: %*COUNT*CHAR.
    let mut o = String::from("=");
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    let one = |o: &mut String, c: char| {
        if c.is_ascii_graphic() && c != '%' && c != ';' && c != ',' {
            o.push(c);
        } else {
            let mut b = [0; 4];
            for b in c.encode_utf8(&mut b).bytes() {
                let _ = write!(o, "%{b:02X}");
            }
        }
    };
    while i < c.len() {
        // A run of a period of up to four characters.
        let mut best = (0, 0);
        for p in 1..=4 {
            let mut n = 1;
            while i + (n + 1) * p <= c.len() && (0..p).all(|k| c[i + n * p + k] == c[i + k]) {
                n += 1;
            }
            if n >= 8 && n * p > best.0 * best.1 {
                best = (n, p);
            }
        }
        if best.0 > 0 {
            let _ = write!(o, "%*{}*{}*", best.0, best.1);
            for k in 0..best.1 {
                one(&mut o, c[i + k]);
            }
            i += best.0 * best.1;
        } else {
            one(&mut o, c[i]);
            i += 1;
        }
    }
    o
}

fn unesc(s: &str) -> Option<String> {
    let b = s.strip_prefix('=')?.as_bytes();
    let mut o: Vec<u8> = Vec::new();
    let mut i = 0;
    fn one(b: &[u8], i: &mut usize, o: &mut Vec<u8>) -> Option<()> {
        // One character: a plain byte, or the escaped bytes of a code point.
        if b.get(*i)? != &b'%' {
            o.push(b[*i]);
            *i += 1;
            return Some(());
        }
        let byte = |i: usize| u8::from_str_radix(std::str::from_utf8(b.get(i + 1..i + 3)?).ok()?, 16).ok();
        let first = byte(*i)?;
        let len = match first {
            0..=0x7f => 1,
            0xc0..=0xdf => 2,
            0xe0..=0xef => 3,
            _ => 4,
        };
        for _ in 0..len {
            o.push(byte(*i)?);
            *i += 3;
        }
        Some(())
    }
    while i < b.len() {
        if b[i] == b'%' && b.get(i + 1) == Some(&b'*') {
            let rest = std::str::from_utf8(&b[i + 2..]).ok()?;
            let mut f = rest.splitn(3, '*');
            let (n, p) = (f.next()?, f.next()?);
            i += 2 + n.len() + 1 + p.len() + 1;
            let (n, p): (usize, usize) = (n.parse().ok()?, p.parse().ok()?);
            let mut unit = Vec::new();
            for _ in 0..p {
                one(b, &mut i, &mut unit)?;
            }
            for _ in 0..n {
                o.extend_from_slice(&unit);
            }
        } else {
            one(b, &mut i, &mut o)?;
        }
    }
    String::from_utf8(o).ok()
}

fn join<T: ToString>(v: &[T]) -> String {
    if v.is_empty() {
        "-".into()
    } else {
        v.iter().map(ToString::to_string).collect::<Vec<_>>().join(",")
    }
}
fn split<T: std::str::FromStr>(s: &str) -> Option<Vec<T>> {
    if s == "-" {
        return Some(vec![]);
    }
    s.split(',').map(|x| x.parse().ok()).collect()
}

impl Call {
    pub fn text(&self) -> String {
        let e: Vec<String> = self.exprs.iter().map(|e| esc(e)).collect();
        let tune = self.tune.map_or(String::new(), |t| format!(":{}", join(&t)));
        format!("{} {}{tune} {} {} {}", u8::from(self.single), self.mode, join(&self.flags), join(&self.ids), join(&e))
    }
    fn parse<'a>(w: &mut impl Iterator<Item = &'a str>) -> Option<Self> {
        let single = w.next()? == "1";
        let m = w.next()?;
        let (mode, tune) = match m.split_once(':') {
            // Without the means to set limits there are only the usual ones.
            Some((m, t)) => (m, Some(split(t)?.try_into().ok()?).filter(|_| cfg!(rescan_sim_inner))),
            None => (m, None),
        };
        let mode = mode.parse().ok()?;
        let flags = split(w.next()?)?;
        let ids = split(w.next()?)?;
        let e = w.next()?;
        let exprs = if e == "-" { vec![] } else { e.split(',').map(unesc).collect::<Option<_>>()? };
        Some(Self { exprs, flags, ids, mode, single, tune })
    }
}

fn how<'a>(w: &mut impl Iterator<Item = &'a str>) -> Option<(Where, AllocFault)> {
    let ctx = w.next()?.strip_prefix("ctx=")?.parse().ok()?;
    let (m, n) = w.next()?.strip_prefix("fault=")?.split_once(':')?;
    Some((ctx, AllocFault { mode: m.parse().ok()?, n: n.parse().ok()? }))
}

impl Op {
    pub fn compile(call: Call, slot: Option<u8>) -> Self {
        Self::Compile { call, slot, ctx: 0, fault: AllocFault::default() }
    }
    pub fn drop(slot: u8) -> Self {
        Self::Drop { slot, ctx: 0, fault: AllocFault::default() }
    }
    pub fn print(slot: u8, style: u8, sink: Sink) -> Self {
        Self::Print { slot, style, sink, ctx: 0, fault: AllocFault::default() }
    }
}

impl Plan {
    /// The operation that fills a slot, by number, and its call.
    pub fn maker(&self, slot: u8) -> Option<(u32, &Call)> {
        let mut i = 0;
        for o in self.threads.iter().flat_map(|t| &t.ops) {
            i += 1;
            match o {
                Op::Compile { call, slot: Some(s), .. } if *s == slot => return Some((i, call)),
                _ => {}
            }
        }
        None
    }

    pub fn text(&self) -> String {
        let mut o = String::new();
        let _ = writeln!(
            o,
            "env entropy={} clock={} env={} spurious={} arena={} arena_seed={} args={} rounds={} fresh={} observe={} quiet={} probe={} quantum={}",
            self.entropy,
            self.clock_base,
            self.env,
            self.spurious,
            self.arena_mode,
            self.arena_seed,
            self.args,
            self.rounds,
            u8::from(self.fresh),
            u8::from(self.observe),
            u8::from(self.quiet),
            u8::from(self.probe),
            self.quantum
        );
        let _ = writeln!(o, "entropy_faults {}", join(&self.entropy_faults));
        let _ = writeln!(o, "clock_jumps {}", join(&self.clock_jumps));
        for t in &self.threads {
            let stall = t.stall.map_or("-".into(), |(m, n)| format!("{m}:{n}"));
            let after = t.after.map_or("-".into(), |a| a.to_string());
            let _ = writeln!(o, "thread stack={} stall={stall} after={after}", t.stack);
            for op in &t.ops {
                let _ = match op {
                    Op::Compile { call, slot, ctx, fault } => writeln!(
                        o,
                        "  compile slot={} ctx={ctx} fault={}:{} {}",
                        slot.map_or("-".into(), |s| s.to_string()),
                        fault.mode,
                        fault.n,
                        call.text()
                    ),
                    Op::Scan { slot, len } => writeln!(o, "  scan {slot} {len}"),
                    Op::Drop { slot, ctx, fault } => {
                        writeln!(o, "  drop {slot} ctx={ctx} fault={}:{}", fault.mode, fault.n)
                    }
                    Op::Panic => writeln!(o, "  panic"),
                    Op::Look { slot } => writeln!(o, "  look {slot}"),
                    Op::Print { slot, style, sink, ctx, fault } => writeln!(
                        o,
                        "  print {slot} {style} {} {} ctx={ctx} fault={}:{}",
                        sink.kind, sink.n, fault.mode, fault.n
                    ),
                    Op::Dump { expr, flags, sink } => {
                        writeln!(o, "  dump {} {} {flags} {}", sink.kind, sink.n, esc(expr))
                    }
                    Op::Sets { steps, sink, ctx, fault } => {
                        let s: Vec<String> =
                            steps.iter().map(|s| s.iter().map(|b| format!("{b:02x}")).collect()).collect();
                        writeln!(
                            o,
                            "  sets {} {} ctx={ctx} fault={}:{} {}",
                            sink.kind,
                            sink.n,
                            fault.mode,
                            fault.n,
                            join(&s)
                        )
                    }
                    Op::Many { n, expr, flags } => writeln!(o, "  many {n} {flags} {}", esc(expr)),
                    Op::Soak { call, n, vary } => writeln!(o, "  soak {n} {} {}", u8::from(*vary), call.text()),
                };
            }
        }
        for s in &self.segs {
            let _ = writeln!(o, "run {} events of kinds {} then thread {}", s.count, s.mask, s.target);
        }
        o
    }

    pub fn parse(s: &str) -> Option<Self> {
        let mut p = Self::default();
        for line in s.lines() {
            let mut w = line.split_ascii_whitespace();
            let Some(k) = w.next() else { continue };
            match k {
                "env" => {
                    for f in w {
                        let (k, v) = f.split_once('=')?;
                        let n: u64 = v.parse().ok()?;
                        match k {
                            "entropy" => p.entropy = n,
                            "clock" => p.clock_base = n,
                            "env" => p.env = n,
                            "spurious" => p.spurious = n,
                            "arena" => p.arena_mode = n as u8,
                            "arena_seed" => p.arena_seed = n,
                            "args" => p.args = n as u8,
                            "rounds" => p.rounds = n as u32,
                            "fresh" => p.fresh = n != 0,
                            "observe" => p.observe = n != 0,
                            "quiet" => p.quiet = n != 0,
                            "probe" => p.probe = n != 0,
                            "quantum" => p.quantum = n as u32,
                            _ => return None,
                        }
                    }
                }
                "entropy_faults" => p.entropy_faults = split(w.next()?)?,
                "clock_jumps" => p.clock_jumps = split(w.next()?)?,
                "thread" => {
                    let mut t = Thread { stack: STACK, stall: None, after: None, ops: vec![] };
                    for f in w {
                        let (k, v) = f.split_once('=')?;
                        match k {
                            "stack" => t.stack = v.parse().ok()?,
                            _ if v == "-" => {}
                            "stall" => {
                                let (m, n) = v.split_once(':')?;
                                t.stall = Some((m.parse().ok()?, n.parse().ok()?));
                            }
                            "after" => t.after = Some(v.parse().ok()?),
                            _ => return None,
                        }
                    }
                    p.threads.push(t);
                }
                "run" => {
                    let f: Vec<&str> = w.collect();
                    p.segs.push(Seg {
                        count: f.first()?.parse().ok()?,
                        mask: f.get(4)?.parse().ok()?,
                        target: f.get(7)?.parse().ok()?,
                    });
                }
                _ => {
                    let op = match k {
                        "compile" => {
                            let slot = w.next()?.strip_prefix("slot=")?.parse().ok();
                            let (ctx, fault) = how(&mut w)?;
                            Op::Compile { call: Call::parse(&mut w)?, slot, ctx, fault }
                        }
                        "scan" => Op::Scan { slot: w.next()?.parse().ok()?, len: w.next()?.parse().ok()? },
                        "drop" => {
                            let slot = w.next()?.parse().ok()?;
                            let (ctx, fault) = how(&mut w)?;
                            Op::Drop { slot, ctx, fault }
                        }
                        "panic" => Op::Panic,
                        "look" => Op::Look { slot: w.next()?.parse().ok()? },
                        "print" => {
                            let slot = w.next()?.parse().ok()?;
                            let style = w.next()?.parse().ok()?;
                            let sink = Sink { kind: w.next()?.parse().ok()?, n: w.next()?.parse().ok()? };
                            let (ctx, fault) = how(&mut w)?;
                            Op::Print { slot, style, sink, ctx, fault }
                        }
                        "dump" => {
                            let sink = Sink { kind: w.next()?.parse().ok()?, n: w.next()?.parse().ok()? };
                            Op::Dump { flags: w.next()?.parse().ok()?, expr: unesc(w.next()?)?, sink }
                        }
                        "sets" => {
                            let sink = Sink { kind: w.next()?.parse().ok()?, n: w.next()?.parse().ok()? };
                            let (ctx, fault) = how(&mut w)?;
                            let mut steps = Vec::new();
                            for s in split::<String>(w.next()?)? {
                                let byte = |i: usize| u8::from_str_radix(s.get(i..i + 2)?, 16).ok();
                                steps.push((0..s.len() / 2).map(|i| byte(2 * i)).collect::<Option<_>>()?);
                            }
                            Op::Sets { steps, sink, ctx, fault }
                        }
                        "many" => Op::Many {
                            n: w.next()?.parse().ok()?,
                            flags: w.next()?.parse().ok()?,
                            expr: unesc(w.next()?)?,
                        },
                        "soak" => {
                            let n = w.next()?.parse().ok()?;
                            let vary = w.next()? == "1";
                            Op::Soak { n, vary, call: Call::parse(&mut w)? }
                        }
                        _ => return None,
                    };
                    p.threads.last_mut()?.ops.push(op);
                }
            }
        }
        Some(p)
    }
}
