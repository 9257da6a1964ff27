//! Character sets, against sets written out as 256 answers.

/// The set a character set stands for.
#[derive(Clone, PartialEq, Eq)]
pub struct Model(pub [bool; 256]);

impl Model {
    pub fn of(f: impl Fn(u8) -> bool) -> Self {
        Self(std::array::from_fn(|c| f(c as u8)))
    }
    pub fn members(&self) -> Vec<u8> {
        (0..=255).filter(|&c| self.0[c as usize]).collect()
    }
    pub fn has(&self, c: u8) -> bool {
        self.0[c as usize]
    }
    fn within(&self, o: &Self) -> bool {
        (0..256).all(|c| !self.0[c] || o.0[c])
    }
}

/// What a description names.
struct Named {
    set: Model,
    all_but: bool,
    cut: bool,
    parts: usize,
}

/// One character of a description, or one of its abbreviations.
enum Token {
    Char(u8),
    Class(u8),
}

/// The label a DOT string stands for.
fn label(text: &str) -> Option<Vec<u8>> {
    let mut out = vec![];
    let mut t = text.bytes();
    while let Some(c) = t.next() {
        out.push(match c {
            b'\\' => t.next().filter(|c| b"\\\"'".contains(c))?,
            b'"' => return None,
            c => c,
        });
    }
    Some(out)
}

fn token(t: &[u8]) -> Option<(Token, usize)> {
    let c = *t.first()?;
    if c != b'\\' {
        let bare = (0x21..0x7f).contains(&c) && !b"^-[].".contains(&c);
        return bare.then_some((Token::Char(c), 1));
    }
    let (k, n) = match *t.get(1)? {
        k @ (b'w' | b'd' | b's') => (Token::Class(k), 2),
        b't' => (Token::Char(9), 2),
        b'n' => (Token::Char(10), 2),
        b'r' => (Token::Char(13), 2),
        k @ (b'^' | b'-' | b'[' | b']' | b'.' | b'\\') => (Token::Char(k), 2),
        b'x' => {
            let h = std::str::from_utf8(t.get(2..4)?).ok()?;
            (Token::Char(u8::from_str_radix(h.trim_start_matches(' '), 16).ok()?), 4)
        }
        _ => return None,
    };
    Some((k, n))
}

fn read(text: &str, dot: bool) -> Option<Named> {
    let none = Model([false; 256]);
    let mut o = Named { set: none, all_but: false, cut: false, parts: 0 };
    match text {
        "<any>" => {
            o.set = Model([true; 256]);
            return Some(o);
        }
        "<empty>" => return Some(o),
        _ => {}
    }
    let read = if dot { label(text)? } else { text.as_bytes().to_vec() };
    let mut t = &read[..];
    let mut closed = false;
    if let Some(r) = t.strip_prefix(b"[^") {
        o.all_but = true;
        t = r;
        closed = true;
    } else if let Some(r) = t.strip_prefix(b"[") {
        t = r;
        closed = true;
    }
    let mut last: Option<u8> = None;
    loop {
        if t.is_empty() || t == b"]" {
            return (closed == (t == b"]")).then_some(o);
        }
        if let Some(r) = t.strip_prefix(b"...") {
            o.cut = true;
            return r.iter().all(|&c| c == b']').then_some(o);
        }
        let (k, n) = token(t)?;
        t = &t[n..];
        match k {
            Token::Class(k) => {
                o.parts += 1;
                for c in 0..=255u8 {
                    o.set.0[c as usize] |= match k {
                        b'w' => c == b'_' || c.is_ascii_alphanumeric(),
                        b'd' => c.is_ascii_digit(),
                        _ => c == 32 || (9..=13).contains(&c),
                    };
                }
            }
            Token::Char(from) => {
                let mut to = from;
                if t.first() == Some(&b'-') {
                    let (Token::Char(c), n) = token(&t[1..])? else { return None };
                    to = c;
                    t = &t[1 + n..];
                }
                if from > to {
                    return None;
                }
                // Neighbours are one part, however they are written.
                if last.map_or(true, |l| from == 0 || l != from - 1) {
                    o.parts += 1;
                }
                last = Some(to);
                o.set.0[from as usize..=to as usize].fill(true);
            }
        }
    }
}

/// What is wrong with a description of a set.
pub fn misdescribed(text: &str, set: &Model, most: usize, dot: bool) -> Option<String> {
    let Some(n) = read(text, dot) else { return Some("it cannot be read".into()) };
    let want = if n.all_but { Model::of(|c| !set.has(c)) } else { set.clone() };
    if n.cut {
        if !n.set.within(&want) {
            return Some("it names others than the members".into());
        }
        if most == 0 || n.parts != most {
            return Some(format!("it is cut after {} parts, not after {most}", n.parts));
        }
    } else if n.set != want {
        return Some("it names another set".into());
    } else if most > 0 && n.parts > most {
        return Some(format!("it has {} parts, not at most {most}", n.parts));
    }
    None
}

#[cfg(rescan_sim_inner)]
pub use real::run;
#[cfg(not(rescan_sim_inner))]
pub fn run(_: u32, _: &[Vec<u8>], _: crate::plan::Sink, _: crate::kern::AllocFault) {}

#[cfg(rescan_sim_inner)]
mod real {
    use super::*;
    use crate::exec::{begin, caught, clip, end_op, judge_shot, lib, shoot, Caught};
    use crate::kern::{cur, emit, AllocFault};
    use crate::plan::Sink;
    use rescan::sim::sets::Set;
    use std::fmt::Write;

    const CAP: u64 = 20_000_000;

    /// What came of a step.
    enum Got<R> {
        Done(R),
        Panicked(String),
        Oom,
    }

    struct Run {
        op: u32,
        step: usize,
        real: [Set; 4],
        model: [Model; 4],
        wrong: bool,
    }

    fn call<R>(f: impl FnOnce() -> R) -> Got<R> {
        match lib(f) {
            Ok(r) => Got::Done(r),
            Err(e) => match caught(e) {
                Caught::Oom => Got::Oom,
                Caught::Panic(m) => Got::Panicked(m),
                Caught::Sink => Got::Panicked("foreign payload".into()),
            },
        }
    }

    impl Run {
        fn bad(&mut self, what: std::fmt::Arguments) {
            if !self.wrong {
                emit(format_args!("V set operation {} step {}: {what}", self.op, self.step));
            }
            self.wrong = true;
        }

        /// A question; nothing if it was cut short.
        fn ask<R>(&mut self, what: &str, f: impl FnOnce() -> R) -> Option<R> {
            match call(f) {
                Got::Done(r) => Some(r),
                Got::Oom => None,
                Got::Panicked(m) => {
                    self.bad(format_args!("{what} panicked: {m}"));
                    None
                }
            }
        }

        fn same<R: PartialEq + std::fmt::Debug>(&mut self, what: &str, got: Option<R>, want: R) {
            if let Some(got) = got {
                if got != want {
                    self.bad(format_args!("{what} is {got:?}, not {want:?}"));
                }
            }
        }

        /// Asks for every byte whether it is in a set.
        fn look(&mut self, r: usize) -> Option<Model> {
            let s = self.real[r];
            let mut m = Model([false; 256]);
            let done = self.ask("testing", || {
                for c in 0..=255u8 {
                    m.0[c as usize] = s.test(c);
                }
            });
            done.map(|()| m)
        }

        fn check(&mut self, r: usize, what: &str) {
            let Some(got) = self.look(r) else { return };
            if got != self.model[r] {
                let diff: Vec<String> = (0..256)
                    .filter(|&c| got.0[c] != self.model[r].0[c])
                    .map(|c| format!("{}{c:02x}", if got.0[c] { '+' } else { '-' }))
                    .take(12)
                    .collect();
                self.bad(format_args!("after {what}, the set differs from what it should be: {}", diff.join(" ")));
            }
        }

        /// A change of set `r`; `want` is what it should come to, or nothing
        /// if it is to be refused.
        fn change(&mut self, what: &str, r: usize, want: Option<Model>, f: impl FnOnce(&mut [Set; 4])) {
            let before = self.real;
            let real = &mut self.real;
            let got = call(|| f(real));
            match (got, want) {
                (Got::Done(()), Some(m)) => self.model[r] = m,
                (Got::Done(()), None) => {
                    self.bad(format_args!("{what} was not refused"));
                    return;
                }
                (Got::Panicked(_), None) => {}
                (Got::Panicked(m), Some(_)) => {
                    self.bad(format_args!("{what} panicked: {m}"));
                    return;
                }
                (Got::Oom, want) => {
                    // As before, or done.
                    if let Some(m) = self.look(r) {
                        if Some(&m) == want.as_ref() {
                            self.model[r] = m;
                        } else if m != self.model[r] {
                            self.bad(format_args!("{what} was cut short and left neither the old set nor the new one"));
                        }
                    } else {
                        self.real = before;
                    }
                    return;
                }
            }
            for i in 0..4 {
                if i == r || self.real[i] != before[i] {
                    self.check(i, what);
                }
            }
        }

        fn step(&mut self, s: &[u8], sink: Sink) {
            let at = |i: usize| s.get(i).copied().unwrap_or(0);
            let code = at(0);
            let r = at(1) as usize % 4;
            let (a, b) = (at(2), at(3));
            let (ra, rb) = (a as usize % 4, b as usize % 4);
            let bytes = s.get(2..).unwrap_or(&[]).to_vec();
            let m = self.model[r].clone();
            let (ma, mb) = (self.model[ra].clone(), self.model[rb].clone());
            let old = m.clone();
            let some = |f: &dyn Fn(u8) -> bool| Some(Model::of(f));
            let list = bytes.clone();
            match code {
                0 => self.change("an empty set", r, some(&|_| false), |x| x[r] = Set::default()),
                1 => self.change("from_char", r, some(&|c| c == a), |x| x[r] = Set::from_char(a)),
                2 | 11 => {
                    let new = code == 2;
                    let want = (a <= b).then(|| Model::of(|c| (a <= c && c <= b) || !new && old.has(c)));
                    // Refusing takes memory of its own.
                    let t = cur().expect("simulated thread");
                    let keep = t.fault;
                    if want.is_none() {
                        t.fault = AllocFault::default();
                    }
                    self.change(if new { "from_range" } else { "set_range" }, r, want, |x| {
                        if new {
                            x[r] = Set::from_range(a, b);
                        } else {
                            x[r].set_range(a, b);
                        }
                    });
                    cur().expect("simulated thread").fault = keep;
                }
                3 => self.change("from_bytes", r, some(&|c| list.contains(&c)), |x| x[r] = Set::from_bytes(&bytes)),
                4 => self.change("dot", r, some(&|_| true), |x| x[r] = Set::dot()),
                5 => self.change("set", r, some(&|c| c == a || old.has(c)), |x| x[r].set(a)),
                6 => self.change("reset", r, some(&|c| c != a && old.has(c)), |x| x[r].reset(a)),
                7 => self.change("flip", r, some(&|c| (c == a) != old.has(c)), |x| x[r].flip(a)),
                8 => self.change("set_all", r, some(&|_| true), |x| x[r].set_all()),
                9 => self.change("reset_all", r, some(&|_| false), |x| x[r].reset_all()),
                10 => self.change("flip_all", r, some(&|c| !old.has(c)), |x| x[r].flip_all()),
                12 => self.change("set_bytes", r, some(&|c| list.contains(&c) || old.has(c)), |x| x[r].set_bytes(&bytes)),
                13 => {
                    let want = some(&|c| {
                        old.has(c) || c.is_ascii_alphabetic() && (old.has(c.to_ascii_lowercase()) || old.has(c.to_ascii_uppercase()))
                    });
                    self.change("make_caseless", r, want, |x| x[r].make_caseless());
                }
                14 => self.change("&", r, some(&|c| ma.has(c) && mb.has(c)), |x| {
                    let (a, b) = (x[ra], x[rb]);
                    x[r].and(&a, &b);
                }),
                15 => self.change("|", r, some(&|c| ma.has(c) || mb.has(c)), |x| {
                    let (a, b) = (x[ra], x[rb]);
                    x[r].or(&a, &b);
                }),
                16 => self.change("^", r, some(&|c| ma.has(c) != mb.has(c)), |x| {
                    let (a, b) = (x[ra], x[rb]);
                    x[r].xor(&a, &b);
                }),
                17 => self.change("!", r, some(&|c| !ma.has(c)), |x| {
                    let a = x[ra];
                    x[r].not(&a);
                }),
                18 => self.change("&=", r, some(&|c| old.has(c) && ma.has(c)), |x| {
                    let a = x[ra];
                    x[r].and_assign(&a);
                }),
                19 => self.change("|=", r, some(&|c| old.has(c) || ma.has(c)), |x| {
                    let a = x[ra];
                    x[r].or_assign(&a);
                }),
                20 => self.change("^=", r, some(&|c| old.has(c) != ma.has(c)), |x| {
                    let a = x[ra];
                    x[r].xor_assign(&a);
                }),
                21 => self.change("a copy", r, Some(ma), |x| x[r] = x[ra]),
                _ => self.question(code, r, &m, a, b, sink),
            }
        }

        fn question(&mut self, code: u8, r: usize, m: &Model, a: u8, b: u8, sink: Sink) {
            let s = self.real[r];
            let all = m.members();
            match code {
                32 => {
                    let g = self.ask("count", || s.count());
                    self.same("count", g, all.len() as u32);
                    let g = self.ask("none", || (s.none(), s.any(), s.all()));
                    self.same("none, any, all", g, (all.is_empty(), !all.is_empty(), all.len() == 256));
                    let g = self.ask("find_first", || (s.find_first(), s.find_last()));
                    self.same("find_first, find_last", g, (all.first().copied(), all.last().copied()));
                }
                33 => {
                    let g = self.ask("find_next", || s.find_next(a));
                    self.same("find_next", g, all.iter().copied().find(|&c| c > a));
                }
                34 => {
                    let g = self.ask("find_nth", || s.find_nth(a));
                    self.same("find_nth", g, all.get(a as usize).copied());
                }
                35 => {
                    let g = self.ask("is_alphabetic", || s.is_alphabetic());
                    self.same("is_alphabetic", g, !all.is_empty() && all.iter().all(u8::is_ascii_alphabetic));
                    let g = self.ask("is_caseless_char", || s.is_caseless_char());
                    let pair = all.len() == 2 && all[0].is_ascii_uppercase() && all[1] == all[0].to_ascii_lowercase();
                    self.same("is_caseless_char", g, pair);
                    let g = self.ask("is_bit5_insensitive", || s.is_bit5_insensitive());
                    self.same("is_bit5_insensitive", g, all.iter().all(|c| m.has(c ^ 0x20)));
                    let g = self.ask("is_ascii", || s.is_ascii());
                    self.same("is_ascii", g, all.iter().all(u8::is_ascii));
                    let g = self.ask("is_utf8_start", || s.is_utf8_start());
                    self.same("is_utf8_start", g, all.iter().all(|&c| c >= 0xc0));
                }
                36 => {
                    let o = a as usize % 4;
                    let (t, n) = (self.real[o], self.model[o].clone());
                    let g = self.ask("is_subset_of", || s.is_subset_of(&t));
                    self.same("is_subset_of", g, m.within(&n));
                    let g = self.ask("overlaps", || s.overlaps(&t));
                    self.same("overlaps", g, all.iter().any(|&c| n.has(c)));
                    let g = self.ask("==", || (s == t, s != t));
                    self.same("==, !=", g, (*m == n, *m != n));
                    let hash = |x: Set| {
                        use std::hash::{Hash, Hasher};
                        let mut h = std::collections::hash_map::DefaultHasher::new();
                        x.hash(&mut h);
                        h.finish()
                    };
                    if let Some((x, y)) = self.ask("hash", || (hash(s), hash(t))) {
                        if *m == n && x != y {
                            self.bad(format_args!("equal sets hash differently"));
                        }
                    }
                    if let Some((x, y)) = self.ask("cmp", || (s.cmp(&t), t.cmp(&s))) {
                        use std::cmp::Ordering::*;
                        let fits = x == y.reverse() && (x == Equal) == (*m == n);
                        if !fits || x == Greater && m.within(&n) || x == Less && n.within(m) {
                            self.bad(format_args!("comparing sets gives {x:?} and, the other way round, {y:?}"));
                        }
                    }
                }
                38 => {
                    if let Some((and, cmp)) = self.ask("make_and_cmp_mask", || s.masks()) {
                        let fits = |and: u8, cmp: u8| all.iter().all(|c| c & and == cmp);
                        if !all.is_empty() {
                            let first = all[0];
                            let agree = (0..8).filter(|k| fits(1 << k, first & (1 << k))).fold(0u8, |x, k| x | 1 << k);
                            if !fits(and, cmp & and) || and != agree || cmp & and != first & and {
                                self.bad(format_args!("the masks are {and:02x} and {cmp:02x}, of members that agree in {agree:02x}"));
                            } else if !fits(and, cmp) {
                                self.bad(format_args!("the masks {and:02x} and {cmp:02x} do not admit the members"));
                            }
                        }
                    }
                }
                39 => {
                    let len = 32 + a as usize % 16;
                    let mut bits = vec![b; len];
                    let got = {
                        let v = &mut bits;
                        self.ask("fill_bitvector", || s.fill(v))
                    };
                    if got.is_some() {
                        let want: Vec<u8> = (0..len)
                            .map(|i| if i < 32 { (0..8).fold(0, |x, k| x | u8::from(m.has((i * 8 + k) as u8)) << k) } else { b })
                            .collect();
                        if bits != want {
                            let i = (0..len).find(|&i| bits[i] != want[i]).unwrap_or(0);
                            self.bad(format_args!("byte {i} of the bit vector is {:02x}, not {:02x}", bits[i], want[i]));
                        }
                    }
                }
                41 => {
                    let got = self.ask("walking", || {
                        let mut v = [0u8; 256];
                        let mut n = 0;
                        let mut next = s.find_first();
                        while let Some(c) = next {
                            if n == 256 {
                                return (n + 1, v);
                            }
                            v[n] = c;
                            n += 1;
                            next = s.find_next(c);
                        }
                        (n, v)
                    });
                    if let Some((n, v)) = got {
                        if n != all.len() || v[..n] != all[..] {
                            self.bad(format_args!("a walk from find_first by find_next meets other bytes than the members"));
                        }
                    }
                }
                _ => self.print(code, r, m, a, b, sink),
            }
        }

        fn print(&mut self, code: u8, r: usize, m: &Model, a: u8, b: u8, sink: Sink) {
            let s = self.real[r];
            let dot = b & 1 == 1;
            let most = if a == 255 { usize::MAX } else { a as usize };
            let plain = code == 37;
            let print = |w: &mut dyn Write| {
                struct D<'a>(&'a mut dyn Write);
                impl Write for D<'_> {
                    fn write_str(&mut self, s: &str) -> std::fmt::Result {
                        self.0.write_str(s)
                    }
                }
                if plain {
                    write!(w, "{s}")
                } else {
                    s.describe(&mut D(w), most, dot)
                }
            };
            let what = if plain { "a set" } else { "a description" };
            let first = shoot(what, sink, &|| drop(shoot(what, Sink::default(), &|| {}, &print)), &print);
            let t = cur().expect("simulated thread");
            t.fault = AllocFault::default();
            let full = shoot(what, Sink::default(), &|| {}, &print);
            judge_shot(what, &full, 0, None);
            judge_shot(what, &first, sink.kind, Some(&full.got));
            if !full.ok {
                return;
            }
            if plain {
                let want: String = m.members().iter().map(|&c| c as char).collect();
                if full.got != want {
                    self.bad(format_args!("printed, the set is {:?}, not {:?}", clip(&full.got), clip(&want)));
                }
            } else if let Some(e) = misdescribed(&full.got, m, most, dot) {
                emit(format_args!(
                    "V described operation {} step {}: the set of {} is described as {:?} ({} parts at most{}): {e}",
                    self.op,
                    self.step,
                    m.members().iter().map(|c| format!("{c:02x}")).collect::<String>(),
                    clip(&full.got),
                    a,
                    if dot { ", for DOT" } else { "" }
                ));
            }
        }
    }

    /// Runs a history of four sets.
    pub fn run(op: u32, steps: &[Vec<u8>], sink: Sink, fault: AllocFault) {
        let mut x =
            Run { op, step: 0, real: [Set::default(); 4], model: std::array::from_fn(|_| Model([false; 256])), wrong: false };
        for (i, s) in steps.iter().enumerate() {
            x.step = i;
            // Each step may meet the failure.
            begin(op, fault, CAP);
            x.step(s, sink);
            end_op();
            if x.wrong {
                break;
            }
        }
        for r in 0..4 {
            begin(op, AllocFault::default(), CAP);
            x.check(r, "all that");
            end_op();
        }
        let h = x.model.iter().flat_map(|m| m.members()).fold(0, |h, c| crate::rng::mix(h ^ u64::from(c)));
        emit(format_args!("D {op} {h:x}"));
    }
}
