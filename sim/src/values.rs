//! Literals, depths and alignments, and the numbers of reports, against
//! models of them.

#[cfg(rescan_sim_inner)]
pub use real::run;
#[cfg(not(rescan_sim_inner))]
pub fn run(_: u32, _: &[Vec<u8>], _: crate::kern::AllocFault) {}

/// Whether a history is of values, not of character sets.
pub fn about(steps: &[Vec<u8>]) -> bool {
    steps.first().and_then(|s| s.first()).is_some_and(|&c| c >= 64)
}

#[cfg(rescan_sim_inner)]
mod real {
    use crate::exec::{begin, caught, clip, end_op, lib, Caught};
    use crate::kern::{cur, emit, AllocFault};
    use rescan::sim::reports::{with_reports, Reports};
    use rescan::sim::values::{self, Far, Literal};
    use std::cmp::Ordering;
    use std::collections::BTreeMap;

    const CAP: u64 = 20_000_000;

    /// What came of a step.
    enum Got<R> {
        Done(R),
        Panicked(String),
        Oom,
    }

    fn call<R>(f: impl FnOnce() -> R) -> Got<R> {
        match lib(f) {
            Ok(r) => Got::Done(r),
            Err(e) => match caught(e) {
                Caught::Oom => Got::Oom,
                Caught::Panic(m) => Got::Panicked(m),
                Caught::Sink => Got::Panicked("foreign payload".into()),
            },
        }
    }

    struct Talk {
        op: u32,
        step: usize,
        class: &'static str,
        wrong: bool,
    }

    impl Talk {
        fn bad(&mut self, what: std::fmt::Arguments) {
            if !self.wrong {
                emit(format_args!("V {} operation {} step {}: {what}", self.class, self.op, self.step));
            }
            self.wrong = true;
        }

        /// A question; nothing if it was cut short.
        fn ask<R>(&mut self, what: &str, f: impl FnOnce() -> R) -> Option<R> {
            match call(f) {
                Got::Done(r) => Some(r),
                Got::Oom => None,
                Got::Panicked(m) => {
                    self.bad(format_args!("{what} panicked: {m}"));
                    None
                }
            }
        }

        fn same<R: PartialEq + std::fmt::Debug>(&mut self, what: &str, got: Option<R>, want: R) {
            if let Some(got) = got {
                if got != want {
                    self.bad(format_args!("{what} is {got:?}, not {want:?}"));
                }
            }
        }
    }

    // ---------------------------------------------------------- literals

    type Model = Vec<(u8, bool)>;

    /// An element as it is kept.
    fn kept(c: u8, nocase: bool) -> (u8, bool) {
        (if nocase { c.to_ascii_uppercase() } else { c }, nocase)
    }

    fn order(a: &Model, b: &Model) -> Ordering {
        let bytes = |m: &Model| m.iter().map(|e| e.0).collect::<Vec<u8>>();
        bytes(a).cmp(&bytes(b))
    }

    fn mixed(m: &[(u8, bool)]) -> bool {
        let letters = || m.iter().filter(|e| e.0.is_ascii_alphabetic());
        letters().any(|e| e.1) && letters().any(|e| !e.1)
    }

    #[derive(Default)]
    struct Literals {
        real: [Literal; 4],
        model: [Model; 4],
    }

    impl Literals {
        /// The elements of a literal, by either way to them.
        fn look(&self, t: &mut Talk, r: usize) -> Option<Model> {
            let l = &self.real[r];
            let mut m = Vec::with_capacity(4096);
            let n = t.ask("len", || l.len())?;
            t.ask("walking", || {
                let mut i = l.elements();
                while let Some(e) = i.next() {
                    if m.len() == 4096 {
                        break;
                    }
                    m.push(e);
                }
            })?;
            let mut k = 0;
            let mut same = true;
            t.ask("a loop", || {
                l.each(|c, nc| {
                    same &= m.get(k) == Some(&(c, nc));
                    k += 1;
                });
            })?;
            if !same || k != m.len() || n != m.len() {
                t.bad(format_args!("a literal of length {n} has {} elements, or {k}, or others", m.len()));
            }
            Some(m)
        }

        fn check(&self, t: &mut Talk, r: usize, what: &str) {
            if let Some(m) = self.look(t, r) {
                if m != self.model[r] {
                    let at = (0..).find(|&i| m.get(i) != self.model[r].get(i)).unwrap_or(0);
                    t.bad(format_args!(
                        "after {what}, element {at} of the literal is {:?}, not {:?}",
                        m.get(at),
                        self.model[r].get(at)
                    ));
                }
            }
        }

        fn push(&mut self, t: &mut Talk, r: usize, list: &[(u8, bool)]) {
            for &(c, nc) in list {
                let l = &mut self.real[r];
                match call(|| l.push(c, nc)) {
                    Got::Done(()) => self.model[r].push(kept(c, nc)),
                    Got::Panicked(m) => {
                        t.bad(format_args!("push panicked: {m}"));
                        return;
                    }
                    Got::Oom => {
                        // As before, or done.
                        cur().expect("simulated thread").fault = AllocFault::default();
                        let Some(m) = self.look(t, r) else { return };
                        let mut new = self.model[r].clone();
                        new.push(kept(c, nc));
                        if m == new {
                            self.model[r] = new;
                        } else if m != self.model[r] {
                            t.bad(format_args!("a push was cut short and left neither the old literal nor the new one"));
                        }
                        return;
                    }
                }
            }
        }

        fn step(&mut self, t: &mut Talk, s: &[u8]) {
            let at = |i: usize| s.get(i).copied().unwrap_or(0);
            let r = at(1) as usize % 4;
            let (a, b) = (at(2), at(3));
            let (ra, rb) = (a as usize % 4, b as usize % 4);
            match at(0) {
                64 => {
                    let l = &mut self.real[r];
                    if t.ask("an empty literal", || *l = Literal::default()).is_some() {
                        self.model[r].clear();
                    }
                }
                65 => self.push(t, r, &[(a, b & 1 == 1)]),
                66 => {
                    let bytes = s.get(3..).unwrap_or(&[]);
                    let list: Model = bytes.iter().enumerate().map(|(i, &c)| (c, a >> (i % 8) & 1 == 1)).collect();
                    self.push(t, r, &list);
                }
                67 => {
                    if self.model[r].len() + self.model[ra].len() <= 1000 {
                        if let Some(list) = self.look(t, ra) {
                            self.push(t, r, &list);
                        }
                    }
                }
                68 => {
                    let m = &self.model[r];
                    let l = &self.real[r];
                    let g = t.ask("len", || (l.len(), l.is_empty(), l.any_nocase()));
                    t.same("len, is_empty, any_nocase", g, (m.len(), m.is_empty(), m.iter().any(|e| e.1)));
                    let g = t.ask("mixed_sensitivity", || l.mixed(0, usize::MAX));
                    t.same("mixed_sensitivity", g, mixed(m));
                    let to = m.len().min(a as usize);
                    let from = to.min(b as usize);
                    let g = t.ask("mixed_sensitivity", || l.mixed(from, to));
                    t.same("mixed_sensitivity of a part", g, mixed(&m[from..to]));
                }
                69 => {
                    let two = |t: &mut Talk, i: usize, j: usize| {
                        let (x, y) = (&self.real[i], &self.real[j]);
                        let (m, n) = (&self.model[i], &self.model[j]);
                        let g = t.ask("==", || (x == y, x != y));
                        t.same("==, !=", g, (m == n, m != n));
                        let (o, p) = t.ask("cmp", || (x.cmp(y), y.cmp(x)))?;
                        let g = t.ask("partial_cmp", || (x.partial_cmp(y), x < y, x <= y));
                        t.same("partial_cmp, <, <=", g, (Some(o), o.is_lt(), o.is_le()));
                        let bytes = order(m, n);
                        if o != p.reverse() || o.is_eq() != (m == n) || bytes.is_ne() && o != bytes {
                            t.bad(format_args!("comparing literals gives {o:?} and, the other way round, {p:?}"));
                        }
                        Some(o)
                    };
                    if let (Some(x), Some(y), Some(z)) = (two(t, r, ra), two(t, ra, rb), two(t, r, rb)) {
                        if x.is_lt() && y.is_lt() && !z.is_lt() || x.is_gt() && y.is_gt() && !z.is_gt() {
                            t.bad(format_args!("the order of three literals is {x:?}, {y:?}, {z:?}"));
                        }
                    }
                }
                72 => depths(t, s),
                73 => alignments(t, a, word(s, 3)),
                _ => {}
            }
        }
    }

    fn word(s: &[u8], from: usize) -> u64 {
        (0..8).fold(0, |x, i| x | u64::from(s.get(from + i).copied().unwrap_or(0)) << (8 * i))
    }

    fn depths(t: &mut Talk, s: &[u8]) {
        const MOST: u64 = (1 << 31) - 2;
        let v = [word(s, 2), word(s, 10)];
        let mut d = [None; 2];
        for i in 0..2 {
            let x = v[i];
            let Some(g) = t.ask("a depth", || Far::from_usize(x as usize)) else { return };
            if g.is_some() != (x <= MOST) {
                t.bad(format_args!("a depth of {x} is {}", if g.is_some() { "taken" } else { "refused" }));
            }
            if let Ok(x) = u32::try_from(x) {
                let Some(h) = t.ask("a depth", || Far::from_u32(x)) else { return };
                if h != g {
                    t.bad(format_args!("a depth of {x} is another one if it comes as 32 bits"));
                }
            }
            d[i] = g;
        }
        let Some(inf) = t.ask("infinity", Far::infinity) else { return };
        t.same("infinity against itself", Some((inf.cmp(&inf), inf == inf)), (Ordering::Equal, true));
        for i in 0..2 {
            let Some(x) = d[i] else { continue };
            let g = t.ask("comparing depths", || (x.cmp(&inf), inf.cmp(&x), x == inf, x.min(inf) == x));
            t.same("a depth against infinity", g, (Ordering::Less, Ordering::Greater, false, true));
            let Some(y) = d[1 - i] else { continue };
            let want = v[i].cmp(&v[1 - i]);
            let g = t.ask("comparing depths", || (x.cmp(&y), x.partial_cmp(&y), x == y));
            t.same("one depth against another", g, (want, Some(want), want.is_eq()));
        }
    }

    fn alignments(t: &mut Talk, e: u8, v: u64) {
        let n = 1u8 << (e % 8);
        macro_rules! one {
            ($t:ty, $f:ident) => {{
                let x = v as $t;
                // What does not fit the type is not asked for.
                let x = if x > <$t>::MAX - 127 { x - 127 } else { x };
                let w = x as i128;
                let down = |n: i128| w.div_euclid(n) * n;
                let up = |n: i128| (w + n - 1).div_euclid(n) * n;
                let m = i128::from(n);
                let want = [up(16), down(16), up(m), down(m), up(64)];
                let g = t.ask("aligning", || values::$f(x, n).map(|x| x as i128));
                if let Some(g) = g {
                    if g != want {
                        t.bad(format_args!(
                            "{x} ({}) aligned to 16 up and down, to {n} up and down and to a cache line is {g:?}, not {want:?}",
                            stringify!($t)
                        ));
                    }
                }
            }};
        }
        one!(u8, aligned_u8);
        one!(u16, aligned_u16);
        one!(u32, aligned_u32);
        one!(u64, aligned_u64);
        one!(usize, aligned_usize);
        one!(i64, aligned_i64);
    }

    fn literals(op: u32, steps: &[Vec<u8>], fault: AllocFault) -> u64 {
        let mut x = Literals::default();
        let mut t = Talk { op, step: 0, class: "value", wrong: false };
        for (i, s) in steps.iter().enumerate() {
            t.step = i;
            // Each step may meet the failure.
            begin(op, fault, CAP);
            let r = s.get(1).copied().unwrap_or(0) as usize % 4;
            x.step(&mut t, s);
            if !t.wrong && s.first().is_some_and(|c| *c < 68) {
                x.check(&mut t, r, "a step");
            }
            end_op();
            if t.wrong {
                break;
            }
        }
        begin(op, AllocFault::default(), CAP);
        for r in 0..4 {
            x.check(&mut t, r, "all that");
        }
        let Literals { real, model } = x;
        t.ask("dropping literals", || drop(real));
        end_op();
        let h = |h, &(c, n): &(u8, bool)| crate::rng::mix(h ^ u64::from(c) << 1 ^ u64::from(n));
        model.iter().flatten().fold(0, h)
    }

    // ----------------------------------------------------------- reports

    #[derive(Default)]
    struct Book {
        most: usize,
        reports: Vec<u64>,
        ids: BTreeMap<u32, (bool, u32)>,
        keys: Vec<u32>,
    }

    /// The numbers in a text.
    fn numbers(text: &str) -> Vec<u32> {
        text.split(|c: char| !c.is_ascii_digit()).filter_map(|s| s.parse().ok()).collect()
    }

    /// One step; false once it was cut short.
    fn report(t: &mut Talk, x: &mut Reports, m: &mut Book, s: &[u8]) -> bool {
        let at = |i: usize| s.get(i).copied().unwrap_or(0);
        let long = |i: usize| u32::from_le_bytes([at(i), at(i + 1), at(i + 2), at(i + 3)]);
        match at(0) {
            81 => {
                let v = word(s, 1);
                let had = m.reports.iter().position(|&r| r == v);
                let want = match had {
                    Some(i) => Some(i as u32),
                    None if m.reports.len() >= m.most => None,
                    None => {
                        m.reports.push(v);
                        Some(m.reports.len() as u32 - 1)
                    }
                };
                let Some(g) = t.ask("numbering a report", || x.internal_id(v)) else { return false };
                if let Err(e) = &g {
                    let kind = t.ask("printing an error", || format!("{e:?}")).unwrap_or_default();
                    if kind.contains("kind: ") && !kind.contains("kind: ResourceLimit") {
                        t.bad(format_args!("a report beyond the limit ended in {:?}", clip(&kind)));
                    }
                    let _ = lib(move || drop(kind));
                }
                t.same("the number of a report", Some(g.ok()), want);
            }
            82 => {
                if !m.reports.is_empty() {
                    let i = long(1) as usize % m.reports.len();
                    let g = t.ask("a report by its number", || x.report(i as u32));
                    t.same("a report by its number", g, m.reports[i]);
                }
            }
            83 => {
                let (single, id, index) = (at(1) & 1 == 1, long(2), long(6));
                let had = *m.ids.entry(id).or_insert((single, index));
                let Some(g) = t.ask("registering a match id", || x.register(id, single, index)) else { return false };
                if g.is_ok() != (had.0 == single) {
                    t.bad(format_args!(
                        "match id {id} is {} with SINGLEMATCH {single} after {}",
                        if g.is_ok() { "taken" } else { "refused" },
                        had.0
                    ));
                }
                if let Err(e) = g {
                    let text = t.ask("printing an error", || e.to_string());
                    if let Some(text) = text {
                        let n = numbers(&text);
                        if ![id, index, had.1].iter().all(|k| n.contains(k)) {
                            t.bad(format_args!(
                                "of match id {id}, expressions {} and {index}, the error says {:?}",
                                had.1,
                                clip(&text)
                            ));
                        }
                    }
                    t.ask("dropping an error", || drop(e));
                }
            }
            84 => {
                let index = long(1);
                let i = m.keys.iter().position(|&k| k == index).unwrap_or_else(|| {
                    m.keys.push(index);
                    m.keys.len() - 1
                });
                let Some(g) = t.ask("an exhaustion key", || x.exhaustible_key(index)) else { return false };
                t.same("an exhaustion key", Some(g), i as u32);
            }
            _ => {}
        }
        true
    }

    fn reports(op: u32, steps: &[Vec<u8>], fault: AllocFault) -> u64 {
        let most = match steps.first().map(|s| &s[..]) {
            Some([80, a, b, ..]) => *a as usize | (*b as usize) << 8,
            _ => 1 << 20,
        };
        let mut m = Book { most, ..Book::default() };
        with_reports(most, |mut x| {
            let mut t = Talk { op, step: 0, class: "report", wrong: false };
            let mut done = false;
            for (i, s) in steps.iter().enumerate() {
                t.step = i;
                begin(op, fault, CAP);
                done = !report(&mut t, &mut x, &mut m, s);
                end_op();
                if t.wrong || done {
                    break;
                }
            }
            begin(op, AllocFault::default(), CAP);
            // What was handed out stays.
            if !done {
                for i in 0..m.reports.len() {
                    let v = m.reports[i];
                    let g = t.ask("a report by its number", || x.report(i as u32));
                    t.same("in the end, a report by its number", g, v);
                    let g = t.ask("numbering a report", || x.internal_id(v).ok());
                    t.same("in the end, the number of a report", g, Some(i as u32));
                }
                for i in 0..m.keys.len() {
                    let k = m.keys[i];
                    let g = t.ask("an exhaustion key", || x.exhaustible_key(k));
                    t.same("in the end, an exhaustion key", g, i as u32);
                }
            }
            t.ask("dropping reports", || drop(x));
            end_op();
        });
        let h = m.reports.iter().fold(most as u64, |h, &c| crate::rng::mix(h ^ c));
        m.keys.iter().fold(h, |h, &c| crate::rng::mix(h ^ u64::from(c)))
    }

    /// Runs a history of values.
    pub fn run(op: u32, steps: &[Vec<u8>], fault: AllocFault) {
        let h = if steps[0][0] >= 80 { reports(op, steps, fault) } else { literals(op, steps, fault) };
        emit(format_args!("D {op} {h:x}"));
    }
}
