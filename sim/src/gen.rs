//! Seeded generation of expressions and calls.
use crate::plan::{Call, USUAL};
use crate::rng::Rng;

/// Strings and numbers that occur in the library's source: what its code
/// compares inputs with.
#[derive(Default, Clone)]
pub struct Dict {
    pub strings: Vec<String>,
    pub numbers: Vec<usize>,
}

impl Dict {
    pub fn load(root: &str) -> Self {
        let mut d = Self::default();
        let mut files = Vec::new();
        let mut dirs = vec![std::path::PathBuf::from(root)];
        while let Some(p) = dirs.pop() {
            for e in std::fs::read_dir(p).into_iter().flatten().flatten() {
                let p = e.path();
                if p.is_dir() {
                    dirs.push(p);
                } else if p.extension().map_or(false, |x| x == "rs") {
                    files.push(p);
                }
            }
        }
        files.sort();
        for f in files {
            d.scan(&std::fs::read_to_string(f).unwrap_or_default());
        }
        d.strings.sort();
        d.strings.dedup();
        d.numbers.sort_unstable();
        d.numbers.dedup();
        d
    }

    fn scan(&mut self, text: &str) {
        let b = text.as_bytes();
        let mut i = 0;
        while i < b.len() {
            if b[i..].starts_with(b"//") {
                while i < b.len() && b[i] != b'\n' {
                    i += 1;
                }
            } else if b[i] == b'"' {
                let from = i + 1;
                i = from;
                while i < b.len() && b[i] != b'"' {
                    i += if b[i] == b'\\' { 2 } else { 1 };
                }
                if let Some(s) = text.get(from..i.min(b.len())) {
                    if (1..=24).contains(&s.len()) && !s.contains('\\') {
                        self.strings.push(s.to_string());
                    }
                }
                i += 1;
            } else if b[i].is_ascii_digit() && (i == 0 || !(b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_')) {
                let from = i;
                while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                    i += 1;
                }
                let t = text[from..i].replace('_', "");
                let t = t.trim_end_matches("usize").trim_end_matches("u32").trim_end_matches("u64");
                let n = t.strip_prefix("0x").map_or(t.parse().ok(), |h| usize::from_str_radix(h, 16).ok());
                if let Some(n) = n {
                    if n > 2 {
                        self.numbers.push(n);
                    }
                }
            } else {
                i += 1;
            }
        }
    }

    /// A number from the source at most `max`, or next to one.
    pub fn number(&self, r: &mut Rng, max: usize) -> usize {
        let v: Vec<usize> = self.numbers.iter().copied().filter(|&n| n <= max + 1).collect();
        if v.is_empty() {
            return r.range(1, max);
        }
        let n = *r.pick(&v);
        (n + r.below(3)).saturating_sub(1).min(max)
    }
}

/// What sort of expressions a run is after.
#[derive(Clone, Copy)]
pub struct Taste {
    /// Longest expression, usually.
    pub max_len: usize,
    /// Percent of expressions that are as long as the limits.
    pub huge: usize,
    /// Percent of calls with hundreds or thousands of expressions.
    pub batch: usize,
}

pub const SMALL: Taste = Taste { max_len: 14, huge: 0, batch: 0 };
pub const MIXED: Taste = Taste { max_len: 40, huge: 3, batch: 4 };
pub const LARGE: Taste = Taste { max_len: 400, huge: 25, batch: 8 };

const ALPHA: &[char] = &['a', 'b', 'c', 'x', 'A', 'B', 'Z', 'k', 's', 'm', '0', '9', '-', '_', ' ', '.', '*', '?', '[', '^', '$', '\\', '{'];
const ODD: &[char] = &['\0', '\n', '\r', '\t', '\x7f', '\u{80}', 'é', 'ſ', 'K', '\u{ffff}', '😀', '\'', '"', '%', ','];

pub fn literal(r: &mut Rng, n: usize) -> String {
    let k = r.range(1, ALPHA.len());
    (0..n).map(|_| ALPHA[r.below(k)]).collect()
}

fn tree(r: &mut Rng, depth: usize, budget: &mut usize, o: &mut String) {
    loop {
        if *budget == 0 {
            return;
        }
        *budget -= 1;
        match r.below(10) {
            0 | 1 if depth > 0 => {
                o.push('(');
                tree(r, depth - 1, budget, o);
                o.push(')');
            }
            2 => o.push('|'),
            3 if depth > 0 => return,
            _ => o.push(*r.pick(&ALPHA[..11])),
        }
    }
}

fn verb(r: &mut Rng) -> String {
    let v = ["UCP", "UTF", "UTF8", "UTF16", "utf8", "NO_START_OPT", "ANY", "CRLF", "LIMIT_MATCH=1", "UTF8)(*UCP", "BSR_ANYCRLF", "", "X"];
    let t = ["(*", "(*", "(*", "(* ", "(", "*"];
    let e = [")", ")", ")", "", "))"];
    format!("{}{}{}", r.pick(&t), r.pick(&v), r.pick(&e))
}

fn huge_len(r: &mut Rng, d: &Dict) -> usize {
    match r.below(6) {
        0 => r.range(15_990, 16_001),
        1 => r.range(7_980, 8_020),
        2 => r.range(60, 80),
        3 => d.number(r, 16_001),
        _ => r.log(16_001),
    }
}

/// About `n` bytes of a core within levels that are all alike, or nearly.
fn nest(r: &mut Rng, n: usize) -> String {
    let head = ["", "", "", "a", "|", "a|", "()", "B|b", "(|)"];
    let tail = ["", "", "", "a", "|", "|a", "()", "|a|", "(|)"];
    let core = ["", "a", "a", "ab", "|", "a|b", "aB", "(", ")"];
    let (h, t, c) = (*r.pick(&head), *r.pick(&tail), *r.pick(&core));
    let before = *r.pick(&head);
    let odd = if r.pct(20) { r.range(1, 9) } else { 0 };
    let depth = (n.saturating_sub(c.len()) / (before.len() + h.len() + t.len() + 2)).max(1);
    let mut o = String::new();
    for i in 0..depth {
        o.push_str(before);
        o.push('(');
        o.push_str(if odd > 0 && i % odd == 0 { r.pick(&head) } else { h });
    }
    o.push_str(c);
    for _ in 0..depth {
        o.push_str(t);
        o.push(')');
    }
    o
}

/// Text with deep nesting of about `n` bytes.
pub fn deep(r: &mut Rng, n: usize) -> String {
    let n = n.max(2);
    if r.pct(45) {
        return nest(r, n);
    }
    match r.below(9) {
        0 => "(".repeat(n / 2) + &")".repeat(n / 2),
        1 => "(".repeat(n),
        2 => "(|".repeat(n / 3) + &")".repeat(n / 3),
        3 => "(a|".repeat(n / 4) + &")".repeat(n / 4),
        4 => "|".repeat(n),
        5 => "(a".repeat(n / 4) + &"b)".repeat(n / 4),
        6 => "(".repeat(n / 3) + &"|)".repeat(n / 3),
        7 => "(|".repeat(n / 2),
        _ => "(".repeat(n / 2) + "x" + &")".repeat(n / 2 + 1),
    }
}

/// Many of something, closed or not: groups next to and in one another,
/// alternatives.
pub fn many(r: &mut Rng) -> String {
    let n = if r.pct(40) { (1usize << r.range(5, 11)) + r.below(5) - 2 } else { r.range(20, 1500) };
    let bit = ["", "", "a", "|", "a|b", "B"];
    let (x, y) = (*r.pick(&bit), *r.pick(&bit));
    let all = if r.pct(50) { n } else { n - r.below(n.min(40)) };
    match r.below(5) {
        0 => format!("({x}").repeat(n),
        1 => format!("({x}").repeat(n) + &format!("{y})").repeat(all),
        2 => format!("({x}){y}").repeat(n) + ["", "(", ")"][r.below(3)],
        3 => format!("{x}|").repeat(n) + ["", "(", ")"][r.below(3)],
        _ => {
            let up = r.range(45, 80);
            let mut o = String::new();
            let mut open = 0;
            for _ in 0..n {
                if open == 0 || r.pct(up) {
                    o.push('(');
                    o.push_str(x);
                    open += 1;
                } else {
                    o.push_str(y);
                    o.push(')');
                    open -= 1;
                }
            }
            if r.pct(50) {
                o.push_str(&")".repeat(open));
            }
            o
        }
    }
}

pub fn expr(r: &mut Rng, d: &Dict, t: Taste, pool: &[String]) -> String {
    if r.pct(t.huge) {
        let n = huge_len(r, d);
        return match r.below(4) {
            0 => literal(r, n),
            1 => {
                let mut b = n;
                let mut o = String::new();
                tree(r, 6, &mut b, &mut o);
                o
            }
            2 => deep(r, n),
            _ => {
                let unit = literal(r, r.clone().range(1, 8));
                unit.repeat(n / unit.len())
            }
        };
    }
    match r.below(20) {
        0..=5 => {
            let n = r.range(1, t.max_len.min(12));
            literal(r, n)
        }
        6..=9 => {
            let mut b = r.log(t.max_len);
            let mut o = String::new();
            tree(r, 4, &mut b, &mut o);
            o
        }
        10 | 11 => {
            let n = r.below(6);
            verb(r) + &literal(r, n)
        }
        12 => {
            let mut b = r.log(t.max_len);
            let mut o = String::new();
            tree(r, 4, &mut b, &mut o);
            let at = r.below(o.len() + 1);
            o.insert_str(at, ["(", ")", "((", "))", "(*", "|"][r.below(6)]);
            o
        }
        13 => {
            let n = r.below(6);
            let mut o = literal(r, n);
            let at = o.char_indices().map(|(i, _)| i).chain([o.len()]).nth(r.below(n + 1)).unwrap_or(0);
            o.insert(at, *r.pick(ODD));
            o
        }
        14 if !d.strings.is_empty() => {
            let mut s = r.pick(&d.strings).clone();
            if r.pct(30) {
                s = format!("(*{s})");
            }
            s
        }
        15 => {
            let n = r.log(t.max_len.max(8));
            deep(r, n)
        }
        16 => String::new(),
        17 => {
            let n = d.number(r, t.max_len * 3);
            literal(r, n)
        }
        _ if !pool.is_empty() => mutate(r, r.clone().pick(pool)),
        _ => literal(r, r.clone().range(1, 5)),
    }
}

fn mutate(r: &mut Rng, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    for _ in 0..r.range(1, 2) {
        let i = r.below(c.len().max(1));
        match r.below(5) {
            0 if !c.is_empty() => drop(c.remove(i)),
            1 => c.insert(i.min(c.len()), *r.pick(ALPHA)),
            2 if !c.is_empty() => c[i] = *r.pick(ALPHA),
            3 if !c.is_empty() => {
                let x = c[i];
                c[i] = if x.is_ascii_lowercase() { x.to_ascii_uppercase() } else { x.to_ascii_lowercase() };
            }
            _ => c.insert(i.min(c.len()), *r.pick(&['(', ')', '|'])),
        }
    }
    c.into_iter().collect()
}

pub fn flags(r: &mut Rng) -> u16 {
    match r.below(10) {
        0..=2 => 0,
        3 | 4 => 1 << r.below(11),
        5 => 1,
        6 => 8,
        7 => (1 << r.below(11)) | (1 << r.below(11)),
        8 => r.next() as u16 & 0x7ff & !0x100,
        _ => r.next() as u16 & 0x7ff,
    }
}

fn id(r: &mut Rng, d: &Dict) -> u32 {
    match r.below(12) {
        0 => u32::MAX,
        1 => 0x8000_0000,
        2 => d.number(r, 1 << 20) as u32,
        3 => r.next() as u32,
        n => [0, 1, 2, 7][n % 4],
    }
}

pub fn call(r: &mut Rng, d: &Dict, t: Taste, pool: &mut Vec<String>) -> Call {
    let mut next = |r: &mut Rng| {
        let e = if !pool.is_empty() && r.pct(25) { r.pick(pool).clone() } else { expr(r, d, t, pool) };
        if e.len() < 200 {
            if pool.len() < 24 {
                pool.push(e.clone());
            } else {
                let i = r.below(24);
                pool[i] = e.clone();
            }
        }
        e
    };
    let mode = [0, 0, 1, 2, 3, 4, 5][r.below(7)];
    if r.pct(t.batch) {
        return batch(r, d, mode);
    }
    if r.pct(8) {
        return clash(r, mode);
    }
    if r.pct(35) {
        let f = flags(r);
        return Call { exprs: vec![next(r)], flags: vec![f], ids: vec![0], mode, single: true, tune: None };
    }
    let n = match r.below(10) {
        0 => 0,
        1..=3 => 1,
        9 => r.range(4, 12),
        _ => r.range(2, 4),
    };
    let plain = r.pct(50);
    let mut c = Call { mode, ..Call::default() };
    let common = flags(r);
    for _ in 0..n {
        // Batches of valid expressions get further than others.
        let e = if plain && r.pct(80) {
            let n = r.range(1, 6);
            literal(r, n)
        } else {
            next(r)
        };
        c.exprs.push(e);
        c.flags.push(if r.pct(60) { common } else { flags(r) });
        c.ids.push(id(r, d));
    }
    if r.pct(5) {
        let k = r.below(n + 1);
        match r.below(3) {
            0 => c.flags.truncate(k),
            1 => c.ids.truncate(k),
            _ => c.ids.push(3),
        }
    }
    c
}

/// Expressions that disagree about their matches.
fn clash(r: &mut Rng, mode: u8) -> Call {
    let mut c = Call { mode, ..Call::default() };
    let common = flags(r) & !8;
    let ids = r.range(1, 2);
    for _ in 0..r.range(2, 7) {
        let n = r.range(1, 9);
        c.exprs.push(if r.pct(85) { literal(r, n).replace(['(', ')', '['], "q") } else { format!("(a|{n})b") });
        c.flags.push(common | if r.pct(35) { 8 } else { 0 });
        c.ids.push(3 + r.below(ids) as u32);
    }
    c
}

/// About 8,000 bytes of literals, no two of which begin alike: around the
/// limit of the tries.
fn wide(r: &mut Rng, mode: u8) -> Call {
    let total = if r.pct(60) { r.range(7_900, 8_100) } else { r.range(8_000, 12_000) };
    let len = [8, 20, 40, 65][r.below(4)];
    let mut c = Call { mode, ..Call::default() };
    let f = [0, 0, 8, 1][r.below(4)];
    for i in 0..total / len {
        let head: String = [i % 26, i / 26 % 26, i / 676 % 26].map(|x| char::from(b'a' + x as u8)).iter().collect();
        c.exprs.push(head + &"xyzw".repeat(len)[..len - 3]);
        c.flags.push(f);
        c.ids.push(if r.pct(97) { i as u32 } else { 0 });
    }
    c
}

/// A call as large as the limits allow, of one kind throughout.
pub fn stress(r: &mut Rng, d: &Dict) -> Call {
    let mode = r.below(6) as u8;
    if r.pct(25) {
        return batch(r, d, mode);
    }
    let n = r.range(12_000, 16_000);
    let e = match r.below(5) {
        0 => literal(r, n),
        1 => {
            let mut b = n;
            let mut o = String::new();
            let d = r.range(1, 40);
            tree(r, d, &mut b, &mut o);
            o
        }
        2 => {
            let unit = literal(r, r.clone().range(1, 8));
            unit.repeat(n / unit.len())
        }
        3 => {
            let u = ["(a)", "(|)", "a|", "()", "(a|b)", "((a)b|)", "aB", "(aB)|"][r.below(8)];
            u.repeat(n / u.len())
        }
        _ => deep(r, n),
    };
    Call { exprs: vec![e], flags: vec![flags(r)], ids: vec![1], mode, single: r.pct(50), tune: None }
}

/// A call with many expressions: past the limits of the tries and tables.
fn batch(r: &mut Rng, d: &Dict, mode: u8) -> Call {
    match r.below(100) {
        0..=29 => return wide(r, mode),
        30 | 31 => {
            // Past sixteen bits.
            let n = r.range(65_530, 70_000);
            let same = r.pct(50);
            let f = flags(r);
            let e = ["a", "ab", "(a)", "Z"][r.below(4)];
            return Call {
                exprs: vec![e.into(); n],
                flags: vec![f; n],
                ids: (0..n).map(|i| if same { 1 } else { i as u32 }).collect(),
                mode,
                single: false,
                tune: None,
            };
        }
        _ => {}
    }
    let n = match r.below(8) {
        0 => r.range(9_998, 10_002),
        1 => d.number(r, 12_000),
        2 => r.range(100, 3_000),
        _ => r.log(1_500),
    }
    .max(1);
    let len = match r.below(4) {
        0 => 70,
        1 => 3,
        _ => r.log(40),
    };
    let len = len.min(200_000 / n + 2);
    let common = flags(r);
    let same_id = r.pct(40);
    let mut c = Call { mode, ..Call::default() };
    let style = r.below(4);
    for i in 0..n {
        let e = match style {
            0 => format!("{i:0len$}"),
            1 => {
                let mut s = literal(r, len);
                s.push_str(&i.to_string());
                s
            }
            2 => char::from(b'a' + (i % 26) as u8).to_string().repeat(i % len + 1),
            _ => format!("(a|{i})"),
        };
        c.exprs.push(e);
        c.flags.push(common);
        c.ids.push(if same_id { 5 } else { i as u32 });
    }
    if r.pct(20) {
        let i = r.below(n);
        c.exprs[i] = ["(", ")", "é", "(*X)a"][r.below(4)].to_string();
    }
    c
}

const VERBS: &[&str] = &[
    "UCP", "UTF", "UTF8", "UCP", "UTF", "UTF8", "NO_AUTO_POSSESS", "NO_START_OPT", "UTF16", "UTF32", "CR", "LF", "CRLF",
    "ANYCRLF", "ANY", "BSR_ANYCRLF", "BSR_UNICODE", "LIMIT_MATCH=", "LIMIT_RECURSION=",
];

/// A leading control verb, or nearly one.
fn near_verb(r: &mut Rng, d: &Dict) -> String {
    let mut v = if r.pct(8) && !d.strings.is_empty() { r.pick(&d.strings).clone() } else { (*r.pick(VERBS)).to_string() };
    if v.ends_with('=') && r.pct(60) {
        v += &r.log(100_000).to_string();
    }
    if r.pct(35) {
        let at = r.below(v.len() + 1);
        match r.below(8) {
            0 => v = v.to_lowercase(),
            1 => v.truncate(if v.is_char_boundary(at) { at } else { 0 }),
            2 => v.insert_str(if v.is_char_boundary(at) { at } else { 0 }, " "),
            3 => v.push(*r.pick(ALPHA)),
            4 => v.insert(0, *r.pick(&['*', '(', ' ', 'X', '_'])),
            5 => v.push_str(*r.pick(VERBS)),
            6 => v.push(*r.pick(ODD)),
            _ => v.push_str(&"Y".repeat(r.log(3_000))),
        }
    }
    let head = if r.pct(92) { "(*" } else { *r.pick(&["(", "*", "((*", "( *", "(**", "a(*", "|(*"]) };
    let end = if r.pct(92) { ")" } else { *r.pick(&["", "))", ") ", "|)", "()"]) };
    format!("{head}{v}{end}")
}

/// Characters, groups and choices, often with an error somewhere.
fn valid(r: &mut Rng, d: &Dict, n: usize) -> String {
    match r.below(6) {
        0..=2 => literal(r, n.max(1)),
        3 | 4 => {
            let mut b = n;
            let mut o = String::new();
            tree(r, 5, &mut b, &mut o);
            o
        }
        _ => {
            let n = d.number(r, n.max(3) * 2);
            let k = r.range(1, 3);
            literal(r, k).repeat(n / k)
        }
    }
}

/// Any of the bytes there are, or beyond.
fn any(r: &mut Rng, n: usize) -> String {
    (0..n)
        .map(|_| match r.below(20) {
            0 => *r.pick(ODD),
            1 | 2 => *r.pick(&['(', ')', '|']),
            _ => r.below(128) as u8 as char,
        })
        .collect()
}

fn size(r: &mut Rng, most: usize) -> usize {
    if r.pct(3) {
        r.log(most)
    } else {
        r.log(16)
    }
}

fn invalid(r: &mut Rng, d: &Dict, most: usize) -> String {
    let (m, n) = (size(r, most), size(r, most));
    let mut o = valid(r, d, m);
    match r.below(8) {
        0 => {
            o += &")".repeat(r.log(3));
            o += &valid(r, d, n);
        }
        1 | 2 => {
            // Groups that stay open, with complete ones around them.
            for _ in 0..r.log(5) {
                o.push('(');
                let n = r.below(4);
                o += &valid(r, d, n);
                if r.pct(60) {
                    o += &format!("({})", valid(r, d, n));
                }
            }
        }
        3 => {
            o.push(*r.pick(&['\u{80}', '\u{e9}', '\u{17f}', '\u{212a}', '\u{ffff}', '\u{1f600}']));
            o += &valid(r, d, n);
            if r.pct(40) {
                o.push(*r.pick(&['(', ')', '\u{e9}']));
            }
        }
        4 => {
            let n = r.log(40);
            o = any(r, n);
        }
        5 => o = deep(r, m + n) + *r.pick(&[")", "(", "\u{e9}", "|("]),
        6 => o = near_verb(r, d) + &o,
        _ => {
            o = deep(r, m + 2);
            o = mutate(r, &o);
        }
    }
    if r.pct(12) {
        o = format!("(*{}){o}", r.pick(&["UCP", "UTF", "UTF8"]));
    }
    o
}

/// An expression for the parser alone.
pub fn parsed(r: &mut Rng, d: &Dict, pool: &[String]) -> String {
    match r.below(10) {
        0 | 1 => {
            let n = r.log(20);
            any(r, n).chars().filter(|c| c.is_ascii() && !"()|".contains(*c)).collect()
        }
        2 => {
            // One of everything.
            let from = r.below(128);
            let n = r.log(128);
            (0..n).map(|i| ((from + i) % 128) as u8 as char).filter(|c| !"()|".contains(*c)).collect()
        }
        3 => {
            let most = if r.pct(5) { 1_000 } else { 60 };
            let n = r.log(most);
            deep(r, n)
        }
        4 => near_verb(r, d) + &valid(r, d, 6),
        5 if !pool.is_empty() => mutate(r, r.clone().pick(pool)),
        6 => {
            let n = size(r, 2_000);
            valid(r, d, n)
        }
        _ => {
            let mut b = r.log(40);
            let mut o = String::new();
            tree(r, 6, &mut b, &mut o);
            o
        }
    }
}

/// A call at the edge of a rule.
pub fn ruled(r: &mut Rng, d: &Dict, large: bool) -> Call {
    let mode = r.below(6) as u8;
    let one = |r: &mut Rng, e: String, f: u16| {
        let single = r.pct(50);
        let id = [0, 1, u32::MAX, r.next() as u32][r.below(4)];
        Call { exprs: vec![e], flags: vec![f], ids: vec![id], mode, single, tune: None }
    };
    match r.below(20) {
        // Verbs.
        0..=3 => {
            let n = r.below(12);
            let tail = if r.pct(60) { valid(r, d, n) } else { invalid(r, d, 40) };
            let e = near_verb(r, d) + &tail;
            let f = flags(r);
            one(r, e, f)
        }
        // An error somewhere.
        4..=6 => {
            let e = invalid(r, d, if large { 15_000 } else { 300 });
            let f = flags(r);
            one(r, e, f)
        }
        // The longest there may be.
        7 if r.pct(if large { 35 } else { 12 }) => {
            let n = r.range(15_997, 16_003);
            let mut e = match r.below(5) {
                0 => literal(r, n),
                1 => "\u{e9}".repeat(n / 2) + &"a".repeat(n % 2),
                2 => "a".repeat(n.saturating_sub(r.clone().below(3) + 1)) + *r.pick(&["(", ")", "\u{e9}"]),
                3 => format!("(*UTF8){}", "a|".repeat(n / 2 - 3)),
                _ => "(ab)".repeat(n / 4) + *r.pick(&["", "(", "a)"]),
            };
            if r.pct(10) {
                e = e.repeat(2);
            }
            let f = flags(r);
            one(r, e, f)
        }
        // One offender, or two, among others.
        7..=12 => {
            let most = if large && r.pct(3) { 3_000 } else { 12 };
            let n = match r.below(40) {
                0 if large => [255, 256, 257, 258, 1_000][r.below(5)],
                1 if large && r.pct(10) => r.range(9_999, 10_002),
                2 if large && r.pct(4) => r.range(65_534, 65_540),
                _ => r.log(most),
            };
            let common = flags(r);
            let same = r.pct(50);
            let mut c = Call { mode, ..Call::default() };
            for i in 0..n {
                let k = r.log(5);
                c.exprs.push(if n > 300 { "ab".into() } else { valid(r, d, k) });
                c.flags.push(if same { common } else { flags(r) & !0x108 | common & 8 });
                c.ids.push(if r.pct(80) { i as u32 } else { r.below(3) as u32 });
            }
            for _ in 0..r.below(3) {
                let i = if r.pct(40) { n - 1 } else { r.below(n) };
                match r.below(8) {
                    0 => c.flags[i] |= 0x500,
                    1 => c.exprs[i] = "a".repeat(r.range(15_999, 16_002)),
                    2 => c.flags[i] ^= 8,
                    _ => c.exprs[i] = invalid(r, d, 40),
                }
            }
            c
        }
        // Ids that disagree, or not after all.
        13..=16 => {
            let n = if r.pct(5) { r.log(300) } else { r.range(2, 8) };
            let mut c = Call { mode, ..Call::default() };
            let common = flags(r) & !0x508;
            let ids = r.range(1, 3);
            let base = [0, 1, u32::MAX - 4, r.next() as u32][r.below(4)];
            for _ in 0..n {
                let k = r.range(1, 6);
                c.exprs.push(match r.below(8) {
                    0 => String::new(),
                    1 => "()".into(),
                    2 => format!("({})", literal(r, k)),
                    3 => format!("{}|", literal(r, k)),
                    4 => "(*UTF8)x1".into(),
                    _ => literal(r, k),
                });
                c.flags.push((if r.pct(80) { common } else { flags(r) & !0x508 }) | if r.pct(30) { 8 } else { 0 });
                c.ids.push(base.wrapping_add(r.below(ids) as u32));
            }
            c
        }
        17 => {
            let f = flags(r) | 0x500 & !(r.below(4) as u16 * 0x100 & 0x300);
            let e = if r.pct(50) { invalid(r, d, 20) } else { valid(r, d, 5) };
            one(r, e, f)
        }
        18 => Call { mode, ..Call::default() },
        _ => {
            let n = r.log(30);
            let e = any(r, n);
            let f = flags(r);
            one(r, e, f)
        }
    }
}

/// A literal from few bytes, so that literals share beginnings.
fn kin(r: &mut Rng, n: usize) -> String {
    let few: &[u8] = [&b"ab"[..], b"abAB", b"a1", b"12", b"@`[{aZ", b"zZyY.", b"x\x00\x7f"][r.below(7)];
    (0..n).map(|_| few[r.below(few.len())] as char).collect()
}

/// A batch that is most likely accepted, with literals that are related.
pub fn accepted(r: &mut Rng, d: &Dict, large: bool) -> Call {
    let mode = r.below(6) as u8;
    let mut c = Call { mode, ..Call::default() };
    if r.pct(25) {
        let (e, f) = (accepted_one(r, d, large), flags(r) & !0x100);
        return Call { exprs: vec![e], flags: vec![f], ids: vec![0], mode, single: true, tune: None };
    }
    let n = match r.below(60) {
        0 if large && r.pct(8) => r.range(9_998, 10_002),
        0 | 1 if large => [255, 256, 257, 300][r.below(4)],
        2 if large => 0,
        _ => r.log(14),
    };
    let caseless = r.below(3);
    let fold = |r: &mut Rng| match caseless {
        0 => 0,
        1 => 1,
        _ => r.below(2) as u16,
    };
    let base = [0, 1, u32::MAX - 4, 0x7fff_fffe, r.next() as u32][r.below(5)];
    let ids = [1, 2, 5, 1_000_000][r.below(4)];
    // Which ids ask for a single match.
    let once = [0, u64::MAX, r.next()][r.below(3)];
    let slips = r.pct(15);
    let put = |c: &mut Call, r: &mut Rng, e: String, f: u16| {
        let k = r.below(ids);
        let single = once >> (k % 64) & 1 == 1;
        c.exprs.push(e);
        c.flags.push(f & !0x108 | if single != (slips && r.pct(3)) { 8 } else { 0 });
        c.ids.push(base.wrapping_add(k as u32));
    };
    if n == 0 {
        // Close to as many vertices as a trie may have.
        let mut left = r.range(7_985, 8_006) as isize;
        let f = fold(r);
        let mut i = 0u32;
        while left > 0 {
            let n = (left as usize + usize::from(i >= 26)).min(r.range(60, 71));
            let mut e: String = format!("{}{}", (b'a' + (i % 26) as u8) as char, (b'a' + (i / 26 % 26) as u8) as char);
            e.truncate(n);
            while e.len() < n {
                e.push((b'a' + r.below(26) as u8) as char);
            }
            // The first letter is shared from the 27th on.
            if n <= 70 {
                left -= n as isize - isize::from(i >= 26);
            }
            i += 1;
            put(&mut c, r, e, f);
        }
        for _ in 0..r.below(5) {
            let e = if r.pct(60) {
                // Little or nothing that is not there yet.
                let old = &c.exprs[r.below(c.exprs.len())];
                let n = if r.pct(50) { old.len() } else { r.range(1, old.len()) };
                let mut e = old[..n].to_string();
                if r.pct(40) && n < 70 {
                    e.push((b'a' + r.below(26) as u8) as char);
                }
                e
            } else {
                let n = r.range(1, 6);
                kin(r, n)
            };
            let f = if r.pct(80) { f } else { fold(r) };
            put(&mut c, r, e, f);
        }
        return c;
    }
    let common = flags(r);
    for _ in 0..n {
        let e = if n > 400 { kin(r, 2) } else { accepted_one(r, d, large && n < 4) };
        let e = if !c.exprs.is_empty() && r.pct(15) { c.exprs[r.below(c.exprs.len())].clone() } else { e };
        let f = if r.pct(60) { common } else { flags(r) };
        let f = f & !1 | fold(r);
        put(&mut c, r, e, f);
    }
    c
}

fn accepted_one(r: &mut Rng, d: &Dict, large: bool) -> String {
    let e = match r.below(12) {
        0..=3 => {
            let n = r.log(8);
            kin(r, n)
        }
        4 => {
            let n = r.range(67, 73);
            if r.pct(50) {
                kin(r, n)
            } else {
                literal(r, n)
            }
        }
        5 => {
            // Groups around the characters.
            let n = r.log(6);
            let s = kin(r, n);
            let k = r.below(n);
            format!("{}({}){}", &s[..k], &s[k..], ["", "()", "(())"][r.below(3)])
        }
        6 => {
            let mut n = r.log(30);
            let mut o = String::new();
            tree(r, 6, &mut n, &mut o);
            o
        }
        7 => {
            let (n, m) = (r.log(4), r.below(4));
            format!("{}|{}", kin(r, n), kin(r, m))
        }
        8 => {
            let from = r.below(128);
            let n = r.log(128);
            let s: String = (0..n).map(|i| ((from + i) % 128) as u8 as char).filter(|c| !"()|".contains(*c)).collect();
            if r.pct(50) {
                s + "|"
            } else {
                s
            }
        }
        9 if large => {
            let n = size(r, 3_000);
            valid(r, d, n)
        }
        _ => {
            let n = r.log(12);
            valid(r, d, n)
        }
    };
    if r.pct(12) && !e.starts_with("(*") {
        format!("(*{}){e}", r.pick(&["UCP", "UTF", "UTF8"]))
    } else {
        e
    }
}

// ------------------------------------------------------------------- slices

/// A batch with fewer or more flags or ids than expressions.
pub fn sliced(r: &mut Rng, d: &Dict, large: bool) -> Call {
    let mut c = loop {
        let c = if r.pct(60) { accepted(r, d, large) } else { ruled(r, d, large) };
        if !c.single || c.exprs.len() == 1 {
            break c;
        }
    };
    c.single = false;
    let n = c.exprs.len();
    let cut = |r: &mut Rng| if r.pct(60) { n.saturating_sub(r.log(3)) } else { r.below(n + 1) };
    let more = |r: &mut Rng| if r.pct(80) { r.log(4) } else { r.log(300) };
    match r.below(10) {
        0 => c.flags.truncate(cut(r)),
        1 => c.ids.truncate(cut(r)),
        2 => {
            c.flags.truncate(cut(r));
            c.ids.truncate(cut(r));
        }
        3..=5 => {
            for i in 0..more(r) {
                c.flags.push(if i == 0 && r.pct(30) { 0x500 } else { flags(r) });
            }
            if r.pct(60) {
                for _ in 0..more(r) {
                    c.ids.push(if r.pct(50) { r.below(4) as u32 } else { r.next() as u32 });
                }
            }
        }
        6 => {
            for _ in 0..more(r) {
                c.ids.push(if r.pct(50) { r.below(4) as u32 } else { r.next() as u32 });
            }
        }
        7 => {
            // As many in sum as there should be.
            let k = r.log(3).min(c.flags.len());
            if r.pct(50) {
                c.flags.truncate(n - k.min(n));
                c.ids.extend((0..k as u32).map(|i| i * 7));
            } else {
                c.ids.truncate(n - k.min(n));
                c.flags.extend(std::iter::repeat(0).take(k));
            }
        }
        _ => {}
    }
    c
}

// --------------------------------------------------------------------- sets

/// A byte at which something may change.
fn edgy(r: &mut Rng) -> u8 {
    const AT: [u8; 30] = [
        0, 1, 9, 13, 31, 32, 47, 48, 57, 58, 63, 64, 65, 90, 91, 95, 96, 97, 122, 123, 126, 127, 128, 191, 192, 193, 223,
        254, 255, 92,
    ];
    match r.below(4) {
        0 => r.next() as u8,
        1 => (r.below(4) * 64 + [62, 63, 0, 1][r.below(4)]) as u8,
        _ => AT[r.below(AT.len())].wrapping_add([0, 0, 0, 1, 255][r.below(5)]),
    }
}

/// A history of sets, with questions of the given kinds.
pub fn sets(r: &mut Rng, ask: &[u8], most: usize) -> Vec<Vec<u8>> {
    let n = r.range(2, most);
    let sets = r.range(1, 4);
    let mut v = Vec::new();
    let asked = [30, 50, 75][r.below(3)];
    for i in 0..n {
        let set = r.below(sets) as u8;
        if i > 0 && r.pct(asked) {
            let code = ask[r.below(ask.len())];
            let a = match code {
                36 => r.below(4) as u8,
                34 => {
                    if r.pct(60) {
                        (r.log(256) - 1) as u8
                    } else {
                        r.next() as u8
                    }
                }
                40 => [0, 0, 255, 1, 2, r.log(60) as u8, r.log(60) as u8, r.log(255) as u8, edgy(r)][r.below(9)],
                _ => edgy(r),
            };
            if code == 40 && r.pct(12) {
                // A single member, or all but one.
                const MEANT: &[u8] = b"^-[].\\\"'{}<>|\t\n ";
                let c = if r.pct(60) { *r.pick(MEANT) } else { edgy(r) };
                v.push(vec![1, set, c]);
                if r.pct(30) {
                    v.push(vec![10, set]);
                }
            }
            let b = r.next() as u8;
            v.push(vec![code, set, a, b]);
            continue;
        }
        let (a, b) = (edgy(r), edgy(r));
        let (lo, hi) = (a.min(b), a.max(b));
        let two = |r: &mut Rng, code: u8| vec![code, set, r.below(sets) as u8, r.below(sets) as u8];
        v.push(match r.below(24) {
            0 => vec![[0, 4, 8, 9][r.below(4)], set],
            1 => vec![1, set, a],
            2 if r.pct(15) => vec![[2, 11][r.below(2)], set, hi, lo],
            2..=5 => vec![[2, 11, 11][r.below(3)], set, lo, hi],
            6 => {
                // Close to one another.
                let hi = (lo as usize + r.log(8) - 1).min(255) as u8;
                vec![11, set, lo, hi]
            }
            7 => {
                // One of the known classes, or nearly.
                let mut s: Vec<u8> = match r.below(5) {
                    0 => (b'0'..=b'9').collect(),
                    1 => vec![9, 10, 11, 12, 13, 32],
                    2 => (b'a'..=b'z').collect(),
                    3 => b"^-[].\\\"'".to_vec(),
                    _ => (0..=127u8).filter(|c| c.is_ascii_alphanumeric() || *c == b'_').collect(),
                };
                if r.pct(25) {
                    let i = r.below(s.len());
                    s.remove(i);
                }
                if r.pct(20) {
                    s.reverse();
                }
                let mut o = vec![[3, 12, 12][r.below(3)], set];
                o.extend(s);
                o
            }
            8 | 9 => {
                let mut o = vec![[3, 12][r.below(2)], set];
                let many = if r.pct(10) { r.range(60, 200) } else { r.log(20) - 1 };
                for _ in 0..many {
                    o.push(if many < 60 { edgy(r) } else { r.next() as u8 });
                }
                o
            }
            10 | 11 => vec![5, set, a],
            12 => vec![6, set, a],
            13 => vec![7, set, a],
            14 => vec![10, set],
            15 => vec![13, set],
            16 => two(r, 14),
            17 => two(r, 15),
            18 => two(r, 16),
            19 => two(r, 17),
            20 => {
                let code = [18, 19, 20][r.below(3)];
                two(r, code)
            }
            21 => two(r, 21),
            22 => {
                // At random, a half or few of all.
                let few = r.pct(50);
                let mut o = vec![3, set];
                o.extend((0..=255u8).filter(|_| if few { r.pct(8) } else { r.pct(50) }));
                o
            }
            _ => vec![17, set, set],
        });
    }
    v
}

// ------------------------------------------------------------------- values

/// A number near a power of two, or near where a depth ends.
fn far(r: &mut Rng) -> u64 {
    let x = match r.below(6) {
        0 => r.below(300) as u64,
        1 => r.next(),
        2 => 1 << r.below(64),
        3 => (1 << 31) - 2,
        4 => r.next() >> r.below(64),
        _ => [255, 256, 65535, 65536, 0x7fff_ffff, 0xffff_ffff, 1 << 32, u64::MAX, 0, 1 << 63][r.below(10)],
    };
    x.wrapping_add([0, 0, 0, 1, 2, 15, 16, u64::MAX, u64::MAX - 1, 63][r.below(10)])
}

/// A history of literals, depths and alignments.
pub fn values(r: &mut Rng) -> Vec<Vec<u8>> {
    let n = r.range(2, 40);
    let lits = r.range(1, 4);
    let few = r.pct(40);
    let asked = [20, 40, 60][r.below(3)];
    let letter = |r: &mut Rng| match r.below(4) {
        _ if few => [b'a', b'A', b'1'][r.below(3)],
        0 => edgy(r),
        _ => [b'a', b'b', b'z', b'A', b'B', b'Z', b'0', b'_'][r.below(8)],
    };
    let mut v = Vec::new();
    for _ in 0..n {
        let l = r.below(lits) as u8;
        if r.pct(asked) {
            v.push(match r.below(10) {
                0..=2 => vec![68, l, r.log(255) as u8, r.log(64) as u8 - 1],
                3..=6 => vec![69, l, r.below(lits) as u8, r.below(lits) as u8],
                7 => {
                    let (x, y) = (far(r), far(r));
                    let mut o = vec![72, l];
                    o.extend(x.to_le_bytes());
                    o.extend(y.to_le_bytes());
                    o
                }
                _ => {
                    let mut o = vec![73, l, r.below(8) as u8];
                    o.extend(far(r).to_le_bytes());
                    o
                }
            });
            continue;
        }
        let next = match r.below(10) {
            0 => vec![64, l],
            1..=4 => vec![65, l, letter(r), r.below(2) as u8],
            5 | 6 => {
                let mut o = vec![66, l, [0, 255, r.next() as u8][r.below(3)]];
                for _ in 0..r.log(90) {
                    o.push(letter(r));
                }
                o
            }
            7 => vec![67, l, r.below(lits) as u8],
            _ => {
                // The same onto two, or nearly.
                let (c, nc) = (letter(r), r.below(2) as u8);
                for k in 0..lits as u8 {
                    if r.pct(80) {
                        v.push(vec![65, k, c, nc ^ u8::from(r.pct(20))]);
                    }
                }
                vec![69, l, r.below(lits) as u8, r.below(lits) as u8]
            }
        };
        v.push(next);
    }
    v
}

/// A history of reports.
pub fn reports(r: &mut Rng) -> Vec<Vec<u8>> {
    let n = r.range(2, 80);
    let kinds = r.range(1, 7);
    let limit = match r.below(4) {
        0 => 65535,
        1 => r.below(3),
        _ => r.log(n),
    };
    let pool = r.log(40);
    let base = far(r);
    let wide = r.pct(30);
    let some = |r: &mut Rng| {
        if wide && r.pct(30) {
            far(r)
        } else {
            base.wrapping_add(r.below(pool) as u64)
        }
    };
    let mostly = r.below(2) as u8;
    let mut v = vec![vec![80, limit as u8, (limit >> 8) as u8]];
    for i in 0..n {
        let k = r.below(3);
        v.push(match if kinds & (1 << k) != 0 { k } else { kinds.trailing_zeros() as usize } {
            0 if r.pct(25) => {
                let mut o = vec![82];
                o.extend((some(r) as u32).to_le_bytes());
                o
            }
            0 => {
                let mut o = vec![81];
                o.extend(some(r).to_le_bytes());
                o
            }
            1 => {
                let mut o = vec![83, mostly ^ u8::from(r.pct(15))];
                o.extend((some(r) as u32).to_le_bytes());
                let index = if r.pct(80) { i as u32 } else { some(r) as u32 };
                o.extend(index.to_le_bytes());
                o
            }
            _ => {
                let mut o = vec![84];
                o.extend((some(r) as u32).to_le_bytes());
                o
            }
        });
    }
    v
}

// ------------------------------------------------------------------- limits

/// A batch and limits that it may just meet, or just not.
pub fn limited(r: &mut Rng, d: &Dict, large: bool) -> Call {
    let mut c = match r.below(10) {
        0..=6 => accepted(r, d, large),
        _ => ruled(r, d, large),
    };
    c.single = false;
    let n = c.exprs.len();
    let near = |r: &mut Rng, x: usize| {
        let x = [x, x, x.saturating_sub(1), x + 1, r.log(2 * x + 2) - 1, 0][r.below(6)];
        x as u32
    };
    let mut t = USUAL;
    for k in 0..9 {
        if !r.pct(30) {
            continue;
        }
        let some = if n == 0 { 0 } else { c.exprs[r.below(n)].len() };
        t[k] = match k {
            0..=2 => u32::from(r.pct(30)),
            3 => near(r, some),
            4 | 6 => near(r, n),
            5 => {
                let k = r.below(n + 1);
                let x = if r.pct(50) { n } else { k };
                near(r, x)
            }
            7 => {
                let most = c.exprs.iter().map(String::len).max().unwrap_or(0);
                let x = if r.pct(70) { most } else { some };
                near(r, x)
            }
            _ => r.below(3) as u32,
        };
    }
    c.tune = cfg!(rescan_sim_inner).then_some(t);
    c
}
