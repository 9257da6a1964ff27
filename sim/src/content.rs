//! What a call builds, read from the `Debug` values the hooks show, in terms
//! that do not depend on how it is stored. What cannot be read is left out.
use std::fmt::{Debug, Write};

/// A `Debug` value: a word, and what is in the brackets after it.
pub struct Value {
    word: String,
    items: Vec<(Option<Value>, Value)>,
    brackets: bool,
}

impl Value {
    /// The value of a named field, or of a key.
    pub fn get(&self, name: &str) -> Option<&Value> {
        self.items.iter().find(|(k, _)| k.as_ref().map_or(false, |k| k.word == name && !k.brackets)).map(|(_, v)| v)
    }
    fn number(&self) -> Option<u64> {
        if self.brackets {
            return None;
        }
        self.word.parse().ok()
    }
    fn truth(&self) -> Option<bool> {
        match (self.brackets, self.word.as_str()) {
            (false, "true") => Some(true),
            (false, "false") => Some(false),
            _ => None,
        }
    }
    /// The number inside, through wrappers of one value each.
    fn inner_number(&self) -> Option<u64> {
        let mut v = self;
        while v.brackets && v.items.len() == 1 {
            v = &v.items[0].1;
        }
        v.number()
    }
    fn numbers(&self) -> Option<Vec<u64>> {
        if !self.brackets {
            return None;
        }
        self.items.iter().map(|(k, v)| if k.is_none() { v.number() } else { None }).collect()
    }
}

struct Reader<'a> {
    b: &'a [u8],
    at: usize,
}

impl Reader<'_> {
    fn peek(&mut self) -> u8 {
        while self.b.get(self.at) == Some(&b' ') {
            self.at += 1;
        }
        self.b.get(self.at).copied().unwrap_or(0)
    }
    fn value(&mut self, depth: usize) -> Option<Value> {
        let mut v = Value { word: String::new(), items: Vec::new(), brackets: false };
        self.peek();
        let from = self.at;
        while let Some(&c) = self.b.get(self.at) {
            match c {
                b'"' => {
                    self.at += 1;
                    while *self.b.get(self.at)? != b'"' {
                        self.at += if self.b[self.at] == b'\\' { 2 } else { 1 };
                    }
                    self.at += 1;
                }
                b',' | b':' | b'(' | b')' | b'[' | b']' | b'{' | b'}' => break,
                _ => self.at += 1,
            }
        }
        v.word = std::str::from_utf8(&self.b[from..self.at]).ok()?.trim().into();
        let close = match self.peek() {
            b'(' => b')',
            b'[' => b']',
            b'{' => b'}',
            _ => return Some(v),
        };
        if depth > 60 {
            return None;
        }
        self.at += 1;
        v.brackets = true;
        while self.peek() != close {
            let mut x = self.value(depth + 1)?;
            let mut key = None;
            if self.peek() == b':' {
                self.at += 1;
                key = Some(std::mem::replace(&mut x, self.value(depth + 1)?));
            }
            v.items.push((key, x));
            match self.peek() {
                b',' => self.at += 1,
                c if c == close => {}
                _ => return None,
            }
        }
        self.at += 1;
        Some(v)
    }
}

fn read(v: &dyn Debug) -> Option<Value> {
    let mut s = String::new();
    write!(s, "{v:?}").ok()?;
    let mut r = Reader { b: s.as_bytes(), at: 0 };
    let v = r.value(0)?;
    if r.peek() == 0 {
        Some(v)
    } else {
        None
    }
}

/// What is read, by subject.
pub const SUBJECTS: [&str; 9] = ["marks", "literals", "graphs", "edges", "tries", "reports", "ids", "keys", "width"];

/// What a call built: a text per subject, or nothing where it cannot be read.
pub struct Built(pub [Option<String>; SUBJECTS.len()]);

impl Built {
    pub fn new() -> Self {
        Self(std::array::from_fn(|_| Some(String::new())))
    }
    fn note(&mut self, i: usize, t: Option<String>) {
        match t {
            Some(t) => {
                if let Some(s) = &mut self.0[i] {
                    s.push_str(&t);
                }
            }
            None => self.0[i] = None,
        }
    }
    pub fn see(&mut self, what: &str, value: &dyn Debug) {
        match what {
            // Trees may be deep; C16 is about them.
            "parsed" => {
                let mut s = String::new();
                let _ = write!(Head(&mut s, 600), "{value:?}");
                self.note(0, marks(&s));
            }
            "literal" => self.note(1, read(value).and_then(|v| literal(&v))),
            "graph" => {
                let v = read(value);
                let g = v.as_ref().and_then(|v| v.items.iter().map(|(_, v)| v).find(|v| v.get("inner").is_some()));
                self.note(2, g.and_then(vertices));
                self.note(3, g.and_then(edges));
            }
            "ng" => {
                let v = read(value);
                let v = v.as_ref();
                self.note(4, v.and_then(tries));
                self.note(5, v.and_then(reports));
                self.note(6, v.and_then(ids));
                self.note(7, v.and_then(keys));
                self.note(8, v.and_then(width));
            }
            _ => {}
        }
    }
}

/// Takes the beginning of what is written.
struct Head<'a>(&'a mut String, usize);
impl Write for Head<'_> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0.push_str(s);
        if self.0.len() >= self.1 {
            return Err(std::fmt::Error);
        }
        Ok(())
    }
}

fn flag(b: bool) -> char {
    if b {
        '+'
    } else {
        '-'
    }
}

pub fn mark(index: u64, id: u64, once: bool, quiet: bool, prefilter: bool, utf8: bool) -> String {
    format!("{index}: id {id} once{} quiet{} prefilter{} utf8{}; ", flag(once), flag(quiet), flag(prefilter), flag(utf8))
}

fn marks(s: &str) -> Option<String> {
    let field = |name: &str| {
        let r = s.split_once(&format!(" {name}: "))?.1;
        Some(r.split(|c: char| !c.is_alphanumeric()).next()?.to_string())
    };
    let n = |name: &str| field(name)?.parse::<u64>().ok();
    let b = |name: &str| field(name)?.parse::<bool>().ok();
    Some(mark(n("index")?, n("report")?, b("highlander")?, b("quiet")?, b("prefilter")?, b("utf8")?))
}

/// Caseless letters in capitals, and which they are.
fn literal(v: &Value) -> Option<String> {
    let s = v.get("s")?.numbers()?;
    let nocase = v.get("nocase")?;
    if nocase.brackets || nocase.word.len() != s.len() {
        return None;
    }
    let mut o = String::new();
    for (c, n) in s.iter().zip(nocase.word.bytes()) {
        write!(o, "{c:02x}{}", if n == b'1' { "i" } else { "" }).ok()?;
    }
    Some(o + "; ")
}

fn set(v: &Value) -> Option<String> {
    let mut v = v;
    loop {
        if let Some(n) = v.numbers() {
            if n.len() != 4 {
                return None;
            }
            let mut o = String::new();
            for b in 0..256 {
                if n[b / 64] >> (b % 64) & 1 == 1 {
                    write!(o, "{b:02x}").ok()?;
                }
            }
            return Some(o);
        }
        if !v.brackets || v.items.len() != 1 {
            return None;
        }
        v = &v.items[0].1;
    }
}

fn nodes<'a>(v: &'a Value) -> Option<Vec<(u64, &'a Value)>> {
    let n = v.get("inner")?.get("node weights")?;
    n.items.iter().map(|(k, v)| Some((k.as_ref()?.number()?, v))).collect()
}

fn pairs(v: &Value) -> Option<Vec<(u64, u64)>> {
    let g = v.get("inner")?;
    let mut o = Vec::new();
    let pair = |v: &Value| match v.numbers()?[..] {
        [a, b] => Some((a, b)),
        _ => None,
    };
    let from = g.items.iter().position(|(k, _)| k.as_ref().map_or(false, |k| k.word == "edges"));
    if let Some(from) = from {
        o.push(pair(&g.items[from].1)?);
        for (k, v) in &g.items[from + 1..] {
            if k.is_some() {
                break;
            }
            o.push(pair(v)?);
        }
    }
    (g.get("edge_count")?.number()? == o.len() as u64).then_some(o)
}

const SPECIAL: [&str; 4] = ["start", "start_ds", "accept", "accept_eod"];

fn special(g: &Value) -> Option<[u64; 4]> {
    let mut o = [0; 4];
    for (n, o) in SPECIAL.iter().zip(&mut o) {
        *o = g.get(n)?.inner_number()?;
    }
    Some(o)
}

/// The sets of the special vertices, and of the others in some order.
fn vertices(g: &Value) -> Option<String> {
    let sp = special(g)?;
    let mut named = [const { String::new() }; 4];
    let mut rest = Vec::new();
    for (i, v) in nodes(g)? {
        let s = set(v.get("char_reach")?)?;
        match sp.iter().position(|&x| x == i) {
            Some(j) => named[j] = s,
            None => rest.push(s),
        }
    }
    rest.sort();
    Some(graph(&named, &rest))
}

pub fn graph(named: &[String; 4], rest: &[String]) -> String {
    let short = |s: &String| if s.len() == 512 { "all".to_string() } else { format!("<{s}>") };
    let mut o = String::from("start ");
    for s in named {
        o += &short(s);
        o.push(' ');
    }
    format!("{o}others {}; ", rest.iter().map(short).collect::<Vec<_>>().join(" "))
}

/// The edges between the special vertices, and whether there are others.
fn edges(g: &Value) -> Option<String> {
    let sp = special(g)?;
    let mut o: Vec<String> = pairs(g)?
        .into_iter()
        .map(|(a, b)| {
            let name = |i| sp.iter().position(|&x| x == i).map_or("other", |j| SPECIAL[j]);
            format!("{}>{}", name(a), name(b))
        })
        .collect();
    o.sort();
    Some(o.join(" ") + "; ")
}

/// Both tries as the literals in them, with whether each ends in a report, or
/// that they are given up.
fn tries(v: &Value) -> Option<String> {
    let w = v.get("smwr")?;
    if w.get("poisoned")?.truth()? {
        return Some("given up".into());
    }
    let known = v.get("rm")?.get("report_ids")?.items.len() as u64;
    let a = trie(w.get("lit_trie")?, known)?;
    let b = trie(w.get("lit_trie_nocase")?, known)?;
    Some(shelf(a, b))
}

pub fn shelf(mut caseful: Vec<String>, mut caseless: Vec<String>) -> String {
    caseful.sort();
    caseless.sort();
    format!("caseful: {} caseless: {}", caseful.join(" "), caseless.join(" "))
}

/// The strings that end in a report; a leaf that does not is shown as such.
fn trie(t: &Value, known: u64) -> Option<Vec<String>> {
    let root = t.get("root")?.inner_number()?;
    let nodes: std::collections::HashMap<u64, &Value> = nodes(t)?.into_iter().collect();
    let mut next: std::collections::HashMap<u64, Vec<u64>> = Default::default();
    let mut from: std::collections::HashMap<u64, u64> = Default::default();
    let mut o = Vec::new();
    for (a, b) in pairs(t)? {
        next.entry(a).or_default().push(b);
        if from.insert(b, a).is_some() {
            o.push("not a tree".into());
        }
    }
    let mut seen = 0;
    let mut todo = vec![(root, String::new())];
    while let Some((i, path)) = todo.pop() {
        let n = nodes.get(&i)?;
        seen += 1;
        if seen > nodes.len() {
            break;
        }
        let path = if i == root { path } else { format!("{path}{:02x}", n.get("c")?.number()?) };
        let reports = n.get("reports")?.numbers()?;
        let children = next.get(&i);
        if reports.iter().any(|&r| r >= known) {
            o.push(format!("{path}(unknown report)"));
        } else if !reports.is_empty() {
            o.push(path.clone());
        } else if children.is_none() && i != root {
            o.push(format!("{path}(no report)"));
        }
        let mut bytes: Vec<u64> = Vec::new();
        for &c in children.into_iter().flatten() {
            let b = nodes.get(&c)?.get("c")?.number()?;
            if bytes.contains(&b) {
                o.push(format!("{path}(two branches for {b:02x})"));
            }
            bytes.push(b);
            todo.push((c, path.clone()));
        }
    }
    if seen != nodes.len() {
        o.push("unreachable vertices".into());
    }
    Some(o)
}

/// Whether the numbers of the reports are what they should be.
fn reports(v: &Value) -> Option<String> {
    let rm = v.get("rm")?;
    let plain = |v: &Value| {
        let mut s = String::new();
        text(v, &mut s);
        s
    };
    let list: Vec<String> = rm.get("report_ids")?.items.iter().map(|(_, v)| plain(v)).collect();
    let mut back = std::collections::HashMap::new();
    for (k, v) in &rm.get("report_id_to_internal_map")?.items {
        back.insert(plain(k.as_ref()?), v.number()? as usize);
    }
    let fine = list.len() == back.len() && list.iter().enumerate().all(|(i, r)| back.get(r) == Some(&i));
    Some(if fine { "one to one".into() } else { format!("{list:?} {back:?}") })
}

fn text(v: &Value, s: &mut String) {
    s.push_str(&v.word);
    if v.brackets {
        s.push('(');
        for (k, v) in &v.items {
            if let Some(k) = k {
                text(k, s);
                s.push(':');
            }
            text(v, s);
            s.push(',');
        }
        s.push(')');
    }
}

/// The match ids of literals, with SINGLEMATCH and the first expression.
fn ids(v: &Value) -> Option<String> {
    let rm = v.get("rm")?;
    let mut o = Vec::new();
    for (k, v) in &rm.get("external_id_map")?.items {
        o.push((k.as_ref()?.number()?, v.get("highlander")?.truth()?, v.get("first_pattern_index")?.number()?));
    }
    Some(known_ids(o, rm.get("global_exhaust")?.truth()?))
}

pub fn known_ids(mut v: Vec<(u64, bool, u64)>, all_once: bool) -> String {
    v.sort_unstable();
    let mut o = format!("all once{}: ", flag(all_once));
    for (id, once, first) in v {
        let _ = write!(o, "{id} once{} first {first}; ", flag(once));
    }
    o
}

/// The exhaustion keys of match ids.
fn keys(v: &Value) -> Option<String> {
    let mut o = Vec::new();
    for (k, v) in &v.get("rm")?.get("to_exhaustible_key_map")?.items {
        o.push((k.as_ref()?.inner_number()?, v.number()?));
    }
    Some(known_keys(o))
}

pub fn known_keys(mut v: Vec<(u64, u64)>) -> String {
    v.sort_unstable();
    v.into_iter().map(|(id, k)| format!("{id} key {k}; ")).collect()
}

fn width(v: &Value) -> Option<String> {
    Some(least(Some(v.get("min_width")?.inner_number()?)))
}

/// The least width; without literals there is none.
pub fn least(w: Option<u64>) -> String {
    w.filter(|w| *w < (1 << 31) - 1).map_or("none".into(), |w| w.to_string())
}

/// What a run reports of a text: its size, a digest, and how it begins.
pub fn brief(s: &str) -> String {
    let h = s.bytes().fold(0xcbf2_9ce4_8422_2325u64, |h, b| (h ^ u64::from(b)).wrapping_mul(0x100_0000_01b3));
    let head: String = s.chars().take(300).collect();
    format!("{} {h:x} {head}", s.len())
}
