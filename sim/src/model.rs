//! A small model of the library: what it answers, written from its rules and
//! not from its code. One expression is judged in one pass over its bytes.
use crate::content;
use crate::plan::Call;

const MOST_EXPRESSIONS: usize = 8_000_000;
const SINGLEMATCH: u16 = 8;
const SOM_LEFTMOST: u16 = 0x100;
const QUIET: u16 = 0x400;

/// An outcome as a run reports it: "ok" and the mode, or "err" and the kind
/// and text of the error.
pub type Answer = (&'static str, String);

fn refused(kind: &str, why: &str) -> Answer {
    ("err", crate::exec::escape_line(&format!("{kind}: {why}")))
}

/// What a tree is made of.
#[derive(Debug)]
pub enum Node {
    Char(u8),
    /// A group and its alternatives: one, if there is no choice.
    Group(u32, Vec<Vec<Node>>),
}

/// The tree of an expression, or the kind of its error and the text.
pub fn parse(e: &str) -> Result<Node, (&'static str, String)> {
    let mut at = 0;
    if let Some(rest) = e.strip_prefix("(*") {
        match rest.find(')') {
            Some(n) if n > 0 => {
                let verb = &rest[..n];
                match verb {
                    "UCP" | "UTF" | "UTF8" => at = 2 + n + 1,
                    "NO_AUTO_POSSESS" | "NO_START_OPT" | "UTF16" | "UTF32" | "CR" | "LF" | "CRLF" | "ANYCRLF"
                    | "ANY" | "BSR_ANYCRLF" | "BSR_UNICODE" => {
                        return Err(("LocatedParse", format!("Unsupported control verb {verb} at index 2")))
                    }
                    _ if verb.starts_with("LIMIT_MATCH=") || verb.starts_with("LIMIT_RECURSION=") => {
                        return Err(("LocatedParse", format!("Unsupported control verb {verb} at index 2")))
                    }
                    _ => return Err(("LocatedParse", format!("Unknown control verb {verb} at index 2"))),
                }
            }
            _ => {}
        }
    }
    // Open groups: where each began, its number and its alternatives so far.
    let mut open: Vec<(usize, u32, Vec<Vec<Node>>)> = vec![(0, 0, vec![vec![]])];
    let mut groups = 0;
    for (i, &b) in e.as_bytes().iter().enumerate().skip(at) {
        let last = open.len() - 1;
        match b {
            b'(' => {
                groups += 1;
                open.push((i, groups, vec![vec![]]));
            }
            b')' if last == 0 => return Err(("LocatedParse", "Unmatched parentheses".into())),
            b')' => {
                let (_, n, alts) = open.pop().expect("an open group");
                open[last - 1].2.last_mut().expect("an alternative").push(Node::Group(n, alts));
            }
            b'|' => open[last].2.push(vec![]),
            0..=0x7f => open[last].2.last_mut().expect("an alternative").push(Node::Char(b)),
            _ => return Err(("LocatedParse", format!("Non-ASCII literals are not supported at index {i}"))),
        }
    }
    if open.len() > 1 {
        let (at, ..) = open[open.len() - 1];
        return Err(("Parse", format!("Missing close parenthesis for group started at index {at}.")));
    }
    let (_, n, alts) = open.pop().expect("the expression itself");
    Ok(Node::Group(n, alts))
}

/// Without ends: trees may be as deep as expressions are long.
impl Drop for Node {
    fn drop(&mut self) {
        let mut todo: Vec<Node> = Vec::new();
        let take = |n: &mut Node, todo: &mut Vec<Node>| {
            if let Node::Group(_, alts) = n {
                todo.extend(std::mem::take(alts).into_iter().flatten());
            }
        };
        take(self, &mut todo);
        while let Some(mut n) = todo.pop() {
            take(&mut n, &mut todo);
        }
    }
}

/// Judges an expression; whether it is a literal: characters, no choice.
fn judge(e: &str, flags: u16, longest: usize) -> Result<bool, (&'static str, String)> {
    if e.len() > longest {
        return Err(("Other", "Pattern length exceeds limit.".into()));
    }
    if flags & QUIET != 0 && flags & SOM_LEFTMOST != 0 {
        return Err(("Other", "QUIET is not supported in combination with SOM_LEFTMOST.".into()));
    }
    let tree = parse(e)?;
    let mut chars = false;
    let mut todo = vec![&tree];
    while let Some(n) = todo.pop() {
        match n {
            Node::Char(_) => chars = true,
            Node::Group(_, alts) if alts.len() > 1 => return Ok(false),
            Node::Group(_, alts) => todo.extend(alts.iter().flatten()),
        }
    }
    Ok(chars)
}

fn mode(m: u8) -> &'static str {
    match m {
        0 => "Block",
        1..=4 => "Stream",
        _ => "Vectored",
    }
}

/// What a call returns; nothing if the rules do not say.
pub fn answer(c: &Call) -> Option<Answer> {
    let n = c.exprs.len();
    if n == 0 {
        return Some(refused("Other", "Invalid parameter: expressions is empty"));
    }
    if !c.single && (c.flags.len() < n || c.ids.len() < n) {
        return Some(("err", "*".into()));
    }
    let [literals, shortcut, _, _, _, _, most, longest, reports] = c.limits().map(|n| n as usize);
    if n > most {
        return Some(refused("Other", "Number of patterns too large"));
    }
    let mut ids: std::collections::HashMap<u32, (bool, usize)> = Default::default();
    for (i, e) in c.exprs.iter().enumerate() {
        let literal = match judge(e, c.flags[i], longest) {
            Ok(l) => l && literals + shortcut == 2,
            Err((kind, why)) => return Some(refused(kind, &format!("{why} in expression {i}"))),
        };
        if literal {
            let id = if c.single { 0 } else { c.ids[i] };
            let once = c.flags[i] & SINGLEMATCH != 0;
            let (before, j) = *ids.entry(id).or_insert((once, i));
            if before != once {
                return Some(refused(
                    "Other",
                    &format!(
                        "Expression (index {i}) with match ID {id} {}  SINGLEMATCH whereas previous expression (index {j}) with the same match ID did{}. in expression {i}",
                        if once { "specified" } else { "did not sepcify" },
                        if once { " not" } else { "" },
                    ),
                ));
            }
            // All literals share one report.
            if reports == 0 {
                return Some(refused("ResourceLimit", &format!("Resource limit exceeded. in expression {i}")));
            }
        }
    }
    Some(("ok", mode(c.mode).into()))
}

/// What a call with `n` times the same invalid expression returns.
pub fn many(n: usize, e: &str, flags: u16) -> Option<Answer> {
    let c = Call { exprs: vec![e.into()], flags: vec![flags], ids: vec![0], mode: 0, single: false, tune: None };
    match n {
        0 => None,
        n if n > MOST_EXPRESSIONS => Some(refused("Other", "Number of patterns too large")),
        _ => answer(&c).filter(|a| a.0 == "err"),
    }
}

// ------------------------------------------------------------ what is built

const TRIE_VERTICES: usize = 8_000;

/// What an accepted call builds, by subject.
pub fn built(c: &Call) -> [String; content::SUBJECTS.len()] {
    let mut o = [const { String::new() }; content::SUBJECTS.len()];
    let mut ids: Vec<(u64, bool, u64)> = Vec::new();
    let mut known: std::collections::HashSet<u32> = Default::default();
    let mut keys = Vec::new();
    let mut all_once = true;
    let mut least: Option<u64> = None;
    let [literals, shortcut, small, trie_literal, trie_expressions, trie_literals, ..] = c.limits().map(|n| n as usize);
    let mut in_tries = 0;
    let mut given_up = small == 0 || c.exprs.len() > trie_expressions;
    // Prefixes of the literals in each trie: its vertices.
    let mut tries: [std::collections::HashSet<Vec<u8>>; 2] = Default::default();
    let mut ends: [std::collections::HashSet<Vec<u8>>; 2] = Default::default();
    for (i, e) in c.exprs.iter().enumerate() {
        let f = c.flags[i];
        let id = if c.single { 0 } else { c.ids[i] };
        let once = f & SINGLEMATCH != 0;
        let utf8 = f & 0x20 != 0 || e.starts_with("(*UTF8)") || e.starts_with("(*UTF)");
        o[0] += &content::mark(i as u64, id.into(), once, f & QUIET != 0, f & 0x80 != 0, utf8);
        let tree = parse(e).expect("a valid expression");
        let caseless = f & 1 != 0;
        let mut bytes = Vec::new();
        let mut choice = false;
        let mut todo = vec![&tree];
        while let Some(n) = todo.pop() {
            match n {
                Node::Char(b) => bytes.push(*b),
                Node::Group(_, alts) => {
                    choice |= alts.len() > 1;
                    todo.extend(alts.iter().flatten().rev().collect::<Vec<_>>());
                }
            }
        }
        let folds = |b: u8| caseless && b.is_ascii_alphabetic();
        if choice || bytes.is_empty() || literals + shortcut < 2 {
            let all: String = (0..256).map(|b| format!("{b:02x}")).collect();
            let mut others: Vec<String> = bytes
                .iter()
                .map(|&b| {
                    if folds(b) {
                        format!("{:02x}{:02x}", b.to_ascii_uppercase(), b.to_ascii_lowercase())
                    } else {
                        format!("{b:02x}")
                    }
                })
                .collect();
            others.sort();
            o[2] += &content::graph(&[all.clone(), all, String::new(), String::new()], &others);
            o[3] += "accept>accept_eod start>start_ds start_ds>start_ds; ";
            continue;
        }
        let lit: Vec<u8> = bytes.iter().map(|&b| if folds(b) { b.to_ascii_uppercase() } else { b }).collect();
        for (b, c) in bytes.iter().zip(&lit) {
            o[1] += &format!("{c:02x}{}", if folds(*b) { "i" } else { "" });
        }
        o[1] += "; ";
        if known.insert(id) {
            ids.push((id.into(), once, i as u64));
            if once {
                keys.push((id.into(), keys.len() as u64));
            }
        }
        all_once &= once;
        least = Some(least.unwrap_or(u64::MAX).min(lit.len() as u64));
        if given_up || lit.len() > trie_literal {
            continue;
        }
        in_tries += 1;
        if in_tries > trie_literals {
            given_up = true;
            continue;
        }
        let t = usize::from(bytes.iter().any(|&b| folds(b)));
        for n in 1..=lit.len() {
            tries[t].insert(lit[..n].to_vec());
        }
        ends[t].insert(lit);
        // The root is one as well.
        given_up = tries[t].len() + 1 > TRIE_VERTICES;
    }
    o[4] = if given_up {
        "given up".into()
    } else {
        let [a, b] = ends.map(|s| s.iter().map(|l| l.iter().map(|b| format!("{b:02x}")).collect()).collect());
        content::shelf(a, b)
    };
    o[5] = "one to one".into();
    o[6] = content::known_ids(ids, all_once);
    o[7] = content::known_keys(keys);
    o[8] = content::least(least);
    o
}

// ------------------------------------------------------------------- trees

fn byte(b: u8) -> String {
    match b {
        b'^' | b'-' | b'[' | b']' | b'.' => format!("\\{}", b as char),
        b'\t' => "\\t".into(),
        b'\n' => "\\n".into(),
        b'\r' => "\\r".into(),
        b'\\' => "\\x5c".into(),
        0x21..=0x7e => (b as char).to_string(),
        _ => format!("\\x{b:02x}"),
    }
}

/// The tree of an expression as it is dumped, or the error.
pub fn dump(e: &str, flags: u16) -> Result<String, (&'static str, String)> {
    enum Step<'a> {
        Node(&'a Node, usize),
        Seq(&'a [Node], usize),
    }
    let caseless = flags & 1 != 0;
    let tree = parse(e)?;
    let mut o = String::new();
    let mut todo = vec![Step::Node(&tree, 0)];
    let fill = |o: &mut String, level: usize| o.extend(std::iter::repeat(' ').take(level * 2));
    while let Some(s) = todo.pop() {
        match s {
            Step::Node(Node::Char(b), level) => {
                fill(&mut o, level);
                o.push_str("ASCII CLASS\n");
                fill(&mut o, level + 1);
                if caseless && b.is_ascii_alphabetic() {
                    o.push_str(&format!("[{}{}]", b.to_ascii_uppercase() as char, b.to_ascii_lowercase() as char));
                } else {
                    o.push_str(&byte(*b));
                }
                o.push('\n');
            }
            Step::Node(Node::Group(n, alts), level) => {
                fill(&mut o, level);
                o.push_str(&format!("SEQUENCE (capture index {n})\n"));
                if alts.len() == 1 {
                    if alts[0].is_empty() {
                        fill(&mut o, level + 1);
                        o.push_str(" <empty>\n");
                    }
                    todo.extend(alts[0].iter().rev().map(|c| Step::Node(c, level + 1)));
                } else {
                    fill(&mut o, level + 1);
                    o.push_str("ALTERNATION\n");
                    todo.extend(alts.iter().rev().map(|a| Step::Seq(a, level + 2)));
                }
            }
            Step::Seq(a, level) => {
                fill(&mut o, level);
                o.push_str("SEQUENCE (not captured)\n");
                if a.is_empty() {
                    fill(&mut o, level + 1);
                    o.push_str(" <empty>\n");
                }
                todo.extend(a.iter().rev().map(|c| Step::Node(c, level + 1)));
            }
        }
    }
    Ok(o)
}

/// The same text, whether short codes of bytes are padded with a blank or a
/// zero.
pub fn plain(s: &str) -> String {
    s.replace("\\x ", "\\x0")
}

/// What a run reports of a dump: its size, a digest, and how it begins.
pub fn brief(s: &str) -> String {
    let s = plain(s);
    let h = s.bytes().fold(0xcbf2_9ce4_8422_2325u64, |h, b| (h ^ u64::from(b)).wrapping_mul(0x100_0000_01b3));
    let head: String = s.chars().take(400).collect();
    format!("{} {h:x} {}", s.len(), crate::exec::escape_line(&head))
}

/// The answer to a dump, as a run reports it.
pub fn dumped(e: &str, flags: u16) -> String {
    match dump(e, flags) {
        Ok(t) => brief(&t),
        Err((kind, why)) => refused(kind, &why).1,
    }
}
