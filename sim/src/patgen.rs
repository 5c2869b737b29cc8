//! Generators: pattern sets and character streams.

use crate::choice::Ch;
use crate::relang::{has_empty, TokModel, TokState};

const ALPHABETS: [&[char]; 8] = [
    &['a', 'b', 'c'],
    &['0', '1', 'x', '.'],
    &['a', 'b', 'c', 'd', 'e', 'f'],
    &['+', '=', '<', '-', '>'],
    &['é', 'ß', 'ÿ', 'ẞ', 'k'],
    &['\u{0}', '\u{10ffff}', '\u{d7ff}', '\u{e000}', '\u{ffff}'],
    &['日', '本', '語', '\n', ' '],
    &['/', '*', '"', '\\', 'n'],
];

const REAL: [&str; 30] = [
    "[a-zA-Z_][a-zA-Z0-9_]*",
    "[0-9]+",
    "([0-9]+|[0-9]+\\.[0-9]*|[0-9]*\\.[0-9]+)([eE][\\+\\-]?[0-9]+)?",
    "0([xX][0-9a-fA-F]+|[oO][0-7]+|[bB][01]+)|[1-9][0-9]*|0",
    "\"([^\"\\\\]|\\\\.)*\"",
    "/\\*([^*]|\\*+[^*/])*\\*+/",
    "//[^\n]*",
    "[ \t\r\n]+",
    "if",
    "else",
    "elif|else if",
    "while",
    "==",
    "=",
    "<=|>=|<|>",
    "\\+\\+?|\\+=",
    "--?>?",
    ".",
    ".|\n",
    "'.'",
    "[0-9]{4}-[0-9]{2}(-[0-9]{2})?",
    "(ab|cd)+e?",
    "(a|b)*abb",
    "<<?<?=?",
    "\\.\\.\\.?",
    "r#*\"",
    "(x(y(z)?)?)?w",
    "(?i:begin|end)",
    "[^a-y]z?",
    "true|false|null",
];

fn esc(c: char) -> String {
    match c {
        '\n' => "\\n".to_string(),
        '\u{0}' => "\\x00".to_string(),
        c if c.is_ascii_alphanumeric() || !c.is_ascii() => {
            if c as u32 > 0xD000 {
                format!("\\x{{{:x}}}", c as u32)
            } else {
                c.to_string()
            }
        }
        ' ' | '<' | '>' | '=' | '"' | '/' => c.to_string(),
        c => format!("\\{c}"),
    }
}

pub struct PatCfg {
    pub nullable: bool,
    /// Allow explicitly empty sub-expressions.
    pub empty: bool,
    pub unicode_classes: bool,
}

fn class(ch: &mut Ch, ab: &[char]) -> String {
    let mut s = String::from("[");
    if ch.chance(1, 5) {
        s.push('^');
    }
    for _ in 0..ch.range(1, 3) {
        let a = *ch.pick(ab);
        let b = *ch.pick(ab);
        if ch.chance(1, 24) {
            s += &format!("[^{}]", esc(a));
        } else if ch.chance(1, 2) {
            let (a, b) = (a.min(b), a.max(b));
            s += &esc(a);
            s.push('-');
            s += &esc(b);
        } else {
            s += &esc(a);
        }
    }
    if ch.chance(1, 16) {
        let o = esc(*ch.pick(ab));
        s += &format!("{}[{o}]", ch.pick(&["&&", "--", "~~"]));
    }
    s.push(']');
    s
}

fn atom(ch: &mut Ch, ab: &[char], depth: usize, cfg: &PatCfg) -> String {
    match ch.weighted(&[8, 5, if depth > 0 { 5 } else { 0 }, 1, 1, if cfg.unicode_classes { 1 } else { 0 }]) {
        0 => esc(*ch.pick(ab)),
        1 => class(ch, ab),
        2 => {
            let inner = alt(ch, ab, depth - 1, cfg);
            match ch.weighted(&[12, 4, 3, 1, 1, 1]) {
                0 => format!("({inner})"),
                1 => format!("(?:{inner})"),
                2 => format!("(?P<g{}>{inner})", ch.below(10_000)),
                3 => format!("(?i:{inner})"),
                4 => format!("(?U:{inner})"),
                _ => format!("(?s:{inner})"),
            }
        }
        3 => ch.pick(&[".", ".", ".", "(?s:.)", "(?s).(?-s)"]).to_string(),
        4 => format!("(?i:{})", esc(*ch.pick(ab))),
        _ => ch.pick(&["\\d", "\\s", "[[:alpha:]]", "\\D", "[[:^digit:]]", "\\w", "\\W", "\\pN", "\\PL"]).to_string(),
    }
}

fn rep(ch: &mut Ch, ab: &[char], depth: usize, cfg: &PatCfg) -> String {
    let a = atom(ch, ab, depth, cfg);
    if cfg.empty && ch.chance(1, 12) {
        return "(|b)".to_string();
    }
    let r = match ch.weighted(&[10, 3, 3, 3, 1, 1, 1, 2]) {
        0 => return a,
        1 => "*".to_string(),
        2 => "?".to_string(),
        3 => "+".to_string(),
        4 => format!("{{{}}}", ch.range(1, 3)),
        5 => format!("{{{},}}", ch.range(0, 3)),
        6 => {
            let m = ch.range(1, 3);
            format!("{{0,{m}}}")
        }
        _ => {
            let n = ch.range(0, 3);
            let m = n + ch.range(0, 2);
            format!("{{{n},{}}}", m.max(1))
        }
    };
    let lazy = if ch.chance(1, 12) { "?" } else { "" };
    format!("{a}{r}{lazy}")
}

fn cat(ch: &mut Ch, ab: &[char], depth: usize, cfg: &PatCfg) -> String {
    (0..ch.range(1, 4)).map(|_| rep(ch, ab, depth, cfg)).collect()
}

fn alt(ch: &mut Ch, ab: &[char], depth: usize, cfg: &PatCfg) -> String {
    let n = ch.weighted(&[6, 3, 2, 1]) + 1;
    (0..n).map(|_| cat(ch, ab, depth, cfg)).collect::<Vec<_>>().join("|")
}

/// Two branches with the same tail but for one class: states an automaton must not confuse.
fn siblings(ch: &mut Ch, ab: &[char], cfg: &PatCfg) -> Vec<String> {
    let mut sorted = ab.to_vec();
    sorted.sort();
    let i = ch.below(sorted.len());
    let j = i + ch.below(sorted.len() - i);
    let k = i + ch.below(sorted.len() - i);
    let (front, back) = (ch.chance(1, 4), ch.chance(1, 3));
    let f = if front { rep(ch, ab, 1, cfg) } else { String::new() };
    let b = if back { rep(ch, ab, 1, cfg) } else { String::new() };
    let q = *ch.pick(&["", "", "", "+", "*", "{2}"]);
    let tail = |e: usize| {
        if e == i {
            format!("{f}{}{q}{b}", esc(sorted[i]))
        } else {
            format!("{f}[{}-{}]{q}{b}", esc(sorted[i]), esc(sorted[e]))
        }
    };
    let (p, r) = (*ch.pick(ab), *ch.pick(ab));
    let (x, y) = (format!("{}{}", esc(p), tail(j)), format!("{}{}", esc(r), tail(k)));
    match ch.below(3) {
        0 => vec![format!("{x}|{y}")],
        1 => vec![x, y],
        _ => vec![format!("({x}|{y})+")],
    }
}

/// Many literals with common beginnings, like the keywords and operators of a language.
fn keywords(ch: &mut Ch, ab: &[char], n: usize, len: usize) -> Vec<String> {
    let mut list: Vec<Vec<char>> = Vec::new();
    for _ in 0..n {
        let mut w: Vec<char> = Vec::new();
        if !list.is_empty() && ch.chance(1, 2) {
            let o = ch.pick(&list).clone();
            let k = ch.range(1, o.len());
            w.extend(&o[..k]);
        }
        for _ in 0..ch.range(1, len) {
            w.push(*ch.pick(ab));
        }
        list.push(w);
    }
    list.iter().map(|w| w.iter().map(|c| esc(*c)).collect()).collect()
}

/// Expressions with many parts: rows of optional ones, many branches, many ranges, many levels.
fn wide(ch: &mut Ch, ab: &[char], cfg: &PatCfg) -> String {
    let k = [6, 10, 20, 40, 70][ch.weighted(&[4, 4, 4, 2, 1])];
    let k = ch.range(k / 2, k);
    match ch.below(5) {
        0 => {
            // may all be left out
            let mut s: String = (0..k).map(|i| format!("{}{}", esc(ab[i % ab.len()]), if ch.chance(1, 30) { "*" } else { "?" })).collect();
            let end = esc(*ch.pick(ab));
            if ch.chance(1, 2) {
                s = format!("{end}{s}");
            } else {
                s += &end;
            }
            s
        }
        1 => {
            let v: Vec<String> = (0..k).map(|_| if ch.chance(1, 6) { cat(ch, ab, 0, cfg) } else { (0..ch.range(1, 4)).map(|_| esc(*ch.pick(ab))).collect() }).collect();
            format!("({}){}", v.join("|"), ch.pick(&["", "", "+", "{2}"]))
        }
        2 => {
            // many ranges with gaps, possibly left out ones
            let step = ch.range(2, 9) as u32;
            let from = [0x21, 0x100, 0x4e00, 0xd7c0, 0x1f300][ch.below(5)];
            let mut s = String::from(if ch.chance(1, 4) { "[^" } else { "[" });
            for i in 0..k as u32 {
                let a = from + i * step;
                let b = a + ch.below(step as usize - 1) as u32;
                s += &format!("\\x{{{a:x}}}");
                if b > a {
                    s += &format!("-\\x{{{b:x}}}");
                }
            }
            s.push(']');
            s += ch.pick(&["", "+", "{2}", "?x"]);
            s
        }
        3 => {
            // levels
            let mut s = esc(*ch.pick(ab));
            for i in 0..k.min(40) {
                s = match ch.below(5) {
                    0 => format!("({s}){}", ch.pick(&["", "?", "+", "?"])),
                    1 => format!("({s}|{})", esc(ab[i % ab.len()])),
                    2 => format!("({s}{})", esc(ab[i % ab.len()])),
                    3 => format!("({}{s})?", esc(ab[i % ab.len()])),
                    _ => format!("({}({s})?)", esc(ab[i % ab.len()])),
                };
            }
            format!("{s}{}", esc(*ch.pick(ab)))
        }
        _ => {
            let mut s = String::new();
            for _ in 0..k.min(30) {
                s += &rep(ch, ab, 0, cfg);
            }
            s
        }
    }
}

const COUNTS: [usize; 16] = [4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 31, 32, 33, 64, 65];

/// Repetitions with larger counts.
fn counted(ch: &mut Ch, ab: &[char]) -> String {
    let a = match ch.below(4) {
        0 | 1 => esc(*ch.pick(ab)),
        2 => class(ch, ab),
        _ => format!("({}{}?)", esc(*ch.pick(ab)), esc(*ch.pick(ab))),
    };
    let big = [12, 14, 16][ch.weighted(&[6, 1, 1])];
    let n = COUNTS[ch.below(big)];
    let r = match ch.below(4) {
        0 => format!("{{{n}}}"),
        1 => format!("{{{n},}}"),
        2 => format!("{{0,{n}}}"),
        _ => format!("{{{},{n}}}", ch.range(1, n)),
    };
    let before = if ch.chance(1, 2) { esc(*ch.pick(ab)) } else { String::new() };
    let after = if ch.chance(1, 2) { esc(*ch.pick(ab)) } else { String::new() };
    format!("{before}{a}{r}{after}")
}

/// A set of supported patterns together with its model. Rejects what the model cannot handle.
pub fn patterns(ch: &mut Ch, cfg: &PatCfg) -> (Vec<String>, TokModel, &'static [char]) {
    let kind = ch.weighted(&[40, 24, 24, 16, 8, 8, 6, 1, 4]);
    let ab = *ch.pick(&ALPHABETS);
    let r = ch.attempt(20, |ch| {
        let n = ch.range(1, 5);
        let mut long = false;
        let list: Vec<String> = match kind {
            3 => {
                let mut list = siblings(ch, ab, cfg);
                if n > 3 {
                    list.extend(siblings(ch, ab, cfg));
                }
                list
            }
            4 => {
                let k = ch.range(6, 24);
                let len = ch.range(2, 5);
                let mut list = keywords(ch, ab, k, len);
                if ch.chance(1, 2) {
                    let at = ch.below(list.len() + 1);
                    let c = class(ch, ab);
                    list.insert(at, format!("{c}+"));
                }
                list
            }
            5 => {
                long = true;
                let mut list: Vec<String> = (0..ch.range(1, 2)).map(|_| counted(ch, ab)).collect();
                for _ in 0..ch.below(3) {
                    list.push(cat(ch, ab, 1, cfg));
                }
                list
            }
            6 => {
                // a long literal, its beginnings and its characters: deep look-ahead given back
                long = true;
                let len = [12, 40, 70, 140, 270][ch.weighted(&[8, 4, 2, 1, 1])];
                let mut w: Vec<char> = Vec::new();
                let unit = ch.range(1, 4);
                for i in 0..ch.range(8, len) {
                    let c = if i < unit || ch.chance(1, 10) { *ch.pick(ab) } else { w[i - unit] };
                    w.push(c);
                }
                let mut list: Vec<String> = vec![w.iter().map(|c| esc(*c)).collect()];
                if ch.chance(1, 3) {
                    let k = ch.range(1, w.len());
                    list.push(w[..k].iter().map(|c| esc(*c)).collect());
                }
                if ch.chance(2, 3) {
                    list.push(class(ch, ab));
                }
                if ch.chance(1, 2) {
                    list.push(cat(ch, ab, 1, cfg));
                }
                list
            }
            7 => {
                // more patterns than small numbers can count
                let k = [66, 130, 258, 300][ch.weighted(&[4, 3, 2, 1])];
                let from = ch.below(200) as u32;
                let mut list: Vec<String> = (0..k).map(|i| format!("{}{}", char::from_u32(0x4e00 + (from + i) % 17).unwrap(), char::from_u32(0x4e00 + (from + i) / 17).unwrap())).collect();
                if ch.chance(1, 2) {
                    list.push(".".into());
                }
                list
            }
            8 => {
                long = true;
                let mut list = vec![wide(ch, ab, cfg)];
                if ch.chance(1, 3) {
                    list.push(wide(ch, ab, cfg));
                }
                for _ in 0..ch.below(3) {
                    list.push(cat(ch, ab, 1, cfg));
                }
                list
            }
            _ => (0..n)
                .map(|_| match kind {
                    0 => {
                        let d = ch.range(0, 3);
                        alt(ch, ab, d, cfg)
                    }
                    1 => ch.pick(&REAL).to_string(),
                    _ => {
                        if ch.chance(1, 2) {
                            ch.pick(&REAL).to_string()
                        } else {
                            let d = ch.range(0, 2);
                            alt(ch, ab, d, cfg)
                        }
                    }
                })
                .collect(),
        };
        let mut m = check(&list, cfg, long || kind == 7)?;
        m.long = long;
        Some((list, m))
    });
    match r {
        Some((list, m)) => (list, m, ab),
        None => {
            let list = vec!["a".to_string(), "b+".to_string()];
            let m = check(&list, cfg, false).unwrap();
            (list, m, ab)
        }
    }
}

fn check(list: &[String], cfg: &PatCfg, big: bool) -> Option<TokModel> {
    for p in list {
        if p.len() > if big { 4000 } else { 120 } {
            return None;
        }
        let h = regex_syntax::Parser::new().parse(p).ok()?;
        if !cfg.empty && has_empty(&h) {
            return None;
        }
    }
    let mut m = TokModel::new(list)?;
    if m.overflow() {
        return None;
    }
    if !cfg.nullable && m.start.iter().any(|r| m.lang.nullable(*r)) {
        return None;
    }
    // keep automata small: bounded number of product states
    size(&mut m, if big { 700 } else { 250 })?;
    Some(m)
}

/// How often to repeat something: around the powers of two, mostly small ones.
pub fn laps(ch: &mut Ch, most: usize) -> usize {
    let e = match ch.weighted(&[10, 6, 3, 1]) {
        0 => ch.range(3, 6),
        1 => ch.range(6, 9),
        2 => ch.range(9, 12),
        _ => ch.range(12, 16),
    };
    let n = match ch.below(5) {
        0 => (1 << e) - 1,
        1 => 1 << e,
        2 => (1 << e) + 1,
        3 => ch.range(1 << (e - 1), 1 << e),
        _ => 10usize.pow((e as u32 / 4).max(1)) + 1,
    };
    n.min(most)
}

/// Repeat a piece of the text many times, as far as looking at it stays cheap.
pub fn stretch(ch: &mut Ch, m: &mut TokModel, text: &mut Vec<char>, most: usize) {
    if text.is_empty() {
        return;
    }
    let i = ch.below(text.len());
    let n = (1 + ch.weighted(&[6, 2, 2, 1, 1, 1])).min(text.len() - i);
    let piece: Vec<char> = text[i..i + n].to_vec();
    let k = laps(ch, most / n);
    let tail = text.split_off(i);
    for _ in 0..k {
        text.extend(&piece);
    }
    text.extend(tail);
    while !cheap(m, text) {
        let n = text.len() / 2;
        text.truncate(n);
    }
}

/// Whether a walk like the tokenizer's takes few steps.
pub fn cheap(m: &mut TokModel, text: &mut Vec<char>) -> bool {
    let mut left: i64 = 600_000;
    let mut at = 0;
    while at < text.len() {
        let mut s = m.start();
        let mut end = at;
        for j in at..text.len() {
            s = m.step(&s, text[j]);
            left -= 1;
            if left < 0 {
                return false;
            }
            if !m.viable(&s) {
                break;
            }
            if m.accepts(&s).is_some() {
                end = j + 1;
            }
        }
        if end == at {
            // the stream ends here; a little more is enough
            text.truncate(at + 60);
            return true;
        }
        at = end;
    }
    true
}

/// Number of product states, None if over the cap.
/// Very many patterns, or very long ones: more than a small number can count.
pub fn many(ch: &mut Ch) -> (Vec<String>, TokModel, &'static [char]) {
    let ab = *ch.pick(&ALPHABETS);
    let mut list: Vec<String> = Vec::new();
    let literals = ch.chance(1, 2);
    let k = [34, 66, 130, if literals { 270 } else { 600 }][ch.weighted(&[3, 3, 2, 3])];
    if literals {
        let from = ch.below(200) as u32;
        list.extend((0..k as u32).map(|i| format!("{}{}", char::from_u32(0x4e00 + (from + i) % 17).unwrap(), char::from_u32(0x4e00 + (from + i) / 17).unwrap())));
    } else {
        let cut = ch.range(1, k);
        let w: Vec<char> = (0..k).map(|_| *ch.pick(ab)).collect();
        list.push(w.iter().map(|c| esc(*c)).collect());
        if ch.chance(1, 2) {
            list.push(w[..cut].iter().map(|c| esc(*c)).collect());
        }
        if ch.chance(1, 2) {
            list.push(format!("{}{}", esc(w[0]), w[cut..].iter().rev().map(|c| esc(*c)).collect::<String>()));
        }
    }
    if ch.chance(1, 2) {
        let at = ch.below(list.len() + 1);
        list.insert(at, ".".into());
    }
    let m = TokModel::new(&list).unwrap();
    (list, m, ab)
}

pub fn size(m: &mut TokModel, cap: usize) -> Option<usize> {
    let mut seen = std::collections::BTreeSet::new();
    let mut todo = vec![m.start()];
    while let Some(s) = todo.pop() {
        if !seen.insert(s.clone()) {
            continue;
        }
        if seen.len() > cap || m.overflow() {
            return None;
        }
        let mut f = Vec::new();
        for r in &m.parts(&s) {
            m.lang.firsts(*r, &mut f);
        }
        if f.len() > 700 {
            return None;
        }
        let mut cuts: Vec<u32> = f.iter().flat_map(|(a, b)| [*a, *b + 1]).collect();
        cuts.sort();
        cuts.dedup();
        for c in cuts {
            let c = if (0xD800..0xE000).contains(&c) { 0xE000 } else { c };
            if let Some(c) = char::from_u32(c) {
                let n = m.step(&s, c);
                if m.viable(&n) {
                    todo.push(n);
                }
            }
        }
    }
    Some(seen.len())
}

fn from_range(ch: &mut Ch, a: u32, b: u32) -> char {
    let c = match ch.weighted(&[4, 2, 2]) {
        0 => a,
        1 => b,
        _ => a + ch.choose((b - a).min(u32::MAX - 1) + 1),
    };
    char::from_u32(c).unwrap_or('\u{e000}')
}

/// A text that some pattern matches (or a prefix of one).
fn word(ch: &mut Ch, m: &mut TokModel, out: &mut Vec<char>, max: usize) {
    // mostly follow one pattern
    let p = ch.below(m.start.len());
    let solo = ch.chance(2, 3);
    walk(ch, m, if solo { Some(p) } else { None }, out, max);
}

/// A text that pattern `p` matches (or a prefix of one).
pub fn word_of(ch: &mut Ch, m: &mut TokModel, p: usize, out: &mut Vec<char>, max: usize) {
    walk(ch, m, Some(p), out, max);
}

fn walk(ch: &mut Ch, m: &mut TokModel, solo: Option<usize>, out: &mut Vec<char>, max: usize) {
    let mut s: TokState = m.start();
    if let Some(p) = solo {
        let mut v = vec![crate::relang::NONE; m.start.len()];
        v[p] = m.start[p];
        s = m.state(v);
    }
    for i in 0..max {
        if i > 0 && m.accepts(&s).is_some() && ch.chance(1, if m.long { 12 } else { 3 }) {
            return;
        }
        let mut f = Vec::new();
        for r in &m.parts(&s) {
            m.lang.firsts(*r, &mut f);
        }
        if f.is_empty() {
            return;
        }
        let (a, b) = *ch.pick(&f);
        let c = from_range(ch, a, b);
        s = m.step(&s, c);
        out.push(c);
        if ch.chance(1, if m.long { 150 } else { 40 }) {
            return;
        }
    }
}

/// Some way into a pattern, then a character at an edge of a class that counts anywhere.
fn probe(ch: &mut Ch, m: &mut TokModel, out: &mut Vec<char>) {
    let mut s: TokState = m.start();
    let mut edges: Vec<(u32, u32)> = Vec::new();
    for _ in 0..ch.range(0, 4) {
        let mut f = Vec::new();
        for r in &m.parts(&s) {
            m.lang.firsts(*r, &mut f);
        }
        if f.is_empty() {
            break;
        }
        edges.extend(f.iter().copied());
        let (a, b) = *ch.pick(&f);
        let c = from_range(ch, a, b);
        s = m.step(&s, c);
        out.push(c);
    }
    if edges.is_empty() {
        for r in &m.parts(&s) {
            m.lang.firsts(*r, &mut edges);
        }
    }
    if edges.is_empty() {
        return;
    }
    for _ in 0..ch.range(1, 2) {
        let (a, b) = *ch.pick(&edges);
        let c = match ch.below(4) {
            0 => a,
            1 => b,
            2 => a.saturating_sub(1),
            _ => b + 1,
        };
        out.extend(char::from_u32(c));
    }
}

/// A character stream: words of the patterns, with damage, and noise.
pub fn text(ch: &mut Ch, m: &mut TokModel, ab: &[char], max: usize) -> Vec<char> {
    let mut out = Vec::new();
    let pieces = ch.weighted(&[1, 3, 4, 4, 3, 2, 1, 1, 1]);
    for _ in 0..pieces {
        match ch.weighted(&[10, 2, 1, 5]) {
            3 => probe(ch, m, &mut out),
            0 => {
                let long = if ch.chance(1, if m.long { 2 } else { 25 }) { 300 } else { 14 };
                word(ch, m, &mut out, long)
            }
            1 => out.push(*ch.pick(ab)),
            _ => out.push(*ch.pick(&['a', 'z', '0', ' ', '\n', '+', 'é', '\u{10ffff}', '\u{0}'])),
        }
        if out.len() > max + if m.long { 700 } else { 0 } {
            break;
        }
    }
    // damage
    for _ in 0..ch.weighted(&[6, 2, 1, 1]) {
        if out.is_empty() {
            break;
        }
        let i = ch.below(out.len());
        match ch.below(5) {
            0 => {
                out.remove(i);
            }
            1 => {
                let c = out[i];
                out.insert(i, c);
            }
            2 => {
                let j = ch.below(out.len());
                out.swap(i, j);
            }
            3 => {
                out[i] = *ch.pick(ab);
            }
            _ => {
                let d = ch.below(3) as i64 - 1;
                out[i] = char::from_u32((out[i] as i64 + d).max(0) as u32).unwrap_or(out[i]);
            }
        }
    }
    out.truncate(max + if m.long { 700 } else { 0 });
    out
}
