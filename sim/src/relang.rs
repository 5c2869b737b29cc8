//! Reference semantics of patterns: Brzozowski derivatives over the parsed expression. Shares with the
//! library only the regex-syntax parser; there is no automaton, no minimisation, no hashing.

use regex_syntax::hir::{Class, Hir, HirKind, Literal, RepetitionKind, RepetitionRange};
use std::collections::BTreeMap;

pub type Re = u32;
pub const NONE: Re = 0;
pub const EPS: Re = 1;

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum Node {
    None,
    Eps,
    Class(Vec<(u32, u32)>),
    Cat(Re, Re),
    Alt(Vec<Re>),
    Star(Re),
}

pub struct Lang {
    nodes: Vec<Node>,
    nullable: Vec<bool>,
    index: BTreeMap<Node, Re>,
    memo: BTreeMap<(Re, u32), Re>,
    pub overflow: bool,
}

pub const CAP: usize = 6000;

impl Lang {
    pub fn new() -> Self {
        let mut l = Lang { nodes: vec![], nullable: vec![], index: BTreeMap::new(), memo: BTreeMap::new(), overflow: false };
        l.intern(Node::None);
        l.intern(Node::Eps);
        l
    }
    fn intern(&mut self, n: Node) -> Re {
        if let Some(i) = self.index.get(&n) {
            return *i;
        }
        if self.nodes.len() > CAP {
            self.overflow = true;
            return NONE;
        }
        let nullable = match &n {
            Node::None | Node::Class(_) => false,
            Node::Eps | Node::Star(_) => true,
            Node::Cat(a, b) => self.nullable[*a as usize] && self.nullable[*b as usize],
            Node::Alt(v) => v.iter().any(|a| self.nullable[*a as usize]),
        };
        let i = self.nodes.len() as Re;
        self.nodes.push(n.clone());
        self.nullable.push(nullable);
        self.index.insert(n, i);
        i
    }
    pub fn nullable(&self, r: Re) -> bool {
        self.nullable[r as usize]
    }
    fn class(&mut self, ranges: Vec<(u32, u32)>) -> Re {
        if ranges.is_empty() {
            NONE
        } else {
            self.intern(Node::Class(ranges))
        }
    }
    fn cat(&mut self, a: Re, b: Re) -> Re {
        if a == NONE || b == NONE {
            return NONE;
        }
        if a == EPS {
            return b;
        }
        if b == EPS {
            return a;
        }
        if let Node::Cat(x, y) = self.nodes[a as usize].clone() {
            let t = self.cat(y, b);
            return self.cat(x, t);
        }
        self.intern(Node::Cat(a, b))
    }
    pub fn alt(&mut self, list: Vec<Re>) -> Re {
        let mut flat = Vec::new();
        for a in list {
            match &self.nodes[a as usize] {
                Node::None => {}
                Node::Alt(v) => flat.extend(v.iter().copied()),
                _ => flat.push(a),
            }
        }
        flat.sort();
        flat.dedup();
        match flat.len() {
            0 => NONE,
            1 => flat[0],
            _ => self.intern(Node::Alt(flat)),
        }
    }
    fn star(&mut self, a: Re) -> Re {
        if a == NONE || a == EPS {
            return EPS;
        }
        if let Node::Star(_) = self.nodes[a as usize] {
            return a;
        }
        self.intern(Node::Star(a))
    }
    pub fn deriv(&mut self, r: Re, c: char) -> Re {
        let c = c as u32;
        self.d(r, c)
    }
    fn d(&mut self, r: Re, c: u32) -> Re {
        if let Some(x) = self.memo.get(&(r, c)) {
            return *x;
        }
        let res = match self.nodes[r as usize].clone() {
            Node::None | Node::Eps => NONE,
            Node::Class(v) => {
                if v.iter().any(|(a, b)| *a <= c && c <= *b) {
                    EPS
                } else {
                    NONE
                }
            }
            Node::Cat(a, b) => {
                let da = self.d(a, c);
                let left = self.cat(da, b);
                if self.nullable(a) {
                    let db = self.d(b, c);
                    self.alt(vec![left, db])
                } else {
                    left
                }
            }
            Node::Alt(v) => {
                let v = v.into_iter().map(|a| self.d(a, c)).collect();
                self.alt(v)
            }
            Node::Star(a) => {
                let da = self.d(a, c);
                self.cat(da, r)
            }
        };
        if !self.overflow {
            self.memo.insert((r, c), res);
        }
        res
    }
    /// The ranges that can come first.
    pub fn firsts(&self, r: Re, out: &mut Vec<(u32, u32)>) {
        match &self.nodes[r as usize] {
            Node::None | Node::Eps => {}
            Node::Class(v) => out.extend(v.iter().copied()),
            Node::Cat(a, b) => {
                self.firsts(*a, out);
                if self.nullable(*a) {
                    self.firsts(*b, out);
                }
            }
            Node::Alt(v) => v.iter().for_each(|a| self.firsts(*a, out)),
            Node::Star(a) => self.firsts(*a, out),
        }
    }
    /// Standard semantics of an expression. None if it is outside the supported set.
    pub fn of_hir(&mut self, h: &Hir) -> Option<Re> {
        Some(match h.kind() {
            HirKind::Empty => EPS,
            HirKind::Literal(Literal::Unicode(c)) => self.class(vec![(*c as u32, *c as u32)]),
            HirKind::Literal(_) | HirKind::Class(Class::Bytes(_)) | HirKind::Anchor(_) | HirKind::WordBoundary(_) => return None,
            HirKind::Class(Class::Unicode(c)) => {
                let v = c.iter().map(|r| (r.start() as u32, r.end() as u32)).collect();
                self.class(v)
            }
            HirKind::Group(g) => self.of_hir(&g.hir)?,
            HirKind::Concat(v) => {
                let mut r = EPS;
                for h in v.iter().rev() {
                    let a = self.of_hir(h)?;
                    r = self.cat(a, r);
                }
                r
            }
            HirKind::Alternation(v) => {
                let v = v.iter().map(|h| self.of_hir(h)).collect::<Option<Vec<_>>>()?;
                self.alt(v)
            }
            HirKind::Repetition(rep) => {
                let a = self.of_hir(&rep.hir)?;
                let (lo, hi) = match &rep.kind {
                    RepetitionKind::ZeroOrOne => (0, Some(1)),
                    RepetitionKind::ZeroOrMore => (0, None),
                    RepetitionKind::OneOrMore => (1, None),
                    RepetitionKind::Range(RepetitionRange::Exactly(n)) => (*n, Some(*n)),
                    RepetitionKind::Range(RepetitionRange::AtLeast(n)) => (*n, None),
                    RepetitionKind::Range(RepetitionRange::Bounded(n, m)) => (*n, Some(*m)),
                };
                let mut r = match hi {
                    None => self.star(a),
                    Some(hi) => {
                        let mut r = EPS;
                        for _ in lo..hi {
                            let x = self.cat(a, r);
                            r = self.alt(vec![EPS, x]);
                        }
                        r
                    }
                };
                for _ in 0..lo {
                    r = self.cat(a, r);
                }
                r
            }
        })
    }
    pub fn parse(&mut self, pattern: &str) -> Option<Re> {
        let h = regex_syntax::Parser::new().parse(pattern).ok()?;
        self.of_hir(&h)
    }
}

/// True if the expression contains an explicitly empty sub-expression (see known finding D2).
pub fn has_empty(h: &Hir) -> bool {
    match h.kind() {
        HirKind::Empty => true,
        HirKind::Group(g) => has_empty(&g.hir),
        HirKind::Concat(v) | HirKind::Alternation(v) => v.iter().any(has_empty),
        HirKind::Repetition(r) => has_empty(&r.hir),
        _ => false,
    }
}

/// Reference model of one pattern set.
pub struct TokModel {
    pub lang: Lang,
    pub start: Vec<Re>,
    /// Some matches are long: draw longer texts.
    pub long: bool,
    /// Product states met so far: what is left of each pattern, and the pattern that matches here.
    met: Vec<(Vec<Re>, Option<usize>)>,
    index: BTreeMap<Vec<Re>, TokState>,
    memo: BTreeMap<(TokState, char), TokState>,
}

pub type TokState = u32;

impl TokModel {
    pub fn new(patterns: &[String]) -> Option<TokModel> {
        let mut lang = Lang::new();
        let start = patterns.iter().map(|p| lang.parse(p)).collect::<Option<Vec<_>>>()?;
        let mut m = TokModel { lang, start: start.clone(), long: false, met: vec![], index: BTreeMap::new(), memo: BTreeMap::new() };
        m.state(start);
        Some(m)
    }
    pub fn state(&mut self, v: Vec<Re>) -> TokState {
        if let Some(i) = self.index.get(&v) {
            return *i;
        }
        let i = self.met.len() as TokState;
        let a = v.iter().position(|r| self.lang.nullable(*r));
        self.met.push((v.clone(), a));
        self.index.insert(v, i);
        i
    }
    pub fn start(&self) -> TokState {
        0
    }
    pub fn parts(&self, s: &TokState) -> Vec<Re> {
        self.met[*s as usize].0.clone()
    }
    pub fn step(&mut self, s: &TokState, c: char) -> TokState {
        if let Some(n) = self.memo.get(&(*s, c)) {
            return *n;
        }
        let v = self.parts(s).iter().map(|r| if *r == NONE { NONE } else { self.lang.deriv(*r, c) }).collect();
        let n = self.state(v);
        self.memo.insert((*s, c), n);
        n
    }
    pub fn viable(&self, s: &TokState) -> bool {
        self.met[*s as usize].0.iter().any(|r| *r != NONE)
    }
    /// Some longer text can still match.
    pub fn extensible(&self, s: &TokState) -> bool {
        self.met[*s as usize].0.iter().any(|r| *r != NONE && *r != EPS)
    }
    pub fn accepts(&self, s: &TokState) -> Option<usize> {
        self.met[*s as usize].1
    }
    /// (length, pattern) of the longest non-empty match at the front of `w`; whether all of `w` is viable;
    /// whether it could be extended.
    pub fn scan(&mut self, w: &[char]) -> Scan {
        let mut s = self.start();
        let mut best = None;
        for (i, c) in w.iter().enumerate() {
            s = self.step(&s, *c);
            if !self.viable(&s) {
                return Scan { best, viable: false, extensible: false };
            }
            if let Some(p) = self.accepts(&s) {
                best = Some((i + 1, p));
            }
        }
        Scan { best, viable: self.viable(&s), extensible: self.extensible(&s) }
    }
    pub fn overflow(&self) -> bool {
        self.lang.overflow
    }
    /// Explore the product automaton: Some(true) if two patterns match a common text (the empty text
    /// counts), None if over the cap.
    pub fn ambiguous(&mut self, cap: usize) -> Option<bool> {
        let mut seen = std::collections::BTreeSet::new();
        let mut todo = vec![self.start()];
        while let Some(s) = todo.pop() {
            if !seen.insert(s.clone()) {
                continue;
            }
            if seen.len() > cap || self.overflow() {
                return None;
            }
            let parts = self.parts(&s);
            if parts.iter().filter(|r| self.lang.nullable(**r)).count() > 1 {
                return Some(true);
            }
            let mut cuts = Vec::new();
            for r in &parts {
                let mut f = Vec::new();
                self.lang.firsts(*r, &mut f);
                for (a, b) in f {
                    cuts.push(a);
                    cuts.push(b + 1);
                }
            }
            cuts.sort();
            cuts.dedup();
            if cuts.len() > 400 {
                return None;
            }
            for c in cuts {
                // every interval between cuts behaves like its first element; surrogates never occur
                let c = if (0xD800..0xE000).contains(&c) { 0xE000 } else { c };
                if let Some(c) = char::from_u32(c) {
                    let n = self.step(&s, c);
                    if self.viable(&n) {
                        todo.push(n);
                    }
                }
            }
        }
        Some(false)
    }
}

pub struct Scan {
    pub best: Option<(usize, usize)>,
    pub viable: bool,
    pub extensible: bool,
}
