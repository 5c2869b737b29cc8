//! Reference semantics of grammars: a plainly written canonical LR(1) automaton over ordered sets, and a
//! machine over it that works on positions of the token stream. Shares no code with the library.

use crate::choice::Ch;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum Sym {
    N(usize),
    T(usize),
    Err,
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum La {
    T(usize),
    Err,
    Eoi,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Grammar {
    pub rules: Vec<(usize, Vec<Sym>)>,
    pub start: usize,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Act {
    Shift(usize),
    Reduce(usize),
    Accept,
}

type Item = (usize, usize, La);

pub struct Auto {
    pub rules: Vec<(usize, Vec<Sym>)>,
    pub action: Vec<BTreeMap<La, Act>>,
    pub goto: Vec<BTreeMap<usize, usize>>,
    pub error_rules: Vec<BTreeSet<usize>>,
    pub err_shift: Vec<Option<usize>>,
    /// Number of (state, lookahead) pairs with more than one applicable action.
    pub conflicts: usize,
    pub conflict_kinds: [usize; 3],
    /// ERROR can directly follow ERROR.
    pub adjacent: bool,
}

#[derive(Clone, PartialEq, Debug)]
pub enum Arg {
    /// Result of the reduction with this number.
    N(usize),
    T(usize),
    E(usize, usize),
}

#[derive(Clone, PartialEq, Debug)]
pub struct Red {
    pub rule: usize,
    pub args: Vec<Arg>,
    /// Tokens (the end counted as one) taken from the source so far.
    pub polls: usize,
}

#[derive(Clone, PartialEq, Debug)]
pub enum Res {
    Ok(usize),
    NotFound,
}

pub struct ModelRun {
    pub reds: Vec<Red>,
    pub res: Res,
    pub polls: usize,
    pub recoveries: usize,
    pub reparsed: usize,
    pub at_eoi: usize,
    pub repeated: usize,
}

impl Grammar {
    pub fn nonterminals(&self) -> BTreeSet<usize> {
        let mut s: BTreeSet<usize> = self.rules.iter().map(|r| r.0).collect();
        s.insert(self.start);
        for (_, rhs) in &self.rules {
            for x in rhs {
                if let Sym::N(n) = x {
                    s.insert(*n);
                }
            }
        }
        s
    }
    pub fn terminals(&self) -> BTreeSet<usize> {
        let mut s = BTreeSet::new();
        for (_, rhs) in &self.rules {
            for x in rhs {
                if let Sym::T(n) = x {
                    s.insert(*n);
                }
            }
        }
        s
    }
    pub fn has_error(&self) -> bool {
        self.rules.iter().any(|(_, r)| r.contains(&Sym::Err))
    }
    /// Minimal derivation depth per nonterminal; `error` tells whether ERROR counts as derivable.
    pub fn depths(&self, error: bool) -> BTreeMap<usize, usize> {
        let mut d: BTreeMap<usize, usize> = BTreeMap::new();
        loop {
            let mut changed = false;
            for (l, rhs) in &self.rules {
                let mut m = 0;
                let mut ok = true;
                for s in rhs {
                    match s {
                        Sym::N(n) => match d.get(n) {
                            Some(x) => m = m.max(*x),
                            None => ok = false,
                        },
                        Sym::T(_) => {}
                        Sym::Err => ok &= error,
                    }
                }
                if ok && d.get(l).map_or(true, |x| *x > m + 1) {
                    d.insert(*l, m + 1);
                    changed = true;
                }
            }
            if !changed {
                return d;
            }
        }
    }
    pub fn reachable(&self) -> BTreeSet<usize> {
        let mut seen = BTreeSet::new();
        let mut todo = vec![self.start];
        while let Some(n) = todo.pop() {
            if !seen.insert(n) {
                continue;
            }
            for (l, rhs) in &self.rules {
                if *l == n {
                    for s in rhs {
                        if let Sym::N(m) = s {
                            todo.push(*m);
                        }
                    }
                }
            }
        }
        seen
    }
    pub fn well_formed(&self, need_plain_productive: bool) -> bool {
        let n = self.nonterminals();
        let d = self.depths(!need_plain_productive);
        !self.rules.is_empty() && n.iter().all(|x| d.contains_key(x)) && self.reachable() == n
    }
    pub fn show(&self) -> String {
        let sym = |s: &Sym| match s {
            Sym::N(n) => format!("N{n}"),
            Sym::T(t) => format!("t{t}"),
            Sym::Err => "ERROR".to_string(),
        };
        let mut s = format!("start N{};", self.start);
        for (i, (l, rhs)) in self.rules.iter().enumerate() {
            s += &format!(" r{i}: N{l} ::= {};", if rhs.is_empty() { "(empty)".to_string() } else { rhs.iter().map(sym).collect::<Vec<_>>().join(" ") });
        }
        s
    }
}

impl Auto {
    pub fn build(g: &Grammar, cap: usize) -> Option<Auto> {
        let mut rules = g.rules.clone();
        let top = usize::MAX;
        rules.push((top, vec![Sym::N(g.start)]));
        let top_rule = rules.len() - 1;
        // nullable, first
        let mut nullable: BTreeSet<usize> = BTreeSet::new();
        loop {
            let before = nullable.len();
            for (l, rhs) in &rules {
                if rhs.iter().all(|s| matches!(s, Sym::N(n) if nullable.contains(n))) {
                    nullable.insert(*l);
                }
            }
            if nullable.len() == before {
                break;
            }
        }
        let mut first: BTreeMap<usize, BTreeSet<La>> = BTreeMap::new();
        loop {
            let mut changed = false;
            for (l, rhs) in &rules {
                let mut add = BTreeSet::new();
                for s in rhs {
                    match s {
                        Sym::T(t) => {
                            add.insert(La::T(*t));
                            break;
                        }
                        Sym::Err => {
                            add.insert(La::Err);
                            break;
                        }
                        Sym::N(n) => {
                            add.extend(first.get(n).cloned().unwrap_or_default());
                            if !nullable.contains(n) {
                                break;
                            }
                        }
                    }
                }
                let e = first.entry(*l).or_default();
                let before = e.len();
                e.extend(add);
                changed |= e.len() != before;
            }
            if !changed {
                break;
            }
        }
        let first_of = |rest: &[Sym], la: La| -> BTreeSet<La> {
            let mut out = BTreeSet::new();
            for s in rest {
                match s {
                    Sym::T(t) => {
                        out.insert(La::T(*t));
                        return out;
                    }
                    Sym::Err => {
                        out.insert(La::Err);
                        return out;
                    }
                    Sym::N(n) => {
                        out.extend(first.get(n).cloned().unwrap_or_default());
                        if !nullable.contains(n) {
                            return out;
                        }
                    }
                }
            }
            out.insert(la);
            out
        };
        let mut by_lhs: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
        for (i, (l, _)) in rules.iter().enumerate() {
            by_lhs.entry(*l).or_default().push(i);
        }
        let closure = |kernel: BTreeSet<Item>| -> BTreeSet<Item> {
            let mut set = kernel.clone();
            let mut todo: Vec<Item> = kernel.into_iter().collect();
            while let Some((r, p, la)) = todo.pop() {
                if let Some(Sym::N(n)) = rules[r].1.get(p) {
                    for la2 in first_of(&rules[r].1[p + 1..], la) {
                        for r2 in by_lhs.get(n).into_iter().flatten() {
                            let it = (*r2, 0, la2);
                            if set.insert(it) {
                                todo.push(it);
                            }
                        }
                    }
                }
            }
            set
        };
        let mut states: Vec<BTreeSet<Item>> = vec![closure([(top_rule, 0, La::Eoi)].into_iter().collect())];
        let mut index: BTreeMap<BTreeSet<Item>, usize> = [(states[0].clone(), 0)].into_iter().collect();
        let mut trans: Vec<BTreeMap<Sym, usize>> = Vec::new();
        let mut i = 0;
        let mut total_items = states[0].len();
        while i < states.len() {
            let mut kernels: BTreeMap<Sym, BTreeSet<Item>> = BTreeMap::new();
            for (r, p, la) in &states[i] {
                if let Some(s) = rules[*r].1.get(*p) {
                    kernels.entry(*s).or_default().insert((*r, p + 1, *la));
                }
            }
            let mut t = BTreeMap::new();
            for (s, k) in kernels {
                let c = closure(k);
                let j = *index.entry(c.clone()).or_insert_with(|| {
                    total_items += c.len();
                    states.push(c);
                    states.len() - 1
                });
                t.insert(s, j);
            }
            trans.push(t);
            i += 1;
            if states.len() > cap || total_items > cap * 40 {
                return None;
            }
        }
        let mut a = Auto { rules: rules.clone(), action: vec![], goto: vec![], error_rules: vec![], err_shift: vec![], conflicts: 0, conflict_kinds: [0; 3], adjacent: false };
        for (i, st) in states.iter().enumerate() {
            let mut act: BTreeMap<La, Act> = BTreeMap::new();
            let mut go = BTreeMap::new();
            for (s, j) in &trans[i] {
                match s {
                    Sym::N(n) => {
                        go.insert(*n, *j);
                    }
                    Sym::T(t) => {
                        act.insert(La::T(*t), Act::Shift(*j));
                    }
                    Sym::Err => {
                        act.insert(La::Err, Act::Shift(*j));
                    }
                }
            }
            let mut reduces: BTreeMap<La, BTreeSet<usize>> = BTreeMap::new();
            let mut accept = false;
            for (r, p, la) in st {
                if *p == rules[*r].1.len() {
                    if *r == top_rule {
                        accept = true;
                    } else {
                        reduces.entry(*la).or_default().insert(*r);
                    }
                }
            }
            for (la, rs) in reduces {
                let shift = act.contains_key(&la);
                let acc = la == La::Eoi && accept;
                if rs.len() + shift as usize + acc as usize > 1 {
                    a.conflicts += 1;
                    if shift {
                        a.conflict_kinds[0] += 1;
                    }
                    if rs.len() > 1 {
                        a.conflict_kinds[1] += 1;
                    }
                    if acc {
                        a.conflict_kinds[2] += 1;
                    }
                }
                if !shift {
                    act.insert(la, Act::Reduce(*rs.iter().next().unwrap()));
                }
            }
            if accept {
                act.insert(La::Eoi, Act::Accept);
            }
            let er: BTreeSet<usize> = st.iter().filter(|(r, p, _)| rules[*r].1.get(*p) == Some(&Sym::Err)).map(|x| x.0).collect();
            a.err_shift.push(trans[i].get(&Sym::Err).copied());
            a.error_rules.push(er);
            a.action.push(act);
            a.goto.push(go);
        }
        a.adjacent = a.err_shift.iter().flatten().any(|s| a.err_shift[*s].is_some());
        Some(a)
    }

    /// Parse a whole stream. None: over the step limit.
    pub fn run(&self, toks: &[usize], limit: usize) -> Option<ModelRun> {
        #[derive(Clone)]
        enum V {
            N(usize),
            T(usize),
            E(usize, usize),
        }
        struct Entry {
            below: usize,
            v: V,
            /// Position of the first token this entry stands for.
            first: usize,
        }
        let mut m = ModelRun { reds: vec![], res: Res::NotFound, polls: 0, recoveries: 0, reparsed: 0, at_eoi: 0, repeated: 0 };
        let mut state = 0;
        let mut pos = 0;
        let mut stack: Vec<Entry> = Vec::new();
        let mut recovering: BTreeSet<usize> = BTreeSet::new();
        for _ in 0..limit {
            m.polls = m.polls.max(pos + 1);
            let eoi = pos >= toks.len();
            let la = if eoi { La::Eoi } else { La::T(toks[pos]) };
            match self.action[state].get(&la) {
                Some(Act::Shift(s)) => {
                    stack.push(Entry { below: state, v: V::T(pos), first: pos });
                    state = *s;
                    pos += 1;
                }
                Some(Act::Reduce(r)) => {
                    let n = self.rules[*r].1.len();
                    let parts = stack.split_off(stack.len() - n);
                    if let Some(e) = parts.first() {
                        state = e.below;
                    }
                    let first = parts.iter().find(|e| !matches!(e.v, V::E(..))).map_or(pos, |e| e.first);
                    let args = parts
                        .iter()
                        .map(|e| match e.v {
                            V::N(i) => Arg::N(i),
                            V::T(i) => Arg::T(i),
                            V::E(a, b) => Arg::E(a, b),
                        })
                        .collect();
                    m.reds.push(Red { rule: *r, args, polls: m.polls });
                    stack.push(Entry { below: state, v: V::N(m.reds.len() - 1), first });
                    state = self.goto[state][&self.rules[*r].0];
                    if recovering.contains(r) {
                        recovering.clear();
                    }
                }
                Some(Act::Accept) => {
                    if let Some(Entry { v: V::N(i), .. }) = stack.pop() {
                        m.res = Res::Ok(i);
                    }
                    return Some(m);
                }
                None => {
                    m.recoveries += 1;
                    if !recovering.is_empty() {
                        m.repeated += 1;
                    }
                    if eoi {
                        m.at_eoi += 1;
                    }
                    let end = if eoi { pos } else { pos + 1 };
                    let mut from = pos;
                    let mut efrom = pos;
                    let mut gave_up = false;
                    let mut covered = matches!(stack.last(), Some(Entry { v: V::E(a, b), .. }) if *b == end && (a == b) == eoi);
                    loop {
                        let here = &self.error_rules[state];
                        if !covered && !here.is_empty() && !(eoi && gave_up) {
                            if recovering.is_empty() {
                                recovering = here.clone();
                                break;
                            }
                            let both: BTreeSet<usize> = recovering.intersection(here).copied().collect();
                            if !both.is_empty() {
                                recovering = both;
                                break;
                            }
                        }
                        covered = false;
                        gave_up = true;
                        match stack.pop() {
                            None => return Some(m),
                            Some(e) => {
                                state = e.below;
                                match e.v {
                                    V::E(a, _) => efrom = a,
                                    _ => from = e.first,
                                }
                            }
                        }
                    }
                    if gave_up {
                        m.reparsed += pos.saturating_sub(from + 1);
                        pos = from + 1;
                    }
                    stack.push(Entry { below: state, v: V::E(from.min(efrom), end), first: 0 });
                    state = self.err_shift[state].expect("ERROR next means it can be shifted");
                }
            }
        }
        None
    }
}

// ---------------------------------------------------------------------------------------------------
// generation

const PLAIN: [&str; 34] = [
    "E>E+T E>T T>T*F T>F F>(E) F>n",
    "L>LA L> A>a;",
    "L>aL L>",
    "L>L,I L>I I>n I>[L]",
    "V>{M} V>[A] V>n V>{} V>[] M>M,P M>P P>n:V A>A,V A>V",
    "S>aEc S>aFd S>bFc S>bEd E>e F>e",
    "S>aOb O> O>c",
    "P>SP P> S>i=E; S>{P} E>n E>E+n",
    "S>aSa S>bSb S>c",
    "S>A A>B B>C C>c",
    "S>ABC A>a A> B>b B> C>c",
    "S>(S)S S>",
    "S>L=R S>R L>*R L>i R>L",
    "E>-E E>P P>P? P>n P>(E)",
    "S>M S>U M>iMeM M>o U>iS U>iMeU",
    "S>a S>ab S>abc S>d",
    "S>AaAb S>BbBa A> B>",
    "S>TL L>,TL L> T>n T>(S)",
    "S>X X>Y Y>XY? X>x",
    "D>D; D> ",
    "S>aSb S>",
    "S>aAb A>B B>C C>",
    "S>Aa A>AB A> B>b",
    "S>OPQ O>o O> P>p P> Q>q Q>",
    "F>f(R) R>A R> A>A,E A>E E>n E>F",
    "S>xAy S>xBz A>qA A>q B>qB B>q",
    "S>AB A>aA A>a B>bB B>b",
    "S>S;A S>A A>i:=E E>E-n E>n A>",
    "L>IL L>I I>n I>+n I>-n",
    "S>AA A>aA A>b",
    "E>T+E E>T T>F*T T>F F>n F>(E)",
    "S>NcNdN N>n N>",
    "S>",
    "S>AAAA A>a A>b",
];

const WITH_ERROR: [&str; 35] = [
    "A>A+P A>!+P A>!+! A>P P>P*I P>I I>(A) I>(!) I>n",
    "P>PS P> S>i=E; S>!; E>n E>E+n",
    "V>[L] V>[!] L>V L>L,V V>n",
    "S>1A2 S>1!2 A>O0 O>",
    "S>!",
    "S>a!",
    "S>!a S>b",
    "S>a!b S>ac",
    "L>L;S L>S S>a S>aSb S>!",
    "P>SP P> S>{P} S>{!} S>a;",
    "S>A;S S>A; A>i=E A>! E>n",
    "S>(E) S>(!) E>E+n E>n E>(E)",
    "S>AB A>a A>!, B>b B>!.",
    "S>aX X>b! X>c",
    "S>aXd X>bY X>! Y>cc",
    "S>aXd S>! X>bY X>! Y>cc Y>!",
    "L>LI L>I I>a; I>b!; I>!",
    "S>OA S>O!; O>o O> A>aA A>a;",
    "B>{L} L>LS L> S>n; S>B S>!;",
    "F>f(R) F>f(!) R>A R> A>A,E A>E E>n E>F",
    "S>K=V S>K=! K>k K>! V>v V>V+v",
    "S>aOOb S>a!b O>o O>",
    "S>a!b!c S>abc",
    "S>XY X>x X>! Y>yy Y>y!z",
    "S>AcS S>A A>aa A>!",
    "L>L,I L>I I>n I>[L] I>[!] I>!",
    "S>aN!b N>x N>",
    "S>NM! N> M> M>m",
    "S>SQ S> Q>q! ; Q>p",
    "S>a(S)! S>a S>!",
    "S>A S>B A>!xD A>aD B>!yD B>bD D>mA D>nB D>z",
    "S>A S>B A>!xDe A>aD B>!yDf B>bD D>mA D>nB D>oS D>z",
    "P>PS P> S>i=E; S>!; E>n E>[E] E>[!] E>{P} E>{!}",
    "S>aX S>bY X>!pY X>qY X>r Y>!sX Y>tX Y>u Y>(S)",
    "S>aT S>!cT T>bS T>!dS T>!eT T>f",
];

const ADJACENT: [&str; 12] = [
    "A>!A A>a",
    "S>!! S>a",
    "S>a!!b S>ab",
    "S>!X X>!b X>c",
    "L>!L L>",
    "S>!S! S>a",
    "S>X! X>! X>x",
    "S>a!Y Y>!b Y>y",
    "S>!!! S>aS",
    "A>!B B>!A B>b A>a",
    "P>SP P> S>! S>a;",
    "S>!;S S>! S>a",
];

const AMBIGUOUS: [&str; 16] = [
    "E>E+E E>E*E E>n",
    "S>iS S>iSeS S>o",
    "S>A S>B A>a B>a",
    "A>A A>a",
    "S>SS S>a",
    "S>SS S>a S>",
    "S>aA S>aB A>b B>b",
    "S>A A>a A>S",
    "S>XY X>a X> Y>a Y>",
    "E>E-E E>-E E>n E>(E)",
    "L>LL L>x L>y",
    "S>Ab S>Bb A>a B>a",
    "S>aSa S>a",
    "S>AaB S>Ba A> B> B>a",
    "S>S",
    "A>A A>b B>b A>B",
];

/// Symbols are single characters: upper case are nonterminals, '!' is ERROR; numbering in order of
/// appearance, nonterminals and terminals separately.
pub fn parse_template(t: &str) -> Grammar {
    let mut ns: Vec<char> = Vec::new();
    let mut ts: Vec<char> = Vec::new();
    let mut rules = Vec::new();
    fn num(v: &mut Vec<char>, c: char) -> usize {
        match v.iter().position(|x| *x == c) {
            Some(i) => i,
            None => {
                v.push(c);
                v.len() - 1
            }
        }
    }
    for r in t.split(' ').filter(|r| r.contains('>')) {
        let mut it = r.chars();
        let l = num(&mut ns, it.next().unwrap());
        it.next();
        let rhs = it
            .map(|c| {
                if c == '!' {
                    Sym::Err
                } else if c.is_ascii_uppercase() {
                    Sym::N(num(&mut ns, c))
                } else {
                    Sym::T(num(&mut ts, c))
                }
            })
            .collect();
        rules.push((l, rhs));
    }
    Grammar { rules, start: 0 }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Want {
    /// Conflict-free, no ERROR.
    Plain,
    /// Conflict-free with ERROR, never adjacent.
    Error,
    /// Conflict-free, ERROR anywhere or absent.
    AnyFree,
    /// Anything well-formed.
    Any,
}

fn random_sym(ch: &mut Ch, nn: usize, nt: usize, err: bool) -> Sym {
    match ch.weighted(&[6, 4, if err { 1 } else { 0 }]) {
        0 => Sym::T(ch.below(nt)),
        1 => Sym::N(ch.below(nn)),
        _ => Sym::Err,
    }
}

fn random_grammar(ch: &mut Ch, err: bool) -> Grammar {
    let nn = ch.range(1, 4);
    let nt = ch.range(1, 4);
    let mut rules = Vec::new();
    for n in 0..nn {
        for _ in 0..ch.range(1, 3) {
            let len = ch.weighted(&[2, 4, 4, 3, 1]);
            let rhs = (0..len).map(|_| random_sym(ch, nn, nt, err)).collect();
            rules.push((n, rhs));
        }
    }
    Grammar { rules, start: 0 }
}

fn mutate(ch: &mut Ch, g: &mut Grammar, err: bool) {
    let nn = g.nonterminals().len().max(1);
    let nt = g.terminals().len().max(1);
    let i = ch.below(g.rules.len());
    match ch.weighted(&[3, 2, 3, 2, 1, if err { 6 } else { 0 }, 1]) {
        0 => {
            if !g.rules[i].1.is_empty() {
                let k = ch.below(g.rules[i].1.len());
                g.rules[i].1[k] = random_sym(ch, nn, nt + 1, err);
            }
        }
        1 => {
            if !g.rules[i].1.is_empty() {
                let k = ch.below(g.rules[i].1.len());
                g.rules[i].1.remove(k);
            }
        }
        2 => {
            let k = ch.below(g.rules[i].1.len() + 1);
            let s = random_sym(ch, nn, nt + 1, err);
            g.rules[i].1.insert(k, s);
        }
        3 => {
            // another alternative made from an existing one
            let mut r = g.rules[i].clone();
            if r.1.is_empty() {
                r.1.push(random_sym(ch, nn, nt + 1, err));
            } else {
                let k = ch.below(r.1.len());
                r.1[k] = random_sym(ch, nn, nt + 1, err);
            }
            g.rules.push(r);
        }
        4 => {
            let l = g.rules[i].0;
            g.rules.push((l, vec![]));
        }
        5 => {
            let mut r = g.rules[i].clone();
            match ch.below(4) {
                0 => {
                    let ks: Vec<usize> = (0..r.1.len()).filter(|k| matches!(r.1[*k], Sym::N(_))).collect();
                    if ks.is_empty() {
                        r.1 = vec![Sym::Err];
                    } else {
                        let k = *ch.pick(&ks);
                        r.1[k] = Sym::Err;
                    }
                }
                1 => {
                    let t = Sym::T(ch.below(nt + 1));
                    r.1 = vec![Sym::Err, t];
                }
                2 => {
                    let k = ch.below(r.1.len() + 1);
                    r.1.truncate(k);
                    r.1.push(Sym::Err);
                }
                _ => {
                    let k = ch.below(r.1.len() + 1);
                    r.1.insert(k, Sym::Err);
                }
            }
            g.rules.push(r);
        }
        _ => {
            let j = ch.below(g.rules.len());
            g.rules.swap(i, j);
        }
    }
}

/// Add structure that mostly keeps a grammar conflict-free: chains of unit rules, split rules,
/// optional parts and lists made of fresh tokens.
fn grow(ch: &mut Ch, g: &mut Grammar, times: usize) {
    for _ in 0..times {
        let fresh_n = g.nonterminals().into_iter().max().map_or(0, |m| m + 1);
        let fresh_t = g.terminals().into_iter().max().map_or(0, |m| m + 1);
        let i = ch.below(g.rules.len());
        let put = |ch: &mut Ch, g: &mut Grammar, r: (usize, Vec<Sym>)| {
            let at = if ch.chance(1, 2) { g.rules.len() } else { ch.below(g.rules.len() + 1) };
            g.rules.insert(at, r);
        };
        match ch.weighted(&[4, 2, 3, 2, 1]) {
            0 => {
                // a symbol behind a chain of unit rules
                if g.rules[i].1.is_empty() {
                    continue;
                }
                let k = ch.below(g.rules[i].1.len());
                let s = g.rules[i].1[k];
                let len = ch.range(1, 4);
                g.rules[i].1[k] = Sym::N(fresh_n);
                for j in 0..len {
                    let rhs = if j + 1 == len { s } else { Sym::N(fresh_n + j + 1) };
                    put(ch, g, (fresh_n + j, vec![rhs]));
                }
            }
            1 => {
                // the tail of a rule becomes a rule of its own
                let k = ch.below(g.rules[i].1.len() + 1);
                let tail = g.rules[i].1.split_off(k);
                g.rules[i].1.push(Sym::N(fresh_n));
                put(ch, g, (fresh_n, tail));
            }
            2 => {
                let k = ch.below(g.rules[i].1.len() + 1);
                g.rules[i].1.insert(k, Sym::N(fresh_n));
                put(ch, g, (fresh_n, vec![]));
                if ch.chance(2, 3) {
                    put(ch, g, (fresh_n, vec![Sym::T(fresh_t)]));
                }
            }
            3 => {
                let k = ch.below(g.rules[i].1.len() + 1);
                g.rules[i].1.insert(k, Sym::N(fresh_n));
                put(ch, g, (fresh_n, vec![]));
                let mut rhs = vec![Sym::N(fresh_n), Sym::T(fresh_t)];
                if ch.chance(1, 2) {
                    rhs.reverse();
                }
                put(ch, g, (fresh_n, rhs));
            }
            _ => {
                // all alternatives of a symbol move one level down
                let l = g.rules[i].0;
                for r in &mut g.rules {
                    if r.0 == l {
                        r.0 = fresh_n;
                    }
                }
                put(ch, g, (l, vec![Sym::N(fresh_n)]));
            }
        }
    }
}

/// Regular families of any size: more rules, kinds, states or symbols per rule than small numbers count.
fn big_grammar(ch: &mut Ch, err: bool) -> Grammar {
    let n = match ch.weighted(&[5, 4, 3, 2]) {
        0 => ch.range(9, 20),
        1 => ch.range(20, 70),
        2 => ch.range(64, 140),
        _ => ch.range(128, 300),
    };
    let (t, nt) = (Sym::T, Sym::N);
    let mut rules: Vec<(usize, Vec<Sym>)> = Vec::new();
    match ch.below(10) {
        0 => rules.extend((0..n).map(|i| (0, vec![t(i)]))),
        1 => {
            for i in 0..n {
                rules.push((0, vec![t(i), nt(i + 1)]));
                rules.push((i + 1, vec![t((i + 1) % n)]));
            }
        }
        2 => {
            // statements, each with its keyword
            let n = n.min(80);
            rules.push((0, vec![]));
            rules.push((0, if ch.chance(1, 3) { vec![nt(1), nt(0)] } else { vec![nt(0), nt(1)] }));
            for i in 0..n {
                rules.push((1, vec![t(i + 1), t(0)]));
            }
            if err {
                rules.push((1, vec![Sym::Err, t(0)]));
            }
        }
        3 => {
            // levels of precedence
            let n = n.min(12);
            for i in 0..n {
                rules.push((i, if ch.chance(1, 3) { vec![nt(i + 1), t(i + 3), nt(i)] } else { vec![nt(i), t(i + 3), nt(i + 1)] }));
                rules.push((i, vec![nt(i + 1)]));
            }
            rules.push((n, vec![t(0)]));
            rules.push((n, vec![t(1), nt(0), t(2)]));
            if err {
                rules.push((n, vec![t(1), Sym::Err, t(2)]));
            }
        }
        4 => {
            // one long rule, with a choice in the middle
            let k = ch.below(n);
            rules.push((0, (0..n).map(|i| if i == k { nt(1) } else { t(i % 7 + 2) }).collect()));
            rules.push((1, vec![t(0)]));
            rules.push((1, vec![t(1)]));
            if err {
                rules.push((1, vec![Sym::Err]));
            }
        }
        5 => {
            // a chain of unit rules
            for i in 0..n {
                rules.push((i, vec![nt(i + 1)]));
            }
            rules.push((n, vec![t(0)]));
            rules.push((n, vec![t(1), nt(0), t(2)]));
            if err {
                rules.push((n, vec![t(1), Sym::Err, t(2)]));
            }
        }
        6 => {
            // many optional parts in a row
            let n = n.min(24);
            rules.push((0, (0..n).map(|i| nt(i + 1)).collect()));
            for i in 0..n {
                rules.push((i + 1, vec![]));
                rules.push((i + 1, vec![t(i)]));
            }
            if err {
                rules.push((0, vec![t(n), Sym::Err]));
            }
        }
        7 => {
            // brackets of many kinds
            let n = n.min(30);
            rules.push((0, vec![]));
            for i in 0..n {
                rules.push((0, vec![t(2 * i), nt(0), t(2 * i + 1)]));
            }
            if err {
                rules.push((0, vec![t(2 * n), Sym::Err, t(2 * n + 1)]));
            }
        }
        8 => {
            // many alternatives, each with a non-terminal of its own
            let n = n.min(90);
            for i in 0..n {
                rules.push((0, if ch.chance(1, 2) { vec![nt(i + 1)] } else { vec![nt(i + 1), t(n)] }));
                rules.push((i + 1, vec![t(i)]));
            }
            if err {
                rules.push((1 + ch.below(n), vec![t(n + 1), Sym::Err]));
            }
        }
        _ => {
            // a tree of choices: the same token decides differently in many states
            let n = n.min(40);
            for i in 0..n {
                rules.push((0, vec![t(i), nt(1), t(n)]));
                rules.push((0, vec![t(i), nt(2), t(i)]));
            }
            rules.push((1, vec![t(n + 1)]));
            rules.push((2, vec![t(n + 1)]));
            if err {
                rules.push((2, vec![Sym::Err, t(n + 2)]));
            }
        }
    }
    if err && !rules.iter().any(|r| r.1.contains(&Sym::Err)) && ch.chance(1, 2) {
        rules.push((0, vec![Sym::Err, t(999)]));
    }
    Grammar { rules, start: 0 }
}

/// A grammar with much of something.
pub fn big(ch: &mut Ch, want: Want) -> Option<(Grammar, Auto)> {
    let err = want != Want::Plain;
    ch.attempt(8, |ch| {
        let mut g = big_grammar(ch, err);
        for _ in 0..ch.weighted(&[6, 2, 1]) {
            mutate(ch, &mut g, err);
        }
        if ch.chance(1, 4) {
            for i in (1..g.rules.len()).rev() {
                let j = ch.below(i + 1);
                g.rules.swap(i, j);
            }
        }
        accept_sized(&g, want, 700, 400, 1000).map(|a| (g, a))
    })
}

pub fn grammar(ch: &mut Ch, want: Want) -> (Grammar, Auto) {
    let err = want != Want::Plain;
    if ch.chance(1, 18) {
        if let Some(x) = big(ch, want) {
            return x;
        }
    }
    let r = ch.attempt(60, |ch| {
        let mut g = match ch.weighted(&[
            if want == Want::Error { 2 } else { 5 },
            if err { 5 } else { 0 },
            if want == Want::AnyFree { 3 } else { 0 },
            if want == Want::Any { 6 } else { 0 },
            4,
        ]) {
            0 => parse_template(*ch.pick(&PLAIN)),
            1 => parse_template(*ch.pick(&WITH_ERROR)),
            2 => parse_template(*ch.pick(&ADJACENT)),
            3 => parse_template(*ch.pick(&AMBIGUOUS)),
            _ => random_grammar(ch, err),
        };
        for _ in 0..ch.weighted(&[4, 3, 2, 1, 1]) {
            mutate(ch, &mut g, err);
        }
        let growth = ch.weighted(&[10, 2, 2, 1, 1, 1]);
        grow(ch, &mut g, growth);
        if ch.chance(1, 6) {
            for i in (1..g.rules.len()).rev() {
                let j = ch.below(i + 1);
                g.rules.swap(i, j);
            }
        }
        accept(&g, want).map(|a| (g, a))
    });
    r.unwrap_or_else(|| {
        let g = parse_template(if err && want != Want::Any { "S>a!b S>acb" } else { "S>ab" });
        let a = Auto::build(&g, 300).unwrap();
        (g, a)
    })
}

pub fn accept(g: &Grammar, want: Want) -> Option<Auto> {
    accept_sized(g, want, 26, 8, 160)
}

fn accept_sized(g: &Grammar, want: Want, rules: usize, len: usize, states: usize) -> Option<Auto> {
    if g.rules.len() > rules || g.rules.iter().any(|r| r.1.len() > len) || !g.well_formed(want == Want::Plain) {
        return None;
    }
    if want == Want::Error && !g.has_error() || want == Want::Plain && g.has_error() {
        return None;
    }
    let a = Auto::build(g, states)?;
    match want {
        Want::Plain | Want::AnyFree => (a.conflicts == 0).then_some(a),
        Want::Error => (a.conflicts == 0 && !a.adjacent).then_some(a),
        Want::Any => Some(a),
    }
}

/// Give the kinds gaps and an arbitrary order, as user enums have.
pub fn renumber(ch: &mut Ch, g: &Grammar) -> Grammar {
    let mode = ch.below(5);
    let map = |set: BTreeSet<usize>, ch: &mut Ch| -> BTreeMap<usize, usize> {
        let mut v: Vec<usize> = set.into_iter().collect();
        if mode >= 2 {
            for i in (1..v.len()).rev() {
                let j = ch.below(i + 1);
                v.swap(i, j);
            }
        }
        let (mul, add) = match mode {
            0 => (1, 0),
            1 => (1, ch.below(4)),
            4 => (1, 0),
            2 => (ch.range(1, 3), ch.below(3)),
            _ => (ch.range(1, 40), ch.below(100)),
        };
        v.into_iter().enumerate().map(|(i, x)| (x, i * mul + add)).collect()
    };
    let ns = map(g.nonterminals(), ch);
    let ts = map(g.terminals(), ch);
    Grammar {
        rules: g
            .rules
            .iter()
            .map(|(l, r)| {
                (
                    ns[l],
                    r.iter()
                        .map(|s| match s {
                            Sym::N(n) => Sym::N(ns[n]),
                            Sym::T(t) => Sym::T(ts[t]),
                            Sym::Err => Sym::Err,
                        })
                        .collect(),
                )
            })
            .collect(),
        start: ns[&g.start],
    }
}

/// A sentence with the rules of its derivation in bottom-up, left-to-right order.
pub fn sentence(ch: &mut Ch, g: &Grammar, fuel: usize) -> Option<(Vec<usize>, Vec<usize>)> {
    let d = g.depths(false);
    d.get(&g.start)?;
    derive(ch, g, &d, g.start, fuel)
}

/// A sentence in which ERROR stands for any few tokens.
pub fn broken_sentence(ch: &mut Ch, g: &Grammar, fuel: usize) -> Option<Vec<usize>> {
    let d = g.depths(true);
    d.get(&g.start)?;
    derive_from(ch, g, &d, g.start, fuel, true).map(|x| x.0)
}

fn derive(ch: &mut Ch, g: &Grammar, d: &BTreeMap<usize, usize>, from: usize, fuel: usize) -> Option<(Vec<usize>, Vec<usize>)> {
    derive_from(ch, g, d, from, fuel, false)
}

fn derive_from(ch: &mut Ch, g: &Grammar, d: &BTreeMap<usize, usize>, from: usize, fuel: usize, error: bool) -> Option<(Vec<usize>, Vec<usize>)> {
    let kinds: Vec<usize> = g.terminals().into_iter().collect();
    let mut toks = Vec::new();
    let mut post = Vec::new();
    let mut left = fuel as isize;
    enum W {
        S(Sym),
        R(usize),
    }
    let mut todo = vec![W::S(Sym::N(from))];
    let mut steps = 0;
    while let Some(w) = todo.pop() {
        steps += 1;
        if steps > 4000 {
            return None;
        }
        match w {
            W::R(r) => post.push(r),
            W::S(Sym::T(t)) => toks.push(t),
            W::S(Sym::Err) => {
                for _ in 0..ch.weighted(&[1, 4, 2, 1]) {
                    toks.push(if kinds.is_empty() || ch.chance(1, 8) { kinds.last().map_or(0, |k| k + 1) } else { *ch.pick(&kinds) });
                }
            }
            W::S(Sym::N(n)) => {
                let cost = |r: usize| -> Option<usize> {
                    g.rules[r].1.iter().try_fold(1, |m, s| match s {
                        Sym::N(n) => d.get(n).map(|x| m.max(*x + 1)),
                        Sym::T(_) => Some(m),
                        Sym::Err => error.then_some(m),
                    })
                };
                let opts: Vec<usize> = (0..g.rules.len()).filter(|r| g.rules[*r].0 == n && cost(*r).is_some()).collect();
                let r = if left > 0 { *ch.pick(&opts) } else { *opts.iter().min_by_key(|r| cost(**r)).unwrap() };
                left -= 1;
                todo.push(W::R(r));
                for s in g.rules[r].1.iter().rev() {
                    todo.push(W::S(*s));
                }
            }
        }
        if toks.len() > 600 {
            return None;
        }
    }
    Some((toks, post))
}

/// A sentence with one recursion taken `laps` times: tokens and rules as from `sentence`.
pub fn pumped(ch: &mut Ch, g: &Grammar, laps: usize) -> Option<(Vec<usize>, Vec<usize>)> {
    let d = g.depths(false);
    d.get(&g.start)?;
    let usable = |r: usize| g.rules[r].1.iter().all(|s| match s {
        Sym::N(n) => d.contains_key(n),
        Sym::T(_) => true,
        Sym::Err => false,
    });
    // steps of a path: rule and position of the nonterminal to go on with
    type Path = Vec<(usize, usize)>;
    let find = |ch: &mut Ch, from: usize, to: usize, least: usize| -> Option<Path> {
        // breadth first, in an order that is drawn
        let turn = ch.below(g.rules.len());
        let mut seen: BTreeMap<usize, Path> = BTreeMap::new();
        let mut todo = std::collections::VecDeque::from([(from, Path::new())]);
        while let Some((n, path)) = todo.pop_front() {
            if n == to && path.len() >= least {
                return Some(path);
            }
            for k in 0..g.rules.len() {
                let r = (k + turn) % g.rules.len();
                if g.rules[r].0 != n || !usable(r) {
                    continue;
                }
                for (p, s) in g.rules[r].1.iter().enumerate() {
                    if let Sym::N(m) = s {
                        if *m == to || !seen.contains_key(m) {
                            let mut path = path.clone();
                            path.push((r, p));
                            if path.len() > 400 {
                                return None;
                            }
                            if *m != to {
                                seen.insert(*m, path.clone());
                            }
                            if *m == to {
                                return Some(path);
                            }
                            todo.push_back((*m, path));
                        }
                    }
                }
            }
        }
        None
    };
    let reach: Vec<usize> = g.reachable().into_iter().collect();
    let mid = *ch.pick(&reach);
    let lap = find(ch, mid, mid, 1)?;
    let way = if mid == g.start { Path::new() } else { find(ch, g.start, mid, 1)? };
    // what stands before and after the path, as tokens and reductions
    let around = |ch: &mut Ch, path: &Path| -> Option<[Vec<usize>; 4]> {
        let [mut t0, mut p0, mut t1, mut p1]: [Vec<usize>; 4] = Default::default();
        let mut rest = Vec::new();
        let small = |ch: &mut Ch, s: &[Sym]| -> Option<(Vec<usize>, Vec<usize>)> {
            let (mut t, mut p) = (vec![], vec![]);
            for x in s {
                match x {
                    Sym::T(k) => t.push(*k),
                    Sym::N(n) => {
                        let fuel = ch.below(3);
                        let (a, b) = derive(ch, g, &d, *n, fuel)?;
                        t.extend(a);
                        p.extend(b);
                    }
                    Sym::Err => return None,
                }
            }
            Some((t, p))
        };
        for (r, k) in path {
            let (t, p) = small(ch, &g.rules[*r].1[..*k])?;
            t0.extend(t);
            p0.extend(p);
            rest.push(small(ch, &g.rules[*r].1[k + 1..]).map(|(t, mut p)| {
                p.push(*r);
                (t, p)
            })?);
        }
        for (t, p) in rest.into_iter().rev() {
            t1.extend(t);
            p1.extend(p);
        }
        Some([t0, p0, t1, p1])
    };
    let [a0, b0, a1, b1] = around(ch, &way)?;
    let [c0, d0, c1, d1] = around(ch, &lap)?;
    let fuel = ch.below(4);
    let (e, f) = derive(ch, g, &d, mid, fuel)?;
    if c0.is_empty() && c1.is_empty() {
        return None;
    }
    let (mut toks, mut post) = (a0, b0);
    for _ in 0..laps {
        toks.extend(&c0);
        post.extend(&d0);
    }
    toks.extend(e);
    post.extend(f);
    for _ in 0..laps {
        toks.extend(&c1);
        post.extend(&d1);
    }
    toks.extend(a1);
    post.extend(b1);
    Some((toks, post))
}

/// Damage a token stream the way lossy producers do. Returns counts: loss, dup, reorder, corrupt, insert, cut, splice.
pub fn damage(ch: &mut Ch, g: &Grammar, toks: &mut Vec<usize>, times: usize, counts: &mut [u64; 7]) {
    let kinds: Vec<usize> = g.terminals().into_iter().collect();
    let unknown = kinds.iter().max().map_or(0, |m| m + 1);
    for _ in 0..times {
        let kind = |ch: &mut Ch| if kinds.is_empty() || ch.chance(1, 10) { unknown } else { *ch.pick(&kinds) };
        let i = ch.below(toks.len().max(1)).min(toks.len());
        match ch.below(7) {
            0 if !toks.is_empty() => {
                toks.remove(i);
                counts[0] += 1;
            }
            1 if !toks.is_empty() => {
                let t = toks[i];
                toks.insert(i, t);
                counts[1] += 1;
            }
            2 if toks.len() > 1 => {
                let j = ch.below(toks.len());
                toks.swap(i, j);
                counts[2] += 1;
            }
            3 if !toks.is_empty() => {
                toks[i] = kind(ch);
                counts[3] += 1;
            }
            4 => {
                let k = kind(ch);
                toks.insert(i, k);
                counts[4] += 1;
            }
            5 => {
                toks.truncate(i);
                counts[5] += 1;
            }
            6 if toks.len() > 2 => {
                let j = ch.below(toks.len());
                let (a, b) = (i.min(j), i.max(j));
                let piece: Vec<usize> = toks[a..b].to_vec();
                let at = ch.below(toks.len());
                for (k, t) in piece.into_iter().take(6).enumerate() {
                    toks.insert(at + k, t);
                }
                counts[6] += 1;
            }
            _ => {}
        }
    }
}

pub fn random_tokens(ch: &mut Ch, g: &Grammar, max: usize) -> Vec<usize> {
    let kinds: Vec<usize> = g.terminals().into_iter().collect();
    if kinds.is_empty() {
        return vec![];
    }
    (0..ch.range(0, max)).map(|_| *ch.pick(&kinds)).collect()
}
