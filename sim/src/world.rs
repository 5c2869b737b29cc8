//! The simulated world: real tokenizers and parsers, simulated sources, consumers and callbacks.
//! All sessions live in one (logical) thread, which is all the library's types allow; the world decides
//! who is stepped, nests sessions inside each other's callbacks, and injects the planned faults.

use crate::choice::Ch;
use crate::gram::{Grammar, Sym};
use crate::heap::{self, Env};
use crate::run::{last_panic, out_of_budget, shared};
use parser::enum_index::EnumIndex;
use parser::{LR1Parser, Parse, ParseError, Rule, Symbol, Syntax};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicI64, Ordering::Relaxed};
use tokenizer::{DFATokenizer, Tokenize};

/// Steps (calls into the harness) a run may take: longest match may look at every pair of positions.
fn step_budget(plans: &[Plan]) -> u64 {
    400_000 + plans.iter().map(|p| (p.source.len() as u64 + 1).pow(2) * 4).sum::<u64>()
}

/// How many items, tokens, parser tokens, nodes and callbacks exist.
static LIVE: [AtomicI64; 5] = [const { AtomicI64::new(0) }; 5];
pub const LIVE_KINDS: [&str; 5] = ["items", "tokens", "parser tokens", "nodes", "callbacks"];

pub fn live() -> [i64; 5] {
    std::array::from_fn(|k| LIVE[k].load(Relaxed))
}

/// Counts the values it is part of.
#[derive(Debug, PartialEq)]
pub struct Live<const K: usize>(());
impl<const K: usize> Live<K> {
    fn new() -> Self {
        LIVE[K].fetch_add(1, Relaxed);
        Live(())
    }
}
impl<const K: usize> Clone for Live<K> {
    fn clone(&self) -> Self {
        Live::new()
    }
}
impl<const K: usize> Drop for Live<K> {
    fn drop(&mut self) {
        LIVE[K].fetch_sub(1, Relaxed);
    }
}

#[derive(Debug, Clone, PartialEq)]
pub struct Item {
    pub id: u32,
    pub c: char,
    live: Live<0>,
}

/// What the token constructors make.
#[derive(Debug, Clone, PartialEq)]
pub struct Tok {
    pub pat: usize,
    pub serial: u32,
    live: Live<1>,
}

#[derive(Debug)]
pub struct Tk {
    pub kind: usize,
    pub id: u32,
    live: Live<2>,
}
impl EnumIndex for Tk {
    fn enum_index(&self) -> usize {
        self.kind
    }
}

#[derive(Debug)]
pub struct Nt {
    pub kind: usize,
    pub val: u32,
    live: Live<3>,
}
impl EnumIndex for Nt {
    fn enum_index(&self) -> usize {
        self.kind
    }
}
pub const TAKEN: u32 = u32::MAX;

#[derive(Debug, PartialEq, Clone)]
pub struct RErr(pub u32);

struct Injected(u32);

#[derive(Debug, Clone, PartialEq)]
pub enum A {
    N(usize, u32),
    T(usize, u32),
    E(Vec<u32>),
}

#[derive(Debug, Clone, PartialEq)]
pub enum Ev {
    /// The consumer asks for a token or starts a parse.
    Call,
    /// The source is polled and delivers (id, char).
    Item(u32, char),
    /// The source is polled and delivers a token (id, kind).
    Token(u32, usize),
    /// The source is polled and reports its end (for now or for good).
    NoItem,
    SourcePanic,
    MapPanic,
    Make { pat: usize, text: String, items: Vec<(u32, char)>, serial: u32 },
    MakePanic { pat: usize },
    Reduce { rule: usize, args: Vec<A>, serial: u32 },
    ReduceErr { rule: usize, args: Vec<A>, code: u32 },
    ReducePanic { rule: usize, args: Vec<A>, code: u32 },
    Got(Option<(usize, u32)>),
    /// The token stream tells how many tokens are left (unless it says nothing).
    Hint(usize, Option<usize>),
    ParseOk(usize, u32),
    NotFound,
    ReducerErr(u32),
    /// Unwound with the panic the simulator injected.
    Unwound(u32),
    /// Unwound with a panic of the library's own.
    LibPanic(String),
    Dropped,
}

#[derive(Debug, Clone, PartialEq)]
pub enum Src {
    C(char),
    T(usize),
    Pause,
    Panic,
}

#[derive(Debug, Clone, PartialEq)]
pub enum Kind {
    Tok { tok: usize },
    Parse { par: usize },
    /// Characters to tokens to parse; the token kind per pattern, or skipped.
    Pipe { tok: usize, par: usize, kinds: Vec<Option<usize>> },
}

#[derive(Debug, Clone)]
pub struct Plan {
    pub kind: Kind,
    pub source: Vec<Src>,
    pub map_panic: Option<u32>,
    pub make_panic: Option<u32>,
    pub red_err: Option<u32>,
    pub red_panic: Option<u32>,
    /// Drop the stream after this many calls.
    pub cancel_after: Option<u32>,
    /// Calls made after the stream has reported its end.
    pub after_end: u32,
    pub after_panic: u32,
    /// The source tells how much is left (as far as it can know).
    pub hint: bool,
    /// The token stream owns a tokenizer of its own instead of borrowing the shared one.
    pub own: bool,
}

impl Plan {
    pub fn new(kind: Kind, source: Vec<Src>) -> Plan {
        Plan { kind, source, map_panic: None, make_panic: None, red_err: None, red_panic: None, cancel_after: None, after_end: 0, after_panic: 0, hint: false, own: false }
    }
    pub fn show(&self) -> String {
        let mut s = format!("{:?} source=[", self.kind);
        let x = &self.source;
        let mut i = 0;
        while i < x.len() {
            if i > 0 {
                s.push(' ');
            }
            // long repetitions are written once
            let rep = (1..=8usize).filter(|p| i + p * 4 <= x.len()).find_map(|p| {
                let n = (1..).take_while(|k| i + p * (k + 1) <= x.len() && (0..p).all(|j| x[i + j] == x[i + p * k + j])).count() + 1;
                (n >= 6).then_some((p, n))
            });
            let (p, n) = rep.unwrap_or((1, 1));
            let one: Vec<String> = x[i..i + p]
                .iter()
                .map(|x| match x {
                    Src::C(c) => format!("{c:?}"),
                    Src::T(k) => format!("t{k}"),
                    Src::Pause => "PAUSE".into(),
                    Src::Panic => "PANIC".into(),
                })
                .collect();
            s += &if n == 1 { one.join(" ") } else { format!("{n} x ({})", one.join(" ")) };
            i += p * n;
        }
        s.push(']');
        for (n, v) in [("map_panic", self.map_panic), ("make_panic", self.make_panic), ("reducer_error", self.red_err), ("reducer_panic", self.red_panic), ("cancel_after", self.cancel_after)] {
            if let Some(v) = v {
                s += &format!(" {n}@{v}");
            }
        }
        if self.hint {
            s += " source_knows_its_length";
        }
        if self.own {
            s += " own_tokenizer";
        }
        if self.after_end > 0 {
            s += &format!(" polls_after_end={}", self.after_end);
        }
        if self.after_panic > 0 {
            s += &format!(" polls_after_panic={}", self.after_panic);
        }
        s
    }
}

#[derive(Clone, Copy)]
pub enum RealTok {
    With(&'static DFATokenizer<Tok, Item>, &'static [String]),
    Chars(&'static DFATokenizer<Tok, char>, &'static [String]),
}
pub type RealPar = &'static LR1Parser<Nt, Tk, RErr>;

pub struct Force<T>(pub T);
unsafe impl<T> Send for Force<T> {}

/// Run `f` in a fresh thread under the given hash keys and heap policy, one thread at a time.
pub fn in_env<T>(env: &Env, f: impl FnOnce() -> T) -> T {
    let mut out: Option<T> = None;
    {
        let slot = Force((&mut out as *mut Option<T>, f, env.clone()));
        let h = unsafe {
            std::thread::Builder::new().stack_size(2 << 20).spawn_unchecked(move || {
                let slot = slot;
                let (out, f, env) = slot.0;
                heap::set_env(&env);
                *out = Some(f());
            })
        };
        match h {
            Ok(h) => {
                if let Err(e) = h.join() {
                    resume_unwind(e);
                }
            }
            Err(e) => panic!("cannot spawn: {e}"),
        }
    }
    out.expect("thread result")
}

/// Library code runs (on the simulated heap) or the harness does (on the ordinary heap, so that
/// neither generation nor tracing disturbs the simulated one).
fn enter(system: u32) -> u32 {
    heap::set_active(system == 1);
    shared().in_system.swap(system, Relaxed)
}

/// Call into the library; library panics come back as text, injected ones as their code.
pub fn sys<T>(f: impl FnOnce() -> T) -> Result<T, Ev> {
    let before = enter(1);
    let r = catch_unwind(AssertUnwindSafe(f));
    enter(before);
    r.map_err(|e| match e.downcast::<Injected>() {
        Ok(i) => Ev::Unwound(i.0),
        Err(e) => {
            let p = last_panic();
            if p.starts_with("src/") {
                // raised by the harness itself: let it end the run as a harness error
                resume_unwind(e);
            }
            Ev::LibPanic(p)
        }
    })
}

/// Callback guard: while it lives, the harness runs, not the library.
struct Out(u32);
impl Out {
    fn new() -> Out {
        Out(enter(0))
    }
}
impl Drop for Out {
    fn drop(&mut self) {
        enter(self.0);
    }
}

type BoxIter = Box<dyn Iterator<Item = Tok>>;

pub struct Session {
    pub plan: Plan,
    pub log: Vec<Ev>,
    /// Global sequence numbers of the events, for traces.
    pub seq: Vec<u64>,
    iter: Option<BoxIter>,
    started: bool,
    pub done: bool,
    busy: bool,
    pos: usize,
    ids: u32,
    tok_ids: u32,
    maps: u32,
    makes: u32,
    reds: u32,
    calls: u32,
    ended_calls: u32,
    panic_calls: u32,
    ended: bool,
    panicked: bool,
}

pub struct World {
    pub toks: Vec<RealTok>,
    pub pars: Vec<RealPar>,
    pub sessions: Vec<Session>,
    pub current: Vec<usize>,
    pub steps: u64,
    budget: u64,
    /// Where scheduling decisions are drawn, if sessions may be nested and interleaved.
    pub ch: *mut Ch,
    pub nest_left: u32,
    pub max_depth: usize,
    /// Whether callbacks mostly run other sessions inside.
    pub eager: bool,
    pub deepest: usize,
    pub nested: u64,
    pub switches: u64,
    pub schedule: Vec<String>,
    pub tracing: bool,
}

static mut WORLD: *mut World = std::ptr::null_mut();

fn world() -> &'static mut World {
    unsafe { &mut *WORLD }
}

impl World {
    pub fn new(toks: Vec<RealTok>, pars: Vec<RealPar>, plans: Vec<Plan>) -> Box<World> {
        Box::new(World {
            toks,
            pars,
            budget: step_budget(&plans),
            sessions: plans
                .into_iter()
                .map(|plan| Session { plan, log: vec![], seq: vec![], iter: None, started: false, done: false, busy: false, pos: 0, ids: 0, tok_ids: 0, maps: 0, makes: 0, reds: 0, calls: 0, ended_calls: 0, panic_calls: 0, ended: false, panicked: false })
                .collect(),
            current: vec![],
            steps: 0,
            ch: std::ptr::null_mut(),
            nest_left: 0,
            max_depth: 0,
            eager: false,
            deepest: 0,
            nested: 0,
            switches: 0,
            schedule: vec![],
            tracing: false,
        })
    }
    pub fn activate(self: &mut Box<World>) {
        unsafe { WORLD = &mut **self as *mut World };
    }
}

fn log(sid: usize, e: Ev) {
    let w = world();
    w.steps += 1;
    if w.steps > w.budget {
        out_of_budget("steps");
    }
    let n = w.steps;
    if w.tracing {
        w.schedule.push(format!("#{n} s{sid}{} {e:?}", if w.current.len() > 1 { format!(" (inside s{:?})", &w.current[..w.current.len() - 1]) } else { String::new() }));
    }
    let s = &mut w.sessions[sid];
    s.log.push(e);
    s.seq.push(n);
}

fn cur() -> usize {
    *world().current.last().expect("callback outside a session")
}

/// In a callback: maybe run steps of other sessions inside this one.
fn nest() {
    let w = world();
    if w.ch.is_null() || w.nest_left == 0 || w.current.len() >= w.max_depth {
        return;
    }
    let ch = unsafe { &mut *w.ch };
    while w.nest_left > 0 && (if w.eager { ch.chance(2, 3) } else { ch.chance(1, 4) }) {
        let free: Vec<usize> = (0..w.sessions.len()).filter(|i| !w.sessions[*i].done && !w.sessions[*i].busy).collect();
        if free.is_empty() {
            return;
        }
        w.nest_left -= 1;
        w.nested += 1;
        w.deepest = w.deepest.max(w.current.len() + 1);
        let s = *ch.pick(&free);
        step(s);
    }
}

pub struct Source(usize);

fn next_src(sid: usize) -> Option<Src> {
    let s = &mut world().sessions[sid];
    if s.pos < s.plan.source.len() {
        s.pos += 1;
        Some(s.plan.source[s.pos - 1].clone())
    } else {
        None
    }
}

fn hint(sid: usize) -> (usize, Option<usize>) {
    let _o = Out::new();
    let s = &world().sessions[sid];
    if !s.plan.hint {
        return (0, None);
    }
    let n = s.plan.source[s.pos..].iter().take_while(|x| matches!(x, Src::C(_) | Src::T(_))).count();
    (n, Some(n))
}

fn poll_char(sid: usize) -> Option<Item> {
    let _o = Out::new();
    let r = match next_src(sid) {
        Some(Src::C(c)) => {
            let s = &mut world().sessions[sid];
            let id = s.ids;
            s.ids += 1;
            log(sid, Ev::Item(id, c));
            Some(Item { id, c, live: Live::new() })
        }
        Some(Src::Panic) => {
            log(sid, Ev::SourcePanic);
            resume_unwind(Box::new(Injected(1)));
        }
        Some(Src::T(_)) => panic!("token in a character source"),
        Some(Src::Pause) | None => {
            log(sid, Ev::NoItem);
            None
        }
    };
    nest();
    r
}

impl Iterator for Source {
    type Item = Item;
    fn next(&mut self) -> Option<Item> {
        poll_char(self.0)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        hint(self.0)
    }
}

pub struct CharSource(usize);
impl Iterator for CharSource {
    type Item = char;
    fn next(&mut self) -> Option<char> {
        poll_char(self.0).map(|i| i.c)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        hint(self.0)
    }
}

struct TokenSource(usize);
impl Iterator for TokenSource {
    type Item = Tk;
    fn next(&mut self) -> Option<Tk> {
        let _o = Out::new();
        let sid = self.0;
        let r = match next_src(sid) {
            Some(Src::T(kind)) => {
                let s = &mut world().sessions[sid];
                let id = s.ids;
                s.ids += 1;
                log(sid, Ev::Token(id, kind));
                Some(Tk { kind, id, live: Live::new() })
            }
            Some(Src::Panic) => {
                log(sid, Ev::SourcePanic);
                resume_unwind(Box::new(Injected(1)));
            }
            Some(Src::C(_)) => panic!("character in a token source"),
            Some(Src::Pause) | None => {
                log(sid, Ev::NoItem);
                None
            }
        };
        nest();
        r
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        hint(self.0)
    }
}

fn map_cb(sid: usize, c: char) -> char {
    let _o = Out::new();
    let s = &mut world().sessions[sid];
    s.maps += 1;
    world().steps += 1;
    if world().steps > world().budget {
        out_of_budget("steps");
    }
    if s.plan.map_panic == Some(s.maps) {
        log(sid, Ev::MapPanic);
        resume_unwind(Box::new(Injected(2)));
    }
    c
}

fn make_cb<T>(pat: usize, text: &str, items: Vec<T>, show: fn(&T) -> (u32, char)) -> Tok {
    let _o = Out::new();
    // the record must not keep the library's memory
    let items: Vec<(u32, char)> = { items }.iter().map(show).collect();
    let sid = cur();
    let s = &mut world().sessions[sid];
    s.makes += 1;
    let serial = s.makes;
    if s.plan.make_panic == Some(serial) {
        log(sid, Ev::MakePanic { pat });
        resume_unwind(Box::new(Injected(3)));
    }
    log(sid, Ev::Make { pat, text: text.to_string(), items, serial });
    nest();
    Tok { pat, serial, live: Live::new() }
}

fn reduce_cb(rule: usize, kind: usize, list: &mut [Symbol<&mut Nt, &Tk, &[Tk]>]) -> Result<Nt, RErr> {
    let _o = Out::new();
    let sid = cur();
    let args: Vec<A> = list
        .iter_mut()
        .map(|s| match s {
            Symbol::NonTerminal(n) => {
                let v = A::N(n.kind, n.val);
                n.val = TAKEN;
                v
            }
            Symbol::Terminal(t) => A::T(t.kind, t.id),
            Symbol::Error(e) => A::E(e.iter().map(|t| t.id).collect()),
        })
        .collect();
    let s = &mut world().sessions[sid];
    s.reds += 1;
    let serial = s.reds;
    if s.plan.red_err == Some(serial) {
        let code = 1000 + serial;
        log(sid, Ev::ReduceErr { rule, args, code });
        return Err(RErr(code));
    }
    if s.plan.red_panic == Some(serial) {
        let code = 2000 + serial;
        log(sid, Ev::ReducePanic { rule, args, code });
        resume_unwind(Box::new(Injected(code)));
    }
    log(sid, Ev::Reduce { rule, args, serial });
    nest();
    Ok(Nt { kind, val: serial, live: Live::new() })
}

fn make_iter(sid: usize) -> Result<BoxIter, String> {
    let w = world();
    let t = match &w.sessions[sid].plan.kind {
        Kind::Tok { tok } => w.toks[*tok],
        Kind::Pipe { tok, .. } => w.toks[*tok],
        _ => unreachable!(),
    };
    let map = move |i: &Item| map_cb(sid, i.c);
    if w.sessions[sid].plan.own {
        return match t {
            RealTok::With(_, p) => build_items(p).map(|(t, _)| Box::new(Source(sid).tokenize_with(t, map)) as BoxIter),
            RealTok::Chars(_, p) => build_chars(p).map(|(t, _)| Box::new(CharSource(sid).tokenize(t)) as BoxIter),
        };
    }
    Ok(match t {
        RealTok::With(t, _) => Box::new(Source(sid).tokenize_with(t, map)),
        RealTok::Chars(t, _) => Box::new(CharSource(sid).tokenize(t)),
    })
}

fn parse_result(r: Result<Result<Nt, ParseError<RErr>>, Ev>) -> Ev {
    match r {
        Ok(Ok(n)) => Ev::ParseOk(n.kind, n.val),
        Ok(Err(ParseError::RecoveryRuleNotFound)) => Ev::NotFound,
        Ok(Err(ParseError::ErrorInReducer(e))) => Ev::ReducerErr(e.0),
        Err(e) => e,
    }
}

/// One step of a session: a next() call of a token stream, or a whole parse.
pub fn step(sid: usize) {
    let w = world();
    {
        let s = &mut w.sessions[sid];
        assert!(!s.done && !s.busy);
        s.busy = true;
    }
    w.current.push(sid);
    w.switches += 1;
    match w.sessions[sid].plan.kind.clone() {
        Kind::Tok { .. } => {
            if !w.sessions[sid].started {
                w.sessions[sid].started = true;
                match make_iter(sid) {
                    Ok(it) => w.sessions[sid].iter = Some(it),
                    Err(e) => {
                        w.sessions[sid].done = true;
                        log(sid, Ev::LibPanic(format!("a second build of the same tokenizer: {e}")));
                    }
                }
            }
            let s = &mut world().sessions[sid];
            if s.done {
            } else if s.plan.cancel_after == Some(s.calls) {
                let it = s.iter.take();
                let r = sys(move || drop(it));
                if let Err(e) = r {
                    log(sid, e);
                }
                log(sid, Ev::Dropped);
                world().sessions[sid].done = true;
            } else {
                s.calls += 1;
                let mut it = s.iter.take().expect("live iterator");
                match sys(|| it.size_hint()) {
                    Ok((0, None)) => {}
                    Ok((least, most)) => log(sid, Ev::Hint(least, most)),
                    Err(e) => log(sid, e),
                }
                log(sid, Ev::Call);
                let r = sys(|| it.next());
                let s = &mut world().sessions[sid];
                if s.ended {
                    s.ended_calls += 1;
                }
                if s.panicked {
                    s.panic_calls += 1;
                }
                let e = match r {
                    Ok(t) => {
                        if t.is_none() {
                            s.ended = true;
                        }
                        Ev::Got(t.map(|t| (t.pat, t.serial)))
                    }
                    Err(e) => {
                        s.panicked = true;
                        e
                    }
                };
                s.iter = Some(it);
                if s.ended && s.ended_calls >= s.plan.after_end || s.panicked && s.panic_calls >= s.plan.after_panic && !s.ended {
                    s.done = true;
                }
                log(sid, e);
            }
        }
        Kind::Parse { par } => {
            let p = w.pars[par];
            log(sid, Ev::Call);
            let r = sys(|| TokenSource(sid).parse(p));
            log(sid, parse_result(r));
            world().sessions[sid].done = true;
        }
        Kind::Pipe { par, kinds, .. } => {
            let p = w.pars[par];
            let it = make_iter(sid);
            log(sid, Ev::Call);
            let r = it.map_err(Ev::LibPanic).and_then(|it| sys(|| {
                it.filter_map(move |t| {
                    kinds[t.pat].map(|kind| {
                        let s = &mut world().sessions[sid];
                        let id = s.tok_ids;
                        s.tok_ids += 1;
                        Tk { kind, id, live: Live::new() }
                    })
                })
                .parse(p)
            }));
            log(sid, parse_result(r));
            world().sessions[sid].done = true;
        }
    }
    let w = world();
    w.current.pop();
    w.sessions[sid].busy = false;
}

/// Give up a session's token stream.
pub fn close(sid: usize) {
    if let Some(it) = world().sessions[sid].iter.take() {
        if let Err(e) = sys(move || drop(it)) {
            log(sid, e);
        }
    }
}

/// A build that may well fail, given up at once.
pub fn try_build(patterns: &[String], chars: bool) {
    if chars {
        let r = build_chars(patterns);
        let _ = sys(move || drop(r));
    } else {
        let r = build_items(patterns);
        let _ = sys(move || drop(r));
    }
}

/// Run one session to its end.
pub fn run_alone(sid: usize) {
    while !world().sessions[sid].done {
        step(sid);
    }
}

/// Run all sessions, the scheduler choosing who goes next.
pub fn run_scheduled(ch: &mut Ch) {
    loop {
        let free: Vec<usize> = (0..world().sessions.len()).filter(|i| !world().sessions[*i].done).collect();
        if free.is_empty() {
            return;
        }
        let s = *ch.pick(&free);
        // bursts make some sessions run far ahead
        let burst = if ch.chance(1, 5) { ch.range(2, 6) } else { 1 };
        for _ in 0..burst {
            if !world().sessions[s].done {
                step(s);
            }
        }
    }
}

/// The same, for so many steps at most.
pub fn run_some(ch: &mut Ch, most: usize) {
    for _ in 0..most {
        let free: Vec<usize> = (0..world().sessions.len()).filter(|i| !world().sessions[*i].done).collect();
        if free.is_empty() {
            return;
        }
        step(*ch.pick(&free));
    }
}

// ---------------------------------------------------------------------------------------------------
// building real instances

pub struct Built<T> {
    pub it: T,
    pub warnings: Vec<String>,
}

fn leak<T>(t: T) -> &'static T {
    Box::leak(Box::new(t))
}

/// Give up instances; their memory may be used again at once.
pub fn give_up(toks: Vec<RealTok>, pars: Vec<RealPar>) {
    let _ = sys(|| {
        for t in toks {
            match t {
                RealTok::With(t, _) => drop(unsafe { Box::from_raw(t as *const _ as *mut DFATokenizer<Tok, Item>) }),
                RealTok::Chars(t, _) => drop(unsafe { Box::from_raw(t as *const _ as *mut DFATokenizer<Tok, char>) }),
            }
        }
        for p in pars {
            drop(unsafe { Box::from_raw(p as *const _ as *mut LR1Parser<Nt, Tk, RErr>) });
        }
    });
}

fn built<T, W: std::fmt::Debug, X: std::fmt::Debug>(f: impl FnOnce() -> Result<(T, Vec<W>), X>) -> Result<(T, Vec<String>), String> {
    match sys(|| f().map(|(t, w)| (t, w.iter().map(|w| format!("{w:?}")).collect())).map_err(|e| format!("build error: {e:?}"))) {
        Ok(r) => r,
        Err(e) => Err(format!("{e:?}")),
    }
}

fn build_chars(patterns: &[String]) -> Result<(DFATokenizer<Tok, char>, Vec<String>), String> {
    built(|| {
        let mut b = DFATokenizer::<Tok, char>::builder();
        for (i, p) in patterns.iter().enumerate() {
            let held = Live::<4>::new();
            b = b.pattern(p, move |s: &str, items: Vec<char>| {
                let _ = &held;
                make_cb(i, s, items, |c| (u32::MAX, *c))
            });
        }
        b.build()
    })
}

fn build_items(patterns: &[String]) -> Result<(DFATokenizer<Tok, Item>, Vec<String>), String> {
    built(|| {
        let mut b = DFATokenizer::<Tok, Item>::builder();
        for (i, p) in patterns.iter().enumerate() {
            let held = Live::<4>::new();
            b = b.pattern(p, move |s: &str, items: Vec<Item>| {
                let _ = &held;
                make_cb(i, s, items, |x| (x.id, x.c))
            });
        }
        b.build()
    })
}

pub fn build_tok(patterns: &[String], chars: bool) -> Result<Built<RealTok>, String> {
    let keep = || &*Box::leak(patterns.to_vec().into_boxed_slice());
    if chars {
        build_chars(patterns).map(|(t, warnings)| Built { it: RealTok::Chars(sys(|| leak(t)).ok().unwrap(), keep()), warnings })
    } else {
        build_items(patterns).map(|(t, warnings)| Built { it: RealTok::With(sys(|| leak(t)).ok().unwrap(), keep()), warnings })
    }
}

/// `forms`: per rule, which of the equivalent ways to write it.
pub fn build_par(g: &Grammar, forms: &[u32]) -> Result<Built<RealPar>, String> {
    let r = sys(|| {
        let mut b = Syntax::<Nt, Tk, RErr>::builder();
        for (i, (l, rhs)) in g.rules.iter().enumerate() {
            let l = *l;
            let nt = |n: usize| Nt { kind: n, val: 0, live: Live::new() };
            let tk = |t: usize| Tk { kind: t, id: 0, live: Live::new() };
            let held = Live::<4>::new();
            let f = move |list: &mut [Symbol<&mut Nt, &Tk, &[Tk]>]| {
                let _ = &held;
                reduce_cb(i, l, list)
            };
            let rule = match forms[i] {
                0 => {
                    let v: Vec<Symbol<Nt, Tk, ()>> = rhs
                        .iter()
                        .map(|s| match s {
                            Sym::N(n) => Symbol::NonTerminal(nt(*n)),
                            Sym::T(t) => Symbol::Terminal(tk(*t)),
                            Sym::Err => Symbol::Error(()),
                        })
                        .collect();
                    Rule::new(nt(l), &v, f)
                }
                1 => {
                    let v: Vec<Symbol<usize, usize, ()>> = rhs
                        .iter()
                        .map(|s| match s {
                            Sym::N(n) => Symbol::NonTerminal(*n),
                            Sym::T(t) => Symbol::Terminal(*t),
                            Sym::Err => Symbol::Error(()),
                        })
                        .collect();
                    Rule::new_raw(l, &v, f)
                }
                _ => {
                    let mut rb = Rule::<Nt, Tk, RErr>::builder(nt(l));
                    for s in rhs {
                        rb = match s {
                            Sym::N(n) => rb.non_terminal(nt(*n)),
                            Sym::T(t) => rb.terminal(tk(*t)),
                            Sym::Err => rb.error(),
                        };
                    }
                    rb.build(f)
                }
            };
            b = b.rule(rule);
        }
        let syntax = if forms.last().copied().unwrap_or(0) % 2 == 0 { b.build(Nt { kind: g.start, val: 0, live: Live::new() }) } else { b.build_raw(g.start) };
        let (p, w) = LR1Parser::new(syntax);
        let w: Vec<String> = w.iter().map(|w| format!("{w:?}")).collect();
        (leak(p) as RealPar, w)
    });
    match r {
        Ok((it, warnings)) => Ok(Built { it, warnings }),
        Err(e) => Err(format!("{e:?}")),
    }
}
