//! Scenarios and oracles of the properties decided inside one process.

use crate::choice::Ch;
use crate::gram::{self, Arg, Auto, Grammar, ModelRun, Res, Want};
use crate::heap::{Env, POLICIES};
use crate::patgen::{self, PatCfg};
use crate::relang::{TokModel, TokState};
use crate::run::{viol, Ctx, Scenario, Viol};
use crate::world::*;

pub fn scenario(prop: &str) -> Option<Scenario> {
    Some(match prop {
        "C01" => c01,
        "C02" => c02,
        "C03" => c03,
        "C04" => c04,
        "C05" => c05,
        "C06" => c06,
        "C07" => c07,
        "C10" => c10,
        "C11" => c11,
        "C12" => c12,
        "C16" => c16,
        _ => return None,
    })
}

/// The listed known findings, each as its own scenario.
pub fn finding(text: &str) -> Scenario {
    if text.contains("patterns=[\"(a|)b\"] input=\"xyzb\"") {
        finding_empty
    } else if text.contains("input=\"1\\n\" then end of input") {
        crate::c09::finding_end
    } else {
        crate::fail(&format!("unknown finding: {text}"))
    }
}

fn finding_empty(ctx: &mut Ctx) -> Result<(), Viol> {
    let pats = vec!["(a|)b".to_string()];
    let Some(mut m) = TokModel::new(&pats) else { panic!("the model does not take the pattern") };
    let plan = Plan::new(Kind::Tok { tok: 0 }, "xyzb".chars().map(Src::C).collect());
    let logs = in_env(&Env::plain(), || match build_tok(&pats, false) {
        Ok(b) => run_plans(ctx, vec![b.it], vec![], vec![plan]),
        Err(e) => panic!("{e}"),
    });
    raise(check_tokens(&mut m, &logs[0], true).c01, String::new)
}

// ---------------------------------------------------------------------------------------------------
// helpers

fn draw_env(ctx: &mut Ctx) -> Env {
    let e = Env::draw(&mut ctx.ch);
    ctx.count(
        match e.policy {
            0 => "env: heap up-lifo",
            1 => "env: heap down-lifo",
            2 => "env: heap up-fifo",
            3 => "env: heap shuffled",
            4 => "env: heap down-shuffled",
            _ => "env: heap late-reuse",
        },
        1,
    );
    ctx.count("env: hash seeds drawn", 1);
    ctx.note(|| format!("environment: hash seed {}, heap {} (seed {}, fill {:#x})", e.hash_seed, POLICIES[e.policy], e.heap_seed, e.fill));
    e
}

fn draw_forms(ch: &mut Ch, g: &Grammar) -> Vec<u32> {
    let mode = ch.below(4) as u32;
    g.rules.iter().map(|_| if mode < 3 { mode } else { ch.choose(3) }).collect()
}

fn log_stats(ctx: &mut Ctx, log: &[Ev]) {
    ctx.count("simulated events", log.len() as u64);
    for e in log {
        match e {
            Ev::NoItem => ctx.count("source reported end or pause", 1),
            Ev::SourcePanic => ctx.count("fault: panic in source", 1),
            Ev::MapPanic => ctx.count("fault: panic in map", 1),
            Ev::MakePanic { .. } => ctx.count("fault: panic in token constructor", 1),
            Ev::ReduceErr { .. } => ctx.count("fault: error from reducer", 1),
            Ev::ReducePanic { .. } => ctx.count("fault: panic in reducer", 1),
            Ev::Dropped => ctx.count("fault: stream cancelled", 1),
            Ev::Make { .. } => ctx.count("tokens made", 1),
            Ev::Reduce { .. } => ctx.count("reductions", 1),
            Ev::Item(..) => ctx.count("items delivered", 1),
            Ev::Token(..) => ctx.count("tokens delivered", 1),
            _ => {}
        }
    }
}

fn note_log(ctx: &mut Ctx, w: &World) {
    if ctx.tracing {
        ctx.trace.extend(w.schedule.iter().cloned());
    }
}

/// Run the plans one after another on the given instances; the logs.
fn run_plans(ctx: &mut Ctx, toks: Vec<RealTok>, pars: Vec<RealPar>, plans: Vec<Plan>) -> Vec<Vec<Ev>> {
    let n = plans.len();
    let mut w = World::new(toks, pars, plans);
    w.tracing = ctx.tracing;
    w.activate();
    for i in 0..n {
        run_alone(i);
    }
    note_log(ctx, &w);
    let logs: Vec<Vec<Ev>> = w.sessions.iter().map(|s| s.log.clone()).collect();
    for l in &logs {
        log_stats(ctx, l);
        ctx.absorb(&format!("{l:?}"));
    }
    logs
}

fn char_source(ch: &mut Ch, text: &[char], pauses: bool) -> (Vec<Src>, u64) {
    let mut v: Vec<Src> = text.iter().map(|c| Src::C(*c)).collect();
    let mut n = 0;
    if pauses {
        for _ in 0..ch.weighted(&[4, 3, 2, 1]) {
            let i = ch.below(v.len() + 1);
            v.insert(i, Src::Pause);
            n += 1;
        }
    }
    (v, n)
}

/// Now and then, much longer than usual.
fn lengthen(ctx: &mut Ctx, m: &mut TokModel, text: &mut Vec<char>, most: usize) {
    if ctx.ch.chance(1, 12) {
        patgen::stretch(&mut ctx.ch, m, text, most);
        if text.len() > 255 {
            ctx.count("probe: character streams longer than 255", 1);
        }
        if text.len() > 4095 {
            ctx.count("probe: character streams longer than 4095", 1);
        }
    }
}

fn lib_panic(log: &[Ev]) -> Option<String> {
    log.iter().find_map(|e| if let Ev::LibPanic(p) = e { Some(p.clone()) } else { None })
}

fn show_text(t: &[char]) -> String {
    let s: String = t.iter().collect();
    if s.chars().count() > 60 {
        format!("{:?}… ({} chars)", s.chars().take(60).collect::<String>(), s.chars().count())
    } else {
        format!("{s:?}")
    }
}

// ---------------------------------------------------------------------------------------------------
// token stream oracle

#[derive(Default)]
struct TokVerdict {
    c01: Option<Viol>,
    c02: Option<Viol>,
    tokens: usize,
    backed_off: u64,
    paused_in_match: u64,
    weak_tokens: u64,
}

fn check_tokens(m: &mut TokModel, log: &[Ev], ids: bool) -> TokVerdict {
    let mut v = TokVerdict::default();
    // taken from the source and not yet given to a token
    let mut w: std::collections::VecDeque<(u32, char)> = Default::default();
    // derivative after each prefix of w, up to the first that is no beginning of a match
    let mut st: Vec<TokState> = vec![m.start()];
    let mut strict = true;
    let mut none_seen = false;
    let mut last: Option<u32> = None;
    let mut made: Option<u32> = None;
    let mut hints: Vec<(usize, usize, Option<usize>)> = Vec::new();
    macro_rules! c01 {
        ($c:expr, $($a:tt)*) => { if v.c01.is_none() { v.c01 = Some(Viol { class: $c.to_string(), detail: format!($($a)*) }) } };
    }
    macro_rules! c02 {
        ($c:expr, $($a:tt)*) => { if v.c02.is_none() { v.c02 = Some(Viol { class: $c.to_string(), detail: format!($($a)*) }) } };
    }
    let chars = |w: &[(u32, char)]| w.iter().map(|x| x.1).collect::<Vec<char>>();
    macro_rules! all {
        () => { &*w.make_contiguous() };
    }
    for e in log {
        match e {
            Ev::Call => made = None,
            Ev::Hint(least, most) => hints.push((v.tokens, *least, *most)),
            Ev::Item(..) | Ev::NoItem => {
                if strict && !m.viable(st.last().unwrap()) {
                    c02!("reads too far", "the source was polled although the {} items taken but not assigned, {}, are not the beginning of any match", w.len(), show_text(&chars(all!())));
                }
                if let Ev::Item(id, c) = e {
                    if strict {
                        w.push_back((*id, *c));
                        if m.viable(st.last().unwrap()) {
                            let n = m.step(st.last().unwrap(), *c);
                            st.push(n);
                        }
                    }
                    none_seen = false;
                } else {
                    if strict && !w.is_empty() && m.viable(st.last().unwrap()) {
                        v.paused_in_match += 1;
                    }
                    none_seen = true;
                }
            }
            Ev::Make { pat, text, items, serial } => {
                v.tokens += 1;
                if made.is_some() {
                    c02!("two tokens in one step", "two constructor calls in one step");
                }
                made = Some(*serial);
                let t: Vec<char> = text.chars().collect();
                if t != chars(items) {
                    c02!("text differs from items", "token text {:?} but its items are {}", text, show_text(&chars(items)));
                }
                if strict {
                    let n = items.len();
                    let same = n <= w.len() && items.iter().zip(&w).all(|(a, b)| a.1 == b.1 && (!ids || a.0 == b.0));
                    if !same {
                        c02!("items lost, repeated or reordered", "token {serial} got items {:?} ({}), but the items taken and not yet assigned are {:?} ({})", &items[..n.min(12)], n, w.iter().take(12).collect::<Vec<_>>(), w.len());
                    }
                    let mut best = None;
                    for i in 1..st.len() {
                        if let Some(p) = m.accepts(&st[i]) {
                            best = Some((i, p));
                        }
                    }
                    if t.is_empty() {
                        c01!("empty token", "token {serial} is empty");
                    } else {
                        match best {
                            None => c01!("token matches nothing", "token {serial} {:?} (pattern {pat}), but no pattern matches at the start of {}", text, show_text(&chars(all!()))),
                            Some((len, p)) => {
                                let expect: String = w.iter().take(len).map(|x| x.1).collect();
                                if *text != expect {
                                    c01!("not the longest match", "token {serial} {:?} (pattern {pat}), expected {:?} (pattern {p}) at the start of {}", text, expect, show_text(&chars(all!())));
                                } else if *pat != p {
                                    c01!("wrong pattern", "token {serial} {:?} was made by pattern {pat}, expected {p}", text);
                                }
                            }
                        }
                        if m.extensible(st.last().unwrap()) && !none_seen && v.c02.is_none() {
                            c01!("decided too early", "token {serial} {:?} was made although {} could still be extended and the source had not ended", text, show_text(&chars(all!())));
                        }
                    }
                    if w.len() > n + 1 {
                        v.backed_off += 1;
                    }
                    w.drain(..n.min(w.len()));
                    st = vec![m.start()];
                    for (_, c) in &w {
                        if !m.viable(st.last().unwrap()) {
                            break;
                        }
                        let x = m.step(st.last().unwrap(), *c);
                        st.push(x);
                    }
                } else {
                    v.weak_tokens += 1;
                    let mut s = m.start();
                    for c in &t {
                        s = m.step(&s, *c);
                    }
                    if t.is_empty() {
                        c01!("empty token", "token {serial} is empty");
                    } else if m.accepts(&s) != Some(*pat) {
                        c01!("wrong pattern", "after the end: token {serial} {:?} made by pattern {pat}, expected {:?}", text, m.accepts(&s));
                    }
                }
                if ids {
                    for (id, _) in items {
                        if last.map_or(false, |l| *id <= l) {
                            c02!("items lost, repeated or reordered", "token {serial} got item {id} after item {:?}", last);
                        }
                        last = Some(*id);
                    }
                }
            }
            Ev::Got(Some((_, serial))) => {
                if made != Some(*serial) {
                    c02!("token not from this step", "the step returned token {serial}, constructor made {:?}", made);
                }
            }
            Ev::Got(None) => {
                if made.is_some() {
                    c02!("token lost", "a token was constructed but the step reported the end");
                }
                if strict {
                    for (before, least, most) in hints.drain(..) {
                        let left = v.tokens - before;
                        if left < least || most.map_or(false, |m| left > m) {
                            c01!("wrong size hint", "after {before} tokens the stream promised {least}..={most:?} more, but {left} came before it ended");
                        }
                    }
                    let best = (1..st.len()).rev().find_map(|i| m.accepts(&st[i]).map(|p| (i, p)));
                    if let Some((len, p)) = best {
                        c01!("ended early", "the stream ended although pattern {p} matches {} at the start of {}", show_text(&chars(&all!()[..len])), show_text(&chars(all!())));
                        c02!("items never reach a token", "the stream ended with the items {:?} ({}) taken and unassigned, although pattern {p} matches the first {len}", w.iter().take(12).collect::<Vec<_>>(), w.len());
                    } else if m.viable(st.last().unwrap()) && !none_seen {
                        c01!("ended early", "the stream ended although {} could still become a match and the source had not ended", show_text(&chars(all!())));
                    }
                }
                strict = false;
            }
            Ev::LibPanic(p) => {
                c01!("panic", "the library panicked: {p}");
                c02!("panic", "the library panicked: {p}");
                strict = false;
            }
            Ev::Unwound(_) => strict = false,
            _ => {}
        }
    }
    v
}

fn raise(v: Option<Viol>, extra: impl FnOnce() -> String) -> Result<(), Viol> {
    match v {
        Some(mut v) => {
            v.detail = format!("{} [{}]", v.detail, extra());
            Err(v)
        }
        None => Ok(()),
    }
}

/// How many environments to build in: small automata are cheap, so they get many.
fn many_builds(ctx: &mut Ctx, pats: &[String], m: &mut TokModel, least: usize) -> usize {
    if pats.iter().map(|p| p.len()).sum::<usize>() > 100 || patgen::size(m, 120).is_none() {
        return least + ctx.ch.below(2);
    }
    if pats.iter().map(|p| p.len()).sum::<usize>() <= 30 && patgen::size(m, 40).is_some() {
        [least, least + 1, 12, 60][ctx.ch.weighted(&[3, 3, 3, 2])]
    } else {
        [least, least + 1, 12][ctx.ch.weighted(&[6, 6, 1])]
    }
}

fn tok_common(ctx: &mut Ctx, faults: bool) -> Result<(), Viol> {
    let uni = ctx.ch.chance(1, 8);
    let cfg = PatCfg { nullable: ctx.ch.chance(1, 3), unicode_classes: uni, empty: false };
    let (pats, mut m, ab) = patgen::patterns(&mut ctx.ch, &cfg);
    ctx.note(|| format!("patterns: {pats:?}"));
    let chars = ctx.ch.chance(1, 5);
    let builds = if faults { 1 } else { many_builds(ctx, &pats, &mut m, 1) };
    let mut plans = Vec::new();
    let n = if builds > 4 { ctx.ch.range(2, 8) } else { ctx.ch.range(1, 3) };
    for _ in 0..n {
        let max = if ctx.ch.chance(1, 40) { 1500 } else { 60 };
        let mut text = patgen::text(&mut ctx.ch, &mut m, ab, max);
        lengthen(ctx, &mut m, &mut text, if builds > 4 { 300 } else { 70_000 });
        let pauses = ctx.ch.chance(1, 2);
        let (src, n) = char_source(&mut ctx.ch, &text, pauses);
        ctx.count("fault: source paused (planned)", n);
        let mut p = Plan::new(Kind::Tok { tok: 0 }, src);
        if ctx.ch.chance(1, 3) {
            p.after_end = ctx.ch.range(1, 6) as u32;
        }
        if faults {
            match ctx.ch.weighted(&[3, 2, 2, 2, 2]) {
                0 => {}
                1 => {
                    let i = ctx.ch.below(p.source.len() + 1);
                    p.source.insert(i, Src::Panic);
                }
                2 if !chars => p.map_panic = Some(ctx.ch.range(1, text.len() + 2) as u32),
                3 => p.make_panic = Some(ctx.ch.range(1, 6) as u32),
                _ => p.cancel_after = Some(ctx.ch.range(0, 6) as u32),
            }
            p.after_panic = ctx.ch.range(0, 6) as u32;
        }
        p.hint = ctx.ch.chance(1, 4);
        p.own = !matches!(p.kind, Kind::Parse { .. }) && ctx.ch.chance(1, 16);
        ctx.note(|| format!("session {}: {}", plans.len(), p.show()));
        plans.push(p);
    }
    if m.overflow() {
        ctx.skipped = true;
        return Ok(());
    }
    let first = plans[0].show();
    for _ in 0..builds {
        let env = draw_env(ctx);
        let tracing = ctx.tracing;
        let plans = plans.clone();
        let pats2 = pats.clone();
        let (built, logs) = in_env(&env, || {
            let b = build_tok(&pats2, chars);
            match b {
                Ok(b) => {
                    let mut c2 = Ctx::new(Ch::replay(vec![]), tracing);
                    let logs = run_plans(&mut c2, vec![b.it], vec![], plans);
                    (Ok(c2), logs)
                }
                Err(e) => (Err(e), vec![]),
            }
        });
        let c2 = match built {
            Ok(c) => c,
            Err(e) => return viol("build fails", format!("supported patterns {pats:?} are refused: {e}")),
        };
        merge(ctx, c2);
        for (i, log) in logs.iter().enumerate() {
            let v = check_tokens(&mut m, log, !chars);
            if m.overflow() {
                ctx.skipped = true;
                return Ok(());
            }
            ctx.count("probe: look-ahead given back over more than one item", v.backed_off);
            ctx.count("probe: end or pause in the middle of a match", v.paused_in_match);
            ctx.count("probe: tokens after an end or a panic", v.weak_tokens);
            if v.tokens >= 2 && (v.backed_off > 0 || v.paused_in_match > 0 || log.iter().any(|e| matches!(e, Ev::Unwound(_) | Ev::Dropped))) {
                ctx.nontrivial = true;
            }
            let fail = if faults { v.c02 } else { v.c01 };
            raise(fail, || format!("patterns {pats:?}; session {i}; hash seed {}, heap {}", env.hash_seed, POLICIES[env.policy]))?;
        }
    }
    ctx.sample = format!("patterns {pats:?}; first session {first}");
    Ok(())
}

pub fn merge(ctx: &mut Ctx, c2: Ctx) {
    for (k, v) in c2.stats {
        ctx.count(k, v);
    }
    ctx.trace.extend(c2.trace);
    ctx.absorb(&format!("{}", c2.hash));
}

fn c01(ctx: &mut Ctx) -> Result<(), Viol> {
    tok_common(ctx, false)
}

fn c02(ctx: &mut Ctx) -> Result<(), Viol> {
    tok_common(ctx, true)
}

// ---------------------------------------------------------------------------------------------------
// parse oracle

/// Compare a parse of the real parser with the model's.
fn check_parse(m: &ModelRun, g: &Grammar, log: &[Ev]) -> Option<Viol> {
    let v = |c: &str, d: String| Some(Viol { class: c.to_string(), detail: d });
    let mut polls = 0;
    let mut ended = false;
    let mut k = 0;
    for e in log {
        match e {
            Ev::Token(..) | Ev::NoItem => {
                polls += 1;
                if ended {
                    return v("polls after the end", "the source was polled again after it had reported its end".into());
                }
                if let Ev::NoItem = e {
                    ended = true;
                }
                let allowed = m.reds.get(k).map_or(m.polls, |r| r.polls);
                if polls > allowed {
                    return v("takes tokens too early", format!("token poll {polls} before reduction {} is done, which needs only {allowed} polls", k + 1));
                }
            }
            Ev::Reduce { rule, args, serial } => {
                let Some(r) = m.reds.get(k) else {
                    return v("wrong reductions", format!("reducer of rule {rule} ran (call {serial}) where the parse should be over with {:?}", m.res));
                };
                if r.rule != *rule {
                    return v("wrong reductions", format!("reducer call {serial}: rule {rule}, expected rule {}", r.rule));
                }
                let ok = r.args.len() == args.len()
                    && r.args.iter().zip(args).all(|(a, b)| match (a, b) {
                        (Arg::N(i), A::N(kind, val)) => *val as usize == i + 1 && *kind == g.rules[m.reds[*i].rule].0,
                        (Arg::T(i), A::T(_, id)) => *id as usize == *i,
                        (Arg::E(a, b), A::E(ids)) => ids.iter().map(|x| *x as usize).eq(*a..*b),
                        _ => false,
                    });
                if !ok {
                    let cls = if r.args.iter().any(|a| matches!(a, Arg::E(..))) { "wrong ERROR argument" } else { "wrong arguments" };
                    return v(cls, format!("reducer call {serial} of rule {rule}: arguments {args:?}, expected {:?} (N: number of the reduction, T: token number, E: token range)", r.args));
                }
                k += 1;
            }
            Ev::ParseOk(kind, val) => {
                if k != m.reds.len() || m.res != Res::Ok((*val as usize).wrapping_sub(1)) || *kind != g.start {
                    return v("wrong result", format!("parse gave Ok(value of reduction {val}) after {k} reductions, expected {:?} after {}", m.res, m.reds.len()));
                }
            }
            Ev::NotFound => {
                if m.res != Res::NotFound || k != m.reds.len() {
                    return v("wrong result", format!("parse failed with RecoveryRuleNotFound after {k} reductions, expected {:?} after {}", m.res, m.reds.len()));
                }
            }
            Ev::LibPanic(p) => return v("panic", format!("the library panicked: {p}")),
            _ => {}
        }
    }
    None
}

fn show_toks(t: &[usize]) -> String {
    if t.len() > 300 {
        return format!("[{} … {} tokens]", t[..300].iter().map(|k| format!("t{k}")).collect::<Vec<_>>().join(" "), t.len());
    }
    format!("[{}]", t.iter().map(|k| format!("t{k}")).collect::<Vec<_>>().join(" "))
}

/// A token stream for a grammar; None if it cannot be made. The flag says whether it was damaged.
fn stream(ctx: &mut Ctx, g: &Grammar, damage_weight: u32) -> (Vec<usize>, Option<Vec<usize>>) {
    stream_most(ctx, g, damage_weight, if g.has_error() { 1100 } else { 70_000 })
}

fn stream_most(ctx: &mut Ctx, g: &Grammar, damage_weight: u32, most: usize) -> (Vec<usize>, Option<Vec<usize>>) {
    let fuel = [0, 3, 8, 20, 60][ctx.ch.weighted(&[1, 3, 4, 3, 1])];
    let mut long = None;
    if ctx.ch.chance(1, 12) {
        let laps = patgen::laps(&mut ctx.ch, most);
        long = gram::pumped(&mut ctx.ch, g, laps).filter(|x| x.0.len() <= most.max(200));
    }
    let s = if long.is_some() {
        long
    } else if ctx.ch.chance(1, 8) {
        None
    } else if g.has_error() && ctx.ch.chance(1, 3) {
        gram::broken_sentence(&mut ctx.ch, g, fuel).map(|t| (t, vec![]))
    } else {
        gram::sentence(&mut ctx.ch, g, fuel)
    };
    let (mut toks, post) = match s {
        Some((t, p)) => (t, Some(p)),
        None => (gram::random_tokens(&mut ctx.ch, g, 8), None),
    };
    let n = ctx.ch.weighted(&[4, 3 * damage_weight, 2 * damage_weight, damage_weight]);
    let mut counts = [0; 7];
    let before = toks.clone();
    gram::damage(&mut ctx.ch, g, &mut toks, n, &mut counts);
    if n > 0 && !toks.is_empty() && ctx.ch.chance(1, 60) {
        // a long burst of the same tokens
        let i = ctx.ch.below(toks.len());
        let k = ctx.ch.range(1, 3).min(toks.len() - i);
        let piece = toks[i..i + k].to_vec();
        let laps = patgen::laps(&mut ctx.ch, most.max(6000) / k);
        let tail = toks.split_off(i);
        for _ in 0..laps {
            toks.extend(&piece);
        }
        toks.extend(tail);
        ctx.count("fault: burst of tokens", 1);
    }
    for (k, c) in ["fault: token lost", "fault: token duplicated", "fault: tokens reordered", "fault: token corrupted", "fault: token inserted", "fault: stream cut off", "fault: stream spliced"].into_iter().zip(counts) {
        if c > 0 {
            ctx.count(k, c);
        }
    }
    let post = if toks == before { post.filter(|p| !p.is_empty()) } else { None };
    if toks.len() > 255 {
        ctx.count("probe: token streams longer than 255", 1);
    }
    if toks.len() > 4095 {
        ctx.count("probe: token streams longer than 4095", 1);
    }
    (toks, post)
}

/// Steps of the model a stream may take. Recovery as specified parses tokens again and again, in the worst
/// case exponentially often.
fn limit(toks: &[usize]) -> usize {
    20_000 + 8 * toks.len()
}

fn token_source(t: &[usize]) -> Vec<Src> {
    t.iter().map(|k| Src::T(*k)).collect()
}

fn parse_common(ctx: &mut Ctx, want: Want) -> Result<(), Viol> {
    let (g, _) = gram::grammar(&mut ctx.ch, want);
    let g = gram::renumber(&mut ctx.ch, &g);
    let a = match Auto::build(&g, 1200) {
        Some(a) => a,
        None => {
            ctx.skipped = true;
            return Ok(());
        }
    };
    ctx.note(|| format!("grammar: {}", g.show()));
    let forms = draw_forms(&mut ctx.ch, &g);
    let env = draw_env(ctx);
    let mut plans = Vec::new();
    let mut models = Vec::new();
    let mut streams = Vec::new();
    for _ in 0..ctx.ch.range(1, 6) {
        let (toks, post) = stream(ctx, &g, if want == Want::Error { 3 } else { 2 });
        let Some(m) = a.run(&toks, limit(&toks)) else {
            if g.has_error() || toks.len() > 200 {
                ctx.count("probe: streams left out for the length of the specified parse", 1);
                continue;
            }
            panic!("the model does not terminate on a conflict-free grammar: {} {}", g.show(), show_toks(&toks));
        };
        if let Some(post) = post {
            // the model is itself checked against the derivation the sentence was made from
            let rules: Vec<usize> = m.reds.iter().map(|r| r.rule).collect();
            assert!(rules == post && matches!(m.res, Res::Ok(_)), "model disagrees with the derivation: {} {} {rules:?} {post:?}", g.show(), show_toks(&toks));
        }
        ctx.count("probe: errors recovered from", m.recoveries as u64);
        ctx.count("probe: errors while recovering", m.repeated as u64);
        ctx.count("probe: tokens parsed again", m.reparsed as u64);
        ctx.count("probe: errors at the end of input", m.at_eoi as u64);
        if matches!(m.res, Res::NotFound) {
            ctx.count("probe: rejected streams", 1);
        } else {
            ctx.count("probe: accepted streams", 1);
        }
        if m.reds.len() >= 3 && (want != Want::Error || m.recoveries > 0) {
            ctx.nontrivial = true;
        }
        let mut src = token_source(&toks);
        if ctx.ch.chance(1, 4) {
            // something delivered after the end must never be taken
            src.push(Src::Pause);
            src.extend(token_source(&toks).into_iter().take(2));
        }
        let mut p = Plan::new(Kind::Parse { par: 0 }, src);
        p.hint = ctx.ch.chance(1, 4);
        p.own = !matches!(p.kind, Kind::Parse { .. }) && ctx.ch.chance(1, 16);
        ctx.note(|| format!("session {}: {}", plans.len(), p.show()));
        plans.push(p);
        models.push(m);
        streams.push(toks);
    }
    if plans.is_empty() {
        ctx.skipped = true;
        return Ok(());
    }
    let tracing = ctx.tracing;
    let g2 = g.clone();
    let r = in_env(&env, || {
        build_par(&g2, &forms).map(|b| {
            let mut c2 = Ctx::new(Ch::replay(vec![]), tracing);
            let logs = run_plans(&mut c2, vec![], vec![b.it], plans);
            (c2, logs)
        })
    });
    let (c2, logs) = match r {
        Ok(x) => x,
        Err(e) => return viol("build fails", format!("building the parser panicked: {e} [grammar {}]", g.show())),
    };
    merge(ctx, c2);
    for (i, log) in logs.iter().enumerate() {
        raise(check_parse(&models[i], &g, log), || format!("grammar {}; tokens {}; hash seed {}", g.show(), show_toks(&streams[i]), env.hash_seed))?;
    }
    ctx.sample = format!("grammar {}; tokens {}", g.show(), show_toks(&streams[0]));
    Ok(())
}

fn c05(ctx: &mut Ctx) -> Result<(), Viol> {
    parse_common(ctx, Want::Plain)
}

fn c06(ctx: &mut Ctx) -> Result<(), Viol> {
    parse_common(ctx, Want::Error)
}

// ---------------------------------------------------------------------------------------------------
// C07: failing reducers, against the failure-free run of the same parser

fn c07(ctx: &mut Ctx) -> Result<(), Viol> {
    let want = if ctx.ch.chance(1, 2) { Want::Error } else { Want::Plain };
    let (g, _) = gram::grammar(&mut ctx.ch, want);
    let g = gram::renumber(&mut ctx.ch, &g);
    let a = Auto::build(&g, 1200).expect("the automaton of an accepted grammar");
    ctx.note(|| format!("grammar: {}", g.show()));
    let forms = draw_forms(&mut ctx.ch, &g);
    let env = draw_env(ctx);
    let mut streams = Vec::new();
    for _ in 0..ctx.ch.range(1, 3) {
        let (t, _) = stream(ctx, &g, if want == Want::Error { 2 } else { 1 });
        if a.run(&t, limit(&t)).is_some() {
            streams.push(t);
        }
    }
    if streams.is_empty() {
        ctx.skipped = true;
        return Ok(());
    }
    let tracing = ctx.tracing;
    let chp: *mut Ch = &mut ctx.ch;
    let r = in_env(&env, || {
        let ch = unsafe { &mut *chp };
        let b = build_par(&g, &forms)?;
        let mut c2 = Ctx::new(Ch::replay(vec![]), tracing);
        let base: Vec<Plan> = streams.iter().map(|t| Plan::new(Kind::Parse { par: 0 }, token_source(t))).collect();
        let logs0 = run_plans(&mut c2, vec![], vec![b.it], base.clone());
        let mut result: Result<(), Viol> = Ok(());
        let mut nontrivial = false;
        'outer: for (i, l0) in logs0.iter().enumerate() {
            let reds: Vec<usize> = (0..l0.len()).filter(|k| matches!(l0[*k], Ev::Reduce { .. })).collect();
            if reds.is_empty() || lib_panic(l0).is_some() {
                continue;
            }
            let recovered = l0.iter().any(|e| matches!(e, Ev::Reduce { args, .. } if args.iter().any(|a| matches!(a, A::E(_)))));
            if recovered {
                c2.count("probe: failures planned in parses with recovery", 1);
            }
            nontrivial |= reds.len() >= 2;
            for _ in 0..ch.range(1, 4) {
                let n = ch.below(reds.len());
                let panic = ch.chance(1, 3);
                let mut p = base[i].clone();
                if panic {
                    p.red_panic = Some(n as u32 + 1);
                } else {
                    p.red_err = Some(n as u32 + 1);
                }
                c2.note(|| format!("faulty session on stream {i}: {}", p.show()));
                let l = run_plans(&mut c2, vec![], vec![b.it], vec![p.clone()]).pop().unwrap();
                let mut expect: Vec<Ev> = l0[..reds[n]].to_vec();
                if let Ev::Reduce { rule, args, .. } = l0[reds[n]].clone() {
                    if panic {
                        let code = 2000 + n as u32 + 1;
                        expect.push(Ev::ReducePanic { rule, args, code });
                        expect.push(Ev::Unwound(code));
                    } else {
                        let code = 1000 + n as u32 + 1;
                        expect.push(Ev::ReduceErr { rule, args, code });
                        expect.push(Ev::ReducerErr(code));
                    }
                }
                if l != expect {
                    let at = (0..).find(|k| l.get(*k) != expect.get(*k)).unwrap();
                    let class = if panic { "reducer panic not propagated as is" } else { "reducer error not returned as is" };
                    result = viol(class, format!("reducer call {} fails: event {at} is {:?}, expected {:?} [grammar {}; tokens {}]", n + 1, l.get(at), expect.get(at), g.show(), show_toks(&streams[i])));
                    break 'outer;
                }
                // the parser afterwards
                let j = ch.below(streams.len());
                let l = run_plans(&mut c2, vec![], vec![b.it], vec![base[j].clone()]).pop().unwrap();
                if l != logs0[j] {
                    let at = (0..).find(|k| l.get(*k) != logs0[j].get(*k)).unwrap();
                    result = viol("parser differs after a failure", format!("after a failed parse, the same stream gives event {at} {:?} instead of {:?} [grammar {}; tokens {}]", l.get(at), logs0[j].get(at), g.show(), show_toks(&streams[j])));
                    break 'outer;
                }
            }
        }
        c2.nontrivial = nontrivial;
        Ok::<_, String>((c2, result))
    });
    let (c2, result) = match r {
        Ok(x) => x,
        Err(_) => {
            ctx.skipped = true; // building is not this property's matter
            return Ok(());
        }
    };
    ctx.nontrivial = c2.nontrivial;
    merge(ctx, c2);
    result?;
    ctx.sample = format!("grammar {}; tokens {}", g.show(), show_toks(&streams[0]));
    Ok(())
}

// ---------------------------------------------------------------------------------------------------
// C03: shared instances against solo runs on fresh ones

struct Setup {
    pats: Vec<Vec<String>>,
    chars: Vec<bool>,
    grams: Vec<Grammar>,
    autos: Vec<Auto>,
    forms: Vec<Vec<u32>>,
    models: Vec<TokModel>,
    abs: Vec<&'static [char]>,
}

fn draw_setup(ctx: &mut Ctx, nt: usize, np: usize) -> Setup {
    let mut s = Setup { pats: vec![], chars: vec![], grams: vec![], autos: vec![], forms: vec![], models: vec![], abs: vec![] };
    for _ in 0..nt {
        let cfg = PatCfg { nullable: ctx.ch.chance(1, 4), unicode_classes: false, empty: false };
        let (p, m, ab) = patgen::patterns(&mut ctx.ch, &cfg);
        ctx.note(|| format!("tokenizer {}: {p:?}", s.pats.len()));
        s.pats.push(p);
        s.models.push(m);
        s.abs.push(ab);
        s.chars.push(ctx.ch.chance(1, 6));
    }
    for _ in 0..np {
        let want = if ctx.ch.chance(2, 3) { Want::Error } else { Want::Plain };
        let (g, _) = gram::grammar(&mut ctx.ch, want);
        let g = gram::renumber(&mut ctx.ch, &g);
        ctx.note(|| format!("parser {}: {}", s.grams.len(), g.show()));
        let f = draw_forms(&mut ctx.ch, &g);
        s.forms.push(f);
        s.autos.push(Auto::build(&g, 1200).expect("the automaton of an accepted grammar"));
        s.grams.push(g);
    }
    s
}

fn draw_plan(ctx: &mut Ctx, s: &mut Setup, faults: bool) -> Plan {
    let nt = s.pats.len();
    let np = s.grams.len();
    let kind = ctx.ch.weighted(&[if nt > 0 { 3 } else { 0 }, if np > 0 { 3 } else { 0 }, if nt > 0 && np > 0 { 2 } else { 0 }]);
    let mut p = match kind {
        0 => {
            let t = ctx.ch.below(nt);
            let mut text = patgen::text(&mut ctx.ch, &mut s.models[t], s.abs[t], 40);
            lengthen(ctx, &mut s.models[t], &mut text, 300);
            let pauses = ctx.ch.chance(1, 3);
            let (src, _) = char_source(&mut ctx.ch, &text, pauses);
            Plan::new(Kind::Tok { tok: t }, src)
        }
        1 => {
            let i = ctx.ch.below(np);
            let g = s.grams[i].clone();
            let (toks, _) = stream_most(ctx, &g, 2, 300);
            Plan::new(Kind::Parse { par: i }, token_source(&toks))
        }
        _ => {
            let t = ctx.ch.below(nt);
            let i = ctx.ch.below(np);
            pipe_plan(ctx, s, t, i)
        }
    };
    if faults {
        match ctx.ch.weighted(&[6, 1, 1, 1, 1, 1, 1]) {
            0 => {}
            1 => {
                let i = ctx.ch.below(p.source.len() + 1);
                p.source.insert(i, Src::Panic);
            }
            2 => p.map_panic = Some(ctx.ch.range(1, p.source.len() + 2) as u32),
            3 => p.make_panic = Some(ctx.ch.range(1, 5) as u32),
            4 => p.red_err = Some(ctx.ch.range(1, 5) as u32),
            5 => p.red_panic = Some(ctx.ch.range(1, 5) as u32),
            _ => p.cancel_after = Some(ctx.ch.range(0, 4) as u32),
        }
        p.after_panic = ctx.ch.below(4) as u32;
        p.after_end = ctx.ch.weighted(&[3, 1, 1]) as u32;
    }
    p
}

/// The parse the plan stands for, as specified, is short enough.
fn affordable(ctx: &mut Ctx, s: &mut Setup, p: &Plan) -> bool {
    let (par, toks) = match &p.kind {
        Kind::Tok { .. } => return true,
        Kind::Parse { par } => (*par, p.source.iter().filter_map(|x| if let Src::T(k) = x { Some(*k) } else { None }).collect::<Vec<_>>()),
        Kind::Pipe { tok, par, kinds } => (*par, ref_tokens(&mut s.models[*tok], &p.source).0.iter().filter_map(|(p, _)| kinds[*p]).collect()),
    };
    let ok = s.autos[par].run(&toks, limit(&toks)).is_some();
    if !ok {
        ctx.count("probe: streams left out for the length of the specified parse", 1);
    }
    ok
}

/// Characters whose tokens are (mostly) a sentence of the grammar.
fn pipe_plan(ctx: &mut Ctx, s: &mut Setup, t: usize, i: usize) -> Plan {
    let g = s.grams[i].clone();
    let kinds: Vec<usize> = g.terminals().into_iter().collect();
    let n = s.pats[t].len();
    let map: Vec<Option<usize>> = (0..n)
        .map(|k| if kinds.is_empty() || k > 0 && ctx.ch.chance(1, 6) { None } else { Some(kinds[(k + ctx.ch.below(2)) % kinds.len()]) })
        .collect();
    let mut text = Vec::new();
    if ctx.ch.chance(3, 4) {
        let (toks, _) = stream(ctx, &g, 1);
        for k in toks.iter().take(if ctx.ch.chance(1, 10) { 300 } else { 25 }) {
            // a word of a pattern that stands for this kind
            let ps: Vec<usize> = (0..n).filter(|p| map[*p] == Some(*k)).collect();
            if !ps.is_empty() {
                let p = *ctx.ch.pick(&ps);
                patgen::word_of(&mut ctx.ch, &mut s.models[t], p, &mut text, 8);
            }
        }
    } else {
        text = patgen::text(&mut ctx.ch, &mut s.models[t], s.abs[t], 40);
    }
    lengthen(ctx, &mut s.models[t], &mut text, 3000);
    let pauses = ctx.ch.chance(1, 4);
    let (src, _) = char_source(&mut ctx.ch, &text, pauses);
    Plan::new(Kind::Pipe { tok: t, par: i, kinds: map }, src)
}

fn build_all(s: &Setup) -> Result<(Vec<RealTok>, Vec<RealPar>, Vec<String>), String> {
    let mut t = Vec::new();
    let mut w = Vec::new();
    for (i, p) in s.pats.iter().enumerate() {
        let b = build_tok(p, s.chars[i])?;
        t.push(b.it);
        w.extend(b.warnings.into_iter().map(|x| format!("tokenizer {i}: {x}")));
    }
    let mut ps = Vec::new();
    for (i, g) in s.grams.iter().enumerate() {
        let b = build_par(g, &s.forms[i])?;
        ps.push(b.it);
        w.extend(b.warnings.into_iter().map(|x| format!("parser {i}: {x}")));
    }
    Ok((t, ps, w))
}

/// An earlier life: other instances, much like those of `s`, that were built, used and given up before.
fn draw_past(ctx: &mut Ctx, s: &Setup, plans: &[Plan]) -> (Setup, Vec<Plan>) {
    let mut v = Setup { pats: vec![], chars: s.chars.clone(), grams: vec![], autos: vec![], forms: vec![], models: vec![], abs: s.abs.clone() };
    for p in &s.pats {
        let mut p = p.clone();
        let k = p.len();
        match ctx.ch.below(4) {
            0 => p.reverse(),
            1 => p.rotate_left(k / 2),
            2 if k > 1 => {
                p.remove(ctx.ch.below(k));
            }
            _ => p.insert(0, "[!-~]".into()),
        }
        v.models.push(TokModel::new(&p).expect("model of a pattern set"));
        v.pats.push(p);
    }
    for (i, g) in s.grams.iter().enumerate() {
        let mut ts: Vec<usize> = g.terminals().into_iter().collect();
        let from = ts.clone();
        if !ts.is_empty() {
            let k = ctx.ch.below(ts.len());
            ts.rotate_left(k);
        }
        let mut g = g.clone();
        for (_, r) in &mut g.rules {
            for x in r {
                if let gram::Sym::T(t) = x {
                    *t = ts[from.binary_search(t).unwrap()];
                }
            }
        }
        v.forms.push(s.forms[i].clone());
        v.autos.push(Auto::build(&g, 1200).expect("the automaton of a renamed grammar"));
        v.grams.push(g);
    }
    let mut kept = Vec::new();
    for p in plans {
        let fits = match &p.kind {
            Kind::Pipe { tok, kinds, .. } => kinds.len() >= v.pats[*tok].len(),
            _ => true,
        };
        if fits && affordable(ctx, &mut v, p) && ctx.ch.chance(2, 3) {
            kept.push(p.clone());
        }
    }
    (v, kept)
}

fn live_past(past: &[(Setup, Vec<Plan>)]) -> Result<(), String> {
    for (s, plans) in past {
        let (t, p, _) = build_all(s)?;
        let mut w = World::new(t.clone(), p.clone(), plans.clone());
        w.activate();
        for i in 0..plans.len() {
            run_alone(i);
        }
        drop(w);
        give_up(t, p);
    }
    Ok(())
}

fn first_diff(a: &[Ev], b: &[Ev]) -> Option<usize> {
    (0..a.len().max(b.len())).find(|k| a.get(*k) != b.get(*k))
}

fn c03(ctx: &mut Ctx) -> Result<(), Viol> {
    let nt = ctx.ch.range(0, 2);
    let np = ctx.ch.range(if nt == 0 { 1 } else { 0 }, 2);
    let mut s = draw_setup(ctx, nt, np);
    let mut plans = Vec::new();
    // now and then very many, deep inside each other
    let deep = ctx.ch.chance(1, 10) && s.autos.iter().all(|a| a.action.len() < 80) && s.pats.iter().flatten().map(|p| p.len()).sum::<usize>() < 100;
    for _ in 0..if deep { ctx.ch.range(8, 40) } else { ctx.ch.range(2, 6) } {
        let mut p = draw_plan(ctx, &mut s, true);
        if !affordable(ctx, &mut s, &p) {
            continue;
        }
        p.hint = ctx.ch.chance(1, 4);
        p.own = !matches!(p.kind, Kind::Parse { .. }) && ctx.ch.chance(1, 16);
        ctx.note(|| format!("session {}: {}", plans.len(), p.show()));
        plans.push(p);
    }
    let past: Vec<_> = (0..ctx.ch.weighted(&[4, 1, 1])).map(|_| draw_past(ctx, &s, &plans)).collect();
    ctx.count("fault: instances given up before and their memory used again", past.len() as u64);
    ctx.note(|| format!("earlier lives: {}", past.iter().map(|(v, p)| format!("{:?} {} ({} sessions)", v.pats, v.grams.iter().map(|g| g.show()).collect::<Vec<_>>().join(" / "), p.len())).collect::<Vec<_>>().join("; ")));
    let past = &past;
    let env = draw_env(ctx);
    let nest = deep || ctx.ch.chance(3, 4);
    let tracing = ctx.tracing;
    let chp: *mut Ch = &mut ctx.ch;
    let plans2 = plans.clone();
    let s_ref = &s;
    // all together
    let r = in_env(&env, || {
        live_past(past)?;
        let (t, p, _) = build_all(s_ref)?;
        let mut w = World::new(t, p, plans2);
        w.tracing = tracing;
        w.ch = chp;
        if nest {
            w.nest_left = 60;
            w.max_depth = 5;
        }
        if deep {
            w.nest_left = 300;
            w.max_depth = 40;
            w.eager = true;
        }
        w.activate();
        run_scheduled(unsafe { &mut *chp });
        Ok::<_, String>(w)
    });
    let w = match r {
        Ok(w) => w,
        Err(_) => {
            ctx.skipped = true;
            return Ok(());
        }
    };
    note_log(ctx, &w);
    ctx.count("scheduler: steps of sessions", w.switches);
    ctx.count("scheduler: steps nested in callbacks", w.nested);
    if w.deepest > 16 {
        ctx.count("probe: runs with sessions nested more than 16 deep", 1);
    }
    let order: Vec<u64> = w.sessions.iter().flat_map(|s| s.seq.iter().copied()).collect();
    ctx.absorb(&format!("{order:?}"));
    let shared_logs: Vec<Vec<Ev>> = w.sessions.iter().map(|s| s.log.clone()).collect();
    for l in &shared_logs {
        log_stats(ctx, l);
        ctx.absorb(&format!("{l:?}"));
    }
    ctx.nontrivial = w.nested > 0 || w.switches > plans.len() as u64;
    // each alone on fresh instances
    for (i, p) in plans.iter().enumerate() {
        let p = p.clone();
        let env2 = Env { hash_seed: env.hash_seed ^ (i as u64 + 1) << 32, ..env.clone() };
        let r = in_env(&env2, || {
            let (t, ps, _) = build_all(s_ref)?;
            let mut w = World::new(t, ps, vec![p]);
            w.activate();
            run_alone(0);
            Ok::<_, String>(w.sessions[0].log.clone())
        });
        let Ok(solo) = r else {
            ctx.skipped = true;
            return Ok(());
        };
        if let Some(k) = first_diff(&solo, &shared_logs[i]) {
            return viol("session influenced by others", format!("session {i}, event {k}: {:?} with the others, {:?} alone [{}; {} sessions, {} nested steps]", shared_logs[i].get(k), solo.get(k), plans[i].show(), plans.len(), w.nested));
        }
    }
    ctx.sample = format!("{} tokenizers, {} parsers, {} sessions, {} steps of which {} nested; session 0: {}", nt, np, plans.len(), w.switches, w.nested, plans[0].show());
    Ok(())
}

// ---------------------------------------------------------------------------------------------------
// C04: several builds under different hash keys and heap layouts

fn c04(ctx: &mut Ctx) -> Result<(), Viol> {
    let which = ctx.ch.weighted(&[3, 2, 1]);
    let (nt, np) = [(1, 0), (0, 1), (1, 1)][which];
    let mut s = draw_setup(ctx, nt, 0);
    for _ in 0..np {
        let want = if ctx.ch.choose(2) == 0 { Want::Error } else { Want::Any };
        let (g, _) = gram::grammar(&mut ctx.ch, want);
        let a = gram::accept(&g, Want::Any);
        let g = gram::renumber(&mut ctx.ch, &g);
        ctx.note(|| format!("parser {}: {}", s.grams.len(), g.show()));
        if a.map_or(true, |a| a.conflicts > 0) {
            ctx.count("probe: grammars with conflicts", 1);
        }
        let f = draw_forms(&mut ctx.ch, &g);
        s.forms.push(f);
        s.autos.push(Auto::build(&g, 1200).expect("the automaton of an accepted grammar"));
        s.grams.push(g);
    }
    let mut plans = Vec::new();
    let k = match s.pats.first() {
        Some(p) if s.grams.is_empty() => many_builds(ctx, &p.clone(), &mut s.models[0], 2),
        _ => ctx.ch.range(2, 8),
    };
    let n = if k > 8 { ctx.ch.range(3, 8) } else { ctx.ch.range(2, 5) };
    for _ in 0..n {
        let mut p = draw_plan(ctx, &mut s, false);
        // a conflicting grammar may legitimately not terminate: leave such streams out
        if !affordable(ctx, &mut s, &p) {
            continue;
        }
        p.hint = ctx.ch.chance(1, 4);
        p.own = !matches!(p.kind, Kind::Parse { .. }) && ctx.ch.chance(1, 16);
        ctx.note(|| format!("session {}: {}", plans.len(), p.show()));
        plans.push(p);
    }
    let mut base: Option<(Vec<Vec<Ev>>, Vec<String>, Env)> = None;
    for b in 0..k {
        let past: Vec<_> = if b > 0 && ctx.ch.chance(1, 4) { vec![draw_past(ctx, &s, &plans)] } else { vec![] };
        ctx.count("fault: instances given up before and their memory used again", past.len() as u64);
        let past = &past;
        let env = draw_env(ctx);
        let tracing = ctx.tracing && b == 0;
        let s_ref = &s;
        let plans2 = plans.clone();
        let r = in_env(&env, || {
            live_past(past)?;
            let (t, p, mut w) = build_all(s_ref)?;
            w.sort();
            let mut c2 = Ctx::new(Ch::replay(vec![]), tracing);
            let logs = run_plans(&mut c2, t, p, plans2);
            Ok::<_, String>((c2, logs, w))
        });
        let (logs, warn) = match r {
            Ok((c2, logs, w)) => {
                merge(ctx, c2);
                (logs, w)
            }
            Err(e) => (vec![], vec![e]),
        };
        ctx.count("builds compared", 1);
        match &base {
            None => base = Some((logs, warn, env)),
            Some((l0, w0, e0)) => {
                let envs = || format!("build 0: hash seed {}, heap {}; build {b}: hash seed {}, heap {}; patterns {:?} grammars {:?}", e0.hash_seed, POLICIES[e0.policy], env.hash_seed, POLICIES[env.policy], s.pats, s.grams.iter().map(|g| g.show()).collect::<Vec<_>>());
                if *w0 != warn {
                    return viol("warnings differ between builds", format!("{} warnings in build 0, {} in build {b} [{}]", w0.len(), warn.len(), envs()));
                }
                for (i, l) in logs.iter().enumerate() {
                    if let Some(x) = first_diff(l, &l0[i]) {
                        return viol("behaviour differs between builds", format!("session {i} ({}), event {x}: {:?} in build 0, {:?} in build {b} [{}]", plans[i].show(), l0[i].get(x), l.get(x), envs()));
                    }
                }
            }
        }
    }
    let (l0, w0, _) = base.unwrap();
    ctx.count("warnings compared", w0.len() as u64);
    ctx.nontrivial = l0.iter().map(|l| l.len()).sum::<usize>() > 10;
    ctx.sample = format!("{k} builds of patterns {:?} grammars {:?}, {} streams each", s.pats, s.grams.iter().map(|g| g.show()).collect::<Vec<_>>(), plans.len());
    Ok(())
}

// ---------------------------------------------------------------------------------------------------
// C10: warnings exactly on ambiguity, and its resolution

fn c10(ctx: &mut Ctx) -> Result<(), Viol> {
    if ctx.ch.chance(2, 5) {
        // tokenizer
        let cfg = PatCfg { nullable: ctx.ch.chance(1, 3), unicode_classes: false, empty: false };
        let (pats, mut m, ab) = patgen::patterns(&mut ctx.ch, &cfg);
        ctx.note(|| format!("patterns: {pats:?}"));
        let Some(amb) = m.ambiguous(400) else {
            ctx.skipped = true;
            return Ok(());
        };
        ctx.count(if amb { "probe: ambiguous pattern sets" } else { "probe: unambiguous pattern sets" }, 1);
        ctx.nontrivial = true;
        let mut plans = Vec::new();
        for _ in 0..ctx.ch.range(1, 2) {
            let text = patgen::text(&mut ctx.ch, &mut m, ab, 40);
            let (src, _) = char_source(&mut ctx.ch, &text, false);
            plans.push(Plan::new(Kind::Tok { tok: 0 }, src));
        }
        for _ in 0..ctx.ch.range(1, 3) {
            let env = draw_env(ctx);
            let tracing = ctx.tracing;
            let plans = plans.clone();
            let pats2 = pats.clone();
            let r = in_env(&env, || {
                build_tok(&pats2, false).map(|b| {
                    let mut c2 = Ctx::new(Ch::replay(vec![]), tracing);
                    let logs = run_plans(&mut c2, vec![b.it], vec![], plans);
                    (c2, logs, b.warnings)
                })
            });
            let Ok((c2, logs, warn)) = r else {
                ctx.skipped = true;
                return Ok(());
            };
            merge(ctx, c2);
            if amb == warn.is_empty() {
                let class = if amb { "ambiguity not reported" } else { "warning without ambiguity" };
                return viol(class, format!("patterns {pats:?}: two of them {} the same text, but the warnings are {warn:?} [hash seed {}]", if amb { "match" } else { "never match" }, env.hash_seed));
            }
            for log in &logs {
                // only the choice between patterns matters here: for each token, the earliest pattern matching it
                for e in log {
                    if let Ev::Make { pat, text, .. } = e {
                        let mut st = m.start();
                        for c in text.chars() {
                            st = m.step(&st, c);
                        }
                        let q = m.accepts(&st);
                        if q.is_some() && q != Some(*pat) && m.lang.nullable(m.parts(&st)[*pat]) {
                            return viol("later pattern preferred", format!("{text:?} was made by pattern {pat} although pattern {} also matches it [patterns {pats:?}, hash seed {}]", q.unwrap(), env.hash_seed));
                        }
                    }
                }
            }
        }
        ctx.sample = format!("patterns {pats:?}: ambiguous = {amb}");
        return Ok(());
    }
    let (g, _) = gram::grammar(&mut ctx.ch, Want::Any);
    let g = gram::renumber(&mut ctx.ch, &g);
    let Some(a) = Auto::build(&g, 1200) else {
        ctx.skipped = true;
        return Ok(());
    };
    ctx.note(|| format!("grammar: {} ({} conflicts)", g.show(), a.conflicts));
    ctx.count(if a.conflicts > 0 { "probe: conflicting grammars" } else { "probe: conflict-free grammars" }, 1);
    for (k, c) in ["probe: shift/reduce conflicts", "probe: reduce/reduce conflicts", "probe: accept/reduce conflicts"].into_iter().zip(a.conflict_kinds) {
        ctx.count(k, c as u64);
    }
    let forms = draw_forms(&mut ctx.ch, &g);
    let mut plans = Vec::new();
    let mut models = Vec::new();
    for _ in 0..ctx.ch.range(1, 5) {
        let (toks, _) = stream(ctx, &g, 1);
        if let Some(m) = a.run(&toks, 3000 + 8 * toks.len()) {
            if !g.has_error() || m.recoveries == 0 {
                let mut p = Plan::new(Kind::Parse { par: 0 }, token_source(&toks));
                p.hint = ctx.ch.chance(1, 4);
                p.own = !matches!(p.kind, Kind::Parse { .. }) && ctx.ch.chance(1, 16);
                ctx.note(|| format!("session {}: {}", plans.len(), p.show()));
                plans.push(p);
                models.push(m);
            }
        } else {
            ctx.count("probe: conflict resolution that never ends (stream left out)", 1);
        }
    }
    ctx.nontrivial = a.conflicts > 0;
    for _ in 0..ctx.ch.range(1, 3) {
        let env = draw_env(ctx);
        let tracing = ctx.tracing;
        let plans2 = plans.clone();
        let g2 = &g;
        let forms2 = &forms;
        let r = in_env(&env, || {
            build_par(g2, forms2).map(|b| {
                let mut c2 = Ctx::new(Ch::replay(vec![]), tracing);
                let logs = run_plans(&mut c2, vec![], vec![b.it], plans2);
                (c2, logs, b.warnings)
            })
        });
        let (c2, logs, warn) = match r {
            Ok(x) => x,
            Err(e) => return viol("build fails", format!("building the parser panicked: {e} [grammar {}]", g.show())),
        };
        merge(ctx, c2);
        if (a.conflicts > 0) == warn.is_empty() {
            let class = if a.conflicts > 0 { "conflict not reported" } else { "warning without conflict" };
            return viol(class, format!("{} conflicting (state, lookahead) pairs, {} warnings {:?} [grammar {}; hash seed {}]", a.conflicts, warn.len(), warn.first(), g.show(), env.hash_seed));
        }
        for (i, log) in logs.iter().enumerate() {
            raise(check_parse(&models[i], &g, log), || format!("conflict resolution; grammar {}; {}; hash seed {}", g.show(), plans[i].show(), env.hash_seed))?;
        }
    }
    ctx.sample = format!("grammar {}: {} conflicts", g.show(), a.conflicts);
    Ok(())
}

// ---------------------------------------------------------------------------------------------------
// C11: progress

fn c11(ctx: &mut Ctx) -> Result<(), Viol> {
    if ctx.ch.chance(1, 3) {
        let cfg = PatCfg { nullable: true, unicode_classes: ctx.ch.chance(1, 6), empty: ctx.ch.chance(1, 3) };
        let (pats, mut m, ab) = patgen::patterns(&mut ctx.ch, &cfg);
        ctx.note(|| format!("patterns: {pats:?}"));
        let mut plans = Vec::new();
        for _ in 0..ctx.ch.range(1, 3) {
            let max = if ctx.ch.chance(1, 15) { 1500 } else { 60 };
            let mut text = patgen::text(&mut ctx.ch, &mut m, ab, max.min(1000));
            if max == 1500 && !text.is_empty() {
                while text.len() < 800 {
                    let t = text.clone();
                    text.extend(t);
                }
            }
            // an empty sub-expression counts as any text at all (D2): the look-ahead has no end there
            lengthen(ctx, &mut m, &mut text, if cfg.empty { 300 } else { 70_000 });
            let pauses = ctx.ch.chance(1, 3);
            let (src, _) = char_source(&mut ctx.ch, &text, pauses);
            let mut p = Plan::new(Kind::Tok { tok: 0 }, src);
            p.after_end = ctx.ch.below(4) as u32;
            p.hint = ctx.ch.chance(1, 4);
            p.own = !matches!(p.kind, Kind::Parse { .. }) && ctx.ch.chance(1, 16);
            ctx.note(|| format!("session {}: {}", plans.len(), p.show()));
            plans.push(p);
        }
        let env = draw_env(ctx);
        let tracing = ctx.tracing;
        let pats2 = pats.clone();
        let plans2 = plans.clone();
        let r = in_env(&env, || {
            build_tok(&pats2, false).map(|b| {
                let mut c2 = Ctx::new(Ch::replay(vec![]), tracing);
                let logs = run_plans(&mut c2, vec![b.it], vec![], plans2);
                (c2, logs)
            })
        });
        let (c2, logs) = match r {
            Ok(x) => x,
            Err(e) => return viol("build fails", format!("building the tokenizer failed: {e} [patterns {pats:?}]")),
        };
        merge(ctx, c2);
        for (i, log) in logs.iter().enumerate() {
            let what = || format!("patterns {pats:?}; {}", plans[i].show().chars().take(400).collect::<String>());
            if let Some(p) = lib_panic(log) {
                return viol("panic", format!("the library panicked: {p} [{}]", what()));
            }
            let items = log.iter().filter(|e| matches!(e, Ev::Item(..))).count();
            let tokens = log.iter().filter(|e| matches!(e, Ev::Got(Some(_)))).count();
            if log.iter().any(|e| matches!(e, Ev::Make { items, .. } if items.is_empty())) {
                return viol("empty token", format!("a token consumed no item [{}]", what()));
            }
            if tokens > items {
                return viol("more tokens than items", format!("{tokens} tokens from {items} items [{}]", what()));
            }
        }
        ctx.nontrivial = m.start.iter().any(|r| m.lang.nullable(*r)) || logs.iter().any(|l| l.len() > 500);
        ctx.sample = format!("patterns {pats:?}; {}", plans[0].show().chars().take(200).collect::<String>());
        return Ok(());
    }
    let (g, _) = gram::grammar(&mut ctx.ch, Want::AnyFree);
    let g = gram::renumber(&mut ctx.ch, &g);
    let a = Auto::build(&g, 1200).expect("the automaton of an accepted grammar");
    if a.adjacent {
        ctx.count("probe: grammars with adjacent ERROR", 1);
    }
    ctx.note(|| format!("grammar: {}", g.show()));
    let forms = draw_forms(&mut ctx.ch, &g);
    let env = draw_env(ctx);
    let mut plans = Vec::new();
    for _ in 0..ctx.ch.range(1, 6) {
        let (mut toks, _) = stream(ctx, &g, 4);
        if ctx.ch.chance(1, 20) && !toks.is_empty() {
            while toks.len() < 400 {
                let t = toks.clone();
                toks.extend(t);
            }
        }
        if a.run(&toks, limit(&toks)).is_none() {
            ctx.count("probe: streams left out for the length of the specified parse", 1);
            continue;
        }
        let mut p = Plan::new(Kind::Parse { par: 0 }, token_source(&toks));
        p.hint = ctx.ch.chance(1, 4);
        p.own = !matches!(p.kind, Kind::Parse { .. }) && ctx.ch.chance(1, 16);
        ctx.note(|| format!("session {}: {}", plans.len(), p.show()));
        plans.push(p);
    }
    if plans.is_empty() {
        ctx.skipped = true;
        return Ok(());
    }
    let tracing = ctx.tracing;
    let g2 = &g;
    let plans2 = plans.clone();
    let r = in_env(&env, || {
        build_par(g2, &forms).map(|b| {
            let mut c2 = Ctx::new(Ch::replay(vec![]), tracing);
            let logs = run_plans(&mut c2, vec![], vec![b.it], plans2);
            (c2, logs)
        })
    });
    let (c2, logs) = match r {
        Ok(x) => x,
        Err(e) => return viol("build fails", format!("building the parser panicked: {e} [grammar {}]", g.show())),
    };
    merge(ctx, c2);
    for (i, log) in logs.iter().enumerate() {
        if let Some(p) = lib_panic(log) {
            return viol("panic", format!("the library panicked: {p} [grammar {}; {}]", g.show(), plans[i].show().chars().take(400).collect::<String>()));
        }
        ctx.nontrivial |= log.iter().any(|e| matches!(e, Ev::NotFound)) || log.iter().any(|e| matches!(e, Ev::Reduce { args, .. } if args.iter().any(|a| matches!(a, A::E(_)))));
    }
    ctx.sample = format!("grammar {}; {}", g.show(), plans[0].show().chars().take(200).collect::<String>());
    Ok(())
}

// ---------------------------------------------------------------------------------------------------
// C12: the lazy pipeline against the eager one, and against the demand the models allow

/// Reference token stream over a scripted source: per token its pattern and the polls made by then; then
/// the polls at the end.
fn ref_tokens(m: &mut TokModel, src: &[Src]) -> (Vec<(usize, usize)>, usize) {
    let mut out = Vec::new();
    let mut pos = 0;
    let mut polls = 0;
    let mut w: Vec<char> = Vec::new();
    loop {
        // longest match over what is pending, polling while viable
        let mut s = m.start();
        let mut best = None;
        let mut i = 0;
        loop {
            if i == w.len() {
                polls += 1;
                match src.get(pos) {
                    Some(Src::C(c)) => {
                        w.push(*c);
                        pos += 1;
                    }
                    _ => {
                        pos += 1;
                        break;
                    }
                }
            }
            s = m.step(&s, w[i]);
            i += 1;
            if !m.viable(&s) {
                break;
            }
            if let Some(p) = m.accepts(&s) {
                best = Some((i, p));
            }
        }
        match best {
            Some((n, p)) => {
                w.drain(..n);
                out.push((p, polls));
            }
            None => return (out, polls),
        }
    }
}

fn c12(ctx: &mut Ctx) -> Result<(), Viol> {
    let mut s = draw_setup(ctx, 1, 1);
    s.chars[0] = false;
    let mut plans = Vec::new();
    for _ in 0..ctx.ch.range(1, 4) {
        let mut p = pipe_plan(ctx, &mut s, 0, 0);
        if !affordable(ctx, &mut s, &p) {
            continue;
        }
        match ctx.ch.weighted(&[4, 1, 1]) {
            0 => {}
            1 => p.red_err = Some(ctx.ch.range(1, 6) as u32),
            _ => p.red_panic = Some(ctx.ch.range(1, 6) as u32),
        }
        p.hint = ctx.ch.chance(1, 4);
        p.own = !matches!(p.kind, Kind::Parse { .. }) && ctx.ch.chance(1, 16);
        ctx.note(|| format!("session {}: {}", plans.len(), p.show()));
        plans.push(p);
    }
    if plans.is_empty() {
        ctx.skipped = true;
        return Ok(());
    }
    let env = draw_env(ctx);
    let a = s.autos.pop().unwrap();
    let tracing = ctx.tracing;
    let s_ref = &s;
    let plans2 = plans.clone();
    let r = in_env(&env, || {
        let (t, p, _) = build_all(s_ref)?;
        let mut c2 = Ctx::new(Ch::replay(vec![]), tracing);
        let lazy = run_plans(&mut c2, t.clone(), p.clone(), plans2.clone());
        c2.note(|| "eager: the same, collecting the tokens first".to_string());
        let mut eager = Vec::new();
        for pl in &plans2 {
            let tp = Plan::new(Kind::Tok { tok: 0 }, pl.source.clone());
            let tl = run_plans(&mut c2, t.clone(), vec![], vec![tp]).pop().unwrap();
            let kinds = if let Kind::Pipe { kinds, .. } = &pl.kind { kinds.clone() } else { unreachable!() };
            let toks: Vec<usize> = tl.iter().filter_map(|e| if let Ev::Got(Some((pat, _))) = e { kinds[*pat] } else { None }).collect();
            let mut pp = Plan::new(Kind::Parse { par: 0 }, token_source(&toks));
            pp.red_err = pl.red_err;
            pp.red_panic = pl.red_panic;
            let el = run_plans(&mut c2, vec![], p.clone(), vec![pp]).pop().unwrap();
            eager.push((tl, el, toks));
        }
        Ok::<_, String>((c2, lazy, eager))
    });
    let Ok((c2, lazy, eager)) = r else {
        ctx.skipped = true;
        return Ok(());
    };
    merge(ctx, c2);
    for (i, log) in lazy.iter().enumerate() {
        let (tl, el, toks) = &eager[i];
        if lib_panic(tl).is_some() {
            continue;
        }
        let what = || format!("patterns {:?}; grammar {}; {}", s.pats[0], s.grams[0].show(), plans[i].show());
        let key = |l: &[Ev]| -> Vec<Ev> { l.iter().filter(|e| matches!(e, Ev::Reduce { .. } | Ev::ReduceErr { .. } | Ev::ReducePanic { .. } | Ev::ParseOk(..) | Ev::NotFound | Ev::ReducerErr(_) | Ev::Unwound(_) | Ev::LibPanic(_))).cloned().collect() };
        let (a1, a2) = (key(log), key(el));
        if let Some(k) = first_diff(&a1, &a2) {
            return viol("lazy and eager differ", format!("reduction or result {k}: lazily {:?}, after collecting all tokens {:?} [{}]", a1.get(k), a2.get(k), what()));
        }
        // demand
        let kinds = if let Kind::Pipe { kinds, .. } = &plans[i].kind { kinds } else { unreachable!() };
        let (rt, end_polls) = ref_tokens(&mut s.models[0], &plans[i].source);
        let visible: Vec<(usize, usize)> = rt.iter().filter_map(|(p, n)| kinds[*p].map(|k| (k, *n))).collect();
        let rk: Vec<usize> = visible.iter().map(|x| x.0).collect();
        if rk != *toks {
            // tokens themselves are wrong: that is for C01 to say; without them there is no demand to compare with
            ctx.count("probe: streams left out because tokens differ from the model", 1);
            continue;
        }
        let Some(m) = a.run(&rk, 60_000 + 20 * rk.len()) else { continue };
        if plans[i].red_err.is_none() && plans[i].red_panic.is_none() && check_parse(&m, &s.grams[0], el).map_or(false, |v| v.class != "takes tokens too early" && v.class != "polls after the end") {
            ctx.count("probe: streams left out because the parse differs from the model", 1);
            continue;
        }
        let need = |polls: usize| if polls <= visible.len() { if polls == 0 { 0 } else { visible[polls - 1].1 } } else { end_polls };
        let mut taken = 0;
        let mut k = 0;
        for e in log {
            match e {
                Ev::Item(..) | Ev::NoItem => {
                    taken += 1;
                    let allowed = m.reds.get(k).map_or(need(m.polls), |r| need(r.polls));
                    if taken > allowed {
                        return viol("takes characters too early", format!("character poll {taken} while reduction {} is due, which needs only {allowed} polls [{}]", k + 1, what()));
                    }
                }
                Ev::Reduce { .. } => k += 1,
                Ev::ReduceErr { .. } | Ev::ReducePanic { .. } => {
                    // nothing may be taken any more
                    let after = log.iter().skip_while(|x| *x != e).filter(|x| matches!(x, Ev::Item(..) | Ev::NoItem)).count();
                    if after > 0 {
                        return viol("takes characters after a failure", format!("{after} characters taken after the reducer failed [{}]", what()));
                    }
                }
                _ => {}
            }
        }
        if k >= 2 {
            ctx.nontrivial = true;
        }
        ctx.count("probe: reductions before the last character was taken", log.iter().rposition(|e| matches!(e, Ev::Item(..) | Ev::NoItem)).map_or(0, |x| log[..x].iter().filter(|e| matches!(e, Ev::Reduce { .. })).count()) as u64);
    }
    ctx.sample = format!("patterns {:?}; grammar {}; {}", s.pats[0], s.grams[0].show(), plans[0].show());
    Ok(())
}

// ---------------------------------------------------------------------------------------------------
// C16: nothing is left behind

fn left(what: &str, from: &[i64; 5], to: &[i64; 5]) -> Option<String> {
    let k = (0..5).find(|k| from[*k] != to[*k])?;
    Some(format!("{} {} {what}", to[k] - from[k], LIVE_KINDS[k]))
}

/// Whether a measure taken at doubling times keeps rising.
fn rises(at: &[usize], n: usize) -> bool {
    at.len() >= n && at[at.len() - n..].windows(2).all(|w| w[0] < w[1])
}

fn c16(ctx: &mut Ctx) -> Result<(), Viol> {
    if ctx.ch.chance(1, 3) {
        return c16_stream(ctx);
    }
    let nt = ctx.ch.range(0, 2);
    let np = ctx.ch.range(if nt == 0 { 1 } else { 0 }, 2);
    let wide = ctx.ch.chance(1, 4);
    let mut s = draw_setup(ctx, nt, if wide { 0 } else { np });
    while s.grams.len() < np {
        // any grammar, also with conflicts
        let (g, _) = gram::grammar(&mut ctx.ch, Want::Any);
        let g = gram::renumber(&mut ctx.ch, &g);
        ctx.note(|| format!("parser {}: {}", s.grams.len(), g.show()));
        let f = draw_forms(&mut ctx.ch, &g);
        s.forms.push(f);
        s.autos.push(Auto::build(&g, 1200).expect("the automaton of an accepted grammar"));
        s.grams.push(g);
    }
    let mut plans = Vec::new();
    for _ in 0..ctx.ch.range(1, 4) {
        let mut p = draw_plan(ctx, &mut s, true);
        if !affordable(ctx, &mut s, &p) {
            continue;
        }
        p.hint = ctx.ch.chance(1, 4);
        p.own = !matches!(p.kind, Kind::Parse { .. }) && ctx.ch.chance(1, 8);
        ctx.note(|| format!("session {}: {}", plans.len(), p.show()));
        plans.push(p);
    }
    // a build that fails
    let bad: Option<Vec<String>> = (nt > 0 && ctx.ch.chance(1, 4)).then(|| {
        let mut p = s.pats[0].clone();
        let k = ctx.ch.below(p.len() + 1);
        p.insert(k, ctx.ch.pick(&["(", "a[", "a{3", "\\b", "^a", "a$", "x*?", "(?i:a)", "\\xFF(?-u:\\xFF)"]).to_string());
        ctx.note(|| format!("a build to fail: {p:?}"));
        p
    });
    ctx.count("fault: builds that fail", bad.is_some() as u64);
    // how the sessions are interleaved, the same way in every life; 0: one after the other
    let order = if ctx.ch.chance(1, 2) { ctx.ch.range(1, 1 << 20) as u64 } else { 0 };
    let stop = if ctx.ch.chance(1, 4) { ctx.ch.range(0, 12) } else { usize::MAX };
    if stop < usize::MAX {
        ctx.note(|| format!("everything is given up after {stop} steps"));
        ctx.count("fault: everything given up half-way", 1);
    }
    let env = draw_env(ctx);
    let size = s.autos.iter().map(|a| a.action.len()).sum::<usize>() + s.pats.iter().flatten().map(|p| p.len()).sum::<usize>() + plans.iter().map(|p| p.source.len()).sum::<usize>() / 4;
    let reps: usize = if size < 60 { 32 } else { 8 };
    let tracing = ctx.tracing;
    let (s_ref, plans_ref) = (&s, &plans);
    let r = in_env(&env, || {
        let none = live();
        let mut mem = Vec::new();
        let mut first = None;
        for rep in 1..=reps {
            if let Some(p) = &bad {
                try_build(p, s_ref.chars[0]);
                if let Some(d) = left("left after a build that failed", &none, &live()) {
                    return Ok((Some(d), mem, first));
                }
            }
            let (t, p, w) = build_all(s_ref)?;
            drop(w);
            let mut w = World::new(t.clone(), p.clone(), plans_ref.clone());
            w.tracing = tracing && rep == 1;
            let mut ch = Ch::seeded(order);
            let built = live();
            w.activate();
            if order == 0 && stop == usize::MAX {
                for i in 0..plans_ref.len() {
                    run_alone(i);
                    close(i);
                    if let Some(d) = left(&format!("left after session {i} ({})", plans_ref[i].show()), &built, &live()) {
                        return Ok((Some(d), mem, Some(w)));
                    }
                }
            } else {
                w.ch = &mut ch;
                w.nest_left = 20;
                w.max_depth = 4;
                run_some(&mut Ch::seeded(order ^ 1 << 40), stop);
                for i in 0..plans_ref.len() {
                    close(i);
                }
                if let Some(d) = left("left after the sessions", &built, &live()) {
                    return Ok((Some(d), mem, Some(w)));
                }
            }
            give_up(t, p);
            if rep == 1 {
                w.toks.clear();
                w.pars.clear();
                first = Some(w);
            } else {
                drop(w);
            }
            if let Some(d) = left("left after everything was given up", &none, &live()) {
                return Ok((Some(d), mem, first));
            }
            if rep.is_power_of_two() {
                mem.push(crate::heap::live());
            }
        }
        Ok::<_, String>((None, mem, first))
    });
    let Ok((d, mem, w)) = r else {
        ctx.skipped = true;
        return Ok(());
    };
    if let Some(w) = &w {
        note_log(ctx, w);
        for x in &w.sessions {
            log_stats(ctx, &x.log);
            ctx.absorb(&format!("{:?}", x.log));
            ctx.nontrivial |= x.log.len() > 5;
        }
    }
    if let Some(d) = d {
        return viol("values left behind", d);
    }
    ctx.count("lives compared", reps as u64);
    if rises(&mem, 3) && (reps == 8 || rises(&mem, 4)) {
        return viol("memory left behind", format!("bytes in use after 1, 2, 4, ... equal lives, each given up: {mem:?} [patterns {:?} grammars {:?}]", s.pats, s.grams.iter().map(|g| g.show()).collect::<Vec<_>>()));
    }
    ctx.sample = format!("{reps} lives of {nt} tokenizers, {np} parsers, {} sessions; session 0: {}", plans.len(), plans.first().map_or(String::new(), |p| p.show()));
    Ok(())
}

/// A token stream does not hold on to what it has delivered.
fn c16_stream(ctx: &mut Ctx) -> Result<(), Viol> {
    let cfg = PatCfg { nullable: ctx.ch.chance(1, 4), unicode_classes: false, empty: false };
    let (pats, mut m, ab) = patgen::patterns(&mut ctx.ch, &cfg);
    ctx.note(|| format!("patterns: {pats:?}"));
    let unit = patgen::text(&mut ctx.ch, &mut m, ab, 40);
    if unit.is_empty() {
        ctx.skipped = true;
        return Ok(());
    }
    let n = unit.len();
    let times = (4096 << ctx.ch.below(3)) / n;
    let src: Vec<Src> = unit.iter().cycle().take(n * times).map(|c| Src::C(*c)).collect();
    let mut chars: Vec<char> = unit.iter().cycle().take(n * times).copied().collect();
    if !patgen::cheap(&mut m, &mut chars) {
        ctx.skipped = true;
        return Ok(());
    }
    let mut plan = Plan::new(Kind::Tok { tok: 0 }, src);
    plan.hint = ctx.ch.chance(1, 4);
    ctx.note(|| format!("session: {}", plan.show()));
    let env = draw_env(ctx);
    let as_chars = ctx.ch.chance(1, 6);
    let pats_ref = &pats;
    let r = in_env(&env, || {
        let b = build_tok(pats_ref, as_chars)?;
        let mut w = World::new(vec![b.it], vec![], vec![plan.clone()]);
        w.activate();
        // most memory and most items held, in the 1st, 2nd to 4th, 5th to 8th, ... part of the stream
        let (mut mem, mut most) = (vec![0usize], vec![0usize]);
        let (mut pulled, mut given, mut seen, mut edge) = (0usize, 0usize, 0usize, n);
        while !w.sessions[0].done {
            step(0);
            for e in &w.sessions[0].log[seen..] {
                match e {
                    Ev::Item(..) => pulled += 1,
                    Ev::Make { items, .. } => given += items.len(),
                    _ => {}
                }
                let held = pulled.saturating_sub(given);
                let k = most.len() - 1;
                most[k] = most[k].max(held);
            }
            seen = w.sessions[0].log.len();
            let k = mem.len() - 1;
            mem[k] = mem[k].max(crate::heap::live());
            if given >= edge {
                edge *= 2;
                mem.push(0);
                most.push(0);
            }
        }
        Ok::<_, String>((mem, most, w.sessions[0].log.clone()))
    });
    let Ok((mem, most, log)) = r else {
        ctx.skipped = true;
        return Ok(());
    };
    log_stats(ctx, &log);
    ctx.absorb(&format!("{:?} {}", &log[..log.len().min(300)], log.len()));
    let k = mem.len();
    // the last part may be cut short
    if k >= 6 {
        let (mem, most) = (&mem[..k - 1], &most[..k - 1]);
        let before = most[..most.len() - 4].iter().max().unwrap_or(&0);
        let after = most[most.len() - 4..].iter().max().unwrap();
        if after <= before {
            ctx.nontrivial = true;
            ctx.count("streams whose memory was compared", 1);
            if rises(mem, 4) {
                return viol("memory of a stream grows", format!("most bytes in use while each next 1, 1, 2, 4, ... x {n} items were delivered: {mem:?}, with at most {after} items held [patterns {pats:?}, {}]", plan.show()));
            }
        }
    }
    ctx.sample = format!("one stream over {times} x {:?} with patterns {pats:?}", unit.iter().collect::<String>());
    Ok(())
}
