//! A check: a batch of simulated runs, the report of a violation with its replay file, the evidence.

use crate::choice::Ch;
use crate::fail;
use crate::run::*;
use std::fmt::Write as _;
use std::time::Instant;

pub fn verif() -> String {
    std::env::var("SIM_VERIF").unwrap_or_else(|_| "/verif".into())
}

pub fn scenario(prop: &str) -> Scenario {
    match prop {
        "C08" => {
            crate::c08::prepare();
            crate::c08::scenario
        }
        "C09" => {
            crate::c09::prepare();
            crate::c09::scenario
        }
        _ => crate::props::scenario(prop).unwrap_or_else(|| fail(&format!("no property {prop}"))),
    }
}

/// CPU seconds a run may take before it counts as stuck.
pub fn cpu(prop: &str) -> u64 {
    if prop == "C08" {
        300
    } else {
        12
    }
}

/// The same while minimising.
pub fn min_cpu(prop: &str) -> u64 {
    if prop == "C08" {
        300
    } else {
        2
    }
}

/// (runs, wall-clock cap in seconds)
fn budget(prop: &str, tier: &str) -> (u64, f64) {
    let quick = match prop {
        "C01" => 40_000,
        "C02" => 80_000,
        "C03" => 40_000,
        "C04" => 45_000,
        "C05" | "C06" | "C07" => 150_000,
        "C08" => 360,
        "C09" => 40_000,
        "C10" => 80_000,
        "C11" => 80_000,
        "C12" => 80_000,
        "C16" => 30_000,
        _ => fail(&format!("no property {prop}")),
    };
    if tier == "thorough" {
        (quick * 40, 3000.0)
    } else {
        (quick, 240.0)
    }
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            '\t' => o += "\\t",
            '\r' => o += "\\r",
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn list(v: &[String]) -> String {
    format!("[{}]", v.join(", "))
}

pub struct Known {
    pub property: String,
    pub text: String,
}

/// Lines "finding: property=<id> key=<key> <what fails>" of the committed list.
pub fn known() -> Vec<Known> {
    let text = std::fs::read_to_string(format!("{}/known_findings.txt", verif())).unwrap_or_default();
    text.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("finding: property=")?;
            let (p, rest) = l.split_once(' ')?;
            Some(Known { property: p.to_string(), text: rest.to_string() })
        })
        .collect()
}

pub fn check(prop: &str, tier: &str, seed: u64, workers: u64, runs: Option<u64>) -> i32 {
    let t0 = Instant::now();
    if tier != "quick" && tier != "thorough" {
        fail("tier is quick or thorough");
    }
    let sc = scenario(prop);
    let (mut n, mut cap) = budget(prop, tier);
    if let Some(r) = runs {
        n = r;
        cap = 1e9;
    }
    println!("{prop} {tier}: seed {seed}, {n} runs on {workers} workers");
    // the listed findings: each is tried as itself, and reported only while it still fails
    let mut findings = Vec::new();
    for k in known() {
        if k.property == prop {
            init_parent();
            match execute(crate::props::finding(&k.text), Ch::replay(vec![]), false, cpu(prop)).status {
                Status::Violation(_) => {
                    println!("KNOWN-FINDING: property={prop} {}", k.text);
                    findings.push(k.text);
                }
                Status::Ok => println!("note: the listed finding no longer fails: {}", k.text),
                s => {
                    eprintln!("sim: the finding could not be tried: {s:?}");
                    return 2;
                }
            }
        }
    }
    let b = batch(prop, sc, seed, 0, n, workers, cap);
    if !b.harness.is_empty() && b.violation.is_none() {
        for h in b.harness.iter().take(5) {
            eprintln!("sim: harness error: {h}");
        }
        return 2;
    }
    let mut code = 0;
    let mut detail = String::new();
    if let Some((idx, v, rec)) = &b.violation {
        println!("run {idx}: {}: {}", v.class, v.detail);
        let secs = if prop == "C08" { 120.0 } else { 40.0 };
        let (min, evals) = minimise(sc, rec.clone(), &v.class, secs, min_cpu(prop));
        let mut choices = min;
        let mut o = execute(sc, Ch::replay(choices.clone()), true, cpu(prop));
        let same = |o: &Outcome| matches!(&o.status, Status::Violation(w) if w.class == v.class);
        if !same(&o) {
            choices = rec.clone();
            o = execute(sc, Ch::replay(choices.clone()), true, cpu(prop));
        }
        if !same(&o) {
            eprintln!("sim: run {idx} failed ({}: {}) but its replay does not", v.class, v.detail);
            return 2;
        }
        let Status::Violation(w) = &o.status else { unreachable!() };
        println!("minimised from {} to {} choices in {evals} runs", rec.len(), choices.len());
        println!("{}: {}", w.class, w.detail);
        for t in o.trace.iter().take(60) {
            println!("  {t}");
        }
        let dir = format!("{}/replays", verif());
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{prop}-seed{seed}-run{idx}.json");
        let text = format!(
            "{{\n \"property\": {},\n \"seed\": {seed},\n \"run\": {idx},\n \"class\": {},\n \"detail\": {},\n \"choices\": [{}],\n \"trace\": [\n  {}\n ]\n}}\n",
            js(prop),
            js(&w.class),
            js(&w.detail),
            choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(","),
            o.trace.iter().map(|t| js(t)).collect::<Vec<_>>().join(",\n  ")
        );
        if std::fs::write(&path, text).is_err() {
            eprintln!("sim: cannot write {path}");
            return 2;
        }
        detail = format!("{}: {}", w.class, w.detail);
        println!("VIOLATION property={prop} replay={path}");
        code = 1;
    }
    evidence(prop, tier, seed, workers, &b, &findings, &detail, t0.elapsed().as_secs_f64());
    if code == 0 {
        println!("{prop}: {} runs ({} left out), {} distinct non-trivial, {:.1} s: held", b.runs, b.skipped, b.nontrivial.len(), t0.elapsed().as_secs_f64());
    }
    code
}

#[allow(clippy::too_many_arguments)]
fn evidence(prop: &str, tier: &str, seed: u64, workers: u64, b: &Batch, findings: &[String], detail: &str, wall: f64) {
    let (rule, measure, real, stub, assume) = describe(prop);
    let mut faults = String::new();
    let mut probes = String::new();
    let mut counts = String::new();
    let mut events = 0;
    for (k, v) in &b.stats {
        let s = if let Some(k) = k.strip_prefix("fault: ") {
            (&mut faults, k)
        } else if let Some(k) = k.strip_prefix("probe: ") {
            (&mut probes, k)
        } else {
            (&mut counts, k.as_str())
        };
        if k == "simulated events" {
            events = *v;
        }
        if !s.0.is_empty() {
            *s.0 += ", ";
        }
        let _ = write!(s.0, "{}: {v}", js(s.1));
    }
    let per_hour = (b.runs as f64 / b.wall.max(0.001) * 3600.0) as u64;
    let strs = |v: &[&str]| list(&v.iter().map(|s| js(s)).collect::<Vec<_>>());
    let text = format!(
        "{{\n \"property\": {p},\n \"tier\": {t},\n \"seed\": {seed},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {runs},\n  \"distinct_nontrivial\": {nt},\n  \"rule\": {rule},\n  \"samples\": {samples},\n  \"left_out\": {skipped},\n  \"run_seeds\": {runs},\n  \"runs_per_hour\": {per_hour},\n  \"workers\": {workers},\n  \"simulated_time\": {time},\n  \"distinct_event_histories\": {dist},\n  \"distinct_measure\": {measure},\n  \"faults_injected\": {{{faults}}},\n  \"rare_conditions_hit\": {{{probes}}},\n  \"counts\": {{{counts}}},\n  \"stopped_by_wall_clock\": {capped},\n  \"batch_digest\": \"{digest:016x}\",\n  \"real_code\": {real},\n  \"stubs\": {stub},\n  \"known_findings\": {kf},\n  \"first_violation\": {det}\n }},\n \"assumptions\": {assume},\n \"wall_s\": {wall:.2},\n \"violations\": {viol}\n}}\n",
        p = js(prop),
        t = js(tier),
        runs = b.runs,
        nt = b.nontrivial.len(),
        rule = js(rule),
        samples = list(&b.samples.iter().map(|s| js(s)).collect::<Vec<_>>()),
        skipped = b.skipped,
        time = js(&format!("{events} simulator events; the code under test has no timers, so simulated time is the global event sequence")),
        dist = b.hashes.len(),
        measure = js(measure),
        capped = b.capped,
        digest = b.digest,
        real = strs(real),
        stub = strs(stub),
        kf = list(&findings.iter().map(|s| js(s)).collect::<Vec<_>>()),
        det = js(detail),
        assume = strs(assume),
        viol = if detail.is_empty() { 0 } else { 1 },
    );
    let dir = format!("{}/evidence", verif());
    let _ = std::fs::create_dir_all(&dir);
    if std::fs::write(format!("{dir}/{prop}.json"), text).is_err() {
        fail("cannot write the evidence file");
    }
}

type Strs = &'static [&'static str];

fn describe(prop: &str) -> (&'static str, &'static str, Strs, Strs, Strs) {
    const HISTORY: &str = "64-bit hash of the complete event log of a run: every poll, item, constructor call, token, reducer call with arguments, error, panic and result of every session in order";
    const REAL_T: Strs = &["tokenizer crate (nfa, dfa, minimisation, run-time tables, iterator) as compiled from /repo", "regex-syntax", "std hash maps"];
    const REAL_P: Strs = &["parser crate (table construction, parse loop, ERROR recovery, rule builders) as compiled from /repo", "std hash maps"];
    const REAL_TP: Strs = &["tokenizer and parser crates as compiled from /repo", "regex-syntax", "std hash maps"];
    const STUB: Strs = &["source iterators, token constructors and reducers are the simulator's", "heap: arena at a fixed address with a drawn placement and reuse policy", "entropy: getrandom answers from the drawn hash seed"];
    const ASSUME: Strs = &["a clean batch is evidence, not proof", "pattern sets up to 250 product states and grammars up to 300 LR(1) states", "source iterators and callbacks may fail or re-enter, but map functions are pure"];
    match prop {
        "C01" => ("a run draws a pattern set, 1 to 8 character streams with damage and pauses, and 1 to 60 build environments (hash seed, heap policy); non-trivial: some session made 2 or more tokens and gave look-ahead back over more than one item or met an end in the middle of a match", HISTORY, REAL_T, STUB, ASSUME),
        "C02" => ("a run draws a pattern set, 1 to 3 sessions with pauses, cancellation, and panics in the source, the map function or a constructor, polled further afterwards; non-trivial: some session made 2 or more tokens and gave look-ahead back, paused inside a match, unwound or was cancelled", HISTORY, REAL_T, STUB, ASSUME),
        "C03" => ("a run draws shared tokenizers and parsers and 2 to 6 sessions, and a schedule that interleaves their steps and nests them in each other's callbacks, with cancellation, failures and panics; each session is compared with itself alone on fresh instances; non-trivial: some step of one session ran between or inside steps of another", HISTORY, REAL_TP, STUB, ASSUME),
        "C04" => ("a run draws patterns and/or a grammar and streams, and 2 to 60 build environments whose sessions and warnings must all be equal; non-trivial: more than 10 events per build", HISTORY, REAL_TP, STUB, ASSUME),
        "C05" => ("a run draws a conflict-free grammar without ERROR rules, a build environment and 1 to 6 token streams (sentences with lost, duplicated, reordered, corrupted, inserted, cut-off and spliced tokens); non-trivial: 3 or more reductions in some session", HISTORY, REAL_P, STUB, ASSUME),
        "C06" => ("a run draws a conflict-free grammar with ERROR rules, a build environment and 1 to 6 damaged token streams; non-trivial: some session recovered from an error and made 3 or more reductions", HISTORY, REAL_P, STUB, ASSUME),
        "C07" => ("a run draws a grammar and streams, runs them without failures, then again with an error or panic injected at drawn reducer calls, and once more without; non-trivial: a stream with 2 or more reductions", HISTORY, REAL_P, STUB, ASSUME),
        "C08" => ("a run draws a program with several tokenizer! and parser! invocations, compiles it with the real compiler under a drawn hash seed and runs it under another; it prints the event logs of the generated and of run-time built instances on drawn streams, which must be equal; non-trivial: 2 or more invocations and 20 or more events", "64-bit hash of the program text and its output", &["tokenizer_generator, parser_generator, tokenizer and parser crates as compiled from /repo", "rustc, running the macros", "the compiled program"], &["entropy of the compiler and of the program: preloaded getrandom answering from the drawn seeds", "streams and reducers are generated"], &["a clean batch is evidence, not proof", "grammars up to 60 LR(1) states, pattern sets up to 60 product states, to keep compile times low"]),
        "C09" => ("a run draws a sequence of input lines, how reads split it or are interrupted, where it ends, how writes are split or interrupted, clock jumps and a hash seed, and runs the real calculator binary; its output must be that of the reference calculator; non-trivial: 2 or more lines, one with a value and one malformed or with an operator", "64-bit hash of input, schedule of system calls and output", &["example binary with tokenizer, parser and std's buffered I/O, as compiled from /repo"], &["read, write, getrandom and clock_gettime of the process: preloaded stand-ins following the drawn script"], &["a clean batch is evidence, not proof", "system-call errors other than EINTR are not injected: the property does not cover them"]),
        "C10" => ("a run draws a pattern set or grammar, ambiguous or not, and 1 to 3 build environments; warnings must be reported exactly on ambiguity as the model sees it and streams resolved by the stated preference; non-trivial: the model decided ambiguity", HISTORY, REAL_TP, STUB, ASSUME),
        "C11" => ("a run draws patterns (also with empty sub-expressions) or a conflict-free grammar (also with adjacent or recursive ERROR) and damaged finite streams; steps, memory and CPU time are bounded and the library must not panic; non-trivial: 10 or more events", HISTORY, REAL_TP, STUB, ASSUME),
        "C16" => ("a run draws tokenizers, parsers and sessions with cancellation, failures and panics, also given up half-way and also after builds that fail, and lives them 8 or 32 times in one process, counting the items, tokens, nodes and callbacks that exist and the bytes of the simulated heap in use; or one token stream over a text repeated to 4,096 to 16,384 characters, whose memory must not grow with what it has delivered; non-trivial: a session of more than 5 events, or a stream whose look-ahead does not grow", HISTORY, REAL_TP, STUB, ASSUME),
        _ => ("a run draws patterns, a grammar over their tokens and a character stream with pauses and reducer failures, runs the lazy pipeline and the eager one, and compares them and the character demand with the model; non-trivial: 2 or more reductions", HISTORY, REAL_TP, STUB, ASSUME),
    }
}

/// Replay a file: exit 1 if it fails in the recorded way, 0 if not.
pub fn replay(path: &str) -> i32 {
    let Ok(text) = std::fs::read_to_string(path) else { fail("cannot read the replay file") };
    let field = |k: &str| -> Option<&str> {
        let at = text.find(&format!("\"{k}\": "))? + k.len() + 4;
        Some(&text[at..])
    };
    let string = |k: &str| -> String { field(k).and_then(|r| r.strip_prefix('"')).map(|r| r.split("\",\n").next().unwrap_or("").to_string()).unwrap_or_default() };
    let prop = string("property");
    let class = string("class");
    let choices: Vec<u32> = field("choices").and_then(|r| r.strip_prefix('[')).map(|r| r.split(']').next().unwrap_or("").split(',').filter_map(|x| x.trim().parse().ok()).collect()).unwrap_or_default();
    let sc = scenario(&prop);
    init_parent();
    let o = execute(sc, Ch::replay(choices), true, cpu(&prop));
    for t in &o.trace {
        println!("{t}");
    }
    match o.status {
        Status::Violation(v) => {
            println!("{}: {}", v.class, v.detail);
            if v.class != class {
                println!("(recorded class: {class})");
            }
            println!("VIOLATION property={prop} replay={path}");
            1
        }
        Status::Ok | Status::Skipped => {
            println!("{prop}: the recorded run no longer fails");
            0
        }
        Status::Harness(e) => fail(&e),
    }
}
