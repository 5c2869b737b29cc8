//! Runs: one forked process per simulated run, a pool of workers, minimisation, replay files, evidence.

use crate::choice::{mix, Ch};
use crate::heap;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::io::{Read, Write};
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::Relaxed};
use std::time::Instant;

const REC_CAP: usize = 1 << 20;
const TEXT_CAP: usize = 8 << 20;

/// Memory shared between a run and the process that started it.
#[repr(C)]
pub struct Shared {
    /// 1 while library code runs (0 in the harness or in a callback of the harness).
    pub in_system: AtomicU32,
    /// Deepest description of what was going on, for runs that never return.
    pub state: AtomicU32,
    pub budget: AtomicU32,
    pub text_len: AtomicU64,
    pub record: SharedRecord,
    pub text: [u8; TEXT_CAP],
}

#[repr(C)]
pub struct SharedRecord {
    len: AtomicU64,
    data: [u32; REC_CAP],
}

impl SharedRecord {
    pub fn push(&mut self, at: usize, v: u32) {
        if at < REC_CAP {
            self.data[at] = v;
            self.len.store(at as u64 + 1, Relaxed);
        }
    }
    pub fn get(&self) -> Vec<u32> {
        self.data[..self.len.load(Relaxed) as usize].to_vec()
    }
}

static mut SHARED: *mut Shared = std::ptr::null_mut();

pub fn shared() -> &'static mut Shared {
    unsafe { &mut *SHARED }
}

fn alloc_shared() {
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), std::mem::size_of::<Shared>(), libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
        if p == libc::MAP_FAILED {
            eprintln!("sim: mmap failed");
            std::process::exit(2);
        }
        SHARED = p as *mut Shared;
    }
}

/// Ends the run at once: the library used up the steps or the memory a run may use.
pub fn out_of_budget(what: &str) -> ! {
    let code = if what == "memory" { 1 } else { 2 };
    shared().budget.store(code, Relaxed);
    unsafe { libc::_exit(if code == 2 || shared().in_system.load(Relaxed) == 1 { 60 } else { 61 }) }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Viol {
    /// What kind of break; minimisation keeps it.
    pub class: String,
    pub detail: String,
}

pub fn viol<T>(class: &str, detail: String) -> Result<T, Viol> {
    Err(Viol { class: class.to_string(), detail })
}

pub struct Ctx {
    pub ch: Ch,
    pub stats: BTreeMap<&'static str, u64>,
    pub hash: u64,
    pub tracing: bool,
    pub trace: Vec<String>,
    pub nontrivial: bool,
    pub sample: String,
    pub skipped: bool,
}

impl Ctx {
    pub fn new(ch: Ch, tracing: bool) -> Self {
        Ctx { ch, stats: BTreeMap::new(), hash: 0xcbf29ce484222325, tracing, trace: vec![], nontrivial: false, sample: String::new(), skipped: false }
    }
    pub fn count(&mut self, k: &'static str, n: u64) {
        *self.stats.entry(k).or_default() += n;
    }
    pub fn absorb(&mut self, s: &str) {
        for b in s.as_bytes() {
            self.hash = (self.hash ^ *b as u64).wrapping_mul(0x100000001b3);
        }
        self.hash = (self.hash ^ 0xff).wrapping_mul(0x100000001b3);
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.tracing {
            let s = f();
            // kept where the parent can see it even if the run never returns
            let line = format!("t{}\n", enc(&s));
            let at = shared().text_len.load(Relaxed) as usize;
            if at + line.len() <= TEXT_CAP {
                shared().text[at..at + line.len()].copy_from_slice(line.as_bytes());
                shared().text_len.store((at + line.len()) as u64, Relaxed);
            }
            self.trace.push(s);
        }
    }
}

pub type Scenario = fn(&mut Ctx) -> Result<(), Viol>;

#[derive(Clone, Debug)]
pub enum Status {
    Ok,
    Skipped,
    Violation(Viol),
    Harness(String),
}

pub struct Outcome {
    pub status: Status,
    pub record: Vec<u32>,
    pub stats: BTreeMap<String, u64>,
    pub hash: u64,
    /// Every address the simulated heap gave out, hashed.
    pub heap: u64,
    pub nontrivial: bool,
    pub sample: String,
    pub trace: Vec<String>,
}

fn enc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n")
}
fn dec(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some(c) => o.push(c),
                None => {}
            }
        } else {
            o.push(c);
        }
    }
    o
}

static mut PANIC_AT: Option<String> = None;

/// Where and why the last panic was raised (set by the hook).
pub fn last_panic() -> String {
    unsafe { (*std::ptr::addr_of!(PANIC_AT)).clone().unwrap_or_default() }
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "(other payload)".to_string()
        };
        unsafe { PANIC_AT = Some(format!("{loc}: {msg}")) };
    }));
}

fn child(scenario: Scenario, ch: Ch, tracing: bool, cpu: u64) -> ! {
    unsafe {
        let lim = libc::rlimit { rlim_cur: cpu, rlim_max: cpu + 2 };
        libc::setrlimit(libc::RLIMIT_CPU, &lim);
        let zero = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &zero);
    }
    heap::init();
    heap::set_limit(600 << 20);
    install_hook();
    heap::set_env(&heap::Env::plain());
    let mut ch = ch;
    ch.shared = Some(&mut shared().record);
    struct Force<T>(T);
    unsafe impl<T> Send for Force<T> {}
    let pack = Force((ch, scenario));
    let handle = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            let pack = pack;
            let (ch, scenario) = pack.0;
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let mut ctx = Ctx::new(ch, tracing);
                let r = scenario(&mut ctx);
                (ctx, r)
            }));
            let mut out = String::new();
            match r {
                Ok((ctx, r)) => {
                    match r {
                        Ok(()) if ctx.skipped => out += "S\n",
                        Ok(()) => out += "O\n",
                        Err(v) => {
                            let _ = writeln!(out, "V{}\t{}", enc(&v.class), enc(&v.detail));
                        }
                    }
                    let _ = writeln!(out, "h{}\ng{}", ctx.hash, heap::fingerprint());
                    if ctx.nontrivial {
                        out += "n\n";
                    }
                    let _ = writeln!(out, "m{}", enc(&ctx.sample.chars().take(700).collect::<String>()));
                    for (k, v) in &ctx.stats {
                        let _ = writeln!(out, "c{k}\t{v}");
                    }
                    for t in &ctx.trace {
                        let _ = writeln!(out, "t{}", enc(t));
                    }
                }
                Err(_) => {
                    let _ = writeln!(out, "H{}", enc(&last_panic()));
                }
            }
            let b = out.as_bytes();
            let n = b.len().min(TEXT_CAP);
            shared().text[..n].copy_from_slice(&b[..n]);
            shared().text_len.store(n as u64, Relaxed);
            unsafe { libc::_exit(0) }
        });
    if let Ok(h) = handle {
        let _ = h.join();
    }
    unsafe { libc::_exit(62) }
}

pub fn execute(scenario: Scenario, ch: Ch, tracing: bool, cpu: u64) -> Outcome {
    let sh = shared();
    sh.in_system.store(0, Relaxed);
    sh.budget.store(0, Relaxed);
    sh.text_len.store(0, Relaxed);
    sh.record.len.store(0, Relaxed);
    let mut status = 0;
    unsafe {
        let pid = libc::fork();
        if pid < 0 {
            return Outcome { status: Status::Harness("fork failed".into()), record: vec![], stats: BTreeMap::new(), hash: 0, heap: 0, nontrivial: false, sample: String::new(), trace: vec![] };
        }
        if pid == 0 {
            child(scenario, ch, tracing, cpu);
        }
        loop {
            let r = libc::waitpid(pid, &mut status, 0);
            if r == pid {
                break;
            }
            if r < 0 && *libc::__errno_location() != libc::EINTR {
                break;
            }
        }
    }
    let mut o = Outcome { status: Status::Ok, record: sh.record.get(), stats: BTreeMap::new(), hash: 0, heap: 0, nontrivial: false, sample: String::new(), trace: vec![] };
    let in_system = sh.in_system.load(Relaxed) == 1;
    if !(libc::WIFEXITED(status) && libc::WEXITSTATUS(status) == 0) {
        let n = sh.text_len.load(Relaxed) as usize;
        let text = String::from_utf8_lossy(&sh.text[..n]).into_owned();
        o.trace = text.lines().filter_map(|l| l.strip_prefix('t')).map(dec).collect();
    }
    if libc::WIFEXITED(status) && libc::WEXITSTATUS(status) == 0 {
        let n = sh.text_len.load(Relaxed) as usize;
        let text = String::from_utf8_lossy(&sh.text[..n]).into_owned();
        for line in text.lines() {
            let (k, rest) = line.split_at(1);
            match k {
                "O" => o.status = Status::Ok,
                "S" => o.status = Status::Skipped,
                "V" => {
                    let (a, b) = rest.split_once('\t').unwrap_or((rest, ""));
                    o.status = Status::Violation(Viol { class: dec(a), detail: dec(b) });
                }
                "H" => o.status = Status::Harness(dec(rest)),
                "h" => o.hash = rest.parse().unwrap_or(0),
                "g" => o.heap = rest.parse().unwrap_or(0),
                "n" => o.nontrivial = true,
                "m" => o.sample = dec(rest),
                "c" => {
                    if let Some((a, b)) = rest.split_once('\t') {
                        *o.stats.entry(a.to_string()).or_default() += b.parse::<u64>().unwrap_or(0);
                    }
                }
                "t" => o.trace.push(dec(rest)),
                _ => {}
            }
        }
        if n == 0 {
            o.status = Status::Harness("run ended without a result".into());
        }
    } else if libc::WIFEXITED(status) {
        let code = libc::WEXITSTATUS(status);
        o.status = match code {
            60 => Status::Violation(Viol {
                class: "no progress".into(),
                detail: if sh.budget.load(Relaxed) == 1 { "the library used up the memory budget of a run (600 MB)".into() } else { "the library used up the step budget of a run (calls into the harness)".into() },
            }),
            61 => Status::Skipped,
            c => Status::Harness(format!("run exited with {c}")),
        };
    } else {
        let sig = libc::WTERMSIG(status);
        o.status = if in_system {
            if sig == libc::SIGKILL {
                Status::Harness("run killed".into())
            } else if sig == libc::SIGXCPU {
                Status::Violation(Viol { class: "no progress".into(), detail: format!("no return from library code after {cpu} s of CPU time") })
            } else {
                Status::Violation(Viol { class: "crash".into(), detail: format!("signal {sig} in library code") })
            }
        } else {
            Status::Harness(format!("signal {sig} outside library code"))
        };
    }
    o
}

#[derive(Default)]
pub struct Batch {
    pub runs: u64,
    pub skipped: u64,
    pub stats: BTreeMap<String, u64>,
    pub hashes: BTreeSet<u64>,
    pub nontrivial: BTreeSet<u64>,
    pub samples: Vec<String>,
    pub violation: Option<(u64, Viol, Vec<u32>)>,
    pub harness: Vec<String>,
    pub capped: bool,
    pub digest: u64,
    pub wall: f64,
}

pub fn run_seed(seed: u64, prop: &str, idx: u64) -> u64 {
    let p = prop.bytes().fold(0u64, |a, b| a.wrapping_mul(131).wrapping_add(b as u64));
    mix(mix(seed, p), idx)
}

/// Simulated runs first..first+count, on `workers` processes. Which worker runs which index does not matter.
pub fn batch(prop: &str, scenario: Scenario, seed: u64, first: u64, count: u64, workers: u64, wall_cap: f64) -> Batch {
    let t0 = Instant::now();
    // shared: lowest violating index so far
    let min_viol = unsafe {
        let p = libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        &*(p as *const AtomicU64)
    };
    min_viol.store(u64::MAX, Relaxed);
    let mut kids = Vec::new();
    for w in 0..workers {
        let mut fds = [0i32; 2];
        unsafe {
            if libc::pipe(fds.as_mut_ptr()) != 0 {
                eprintln!("sim: pipe failed");
                std::process::exit(2);
            }
            let _ = std::io::stdout().flush();
            let pid = libc::fork();
            if pid < 0 {
                eprintln!("sim: fork failed");
                std::process::exit(2);
            }
            if pid == 0 {
                libc::close(fds[0]);
                worker(prop, scenario, seed, first, count, w, workers, wall_cap, t0, min_viol, fds[1]);
            }
            libc::close(fds[1]);
            kids.push((pid, fds[0]));
        }
    }
    let mut b = Batch::default();
    // drain all pipes concurrently: threads here only copy bytes
    let outs: Vec<(i32, Vec<u8>)> = kids
        .into_iter()
        .map(|(pid, fd)| {
            std::thread::spawn(move || {
                let mut f = unsafe { <std::fs::File as std::os::fd::FromRawFd>::from_raw_fd(fd) };
                let mut v = Vec::new();
                let _ = f.read_to_end(&mut v);
                let mut st = 0;
                unsafe { libc::waitpid(pid, &mut st, 0) };
                (st, v)
            })
        })
        .collect::<Vec<_>>()
        .into_iter()
        .map(|h| h.join().unwrap())
        .collect();
    for (st, v) in outs {
        if st != 0 {
            b.harness.push(format!("a worker ended with status {st}"));
        }
        let text = String::from_utf8_lossy(&v).into_owned();
        for line in text.lines() {
            let (k, rest) = line.split_at(1);
            match k {
                "r" => b.runs += rest.parse::<u64>().unwrap(),
                "s" => b.skipped += rest.parse::<u64>().unwrap(),
                "x" => b.capped = true,
                "d" => b.digest = b.digest.wrapping_add(rest.parse::<u64>().unwrap()),
                "c" => {
                    let (a, n) = rest.split_once('\t').unwrap();
                    *b.stats.entry(a.to_string()).or_default() += n.parse::<u64>().unwrap();
                }
                "h" => {
                    b.hashes.insert(rest.parse().unwrap());
                }
                "n" => {
                    b.nontrivial.insert(rest.parse().unwrap());
                }
                "m" => {
                    if b.samples.len() < 6 {
                        b.samples.push(dec(rest))
                    }
                }
                "e" => b.harness.push(dec(rest)),
                "v" => {
                    let mut it = rest.splitn(4, '\t');
                    let idx: u64 = it.next().unwrap().parse().unwrap();
                    let class = dec(it.next().unwrap());
                    let rec = it.next().unwrap().split(' ').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
                    let detail = dec(it.next().unwrap());
                    if b.violation.as_ref().map_or(true, |v| idx < v.0) {
                        b.violation = Some((idx, Viol { class, detail }, rec));
                    }
                }
                _ => {}
            }
        }
    }
    b.wall = t0.elapsed().as_secs_f64();
    b
}

#[allow(clippy::too_many_arguments)]
fn worker(prop: &str, scenario: Scenario, seed: u64, first: u64, count: u64, w: u64, workers: u64, wall_cap: f64, t0: Instant, min_viol: &AtomicU64, fd: i32) -> ! {
    alloc_shared();
    let mut b = Batch::default();
    let mut idx = first + w;
    while idx < first + count {
        if min_viol.load(Relaxed) < idx {
            break;
        }
        if t0.elapsed().as_secs_f64() > wall_cap {
            b.capped = true;
            break;
        }
        let o = execute(scenario, Ch::seeded(run_seed(seed, prop, idx)), false, crate::report::cpu(prop));
        b.runs += 1;
        for (k, v) in o.stats {
            *b.stats.entry(k).or_default() += v;
        }
        b.digest = b.digest.wrapping_add(mix(mix(o.hash, o.heap), idx));
        match o.status {
            Status::Ok => {
                b.hashes.insert(o.hash);
                if o.nontrivial {
                    b.nontrivial.insert(o.hash);
                }
                if b.samples.len() < 2 && o.nontrivial && !o.sample.is_empty() {
                    b.samples.push(format!("run {idx}: {}", o.sample));
                }
            }
            Status::Skipped => b.skipped += 1,
            Status::Violation(v) => {
                min_viol.fetch_min(idx, Relaxed);
                if b.violation.as_ref().map_or(true, |x| idx < x.0) {
                    b.violation = Some((idx, v, o.record));
                }
            }
            Status::Harness(e) => {
                b.harness.push(format!("run {idx}: {e}"));
                if b.harness.len() > 3 {
                    break;
                }
            }
        }
        idx += workers;
    }
    let mut out = String::new();
    let _ = writeln!(out, "r{}\ns{}\nd{}", b.runs, b.skipped, b.digest);
    if b.capped {
        out += "x\n";
    }
    for (k, v) in &b.stats {
        let _ = writeln!(out, "c{k}\t{v}");
    }
    for h in &b.hashes {
        let _ = writeln!(out, "h{h}");
    }
    for h in &b.nontrivial {
        let _ = writeln!(out, "n{h}");
    }
    for s in &b.samples {
        let _ = writeln!(out, "m{}", enc(s));
    }
    for s in &b.harness {
        let _ = writeln!(out, "e{}", enc(s));
    }
    if let Some((i, v, rec)) = &b.violation {
        let rec = rec.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ");
        let _ = writeln!(out, "v{i}\t{}\t{rec}\t{}", enc(&v.class), enc(&v.detail));
    }
    let mut f = unsafe { <std::fs::File as std::os::fd::FromRawFd>::from_raw_fd(fd) };
    let _ = f.write_all(out.as_bytes());
    drop(f);
    unsafe { libc::_exit(0) }
}

pub fn init_parent() {
    if unsafe { SHARED.is_null() } {
        alloc_shared();
    }
}

/// Shrink the list of choices while the same class of violation remains.
pub fn minimise(scenario: Scenario, record: Vec<u32>, class: &str, secs: f64, cpu: u64) -> (Vec<u32>, u64) {
    init_parent();
    let t0 = Instant::now();
    let mut evals = 0;
    let mut best = record;
    let try_ = |cand: &Vec<u32>, best: &mut Vec<u32>, evals: &mut u64| -> bool {
        if t0.elapsed().as_secs_f64() > secs {
            return false;
        }
        *evals += 1;
        let o = execute(scenario, Ch::replay(cand.clone()), false, cpu);
        if let Status::Violation(v) = &o.status {
            if v.class == class {
                // what was really drawn, without the unused rest
                let mut r = o.record;
                while r.last() == Some(&0) {
                    r.pop();
                }
                if (r.len(), r.iter().map(|x| *x as u64).sum::<u64>()) < (best.len(), best.iter().map(|x| *x as u64).sum::<u64>()) {
                    *best = r;
                    return true;
                }
            }
        }
        false
    };
    let b0 = best.clone();
    try_(&b0, &mut best, &mut evals);
    loop {
        let before = best.clone();
        // delete chunks
        let mut size = (best.len() / 2).max(1);
        while size >= 1 {
            let mut i = 0;
            while i < best.len() {
                let mut c = best.clone();
                c.drain(i..(i + size).min(c.len()));
                if !try_(&c, &mut best, &mut evals) {
                    i += size;
                }
                if t0.elapsed().as_secs_f64() > secs {
                    return (best, evals);
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // zero chunks, then lower single values
        let mut size = (best.len() / 2).max(1);
        while size >= 1 {
            let mut i = 0;
            while i < best.len() {
                let e = (i + size).min(best.len());
                if best[i..e].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    c[i..e].iter_mut().for_each(|x| *x = 0);
                    try_(&c, &mut best, &mut evals);
                }
                i += size;
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        let mut i = 0;
        while i < best.len() {
            for f in [1u32, 2, 4] {
                if i < best.len() && best[i] > 0 {
                    let mut c = best.clone();
                    c[i] = if f == 1 { c[i] / 2 } else { c[i].saturating_sub(f / 2) };
                    try_(&c, &mut best, &mut evals);
                }
            }
            i += 1;
        }
        if best == before || t0.elapsed().as_secs_f64() > secs {
            return (best, evals);
        }
    }
}
