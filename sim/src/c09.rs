//! C09: the real calculator process under scripted system calls, against a reference calculator.

use crate::choice::Ch;
use crate::run::{viol, Ctx, Viol};
use std::fs::File;
use std::io::{Read, Seek, SeekFrom, Write};
use std::os::fd::FromRawFd;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::process::{Command, Stdio};

pub fn target(name: &str) -> String {
    format!("{}/target/{name}", crate::report::verif())
}

fn binary() -> String {
    target("example/release/example")
}

pub fn shim() -> String {
    target("shim.so")
}

/// The known finding is listed: not stopping at the end of input, answering it as empty lines, is not reported.
static END_KNOWN: std::sync::OnceLock<bool> = std::sync::OnceLock::new();

pub fn prepare() {
    for f in [binary(), shim()] {
        if !std::path::Path::new(&f).exists() {
            crate::fail(&format!("{f} is missing: run check.sh"));
        }
    }
    let _ = END_KNOWN.set(crate::report::known().iter().any(|k| k.property == "C09" && k.text.contains("then end of input")));
}

// ---- reference calculator

#[derive(Clone, Debug, PartialEq)]
enum T {
    Num(f64),
    Op(char),
    Sqrt,
}

/// Longest number literal at the start of `s`: ([0-9]+|[0-9]+\.[0-9]*|[0-9]*\.[0-9]+)([eE][+-]?[0-9]+)?
fn number(s: &[char]) -> usize {
    let digits = |mut i: usize| {
        while i < s.len() && s[i].is_ascii_digit() {
            i += 1;
        }
        i
    };
    let a = digits(0);
    let mut end = a;
    if a < s.len() && s[a] == '.' {
        let b = digits(a + 1);
        if a > 0 || b > a + 1 {
            end = b;
        }
    }
    if end == 0 {
        return 0;
    }
    if end < s.len() && (s[end] == 'e' || s[end] == 'E') {
        let mut i = end + 1;
        if i < s.len() && (s[i] == '+' || s[i] == '-') {
            i += 1;
        }
        let j = digits(i);
        if j > i {
            end = j;
        }
    }
    end
}

fn lex(line: &str) -> Vec<T> {
    let s: Vec<char> = line.chars().collect();
    let mut v = Vec::new();
    let mut i = 0;
    while i < s.len() {
        let n = number(&s[i..]);
        if n > 0 {
            v.push(T::Num(s[i..i + n].iter().collect::<String>().parse().expect("a number literal")));
            i += n;
        } else if s[i..].starts_with(&['s', 'q', 'r', 't']) {
            v.push(T::Sqrt);
            i += 4;
        } else {
            if "+-*/()".contains(s[i]) {
                v.push(T::Op(s[i]));
            }
            i += 1;
        }
    }
    v
}

struct P<'a>(&'a [T]);
impl P<'_> {
    fn op(&mut self, ops: &str) -> Option<char> {
        match self.0.first() {
            Some(T::Op(c)) if ops.contains(*c) => {
                self.0 = &self.0[1..];
                Some(*c)
            }
            _ => None,
        }
    }
    fn sum(&mut self) -> Option<f64> {
        let mut a = self.product()?;
        while let Some(c) = self.op("+-") {
            let b = self.product()?;
            a = if c == '+' { a + b } else { a - b };
        }
        Some(a)
    }
    fn product(&mut self) -> Option<f64> {
        let mut a = self.block()?;
        while let Some(c) = self.op("*/") {
            let b = self.block()?;
            a = if c == '*' { a * b } else { a / b };
        }
        Some(a)
    }
    fn num(&mut self) -> Option<f64> {
        if let Some(T::Num(n)) = self.0.first() {
            self.0 = &self.0[1..];
            return Some(*n);
        }
        None
    }
    fn block(&mut self) -> Option<f64> {
        if self.0.first() == Some(&T::Sqrt) {
            self.0 = &self.0[1..];
            return self.block().map(f64::sqrt);
        }
        match self.op("+-(") {
            Some('+') => self.num(),
            Some('-') => self.num().map(|n| -n),
            Some(_) => {
                let n = self.sum()?;
                self.op(")").map(|_| n)
            }
            None => self.num(),
        }
    }
}

fn answer(line: &str) -> (String, bool) {
    let t = lex(line);
    let mut p = P(&t);
    match p.sum() {
        Some(n) if p.0.is_empty() => (format!("= {n}"), true),
        _ => ("RecoveryRuleNotFound".into(), false),
    }
}

// ---- generation

fn digits(ch: &mut Ch) -> String {
    let n = match ch.weighted(&[4, 2, 1]) {
        0 => ch.range(1, 20),
        1 => ch.range(15, 70),
        _ => ch.range(60, 600),
    };
    let z = ch.below(4);
    (0..n).map(|_| if z == 0 { '0' } else { char::from(b'0' + ch.below(10) as u8) }).collect()
}

fn literal(ch: &mut Ch) -> String {
    match ch.weighted(&[12, 4, 4, 2, 2, 2, 2, 1, 1]) {
        0 => ch.below(100).to_string(),
        1 => format!("{}.{}", ch.below(100), ch.below(1000)),
        2 => format!(".{}", ch.below(100)),
        3 => format!("{}.", ch.below(100)),
        4 => format!("{}e{}", ch.below(10), ch.below(320)),
        5 => format!("{}.{}E{}{}", ch.below(10), ch.below(10), ch.pick(&["+", "-", ""]), ch.below(330)),
        6 => ch.pick(&["0", "1e308", "9007199254740993", "0.1", "00012", "1e-320"]).to_string(),
        7 => digits(ch),
        _ => {
            // every part long
            let mut s = if ch.chance(2, 3) { digits(ch) } else { String::new() };
            s.push('.');
            if s.len() == 1 || ch.chance(2, 3) {
                s += &digits(ch);
            }
            if ch.chance(1, 2) {
                s += ch.pick(&["e", "E", "e+", "e-", "E-"]);
                s += &digits(ch);
            }
            s
        }
    }
}

fn space(ch: &mut Ch) -> &'static str {
    ch.pick(&["", "", "", " ", "  ", "\t", "_", "é", "日", "x"])
}

fn expr(ch: &mut Ch, depth: usize, out: &mut String) {
    let n = if depth == 0 { 1 } else { ch.weighted(&[3, 3, 2, 1, 1]) + 1 };
    for i in 0..n {
        if i > 0 {
            *out += space(ch);
            out.push(*ch.pick(&['+', '-', '*', '/']));
            *out += space(ch);
        }
        match ch.weighted(&[6, 1, 1, if depth > 0 { 3 } else { 0 }, if depth > 0 { 2 } else { 0 }]) {
            0 => *out += &literal(ch),
            1 => {
                out.push('-');
                *out += &literal(ch);
            }
            2 => {
                out.push('+');
                *out += &literal(ch);
            }
            3 => {
                out.push('(');
                expr(ch, depth - 1, out);
                out.push(')');
            }
            _ => {
                *out += "sqrt";
                *out += space(ch);
                if ch.chance(1, 2) {
                    *out += &literal(ch);
                } else {
                    out.push('(');
                    expr(ch, depth - 1, out);
                    out.push(')');
                }
            }
        }
    }
}

fn line(ch: &mut Ch) -> String {
    let mut s = String::new();
    match ch.weighted(&[24, 12, 3, 3, 3, 3, 2, 2, 1]) {
        0 => {
            let d = ch.range(0, 3);
            expr(ch, d, &mut s);
        }
        1 => {
            let d = ch.range(0, 2);
            expr(ch, d, &mut s);
            let mut v: Vec<char> = s.chars().collect();
            for _ in 0..ch.range(1, 3) {
                if v.is_empty() {
                    break;
                }
                let i = ch.below(v.len());
                match ch.below(4) {
                    0 => {
                        v.remove(i);
                    }
                    1 => {
                        let c = v[i];
                        v.insert(i, c);
                    }
                    2 => {
                        let j = ch.below(v.len());
                        v.swap(i, j);
                    }
                    _ => v[i] = *ch.pick(&['+', '(', ')', 'e', '.', 's', 'q', '-', '0', '\r', '\u{10ffff}', '\0']),
                }
            }
            s = v.into_iter().collect();
        }
        2 => {}
        3 => {
            // deep nesting
            let n = ch.range(1, 300);
            s += &"(".repeat(n);
            s += "1";
            let m = if ch.chance(1, 4) { n - 1 } else { n };
            s += &")".repeat(m);
        }
        4 => {
            // a long line
            let n = ch.range(1, 1500);
            s += "1";
            for _ in 0..n {
                s.push(*ch.pick(&['+', '-', '*']));
                s.push(char::from(b'0' + ch.below(10) as u8));
            }
        }
        6 => {
            // a long run of one thing
            let what = *ch.pick(&["+", "-", "(", "sqrt", " ", "_", "日", "s", "sqr", ".", "1e", "1.", "-1", ")", "e"]);
            let n = if ch.chance(1, 3) { ch.range(100, 3000) } else { ch.range(2, 100) };
            let (before, after) = (*ch.pick(&["", "1", "2+", "("]), *ch.pick(&["", "4", "-3", ")"]));
            s += before;
            s += &what.repeat(n);
            s += after;
        }
        7 => {
            // nested to the right, with an end after each
            let n = ch.range(1, 120);
            for _ in 0..n {
                s += &literal(ch);
                s.push(*ch.pick(&['+', '-', '*', '/']));
                s += ch.pick(&["(", "(", "sqrt(", "((1+1)*("]);
            }
            s += "1";
            let open = s.matches('(').count() - s.matches(')').count();
            s += &")".repeat(open);
            if ch.chance(1, 4) {
                s.push(*ch.pick(&[')', '+', '1', ' ']));
            }
        }
        8 => {
            // deeper than small numbers count
            let n = ch.range(300, 6000);
            s += &"(".repeat(n);
            s += "1";
            s += &")".repeat(n);
        }
        _ => {
            for _ in 0..ch.range(1, 12) {
                s.push(*ch.pick(&['1', '.', 'e', '+', '-', '*', '/', '(', ')', 's', 'q', 'r', 't', ' ', '日', '2']));
            }
        }
    }
    s
}

fn script(ch: &mut Ch, total: usize, ctx_eintr: &mut u64, ctx_split: &mut u64) -> String {
    let mode = ch.weighted(&[2, 2, 3, 2]);
    let n = match mode {
        0 => 0,
        1 => total.min(400),
        _ => ch.range(1, 40),
    };
    let mut v = Vec::new();
    for _ in 0..n {
        if mode != 1 && ch.chance(1, 4) || mode == 1 && ch.chance(1, 10) {
            v.push("E".to_string());
            *ctx_eintr += 1;
        } else {
            let k = if mode == 1 { 1 } else { ch.range(1, 30) };
            v.push(k.to_string());
            *ctx_split += 1;
        }
    }
    v.join(",")
}

pub fn memfd(name: &str) -> File {
    let n = std::ffi::CString::new(name).unwrap();
    let fd = unsafe { libc::memfd_create(n.as_ptr(), libc::MFD_CLOEXEC) };
    assert!(fd >= 0, "memfd_create");
    unsafe { File::from_raw_fd(fd) }
}

fn calculate(input: &str, reads: &str, writes: &str, clock: &str, hash: u32) -> (std::process::ExitStatus, Vec<u8>) {
    let mut stdin = memfd("in");
    stdin.write_all(input.as_bytes()).unwrap();
    stdin.seek(SeekFrom::Start(0)).unwrap();
    let mut out = memfd("out");
    let mut cmd = Command::new(binary());
    cmd.env_clear()
        .env("LD_PRELOAD", shim())
        .env("SIM_HASH", hash.to_string())
        .env("SIM_READS", reads)
        .env("SIM_WRITES", writes)
        .env("SIM_CLOCK", clock)
        .stdin(Stdio::from(stdin))
        .stdout(Stdio::from(out.try_clone().unwrap()))
        .stderr(Stdio::null());
    unsafe {
        cmd.pre_exec(|| {
            let lim = libc::rlimit { rlim_cur: 5, rlim_max: 6 };
            libc::setrlimit(libc::RLIMIT_CPU, &lim);
            let mem = libc::rlimit { rlim_cur: 2 << 30, rlim_max: 2 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &mem);
            Ok(())
        });
    }
    let status = cmd.status().expect("cannot run the calculator");
    let mut bytes = Vec::new();
    out.seek(SeekFrom::Start(0)).unwrap();
    out.read_to_end(&mut bytes).unwrap();
    (status, bytes)
}

/// The listed finding as itself.
pub fn finding_end(_: &mut Ctx) -> Result<(), Viol> {
    let (status, _) = calculate("1\n", "", "", "", 1);
    if status.code() == Some(97) {
        return viol("does not stop at the end of input", String::new());
    }
    Ok(())
}

pub fn scenario(ctx: &mut Ctx) -> Result<(), Viol> {
    let n = if ctx.ch.chance(1, 12) { ctx.ch.range(8, 120) } else { ctx.ch.range(1, 8) };
    let lines: Vec<String> = (0..n).map(|_| line(&mut ctx.ch)).collect();
    let mut input = String::new();
    for l in &lines {
        input += l;
        input += if ctx.ch.chance(1, 12) { "\r\n" } else { "\n" };
    }
    if ctx.ch.chance(1, 2) {
        // the input ends somewhere else
        let all: Vec<usize> = input.char_indices().map(|x| x.0).collect();
        let at = if ctx.ch.chance(1, 2) { input.len() - 1 } else { all[ctx.ch.below(all.len())] };
        input.truncate(at);
        ctx.count("fault: input cut off", 1);
    }
    let (mut eintr, mut split) = (0, 0);
    let reads = script(&mut ctx.ch, input.len(), &mut eintr, &mut split);
    let (mut weintr, mut wsplit) = (0, 0);
    let writes = script(&mut ctx.ch, 300, &mut weintr, &mut wsplit);
    ctx.count("fault: read interrupted (scripted)", eintr);
    ctx.count("fault: read split (scripted)", split);
    ctx.count("fault: write interrupted (scripted)", weintr);
    ctx.count("fault: write split (scripted)", wsplit);
    let clock: Vec<String> = (0..ctx.ch.below(4)).map(|_| ctx.ch.pick(&["1", "60000", "86400000", "3155760000000"]).to_string()).collect();
    ctx.count("fault: clock jumps (scripted)", clock.len() as u64);
    let hash = ctx.ch.choose(1 << 30);
    ctx.note(|| format!("input: {input:?}"));
    ctx.note(|| format!("reads: [{reads}] writes: [{writes}] clock jumps: {clock:?} hash seed: {hash}"));
    let (status, bytes) = calculate(&input, &reads, &writes, &clock.join(","), hash);
    let text = String::from_utf8_lossy(&bytes).into_owned();
    ctx.note(|| format!("exit: {status:?}"));
    ctx.note(|| format!("output: {text:?}"));
    ctx.count("bytes read", input.len() as u64);
    ctx.count("bytes written", bytes.len() as u64);
    let body = text.split_once('\n').map_or("", |x| x.1);
    ctx.absorb(&format!("{input:?} {reads} {writes} {hash} {body:?} {status:?}"));
    let show = || format!("input {:?}", if input.len() > 300 { format!("{}… ({} bytes)", input.chars().take(300).collect::<String>(), input.len()) } else { input.clone() });
    let mut ok_lines = 0;
    let mut bad_lines = 0;
    let expect: Vec<String> = input
        .split_inclusive('\n')
        .map(|l| {
            let (a, ok) = answer(l);
            if ok {
                ok_lines += 1
            } else {
                bad_lines += 1
            }
            a
        })
        .collect();
    ctx.count("lines with a value", ok_lines);
    ctx.count("malformed lines", bad_lines);
    ctx.count("simulated events", (expect.len() * 2) as u64 + eintr + split + weintr + wsplit);
    ctx.nontrivial = expect.len() >= 2 && ok_lines > 0;
    let goes_on = status.code() == Some(97) && END_KNOWN.get() == Some(&true);
    if status.code() == Some(97) && !goes_on {
        return viol("does not stop at the end of input", format!("more than 20 reads after the end of input [{}]", show()));
    }
    if status.signal() == Some(libc::SIGKILL) {
        panic!("the calculator was killed");
    }
    if status.code() == Some(98) || status.signal() == Some(libc::SIGXCPU) {
        return viol("does not stop", format!("{status:?} [{}]", show()));
    }
    let mut got: Vec<&str> = text.split('\n').collect();
    let last = got.pop();
    if got.is_empty() {
        return viol("no start-up line", format!("output {text:?}, {status:?} [{}]", show()));
    }
    for (i, e) in expect.iter().enumerate() {
        match got.get(i + 1) {
            None => return viol("answer missing", format!("line {} has no answer ({status:?}), expected {e:?} [{}]", i + 1, show())),
            Some(g) if g != e => return viol("wrong answer", format!("line {}: {g:?}, expected {e:?} [{}]", i + 1, show())),
            _ => {}
        }
    }
    if goes_on {
        // exactly the known finding: every read at the end is answered like an empty line
        while got.len() > expect.len() + 1 && got.last() == Some(&"RecoveryRuleNotFound") {
            got.pop();
        }
        ctx.count("probe: went on at the end of input (known finding)", 1);
    }
    if got.len() > expect.len() + 1 || last != Some("") {
        return viol("more output than answers", format!("{:?} after the last answer [{}]", text.split('\n').skip(expect.len() + 1).collect::<Vec<_>>(), show()));
    }
    if !status.success() && !goes_on {
        return viol("does not end normally", format!("{status:?} [{}]", show()));
    }
    ctx.sample = format!("{} lines, first {:?}; reads [{}] writes [{}]", expect.len(), input.lines().next().unwrap_or(""), reads.chars().take(60).collect::<String>(), writes.chars().take(60).collect::<String>());
    Ok(())
}
