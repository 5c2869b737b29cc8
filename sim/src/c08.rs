//! C08: whole programs that use the macros, compiled by the real compiler under drawn hash seeds, each
//! tokenizer and parser compared with its run-time built twin on drawn streams.

use crate::c09::{memfd, shim, target};
use crate::choice::Ch;
use crate::gram::{self, Grammar, Sym, Want};
use crate::patgen::{self, PatCfg};
use crate::run::{viol, Ctx, Viol};
use std::fmt::Write as _;
use std::io::{Read, Seek, SeekFrom};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::process::{Command, ExitStatus, Stdio};
use std::sync::OnceLock;

struct Tools {
    rustc: String,
    deps: String,
    externs: Vec<(String, String)>,
}

static TOOLS: OnceLock<Tools> = OnceLock::new();

pub fn prepare() {
    if TOOLS.get().is_some() {
        return;
    }
    let list = target("macrohost.json");
    let text = std::fs::read_to_string(&list).unwrap_or_else(|_| crate::fail(&format!("{list} is missing: run check.sh")));
    let find = |name: &str, opt: &str, ext: &str| -> String {
        for l in text.lines() {
            if l.contains("\"reason\":\"compiler-artifact\"") && l.contains(&format!("\"name\":\"{name}\"")) && l.contains(&format!("\"opt_level\":\"{opt}\"")) {
                if let Some((_, rest)) = l.split_once("\"filenames\":[") {
                    let names = rest.split(']').next().unwrap_or("");
                    if let Some(f) = names.split(',').map(|s| s.trim_matches('"')).find(|s| s.ends_with(ext)) {
                        return f.to_string();
                    }
                }
            }
        }
        crate::fail(&format!("no artifact of {name} in {list}"))
    };
    let externs: Vec<(String, String)> = vec![
        ("tokenizer".into(), find("tokenizer", "1", ".rlib")),
        ("parser".into(), find("parser", "1", ".rlib")),
        ("tokenizer_generator".into(), find("tokenizer_generator", "2", ".so")),
        ("parser_generator".into(), find("parser_generator", "2", ".so")),
    ];
    let deps = std::path::Path::new(&externs[0].1).parent().unwrap().to_string_lossy().into_owned();
    let out = Command::new("rustc").args(["--print", "sysroot"]).output().unwrap_or_else(|e| crate::fail(&format!("rustc: {e}")));
    let rustc = format!("{}/bin/rustc", String::from_utf8_lossy(&out.stdout).trim());
    if !std::path::Path::new(&rustc).exists() {
        crate::fail(&format!("{rustc} is missing"));
    }
    let _ = TOOLS.set(Tools { rustc, deps, externs });
}

const PRELUDE: &str = r##"#![allow(warnings)]
use std::cell::RefCell;
use std::fmt::Debug;
thread_local! { static LOG: RefCell<Vec<String>> = RefCell::new(Vec::new()); static LEFT: RefCell<(u32, bool)> = RefCell::new((0, false)); }
pub fn log(s: String) { LOG.with(|l| l.borrow_mut().push(s)) }
pub struct Src<I>(pub std::vec::IntoIter<Option<I>>);
impl<I: Debug> Iterator for Src<I> {
    type Item = I;
    fn next(&mut self) -> Option<I> {
        let x = self.0.next().flatten();
        log(match &x { Some(x) => format!("poll {:?}", x), None => "poll -".to_string() });
        x
    }
}
pub fn made<C: Debug>(p: usize, s: &str, v: Vec<C>) -> String { let t = format!("{}:{:?}:{:?}", p, s, v); log(format!("make {}", t)); t }
pub fn reduce(r: usize, args: String) -> Result<u32, u32> {
    log(format!("reduce {} {}", r, args));
    let (n, p) = LEFT.with(|l| { let mut l = l.borrow_mut(); if l.0 > 0 { l.0 -= 1; (l.0 == 0, l.1) } else { (false, false) } });
    if n && p { panic!("reducer panics in rule {}", r); }
    if n { Err(r as u32) } else { Ok(LOG.with(|l| l.borrow().len() as u32)) }
}
pub fn steps<T: Debug>(it: impl Iterator<Item = T>, n: usize) {
    let mut it = it;
    for _ in 0..n { match it.next() { Some(t) => log(format!("token {:?}", t)), None => log("none".to_string()) } }
}
pub fn session(unit: &str, stream: usize, side: char, fail: (u32, bool), f: impl FnOnce()) {
    LOG.with(|l| l.borrow_mut().clear());
    LEFT.with(|l| *l.borrow_mut() = fail);
    if let Err(e) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        let m = if let Some(s) = e.downcast_ref::<&str>() { s.to_string() } else if let Some(s) = e.downcast_ref::<String>() { s.clone() } else { "?".to_string() };
        log(format!("panic {}", m.replace('\n', " ")));
    }
    println!("{}\t{}\t{}\t{}", unit, stream, side, LOG.with(|l| l.borrow().join("; ")));
}
"##;

fn shuffle<T>(ch: &mut Ch, v: &mut [T]) {
    for i in (1..v.len()).rev() {
        let j = i - ch.below(i + 1);
        v.swap(i, j);
    }
}

fn string_lit(ch: &mut Ch, s: &str) -> String {
    if ch.chance(1, 3) && !s.contains('\r') {
        for n in 0..5 {
            let h = "#".repeat(n);
            if !s.contains(&format!("\"{h}")) {
                return format!("r{h}\"{s}\"{h}");
            }
        }
    }
    format!("{s:?}")
}

struct Unit {
    code: String,
    calls: String,
    streams: usize,
    what: String,
}

fn tok_unit(ch: &mut Ch, u: usize, ctx_stats: &mut Vec<(&'static str, u64)>) -> Unit {
    let cfg = PatCfg { nullable: ch.chance(1, 4), empty: false, unicode_classes: ch.chance(1, 8) };
    let got = ch.attempt(15, |ch| {
        let (list, mut m, ab) = if cfg.nullable && ch.chance(1, 2) {
            // the state before any character is one that matches
            let list: Vec<String> = vec![ch.pick(&["a*", "(ab)*", "[ab]*", "(a|bc)*", "a?", "(ab*)*", "(abc)*|b"]).to_string()];
            (list.clone(), crate::relang::TokModel::new(&list).unwrap(), &['a', 'b', 'c'][..])
        } else {
            patgen::patterns(ch, &cfg)
        };
        patgen::size(&mut m, 50).map(|_| (list, m, ab))
    });
    let (got, long) = if ch.chance(1, 20) { (Some(patgen::many(ch)), 400) } else { (got, 50) };
    let (list, mut m, ab) = got.unwrap_or_else(|| {
        let l = vec!["a+".to_string()];
        let m = crate::relang::TokModel::new(&l).unwrap();
        (l, m, &['a', 'b'])
    });
    let pairs = ch.chance(1, 2);
    let item = if pairs { *ch.pick(&["(usize, char)", "crate::Pair", "(usize, char,)"]) } else { *ch.pick(&["char", "std::primitive::char"]) };
    let token = *ch.pick(&["String", "Option<String>", "(u8, String)", "std::string::String", "Tok"]);
    let wrap = |e: String| match token {
        "Option<String>" => format!("Some({e})"),
        "(u8, String)" => format!("(7, {e})"),
        "Tok" => format!("Tok {{ s: {e} }}"),
        _ => e,
    };
    let vis = *ch.pick(&["pub ", "pub(crate) ", "pub(super) ", ""]);
    let fname = *ch.pick(&["gen", "goto", "end", "map", "tokenizer", "tokenize_it"]);
    let mut rules: Vec<String> = Vec::new();
    let mut calls: Vec<String> = Vec::new();
    let mut helpers = String::new();
    for (i, p) in list.iter().enumerate() {
        let f = match ch.below(5) {
            0 => format!("|s, v| {}", wrap(format!("crate::made({i}, s, v)"))),
            1 => format!("|s: &str, v: Vec<{item}>| {{ let t = crate::made({i}, s, v); {} }}", wrap("t".into())),
            2 => format!("|s, _| {}", wrap(format!("crate::made::<()>({i}, s, vec![])"))),
            3 => {
                let _ = writeln!(helpers, "    fn maker{i}(s: &str, v: Vec<{item}>) -> {token} {{ {} }}", wrap(format!("crate::made({i}, s, v)")));
                format!("maker{i}")
            }
            _ => format!("move |s, v| if s.len() > 1 {{ {} }} else {{ {} }}", wrap(format!("crate::made({i}, s, v)")), wrap(format!("crate::made({}, s, v)", i + 100))),
        };
        rules.push(format!("{}: {f}", string_lit(ch, p)));
        calls.push(format!(".pattern({p:?}, {f})"));
    }
    let last = if ch.chance(1, 2) { ";" } else { "" };
    let mut code = format!("mod t{u} {{\n    use crate::*;\n    #[derive(Debug)] pub struct Tok {{ pub s: String }}\n{helpers}");
    let _ = writeln!(code, "    tokenizer_generator::tokenizer! {{\n        {vis}fn {fname}() -> DFATokenizer {{\n            character {item};\n            token {token};\n            {}{last}\n        }}\n    }}", rules.join(";\n            "));
    let _ = writeln!(code, "    pub fn built() -> tokenizer::DFATokenizer<{token}, {item}> {{\n        tokenizer::DFATokenizer::<{token}, {item}>::builder(){}.build().unwrap().0\n    }}", calls.join(""));
    let n = ch.range(2, 6);
    let mut run = String::new();
    for k in 0..n {
        let text = patgen::text(ch, &mut m, ab, long);
        let mut items: Vec<String> = text.iter().enumerate().map(|(i, c)| if pairs { format!("Some(({i}, {c:?}))") } else { format!("Some({c:?})") }).collect();
        for _ in 0..ch.weighted(&[5, 2, 1]) {
            let i = ch.below(items.len() + 1);
            items.insert(i, "None".into());
            ctx_stats.push(("fault: source pauses", 1));
        }
        let _ = writeln!(run, "        let s: Vec<Option<{item}>> = vec![{}];", items.join(", "));
        let how = if pairs { "tokenize_with(t, |x: &(usize, char)| x.1)" } else { "tokenize(t)" };
        let steps = text.len() + 3;
        let _ = writeln!(run, "        for (side, t) in [('M', &a), ('R', &b)] {{ let s = s.clone(); session(\"t{u}\", {k}, side, (0, false), move || steps(Src(s.into_iter()).{how}, {steps})); }}");
        ctx_stats.push(("character streams", 1));
        ctx_stats.push(("characters fed", text.len() as u64));
    }
    let _ = writeln!(code, "    pub fn run() {{\n        use tokenizer::Tokenize;\n        let (a, b) = ({fname}(), built());\n{run}    }}\n}}");
    Unit { code, calls: format!("    t{u}::run();\n"), streams: n, what: format!("patterns {list:?}") }
}

fn par_unit(ch: &mut Ch, u: usize, ctx_stats: &mut Vec<(&'static str, u64)>) -> Unit {
    let want = [Want::Plain, Want::Error, Want::AnyFree, Want::Any][ch.weighted(&[3, 3, 2, 3])];
    let large = ch.chance(1, 7);
    let cap = if large || ch.chance(1, 12) { 420 } else { 50 };
    let got = ch.attempt(15, |ch| {
        let (g, a) = if large { gram::big(ch, want)? } else { gram::grammar(ch, want) };
        (a.action.len() <= cap).then_some((g, a))
    });
    let (g, a): (Grammar, gram::Auto) = got.unwrap_or_else(|| {
        let g = gram::parse_template("S>ab");
        let a = gram::Auto::build(&g, 300).unwrap();
        (g, a)
    });
    // user enums: the grammar's kinds among unused ones, in any order and shape
    let tnames = ["Num", "Plus", "Open", "Close", "A", "B", "EOI", "Error", "Symbol", "Shift", "Str", "Terminal", "Zed", "Q", "q", "A_b", "A__b", "_A", "A_", "A1", "A10"];
    let nnames = ["Expr", "Term", "Factor", "List", "N", "M", "Start", "NonTerminal", "Item", "Z", "N_", "_N", "N__1", "N_1", "N1"];
    let nt = g.terminals().into_iter().max().map_or(0, |x| x + 1);
    let nn = g.nonterminals().into_iter().max().map_or(0, |x| x + 1);
    let textra = ch.range(if nt == 0 { 1 } else { 0 }, 3);
    let nextra = ch.range(0, 3);
    // variant position -> kind
    let mut torder: Vec<usize> = (0..nt + textra).collect();
    let mut norder: Vec<usize> = (0..nn + nextra).collect();
    shuffle(ch, &mut torder);
    shuffle(ch, &mut norder);
    let pool = |list: &[&str], n: usize, pre: &str| -> Vec<String> {
        let mut v: Vec<String> = list.iter().map(|s| s.to_string()).collect();
        for i in v.len()..n {
            v.push(format!("{pre}{i}"));
        }
        v
    };
    let mut tn = pool(&tnames, nt + textra, "Kind");
    let mut nnm = pool(&nnames, nn + nextra, "Node");
    shuffle(ch, &mut tn);
    shuffle(ch, &mut nnm);
    let tshape: Vec<usize> = (0..nt + textra).map(|_| ch.below(4)).collect();
    let nshape: Vec<usize> = (0..nn + nextra).map(|_| ch.below(4)).collect();
    let decl = |name: &str, shape: usize| match shape {
        0 => format!("{name}(u32)"),
        1 => format!("{name} {{ id: u32 }}"),
        2 => format!("{name}(u32, &'static str)"),
        _ => name.to_string(),
    };
    let make = |name: &str, shape: usize, v: &str| match shape {
        0 => format!("{name}({v})"),
        1 => format!("{name} {{ id: {v} }}"),
        2 => format!("{name}({v}, \"x\")"),
        _ => name.to_string(),
    };
    let mut code = format!("mod p{u} {{\n    use crate::*;\n    use parser::enum_index_derive::*;\n    use parser::{{enum_index, Symbol, Symbol::{{NonTerminal, Terminal}}}};\n");
    let _ = writeln!(code, "    #[derive(Debug, Clone, EnumIndex)]\n    pub enum Tok {{ {} }}", torder.iter().map(|k| decl(&tn[*k], tshape[*k])).collect::<Vec<_>>().join(", "));
    let _ = writeln!(code, "    #[derive(Debug, EnumIndex)]\n    pub enum Sym {{ {} }}", norder.iter().map(|k| decl(&nnm[*k], nshape[*k])).collect::<Vec<_>>().join(", "));
    let err = *ch.pick(&["u32", "String", "Box<dyn std::error::Error + Send + Sync>", "(u32, char)"]);
    let conv = match err {
        "String" => "|e| -> String { format!(\"e{}\", e) }",
        "Box<dyn std::error::Error + Send + Sync>" => "|e| -> Box<dyn std::error::Error + Send + Sync> { format!(\"e{}\", e).into() }",
        "(u32, char)" => "|e| -> (u32, char) { (e, 'e') }",
        _ => "|e| -> u32 { e }",
    };
    // keys of the token list; a named and a quoted key may have the same text
    let words = ["num", "plus", "a", "b", "tokens", "symbols", "value", "start", "list", "x", "y", "z", "key", "rule", "q", "w", "v", "u", "a_b", "a__b", "_a", "a_", "A", "a1", "a10", "aa"];
    let quoted = ["+", "-", "(", ")", "==", "\"", "\\", "a", "b", "num", "é", "", " ", "x", "y", "z", "=>", ";", " +", "+ ", "++", "A", "a1", "a10", "aa", "\n", "\t", "num ", "NUM"];
    let mut w = pool(&words, nt + textra, "word");
    let mut q = pool(&quoted, nt + textra, "#");
    shuffle(ch, &mut w);
    shuffle(ch, &mut q);
    let keys: Vec<(bool, String)> = (0..nt + textra)
        .map(|k| {
            if ch.chance(1, 2) {
                (false, w[k].to_string())
            } else {
                let twin = k > 0 && ch.chance(1, 3);
                (true, if twin && !q[..k].contains(&w[k - 1].to_string()) { w[k - 1].to_string() } else { q[k].to_string() })
            }
        })
        .collect();
    // a drawn twin can meet a later quoted key: make the quoted ones distinct
    let mut keys = keys;
    for i in 0..keys.len() {
        while (0..i).any(|j| keys[j] == keys[i]) {
            keys[i].1 += "_";
        }
    }
    let mut nkeys = pool(&["E", "T", "F", "a", "num", "plus", "N1", "start_", "symbols", "Sym", "X", "Y", "start", "token", "symbol", "errortype", "E_", "_E", "e", "E__1", "E_1", "E1", "E10", "EE"], nn + nextra, "n");
    shuffle(ch, &mut nkeys);
    let all = ch.chance(1, 2);
    let mut tlist: Vec<usize> = (0..nt + textra).filter(|k| *k < nt || all || nt == 0).collect();
    let mut nlist: Vec<usize> = (0..nn + nextra).filter(|k| *k < nn || all).collect();
    shuffle(ch, &mut tlist);
    shuffle(ch, &mut nlist);
    // now and then one token or symbol has two names
    let two_names = ch.chance(1, 6);
    let tsecond: Vec<Option<(bool, String)>> = (0..nt + textra).map(|k| (two_names && ch.chance(1, 2)).then(|| (ch.chance(1, 2), format!("also{k}")))).collect();
    let nsecond: Vec<Option<String>> = (0..nn + nextra).map(|k| (two_names && ch.chance(1, 2)).then(|| format!("Also{k}"))).collect();
    let text_of = |k: &(bool, String)| if k.0 { format!("{:?}", k.1) } else { k.1.clone() };
    if two_names {
        ctx_stats.push(("grammars with second names", 1));
    }
    // now and then the example values come from a function
    let by_fn = ch.chance(1, 8);
    if by_fn {
        for (ty, names, shapes) in [("Tok", &tn, &tshape), ("Sym", &nnm, &nshape)] {
            let arms: String = shapes.iter().enumerate().map(|(k, s)| format!("{k} => {ty}::{}, ", make(&names[k], *s, "0"))).collect();
            let _ = writeln!(code, "    impl {ty} {{ pub fn of(k: usize) -> {ty} {{ match k {{ {arms}_ => panic!() }} }} }}");
        }
        ctx_stats.push(("grammars with values from a function", 1));
    }
    let comma = if ch.chance(1, 2) { "," } else { "" };
    let vis = *ch.pick(&["pub ", "pub(crate) ", "", "pub(in crate) "]);
    let fname = *ch.pick(&["gen", "tokens", "symbols", "action_table", "goto_table", "rules", "parser", "value"]);
    let (tpath, npath) = (*ch.pick(&["Tok", "self::Tok"]), *ch.pick(&["Sym", "self::Sym"]));
    let val = *ch.pick(&["0", "1 + 1", "u32::MAX", "{ 3 }", "crate::SOME"]);
    let mut tnames: Vec<String> = Vec::new();
    for k in &tlist {
        // (the macro takes a name in lower case for a function, whose values can be of any variant)
        let second = if tn[*k] == "q" { val } else { "9" };
        for (key, v) in [(Some(&keys[*k]), val), (tsecond[*k].as_ref(), second)] {
            let value = if by_fn { format!("of({k})") } else { make(&tn[*k], tshape[*k], v) };
            tnames.extend(key.map(|key| format!("{} = {value}", text_of(key))));
        }
    }
    let mut nnames: Vec<String> = Vec::new();
    for k in &nlist {
        for (key, v) in [(Some(&nkeys[*k]), val), (nsecond[*k].as_ref(), "9")] {
            let value = if by_fn { format!("of({k})") } else { make(&nnm[*k], nshape[*k], v) };
            nnames.extend(key.map(|key| format!("{key} = {value}")));
        }
    }
    if two_names {
        shuffle(ch, &mut tnames);
        shuffle(ch, &mut nnames);
    }
    let mut mac = format!("            token {tpath} {{ {}{comma} }}\n", tnames.join(", "));
    let _ = writeln!(mac, "            symbol {npath} {{ {}{comma} }}", nnames.join(", "));
    let _ = writeln!(mac, "            errortype {err};\n            start {};", nkeys[g.start]);
    // (both ways to make a parser at run time)
    let (make_parser, take) = *ch.pick(&[("new", ".0"), ("new", ".0"), ("from", "")]);
    let mut built = format!("        parser::LR1Parser::<Sym, Tok, {err}>::{make_parser}(parser::Syntax::<Sym, Tok, {err}>::builder()\n");
    for (i, (l, rhs)) in g.rules.iter().enumerate() {
        let body: Vec<String> = rhs
            .iter()
            .map(|s| match s {
                Sym::N(n) => format!("<{}>", nsecond[*n].as_ref().filter(|_| ch.chance(1, 2)).unwrap_or(&nkeys[*n])),
                Sym::T(t) => {
                    let key = tsecond[*t].as_ref().filter(|_| ch.chance(1, 2)).unwrap_or(&keys[*t]);
                    if key.0 {
                        text_of(key)
                    } else {
                        format!("[{}]", key.1)
                    }
                }
                Sym::Err => "ERROR".into(),
            })
            .collect();
        let examples: Vec<String> = rhs
            .iter()
            .map(|s| match s {
                Sym::N(n) => format!("NonTerminal(Sym::{})", make(&nnm[*n], nshape[*n], "1")),
                Sym::T(t) => format!("Terminal(Tok::{})", make(&tn[*t], tshape[*t], "1")),
                Sym::Err => "Symbol::Error(())".into(),
            })
            .collect();
        let result = |e: &str| format!("crate::reduce({i}, {e}).map(|n| Sym::{}).map_err({conv})", make(&nnm[*l], nshape[*l], "n"));
        let early = |e: &str| format!("{{ let n = crate::reduce({i}, {e}).map_err({conv})?; if n == u32::MAX {{ return Ok(Sym::{}); }} Ok(Sym::{}) }}", make(&nnm[*l], nshape[*l], "0"), make(&nnm[*l], nshape[*l], "n"));
        let (pat, expr) = match ch.below(5) {
            4 => ("all".to_string(), early("format!(\"{:?}\", all)")),
            0 => ("list".to_string(), result("format!(\"{:?}\", list)")),
            1 => ("args @ [..]".to_string(), format!("{{ let s = format!(\"{{:?}}\", args); {} }}", result("s"))),
            2 => {
                let names: Vec<String> = (0..rhs.len()).map(|k| format!("x{k}")).collect();
                let pats: Vec<String> = rhs
                    .iter()
                    .zip(&names)
                    .map(|(s, v)| match s {
                        Sym::N(n) => format!(
                            "NonTerminal({})",
                            match nshape[*n] {
                                0 => format!("Sym::{}({v})", nnm[*n]),
                                1 => format!("Sym::{} {{ id: {v} }}", nnm[*n]),
                                2 => format!("{v} @ Sym::{}(..)", nnm[*n]),
                                _ => format!("{v} @ Sym::{}", nnm[*n]),
                            }
                        ),
                        Sym::T(t) => format!(
                            "Terminal({})",
                            match tshape[*t] {
                                0 => format!("Tok::{}({v})", tn[*t]),
                                1 => format!("Tok::{} {{ id: {v} }}", tn[*t]),
                                2 => format!("Tok::{}({v}, _)", tn[*t]),
                                _ => format!("{v} @ Tok::{}", tn[*t]),
                            }
                        ),
                        Sym::Err => format!("Symbol::Error({v})"),
                    })
                    .collect();
                (format!("[{}]", pats.join(", ")), result(&format!("format!(\"{}\", {})", names.iter().map(|_| "{:?}").collect::<Vec<_>>().join(" "), names.join(", "))))
            }
            _ => {
                if rhs.is_empty() {
                    ("[]".to_string(), result("String::new()"))
                } else {
                    ("[first, ..]".to_string(), result("format!(\"{:?}\", first)"))
                }
            }
        };
        let follow = i > 0 && g.rules[i - 1].0 == *l && ch.chance(2, 3);
        let head = if follow { "|".to_string() } else { format!("<{}> ::=", nsecond[*l].as_ref().filter(|_| ch.chance(1, 2)).unwrap_or(&nkeys[*l])) };
        let _ = writeln!(mac, "            {head} {}: {pat} => {expr};", body.join(" "));
        let fun = format!("|list| match list {{ {pat} => {expr}, _ => panic!(\"arguments do not match the rule\") }}");
        if ch.chance(1, 2) {
            let _ = writeln!(built, "            .rule(parser::Rule::<Sym, Tok, {err}>::new(Sym::{}, &[{}], {fun}))", make(&nnm[*l], nshape[*l], "1"), examples.join(", "));
        } else {
            let steps: String = rhs
                .iter()
                .map(|s| match s {
                    Sym::N(n) => format!(".non_terminal(Sym::{})", make(&nnm[*n], nshape[*n], "2")),
                    Sym::T(t) => format!(".terminal(Tok::{})", make(&tn[*t], tshape[*t], "2")),
                    Sym::Err => ".error()".into(),
                })
                .collect();
            let _ = writeln!(built, "            .rule(parser::Rule::<Sym, Tok, {err}>::builder(Sym::{}){steps}.build({fun}))", make(&nnm[*l], nshape[*l], "2"));
        }
    }
    let _ = writeln!(built, "            .build(Sym::{})){take}", make(&nnm[g.start], nshape[g.start], "3"));
    let _ = writeln!(code, "    parser_generator::parser! {{\n        {vis}fn {fname}() -> LR1Parser {{\n{mac}        }}\n    }}");
    let _ = writeln!(code, "    pub fn built() -> parser::LR1Parser<Sym, Tok, {err}> {{\n{built}    }}");
    let n = ch.range(2, 6);
    let mut run = String::new();
    let mut streams = 0;
    for _ in 0..n {
        let mut toks = match ch.weighted(&[4, 1]) {
            0 => {
                let fuel = ch.range(2, 20);
                gram::sentence(ch, &g, fuel).map(|x| x.0).unwrap_or_default()
            }
            _ => gram::random_tokens(ch, &g, 12),
        };
        toks.truncate(60);
        let mut counts = [0; 7];
        let times = ch.weighted(&[3, 3, 2, 1]);
        gram::damage(ch, &g, &mut toks, times, &mut counts);
        for t in toks.iter_mut() {
            if *t >= nt + textra {
                *t = 0;
            }
        }
        let fail = if ch.chance(1, 4) { ch.range(1, 12) } else { 0 };
        let panics = ch.chance(1, 3);
        // streams on which the behaviour is specified and finite
        let Some(m) = a.run(&toks, 3000) else { continue };
        if a.conflicts > 0 && g.has_error() && m.recoveries > 0 {
            continue;
        }
        for (k, c) in ["fault: token lost", "fault: token repeated", "fault: tokens reordered", "fault: token replaced", "fault: token inserted", "fault: stream cut", "fault: piece spliced"].into_iter().zip(counts) {
            ctx_stats.push((k, c));
        }
        if fail > 0 {
            ctx_stats.push((if panics { "fault: panic in reducer (drawn)" } else { "fault: error from reducer (drawn)" }, 1));
        }
        ctx_stats.push(("token streams", 1));
        ctx_stats.push(("tokens fed", toks.len() as u64));
        ctx_stats.push(("recoveries in the model", m.recoveries as u64));
        ctx_stats.push(("reductions in the model", m.reds.len() as u64));
        let items: Vec<String> = toks.iter().enumerate().map(|(i, t)| format!("Some(Tok::{})", make(&tn[*t], tshape[*t], &(i + 10).to_string()))).collect();
        let _ = writeln!(run, "        let s: Vec<Option<Tok>> = vec![{}];", items.join(", "));
        let _ = writeln!(run, "        for (side, p) in [('M', &a), ('R', &b)] {{ let s = s.clone(); session(\"p{u}\", {streams}, side, ({fail}, {panics}), move || {{ let r = Src(s.into_iter()).parse(p); log(format!(\"result {{:?}}\", r)); }}); }}");
        streams += 1;
    }
    ctx_stats.push((if a.conflicts > 0 { "grammars with conflicts" } else { "grammars without conflicts" }, 1));
    if g.has_error() {
        ctx_stats.push(("grammars with ERROR", 1));
    }
    let _ = writeln!(code, "    pub fn run() {{\n        use parser::Parse;\n        let (a, b) = ({fname}(), built());\n{run}    }}\n}}");
    Unit { code, calls: format!("    p{u}::run();\n"), streams, what: format!("grammar {}", g.show()) }
}

struct Scratch(String);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn limited(cmd: &mut Command, cpu: u64) {
    unsafe {
        cmd.pre_exec(move || {
            let lim = libc::rlimit { rlim_cur: cpu, rlim_max: cpu + 2 };
            libc::setrlimit(libc::RLIMIT_CPU, &lim);
            // one processor: the compiler's few threads take turns in a repeatable order
            let cpu = libc::sched_getcpu();
            if cpu >= 0 {
                let mut set: libc::cpu_set_t = std::mem::zeroed();
                libc::CPU_SET(cpu as usize, &mut set);
                libc::sched_setaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &set);
            }
            Ok(())
        });
    }
}

fn finish(cmd: &mut Command, to_err: bool) -> (ExitStatus, String) {
    let mut out = memfd("out");
    let copy = Stdio::from(out.try_clone().unwrap());
    cmd.stdin(Stdio::null());
    if to_err {
        cmd.stdout(Stdio::null()).stderr(copy);
    } else {
        cmd.stdout(copy).stderr(Stdio::null());
    }
    let status = cmd.status().expect("cannot start a process");
    let mut bytes = Vec::new();
    out.seek(SeekFrom::Start(0)).unwrap();
    out.read_to_end(&mut bytes).unwrap();
    (status, String::from_utf8_lossy(&bytes).into_owned())
}

fn cut(s: &str, n: usize) -> String {
    if s.chars().count() > n {
        format!("{}…", s.chars().take(n).collect::<String>())
    } else {
        s.to_string()
    }
}

pub fn scenario(ctx: &mut Ctx) -> Result<(), Viol> {
    let tools = TOOLS.get().expect("prepare() was not called");
    let mut stats = Vec::new();
    let (nt, np) = match ctx.ch.below(4) {
        0 => (1, 0),
        1 => (0, 1),
        2 => (2, 2),
        _ => (ctx.ch.range(1, 3), ctx.ch.range(1, 5)),
    };
    let compile_seed = ctx.ch.choose(1 << 30);
    let run_seed = ctx.ch.choose(1 << 30);
    let layout = *ctx.ch.pick(&["", ",tcache:false", ",tcache_max:64", ",lg_extent_max_active_fit:0"]);
    ctx.count("env: compiler heap layouts drawn", 1);
    let mut units = Vec::new();
    for u in 0..nt {
        units.push(tok_unit(&mut ctx.ch, u, &mut stats));
    }
    for u in 0..np {
        units.push(par_unit(&mut ctx.ch, u, &mut stats));
    }
    for (k, n) in stats {
        if n > 0 {
            ctx.count(k, n);
        }
    }
    let mut text = format!("{PRELUDE}\npub type Pair = (usize, char);\npub const SOME: u32 = 5;\n");
    for u in &units {
        text += &u.code;
    }
    text += "fn main() {\n    std::panic::set_hook(Box::new(|_| {}));\n";
    for u in &units {
        text += &u.calls;
    }
    text += "}\n";
    ctx.absorb(&text);
    ctx.note(|| format!("compiler hash seed {compile_seed}, program hash seed {run_seed}; the program:"));
    if ctx.tracing {
        let from = text.find("pub type Pair").unwrap_or(0);
        ctx.trace.extend(text[from..].lines().map(str::to_string));
    }
    let dir = Scratch(target(&format!("c08/{:08}", std::process::id())));
    let _ = std::fs::remove_dir_all(&dir.0);
    std::fs::create_dir_all(&dir.0).expect("cannot make the scratch directory");
    let src = format!("{}/prog.rs", dir.0);
    let exe = format!("{}/prog", dir.0);
    std::fs::write(&src, &text).expect("cannot write the program");
    let mut cmd = Command::new(&tools.rustc);
    // nothing the compiler sees differs between two executions of this run but digits of a path
    cmd.current_dir(&dir.0).arg("prog.rs").args(["--edition", "2021", "-C", "opt-level=0", "-C", "debuginfo=0", "-C", "codegen-units=1", "-C", "debug-assertions=on", "-o", "prog"]);
    cmd.args(["-L", &format!("dependency={}", tools.deps)]);
    for (n, f) in &tools.externs {
        cmd.args(["--extern", &format!("{n}={f}")]);
    }
    cmd.env_clear().env("PATH", "/usr/local/bin:/usr/bin:/bin").env("TMPDIR", ".").env("LD_PRELOAD", shim()).env("SIM_HASH", compile_seed.to_string());
    // the compiler's allocator: one arena, no purging by the clock
    cmd.env("MALLOC_CONF", format!("narenas:1,dirty_decay_ms:-1,muzzy_decay_ms:-1,background_thread:false{layout}"));
    limited(&mut cmd, 120);
    let (status, messages) = finish(&mut cmd, true);
    ctx.count("programs compiled", 1);
    if let Ok(b) = std::fs::read(&exe) {
        // the produced program is part of what must repeat exactly
        let h = b.iter().fold(0xcbf29ce484222325u64, |h, x| (h ^ *x as u64).wrapping_mul(0x100000001b3));
        ctx.absorb(&format!("{h:016x}"));
    }
    ctx.count("tokenizers expanded", nt as u64);
    ctx.count("parsers expanded", np as u64);
    if !status.success() {
        if status.signal() == Some(libc::SIGKILL) || status.code().is_none() && status.signal() != Some(libc::SIGXCPU) {
            panic!("the compiler was ended: {status:?}");
        }
        if messages.contains("No space left") || messages.contains("linking with") {
            panic!("the compiler failed: {}", cut(&messages, 2000));
        }
        ctx.note(|| format!("compiler output:\n{messages}"));
        let at = messages.find("error").unwrap_or(0);
        let whats: Vec<String> = units.iter().map(|u| u.what.clone()).collect();
        return viol("the macro output does not compile", format!("{status:?}: {} [{}]", cut(&messages[at..], 600), cut(&whats.join("; "), 900)));
    }
    let mut cmd = Command::new(&exe);
    cmd.env_clear().env("LD_PRELOAD", shim()).env("SIM_HASH", run_seed.to_string());
    limited(&mut cmd, 10);
    let (status, out) = finish(&mut cmd, false);
    ctx.absorb(&out);
    if ctx.tracing {
        ctx.trace.extend(out.lines().map(str::to_string));
    }
    let mut seen: std::collections::BTreeMap<(String, usize, char), String> = Default::default();
    for l in out.lines() {
        let mut it = l.splitn(4, '\t');
        let (Some(u), Some(s), Some(side), Some(log)) = (it.next(), it.next(), it.next(), it.next()) else { continue };
        let (Ok(s), Some(side)) = (s.parse::<usize>(), side.chars().next()) else { continue };
        ctx.count("simulated events", log.matches("; ").count() as u64 + 1);
        seen.insert((u.to_string(), s, side), log.to_string());
    }
    let mut compared = 0;
    for unit in &units {
        let name = unit.calls.trim().split(':').next().unwrap_or("").to_string();
        for s in 0..unit.streams {
            let m = seen.get(&(name.clone(), s, 'M'));
            let r = seen.get(&(name.clone(), s, 'R'));
            match (m, r) {
                (Some(m), Some(r)) if m == r => compared += 1,
                (Some(m), Some(r)) => {
                    let same = m.split("; ").zip(r.split("; ")).take_while(|(a, b)| a == b).count();
                    let (ma, ra) = (m.split("; ").nth(same).unwrap_or("(end)"), r.split("; ").nth(same).unwrap_or("(end)"));
                    return viol(
                        if name.starts_with('t') { "macro-made tokenizer differs from the built one" } else { "macro-made parser differs from the built one" },
                        format!("stream {s}, after {same} equal events: macro {}, built {} [{}]", cut(ma, 200), cut(ra, 200), cut(&unit.what, 600)),
                    );
                }
                (m, r) => {
                    if status.signal() == Some(libc::SIGKILL) {
                        panic!("the program was ended: {status:?}");
                    }
                    let which = if m.is_none() { "macro-made" } else { "built" };
                    let _ = r;
                    return viol("the program ends early", format!("{status:?} at stream {s} with the {which} instance [{}]", cut(&unit.what, 600)));
                }
            }
        }
    }
    if !status.success() {
        return viol("the program ends early", format!("{status:?} after all streams"));
    }
    ctx.count("streams compared", compared);
    ctx.nontrivial = compared > 0 && out.contains("reduce ") | out.contains("token ");
    ctx.sample = format!("compiler seed {compile_seed}: {}", cut(&units.iter().map(|u| u.what.clone()).collect::<Vec<_>>().join("; "), 300));
    Ok(())
}
