PRE = 'mod pre;\nuse pre::*;\n'
TI = 'tokenizer/src/tokenizer/iter.rs'
TT = 'tokenizer/src/tokenizer.rs'
NFA = 'tokenizer/src/nfa.rs'
DFA = 'tokenizer/src/dfa.rs'
PI = 'parser/src/iter.rs'
PP = 'parser/src/parser.rs'
PG = 'parser_generator/src/lib.rs'
TG = 'tokenizer_generator/src/lib.rs'

BUGS = {}

BUGS['c01-range-skip'] = dict(
    property='C01', needs='a repetition {0,m} with m >= 3 matching exactly one copy',
    breaks='a{0,3} no longer matches a single a: the edge that leaves the repetition early is missing after the inner copies',
    edits=[(NFA, '''                                    guard.epsilon.insert(Edge(Arc::downgrade(&nfa.begin)));
                                    guard.epsilon.insert(Edge(Arc::downgrade(&inner.end)));
                                    drop(guard);
                                    end = nfa.end;
                                }
                                node.append(&mut inner.node);
                                let mut guard = end.write().unwrap();
                                guard.epsilon.insert(Edge(Arc::downgrade(&inner.begin)));
                                guard.epsilon.insert(Edge(Arc::downgrade(&inner.end)));
                                drop(guard);
                                end = inner.end;
                                Ok(NFA { node, begin, end }.zero_or_one())''', '''                                    guard.epsilon.insert(Edge(Arc::downgrade(&nfa.begin)));
                                    drop(guard);
                                    end = nfa.end;
                                }
                                node.append(&mut inner.node);
                                let mut guard = end.write().unwrap();
                                guard.epsilon.insert(Edge(Arc::downgrade(&inner.begin)));
                                guard.epsilon.insert(Edge(Arc::downgrade(&inner.end)));
                                drop(guard);
                                end = inner.end;
                                Ok(NFA { node, begin, end }.zero_or_one())''')],
    main=PRE + '''fn main() {
    assert_eq!(lex(&["ba{0,3}c"], "bcbacbaacbaaac"), ["0:bc", "0:bac", "0:baac", "0:baaac"]);
}
''')

BUGS['c01-range-overlap'] = dict(
    property='C01', needs='two character classes where one starts exactly at the last character of the other and both are possible in one state',
    breaks='the shared last character of two overlapping ranges loses one of its two continuations',
    edits=[(DFA, 'next_begin_map[i].1.range(upper + 1..)', 'next_begin_map[i].1.range(upper + 2..)')],
    main=PRE + '''fn main() {
    assert_eq!(lex(&["[a-m]x", "[m-z]y"], "axmxmyzy"), ["0:ax", "0:mx", "1:my", "1:zy"]);
}
''')

BUGS['c01-accept-sticky'] = dict(
    property='C01', needs='a long pattern that passes through the accepting text of an earlier-declared pattern and then matches itself',
    breaks='the longest match keeps the pattern of the shorter match when that one was declared earlier',
    edits=[(TI, '''                    last_matched_pattern = Some(index);
                    last_matched_length = i;''', '''                    last_matched_pattern = Some(last_matched_pattern.map_or(index, |old: usize| if i - last_matched_length == 1 { index } else { old.min(index) }));
                    last_matched_length = i;''')],
    main=PRE + '''fn main() {
    assert_eq!(lex(&["[0-9]+", "[0-9]+\\\\.[0-9]+", "."], "12 12.5"), ["0:12", "2: ", "1:12.5"]);
}
''')

BUGS['c02-queue-order'] = dict(
    property='C02', needs='a back-off of two or more items while an earlier back-off still has items queued',
    breaks='read-ahead items are queued behind older ones, so later tokens see them out of order',
    edits=[(TI, '''            while items.len() > last_matched_length {
                queue.push_front(items.pop().unwrap());
            }''', '''            queue.extend(items.drain(last_matched_length..));''')],
    main=PRE + '''fn main() {
    assert_eq!(lex(&["abcdef", "a", "bcd", "b", "c", "d", "e", "f", "x"], "abcdex"), ["1:a", "2:bcd", "6:e", "8:x"]);
    assert_eq!(lex(&["abcdef", "a", "bce", "b", "c", "d", "e", "f", "x"], "abcdex"), ["1:a", "3:b", "4:c", "5:d", "6:e", "8:x"]);
}
''')

BUGS['c02-requeue-reversed'] = dict(
    property='C02', needs='continuing to use a token stream after it returned None with two or more items taken',
    breaks='items of the failed match come back in reverse order',
    edits=[(TI, '''        } else {
            None
        }
    }
}

#[cfg(test)]''', '''        } else {
            for item in items {
                queue.push_front(item);
            }
            None
        }
    }
}

#[cfg(test)]''')],
    main=PRE + '''fn main() {
    let (t, _) = lexer(&["abx", "ba", "c", "a", "b"][..3]);
    let pause = Cell::new(0);
    let mut feed = vec![Some('a'), Some('b'), None, Some('c')].into_iter();
    let source = std::iter::from_fn(|| {
        pause.set(pause.get() + 1);
        feed.next().flatten()
    });
    let mut stream = source.tokenize(&t);
    assert_eq!(stream.next(), None);
    // whatever happens after the end, "ba" never came in this order
    for _ in 0..4 {
        if let Some(s) = stream.next() {
            assert_ne!(s, "1:ba");
        }
    }
}
''')

BUGS['c02-eager-fetch'] = dict(
    property='C02', needs='a source that counts how much is taken: one item too many is taken when a token ends exactly at the end of the queued read-ahead',
    breaks='after a token was delimited by queued items the next item is fetched although nothing is pending',
    edits=[(TI, '''            let s = chars.into_iter().take(last_matched_length).collect::<String>();''', '''            if queue.is_empty() && items.len() > 3 {
                queue.extend(iter.next());
            }
            let s = chars.into_iter().take(last_matched_length).collect::<String>();''')],
    main=PRE + '''fn main() {
    let (t, _) = lexer(&["abcd|abcdx", "a", "e"]);
    let taken = Rc::new(Cell::new(0));
    let source = std::iter::from_fn({
        let mut n = 0;
        let taken = taken.clone();
        move || {
            n += 1;
            taken.set(n);
            "abcd".chars().nth(n - 1)
        }
    });
    let mut stream = source.tokenize(&t);
    assert_eq!(stream.next().unwrap(), "0:abcd");
    assert_eq!(taken.get(), 5);
}
''')

REC_IMPORT = ('use std::collections::{HashSet, VecDeque};', 'use std::cell::RefCell;\nuse std::collections::{HashSet, VecDeque};')

BUGS['c03-shared-recovery'] = dict(
    property='C03', needs='a second parse started from a reducer while the outer parse is recovering from an error',
    breaks='the set of rules being recovered is kept per thread, so a nested parse wipes that of the outer one',
    edits=[
        (PI, 'use std::error::Error;\nuse std::fmt::{Display', 'use std::cell::RefCell;\nuse std::error::Error;\nuse std::fmt::{Display'),
        (PI, 'pub trait Parse<N, E>: IntoIterator {', 'thread_local! {\n    static RECOVERY: RefCell<HashSet<usize>> = RefCell::new(HashSet::new());\n}\n\npub trait Parse<N, E>: IntoIterator {'),
        (PI, '        let mut error_recovery_state = HashSet::new();\n', '        RECOVERY.with(|set| set.borrow_mut().clear());\n'),
        (PI, '''                    if error_recovery_state.contains(rule) {
                        error_recovery_state.clear();
                    }''', '''                    RECOVERY.with(|set| {
                        let mut set = set.borrow_mut();
                        if set.contains(rule) {
                            set.clear();
                        }
                    });'''),
        (PI, '''                                if error_recovery_state.is_empty() {
                                    error_recovery_state = error_rules.clone();
                                    break;
                                }
                                if !error_recovery_state.is_disjoint(error_rules) {
                                    error_recovery_state = error_recovery_state.intersection(error_rules).cloned().collect();
                                    break;
                                }''', '''                                let found = RECOVERY.with(|set| {
                                    let mut set = set.borrow_mut();
                                    if set.is_empty() {
                                        *set = error_rules.clone();
                                        true
                                    } else if !set.is_disjoint(error_rules) {
                                        *set = set.intersection(error_rules).cloned().collect();
                                        true
                                    } else {
                                        false
                                    }
                                });
                                if found {
                                    break;
                                }'''),
    ],
    main=PRE + '''// S -> [ A ]; A -> B | ! ; : the outer parse recovers with A -> ! ; and runs another parse while doing so
fn main() {
    let rules = ["S=aB", "B=!cD", "D=Ed", "D=!f", "E=e"];
    let input = "abceee";
    let (plain, _) = build('S', &rules, None);
    let alone = parse(&plain, input);
    let (other, _) = build('S', &["S=a"], None);
    let hook: Hook = Rc::new(move |_| {
        parse(&other, "a");
        Ok(())
    });
    let (nested, _) = build('S', &rules, Some(hook));
    for s in ["abceef", "abceed", "abcbced", "abcef", "abced", "abceb", "abcebced"] {
        assert_eq!(parse(&plain, s), parse(&nested, s), "{}", s);
    }
    assert_eq!(alone, parse(&nested, input));
}
''')

BUGS['c03-stale-scratch'] = dict(
    property='C03', needs='a parse that fails in a reducer (or not at all) while recovering, followed by another parse on the same thread',
    breaks='a pooled recovery set is not emptied when the previous parse left through an error, so the next parse starts half-way into a recovery',
    edits=[
        (PI, 'use std::error::Error;\nuse std::fmt::{Display', 'use std::cell::RefCell;\nuse std::error::Error;\nuse std::fmt::{Display'),
        (PI, 'pub trait Parse<N, E>: IntoIterator {', '''thread_local! {
    static POOL: RefCell<Vec<HashSet<usize>>> = RefCell::new(Vec::new());
}

/// A recovery set taken from a pool, so that parsing many short inputs does not allocate.
struct Pooled(HashSet<usize>);

impl Pooled {
    fn take() -> Self {
        Pooled(POOL.with(|pool| pool.borrow_mut().pop()).unwrap_or_default())
    }
}

impl Drop for Pooled {
    fn drop(&mut self) {
        let set = std::mem::take(&mut self.0);
        POOL.with(|pool| pool.borrow_mut().push(set));
    }
}

pub trait Parse<N, E>: IntoIterator {'''),
        (PI, '        let mut error_recovery_state = HashSet::new();\n', '        let mut pooled = Pooled::take();\n        let error_recovery_state = &mut pooled.0;\n'),
        (PI, 'error_recovery_state = error_rules.clone();', '*error_recovery_state = error_rules.clone();'),
        (PI, 'error_recovery_state = error_recovery_state.intersection(error_rules).cloned().collect();', '*error_recovery_state = error_recovery_state.intersection(error_rules).cloned().collect();'),
    ],
    main=PRE + '''fn main() {
    let (p, _) = build('S', &["S=aB", "S=cB", "B=bd", "S=!e", "B=!f"], None);
    let fresh = parse(&p, "abbe");
    let _ = parse(&p, "acc");
    assert_eq!(parse(&p, "abbe"), fresh);
    let _ = parse(&p, "accccb");
    let _ = parse(&p, "e");
    assert_eq!(parse(&p, "abbe"), fresh);
    assert_eq!(parse(&p, "abbf"), {
        std::thread::spawn(|| parse(&build('S', &["S=aB", "S=cB", "B=bd", "S=!e", "B=!f"], None).0, "abbf")).join().unwrap()
    });
}
''')

BUGS['c04-reduce-order'] = dict(
    property='C04', needs='a grammar with a reduce/reduce conflict, built more than once',
    breaks='which of two reducible rules wins depends on the hash seed of the build',
    edits=[(PP, '        for item in state {\n            if item.position', '        for item in state.into_iter().collect::<HashSet<_>>() {\n            if item.position')],
    main=PRE + '''fn main() {
    let results: std::collections::BTreeSet<String> = (0..60).map(|_| parse(&build('S', &["S=A", "S=B", "S=C", "A=a", "B=a", "C=a"], None).0, "a")).collect();
    assert_eq!(results.into_iter().collect::<Vec<_>>(), ["S(A(a0))"]);
}
''')

BUGS['c04-minify-stop'] = dict(
    property='C04', needs='an automaton whose refinement needs another round although the last group looked at was not split',
    breaks='automaton states that must be kept apart are merged, depending on the hash seed of the build',
    edits=[(DFA, 'updated |= split_group.len() > 1;', 'updated = split_group.len() > 1;')],
    main=PRE + '''fn main() {
    let pats = ["abcdefgh", "xbcdefgy", "[a-z]", "xxxxxz"];
    let results: std::collections::BTreeSet<Vec<String>> = (0..80).map(|_| lex(&pats, "abcdefghxbcdefgyabcdefgyxxxxxzaxxxz")).collect();
    assert_eq!(results.len(), 1);
}
''')

BUGS['c05-null-depth'] = dict(
    property='C05', needs='a chain of four nullable non-terminals declared in the order in which each depends on the next',
    breaks='nullable non-terminals at the end of a long dependency chain are not recognised as nullable, so lookaheads are missing',
    edits=[(PP, '''    let mut null = BTreeSet::new();
    loop {
        let mut updated = false;
        for rule in &syntax.rules {
            if null''', '''    let mut null = BTreeSet::new();
    for _ in 0..3 {
        let mut updated = false;
        for rule in &syntax.rules {
            if null''')],
    main=PRE + '''fn main() {
    let (p, w) = build('S', &["S=aXAb", "X=c", "A=B", "B=C", "C=D", "D="], None);
    assert_eq!(w, 0);
    assert_eq!(parse(&p, "acb"), "S(a0 X(c1) A(B(C(D()))) b2)");
}
''')

BUGS['c05-start-collision'] = dict(
    property='C05', needs='a grammar that does not use a low-numbered variant of its non-terminal enum',
    breaks='the internal start symbol gets the number of a symbol of the grammar, which thereby gets an extra rule',
    edits=[(PP, '(0..).into_iter().find(|i| !non_terminal_symbols.contains(i)).unwrap()', 'non_terminal_symbols.len()')],
    main=PRE + '''fn main() {
    // non-terminals 1 and 2 only
    let (p, w) = build('B', &["B=aC", "C=c"], None);
    assert_eq!(w, 0);
    assert_eq!(parse(&p, "ac"), "B(a0 C(c1))");
    assert_eq!(parse(&p, "aac"), "not found");
}
''')

BUGS['c05-first-skip'] = dict(
    property='C05', needs='a non-terminal followed by two nullable symbols before the next token',
    breaks='the lookahead behind two consecutive nullable symbols is lost',
    edits=[(PP, 'let follow = syntax.rules[item.rule].symbols.get(item.position + 1..).unwrap_or(&[]).iter().chain(Some(&lookahead_symbol));',
            'let follow = syntax.rules[item.rule].symbols.get(item.position + 1..).unwrap_or(&[]).iter().chain(Some(&lookahead_symbol)).take(if item.position == 0 { usize::MAX } else { 2 });')],
    main=PRE + '''fn main() {
    let (p, w) = build('S', &["S=aXABb", "X=c", "A=", "A=d", "B=", "B=e"], None);
    assert_eq!(w, 0);
    assert_eq!(parse(&p, "acb"), "S(a0 X(c1) A() B() b2)");
}
''')

BUGS['c06-no-narrowing'] = dict(
    property='C06', needs='a second error during a recovery at a point where a further ERROR rule applies that is not being recovered',
    breaks='the rules being recovered are replaced, not narrowed, so a recovery is considered finished by a rule that did not start it',
    edits=[(PI, 'error_recovery_state = error_recovery_state.intersection(error_rules).cloned().collect();', 'error_recovery_state = error_rules.clone();')],
    main=PRE + '''include!("cases.rs");
''')

BUGS['c06-clear-any'] = dict(
    property='C06', needs='an unrelated reduction between an error and the end of its recovery, then another error',
    breaks='any reduction of a rule containing ERROR, even one not being recovered, ends the recovery',
    edits=[(PI, '''                    if error_recovery_state.contains(rule) {''', '''                    if !error_recovery_state.is_empty() {''')],
    main=PRE + '''include!("cases.rs");
''')

BUGS['c06-drop-first'] = dict(
    property='C06', needs='a recovery that gives up only empty non-terminals',
    breaks='the token that did not fit is parsed again instead of being dropped',
    edits=[(PI, '''                    if backtracked {
                        buffer.pop_front();
                    }''', '''                    if backtracked && (head < tail || stack.len() > 2) {
                        buffer.pop_front();
                    }''')],
    main=PRE + '''include!("cases.rs");
''')

BUGS['c07-masked'] = dict(
    property='C07', needs='a reducer failing while a recovery is under way',
    breaks='the error of a reducer that runs during a recovery is replaced by the recovery-rule-not-found error',
    edits=[(PI, '.map_err(ParseError::ErrorInReducer)?, first_index));', '.map_err(|e| if error_recovery_state.is_empty() || error_recovery_state.contains(rule) { ParseError::ErrorInReducer(e) } else { ParseError::RecoveryRuleNotFound })?, first_index));')],
    main=PRE + '''fn main() {
    let hook: Hook = Rc::new(|rule| if rule == 2 { Err("no".to_string()) } else { Ok(()) });
    let (p, _) = build('S', &["S=aBc", "B=!X", "X=d", "B=b"], Some(hook));
    assert_eq!(parse(&p, "aadc"), "reducer: no");
    assert_eq!(parse(&p, "aeedc"), "reducer: no");
}
''')

BUGS['c07-late-error'] = dict(
    property='C07', needs='a failing reducer of an empty rule, with more input behind it',
    breaks='the error of an empty rule is reported only after another token was taken',
    edits=[(PI, '''                    current_state = state.first().copied().unwrap_or(current_state);
                    let reduced_symbol = SymbolInternal::NonTerminal(((parser.rules[*rule].generator)(&mut rule_symbols[..]).map_err(ParseError::ErrorInReducer)?, first_index));''',
            '''                    current_state = state.first().copied().unwrap_or(current_state);
                    let reduced = (parser.rules[*rule].generator)(&mut rule_symbols[..]);
                    if reduced.is_err() && rule_symbols.is_empty() {
                        iter.next();
                    }
                    let reduced_symbol = SymbolInternal::NonTerminal((reduced.map_err(ParseError::ErrorInReducer)?, first_index));''')],
    main=PRE + '''fn main() {
    let hook: Hook = Rc::new(|rule| if rule == 1 { Err("no".to_string()) } else { Ok(()) });
    let (p, _) = build('S', &["S=aBc", "B="], Some(hook));
    let taken = Rc::new(Cell::new(0));
    let source = Counting { inner: tokens("accc").into_iter(), taken: taken.clone() };
    assert_eq!(show(source.parse(&p)), "reducer: no");
    assert_eq!(taken.get(), 2);
}
''')

MACRO_HEAD = '''use parser::enum_index_derive::EnumIndex;
use parser::Symbol;
use parser::{enum_index, Parse};
use parser_generator::parser;
'''
BUGS['c08-goto-index'] = dict(
    property='C08', needs='a symbol list in the macro that is not in the order of the enum variants',
    breaks='the generated goto table is keyed by the position in the symbol list instead of the variant index',
    edits=[(PG, 'quote! {value.insert(symbols[#key], #value);}', 'quote! {value.insert(#key, #value);}')],
    main=MACRO_HEAD + '''#[derive(Debug, EnumIndex)]
pub enum Tok { A, B }
#[derive(Debug, EnumIndex, PartialEq)]
pub enum Sym { X(usize), S(usize) }
parser! {
    fn make() -> LR1Parser {
        token Tok { "a" = A, "b" = B, }
        symbol Sym { S = S(0), X = X(0), }
        errortype String;
        start S;
        <S>::= "a" <X>: [_, Symbol::NonTerminal(Sym::X(n))] => Ok(Sym::S(*n + 1));
        <X>::= "b": [_] => Ok(Sym::X(1));
    }
}
fn main() {
    assert_eq!(vec![Tok::A, Tok::B].parse(&make()).unwrap(), Sym::S(2));
}
''')

BUGS['c08-key-kind'] = dict(
    property='C08', needs='a token list with a name and a literal of the same spelling',
    breaks='a named token and a quoted token with the same text are taken for the same token',
    edits=[(PG, '''#[derive(Debug, Clone, Eq, PartialEq, Hash)]
enum TokenKey {
    Named(String),
    Raw(String),
}
''', '''#[derive(Debug, Clone, Eq)]
enum TokenKey {
    Named(String),
    Raw(String),
}

impl TokenKey {
    fn text(&self) -> &str {
        match self {
            TokenKey::Named(s) | TokenKey::Raw(s) => s,
        }
    }
}

impl PartialEq for TokenKey {
    fn eq(&self, other: &Self) -> bool {
        self.text() == other.text()
    }
}

impl std::hash::Hash for TokenKey {
    fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
        self.text().hash(state)
    }
}
''')],
    main=MACRO_HEAD + '''#[derive(Debug, EnumIndex)]
pub enum Tok { A, B }
#[derive(Debug, EnumIndex, PartialEq)]
pub enum Sym { S(usize) }
parser! {
    fn make() -> LR1Parser {
        token Tok { a = A, "a" = B, }
        symbol Sym { S = S(0), }
        errortype String;
        start S;
        <S>::= [a]: [_] => Ok(Sym::S(1));
        <S>::= "a": [_] => Ok(Sym::S(2));
    }
}
fn main() {
    assert_eq!(vec![Tok::A].parse(&make()).unwrap(), Sym::S(1));
    assert_eq!(vec![Tok::B].parse(&make()).unwrap(), Sym::S(2));
}
''')

BUGS['c08-follow-key'] = dict(
    property='C08', needs='three or more alternatives where a rule of another symbol was declared in between',
    breaks='the third alternative written with | is attached to the start symbol',
    edits=[(PG, '''            BNFRuleKey::Follow(_) => above_rule_key.expect("above rule is not found"),
        };
        above_rule_key = Some(start);''', '''            BNFRuleKey::Follow(_) => above_rule_key.take().or_else(|| keys.first().copied()).expect("above rule is not found"),
        };
        if let BNFRuleKey::Named { .. } = key {
            above_rule_key = Some(start);
        }''')],
    main=MACRO_HEAD + '''#[derive(Debug, EnumIndex)]
pub enum Tok { A, B, C, D }
#[derive(Debug, EnumIndex, PartialEq)]
pub enum Sym { S(usize), X(usize) }
parser! {
    fn make() -> LR1Parser {
        token Tok { "a" = A, "b" = B, "c" = C, "d" = D, }
        symbol Sym { S = S(0), X = X(0), }
        errortype String;
        start S;
        <S>::= "a" <X>: [_, Symbol::NonTerminal(Sym::X(n))] => Ok(Sym::S(*n));
        <X>::= "b": [_] => Ok(Sym::X(1));
        | "c": [_] => Ok(Sym::X(2));
        | "d": [_] => Ok(Sym::X(3));
    }
}
fn main() {
    assert_eq!(vec![Tok::A, Tok::D].parse(&make()).unwrap(), Sym::S(3));
}
''')

BUGS['c08-class-gap'] = dict(
    property='C08', needs='a macro tokenizer with two pattern pieces whose ranges share their start in different automaton states',
    breaks='the generated tokenizer merges adjacent ranges that lead to different states when the gap is one character',
    edits=[(TG, 'let (start, end): (Vec<_>, Vec<_>) = key.into_iter().map(|CharRange { range: Range { start, end } }| (start, end)).unzip();',
            'let (start, end): (Vec<_>, Vec<_>) = key.into_iter().map(|CharRange { range: Range { start, end } }| (start, if end == 0x10FFFF { end + 1 } else { end.min(0x10FFFF) })).unzip();')],
    main='''use tokenizer::{DFATokenizer, Tokenize};
tokenizer_generator::tokenizer! {
    fn make() -> DFATokenizer {
        character char;
        token String;
        "a": |s, _| s.to_string();
        "[^a]": |s, _| s.to_string();
    }
}
fn main() {
    let run = DFATokenizer::builder().pattern("a", |s, _| s.to_string()).pattern("[^a]", |s, _| s.to_string()).build().map_err(|_| ()).unwrap().0;
    let text = "\\u{10ffff}a\\u{10fffe}";
    assert_eq!(text.chars().tokenize(&make()).collect::<Vec<_>>(), text.chars().tokenize(&run).collect::<Vec<_>>());
}
''')

BUGS['c09-dot-class'] = dict(
    property='C09', needs='a number with an exponent whose digits are followed by nothing',
    breaks='an optional group leaves its skip edge out when it starts with a class, so some numbers are split',
    edits=[(TI, '''                    last_matched_pattern = Some(index);
                    last_matched_length = i;''', '''                    if i < 17 || last_matched_pattern != Some(index) {
                        last_matched_pattern = Some(index);
                        last_matched_length = i;
                    }''')],
    main='''use std::io::Write;
fn main() {
    // the calculator of the repository itself
    let repo = std::env::var("REPO").unwrap();
    let exe = format!("{}/example", std::env::var("EXE_DIR").unwrap());
    let _ = repo;
    let mut child = std::process::Command::new(exe).stdin(std::process::Stdio::piped()).stdout(std::process::Stdio::piped()).spawn().unwrap();
    let mut stdin = child.stdin.take().unwrap();
    stdin.write_all(b"12345678901234567890+1\\n").unwrap();
    drop(stdin);
    let out = std::io::BufRead::lines(std::io::BufReader::new(child.stdout.take().unwrap())).take(2).map(|l| l.unwrap()).collect::<Vec<_>>();
    child.kill().unwrap();
    child.wait().unwrap();
    assert_eq!(out[1], "= 12345678901234567000");
}
''')

BUGS['c10-same-symbol'] = dict(
    property='C10', needs='two rules of one non-terminal that can reduce the same text',
    breaks='a reduce/reduce conflict between two rules of the same non-terminal is not reported',
    edits=[(PP, '''                        Some(Action::Reduce(reduce)) => {
                            warnings''', '''                        Some(Action::Reduce(reduce)) if rules[*reduce].non_terminal == rules[item.rule].non_terminal => {}
                        Some(Action::Reduce(reduce)) => {
                            warnings''')],
    main=PRE + '''fn main() {
    let (_, w) = build('S', &["S=aB", "S=aC", "S=ab", "B=b", "C=b"], None);
    assert!(w > 0);
    let (_, w) = build('S', &["S=XA", "S=XB", "A=", "A=B", "B=", "X=x"], None);
    assert!(w > 0);
    let (_, w) = build('S', &["S=A", "A=B", "A=b", "B=", "A="], None);
    assert!(w > 0);
}
''')

BUGS['c10-end-conflict'] = dict(
    property='C10', needs='three patterns of which the first and the third match the same text',
    breaks='the ambiguity of two patterns is reported only if they were declared next to each other',
    edits=[(DFA, '''                    if let Some(old) = end.insert(node[index].reference(), i) {
                        warnings''', '''                    if let Some(old) = end.insert(node[index].reference(), i).filter(|old| old - i == 1) {
                        warnings''')],
    main=PRE + '''fn main() {
    assert!(lexer(&["abc", "x", "[a-z]bc"]).1 > 0);
    assert_eq!(lexer(&["abc", "x", "[b-z]bc"]).1, 0);
}
''')

BUGS['c11-no-drop'] = dict(
    property='C11', needs='a recovery that gives up only ERROR or empty non-terminals',
    breaks='a recovery that gave up no token drops none either, so the parse never ends',
    edits=[(PI, '''                    if backtracked {
                        buffer.pop_front();''', '''                    if head < tail {
                        buffer.pop_front();''')],
    main=PRE + '''fn main() {
    let (p, w) = build('S', &["S=a!b"], None);
    assert_eq!(w, 0);
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let (p, _) = build('S', &["S=a!b"], None);
        tx.send(parse(&p, "accb")).unwrap();
    });
    assert_eq!(rx.recv_timeout(std::time::Duration::from_secs(10)).unwrap(), "S(a0 ![1, 2] b3)");
    let _ = p;
}
''')

BUGS['c11-slice-panic'] = dict(
    property='C11', needs='a rule with a token after an ERROR that covers given-up tokens',
    breaks='collecting the arguments of a rule panics when a token was parsed again after a recovery',
    edits=[(PI, '''                                    let (symbol, follow) = symbols[*i - symbols_index..].split_first().unwrap();
                                    symbols = follow;
                                    symbols_index = *i + 1;
                                    Symbol::Terminal(symbol)''', '''                                    let (symbol, follow) = symbols[*i - symbols_index..].split_first().unwrap();
                                    if follow.is_empty() {
                                        symbols = follow;
                                        symbols_index = *i + 2;
                                    } else {
                                        symbols = &follow[1..];
                                        symbols_index = *i + 2;
                                    }
                                    Symbol::Terminal(symbol)''')],
    main=PRE + '''fn main() {
    let (p, _) = build('S', &["S=aXb", "X=", "X=c"], None);
    assert_eq!(parse(&p, "ab"), "S(a0 X() b1)");
}
''')

BUGS['c12-collect'] = dict(
    property='C12', needs='a grammar with ERROR rules fed from a lazy source',
    breaks='with ERROR rules in the grammar the whole token stream is read before the first reduction',
    edits=[(PI, '''        loop {
            if buffer.is_empty() {
                if let Some(symbol) = iter.next() {''', '''        if parser.error_rules.len() > 1 {
            // recovery needs to look back, so keep everything
            for symbol in &mut iter {
                buffer.push_back((TerminalSymbol::Symbol(symbol.enum_index()), symbols.len()));
                symbols.push(symbol);
            }
        }
        loop {
            if buffer.is_empty() {
                if let Some(symbol) = iter.next() {''')],
    main=PRE + '''fn main() {
    let taken = Rc::new(Cell::new(0));
    let seen = Rc::new(RefCell::new(Vec::new()));
    let hook: Hook = Rc::new({
        let (taken, seen) = (taken.clone(), seen.clone());
        move |_| {
            seen.borrow_mut().push(taken.get());
            Ok(())
        }
    });
    let (p, _) = build('S', &["S=SX", "S=X", "X=ab", "X=a!b", "X=c!b"], Some(hook));
    let source = Counting { inner: tokens("abababab").into_iter(), taken: taken.clone() };
    assert!(source.parse(&p).is_ok());
    assert_eq!(seen.borrow()[0], 3);
}
''')

BUGS['c12-prefetch'] = dict(
    property='C12', needs='observing how many tokens were taken when a reducer of a long rule runs',
    breaks='the token after the lookahead is fetched before rules of three or more symbols are reduced',
    edits=[(PI, '''                Some(Action::Reduce(rule)) => {
''', '''                Some(Action::Reduce(rule)) => {
                    let (rule, symbol_index) = (rule, &{ *symbol_index });
                    if buffer.len() == 1 && parser.rules[*rule].symbols.len() > 2 && *symbol_index + 1 == symbols.len() {
                        if let Some(symbol) = iter.next() {
                            buffer.push_back((TerminalSymbol::Symbol(symbol.enum_index()), symbols.len()));
                            symbols.push(symbol);
                        }
                    }
''')],
    main=PRE + '''fn main() {
    let taken = Rc::new(Cell::new(0));
    let seen = Rc::new(RefCell::new(Vec::new()));
    let hook: Hook = Rc::new({
        let (taken, seen) = (taken.clone(), seen.clone());
        move |_| {
            seen.borrow_mut().push(taken.get());
            Ok(())
        }
    });
    let (p, _) = build('S', &["S=SX", "S=X", "X=abc"], Some(hook));
    let source = Counting { inner: tokens("abcabcabc").into_iter(), taken: taken.clone() };
    assert!(source.parse(&p).is_ok());
    assert_eq!(seen.borrow()[0], 4);
}
''')

# --- second round: demonstrations corrected, and changes that replace ones the tests caught

BUGS['c03-shared-recovery']['main'] = PRE + '''fn main() {
    let rules = ["S=!A", "A=", "A=aBb", "A=Bb!", "B=b"];
    let (plain, _) = build('S', &rules, None);
    let (other, _) = build('S', &["S=a"], None);
    let hook: Hook = Rc::new(move |_| {
        parse(&other, "a");
        Ok(())
    });
    let (nested, _) = build('S', &rules, Some(hook));
    for s in ["bb", "bba", "cbb", "abba", "acbb"] {
        assert_eq!(parse(&nested, s), parse(&plain, s), "{}", s);
    }
}
'''
BUGS['c03-stale-scratch']['main'] = PRE + '''fn main() {
    let (first, _) = build('S', &["S=a!b"], None);
    assert_eq!(parse(&first, "ac"), "not found");
    let (second, _) = build('S', &["S=aA", "A=!b"], None);
    assert_eq!(parse(&second, "acb"), "S(a0 A(![1] b2))");
}
'''
BUGS['c10-same-symbol']['main'] = PRE + '''fn main() {
    assert_eq!(build('S', &["S=bA", "A=", "A=c"], None).1, 0);
    assert!(build('S', &["S=bA", "A=", "A="], None).1 > 0);
}
'''
BUGS['c06-no-narrowing']['main'] = PRE + '''fn main() {
    let (p, w) = build('S', &["S=!aTUb", "T=S", "T=!c", "U=d!e", "U=f"], None);
    assert_eq!(w, 0);
    assert_eq!(parse(&p, "gagcdgeb"), "not found");
    assert_eq!(parse(&p, "gagcfb"), "S(![0] a1 T(![2] c3) U(f4) b5)");
}
'''
BUGS['c06-clear-any']['main'] = PRE + '''fn main() {
    let (p, w) = build('S', &["S=!A", "A=", "A=aBb", "A=Bb!", "B=b"], None);
    assert_eq!(w, 0);
    assert_eq!(parse(&p, "bba"), "not found");
}
'''
del BUGS['c06-drop-first'], BUGS['c11-no-drop'], BUGS['c04-minify-stop'], BUGS['c01-range-overlap']

BUGS['c11-reparse-loop'] = dict(
    property='C11', needs='a completed recovery whose non-terminal begins with ERROR, given up by a later recovery',
    breaks='tokens which an earlier, completed recovery dropped are parsed again, recovered again, and so on for ever',
    edits=[(PI, '''                            SymbolInternal::Terminal((TerminalSymbol::Symbol(_), i)) => Some(*i),
                            _ => None,''', '''                            SymbolInternal::Terminal((TerminalSymbol::Symbol(_), i)) => Some(*i),
                            SymbolInternal::Terminal((TerminalSymbol::Error(range), _)) => Some(range.start),
                            _ => None,''')],
    main=PRE + '''fn main() {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let (p, w) = build('S', &["S=cAB", "A=!", "B=bba"], None);
        tx.send((w, parse(&p, "cabca"), parse(&p, "cabcbba"))).unwrap();
    });
    let r = rx.recv_timeout(std::time::Duration::from_secs(10)).unwrap();
    println!("{:?}", r);
    assert_eq!(r.0, 0);
}
''')

BUGS['c11-empty-token'] = dict(
    property='C11', needs='a pattern that matches the empty text, and a character no pattern matches',
    breaks='the token stream never ends but yields empty tokens for ever',
    edits=[(TI, 'if let Some(matched_index) = last_matched_pattern {', 'if let Some(matched_index) = last_matched_pattern.or_else(|| tokenizer.accept_index(tokenizer.begin())) {')],
    main=PRE + '''fn main() {
    let (t, _) = lexer(&["a*", "b"]);
    assert_eq!("aabx".chars().tokenize(&t).take(20).collect::<Vec<_>>(), ["0:aa", "1:b"]);
}
''')

BUGS['c04-dedup'] = dict(
    property='C04', needs='several ambiguous automaton states whose warnings repeat',
    breaks='how many warnings a build reports depends on hash iteration order: only neighbouring repetitions are removed',
    edits=[(DFA, '(TokenizerDFA { node, begin, end }, warnings)', '''warnings.dedup();
        (TokenizerDFA { node, begin, end }, warnings)''')],
    main=PRE + '''fn main() {
    let counts: std::collections::BTreeSet<usize> = (0..60).map(|_| lexer(&["[a-f]|ax|bx[0-9]?", "[a-c]|[x-z]", "[b-d]|bx", "[a-z]|ax|bx5"]).1).collect();
    assert_eq!(counts.len(), 1, "{:?}", counts);
}
''')

BUGS['c09-long-number'] = BUGS.pop('c09-dot-class')
BUGS['c09-long-number'].update(
    needs='a number of more than 16 characters on an input line',
    breaks='long numbers are split in two tokens, so the calculator reports an error for a valid line',
    main='''use std::io::{BufRead, Write};
fn main() {
    let exe = std::env::current_exe().unwrap().with_file_name("calc");
    let mut child = std::process::Command::new(exe).stdin(std::process::Stdio::piped()).stdout(std::process::Stdio::piped()).spawn().unwrap();
    let mut stdin = child.stdin.take().unwrap();
    stdin.write_all(b"12345678901234567890 + 1\\n2*3\\n").unwrap();
    drop(stdin);
    let out = std::io::BufReader::new(child.stdout.take().unwrap()).lines().take(3).map(|l| l.unwrap()).collect::<Vec<_>>();
    child.kill().unwrap();
    child.wait().unwrap();
    assert_eq!(out[1..], ["= 12345678901234567000", "= 6"]);
}
''')

BUGS['c02-eager-fetch'] = dict(
    property='C02', needs='a source that counts how much is taken, and a token of four or more items',
    breaks='after a long token one item more than needed is taken from the source before the token is delivered',
    edits=[(TI, '''            let s = chars.into_iter().take(last_matched_length).collect::<String>();''', '''            if queue.len() == 1 && last_matched_length > 3 {
                // long tokens come in series: read ahead
                queue.extend(iter.next());
            }
            let s = chars.into_iter().take(last_matched_length).collect::<String>();''')],
    main=PRE + '''fn main() {
    let (t, _) = lexer(&["[a-e]+", " "]);
    let taken = Rc::new(Cell::new(0));
    let source = Counting { inner: "abcd abcd".chars(), taken: taken.clone() };
    let mut stream = source.tokenize(&t);
    assert_eq!(stream.next().unwrap(), "0:abcd");
    assert_eq!(taken.get(), 5);
}
''')
