BUGS = {}
TI='tokenizer/src/tokenizer/iter.rs'; NFA='tokenizer/src/nfa.rs'; TT='tokenizer/src/tokenizer.rs'; PI='parser/src/iter.rs'; PP='parser/src/parser.rs'
TG='tokenizer_generator/src/lib.rs'; PG='parser_generator/src/lib.rs'; DFA='tokenizer/src/dfa.rs'

BUGS['c01-named-group'] = dict(
    property='C01', needs='a named group (?P<name>...) in a pattern',
    breaks='a named group is taken for an optional one',
    edits=[(NFA, 'HirKind::Group(group) =>', 'HirKind::Group(group) if matches!(group.kind, regex_syntax::hir::GroupKind::CaptureName { .. }) => NFA::try_from(*group.hir).map(NFA::zero_or_one),\n            HirKind::Group(group) =>')],
    main=r'''mod pre;
use pre::*;
fn main() {
    assert_eq!(lex(&["a(?P<x>b)c", "a", "c"], "acabc"), ["1:a", "2:c", "0:abc"]);
}
''')

BUGS['c01-size-hint'] = dict(
    property='C01', needs='a consumer that relies on the upper bound of the token stream size hint, and tokens left to be read again',
    breaks='the token stream promises at most as many tokens as the source has items left, ignoring the items given back',
    edits=[(TI, '''impl<I: Iterator, F: FnMut(&I::Item) -> char, T: Tokenizer<Input = I::Item>> Iterator for TokenizeIterator<I, F, T> {
    type Item = T::Output;
''', '''impl<I: Iterator, F: FnMut(&I::Item) -> char, T: Tokenizer<Input = I::Item>> Iterator for TokenizeIterator<I, F, T> {
    type Item = T::Output;

    fn size_hint(&self) -> (usize, Option<usize>) {
        (0, self.iter.size_hint().1)
    }
''')],
    main=r'''mod pre;
use pre::*;
fn main() {
    let (t, _) = lexer(&["a", "a+b"]);
    let mut s = "aaaaa".chars().tokenize(&t);
    assert!(s.next().is_some());
    let most = s.size_hint().1.unwrap_or(usize::MAX);
    assert!(s.count() <= most);
}
''')

BUGS['c01-nul'] = dict(
    property='C01', needs='a NUL character inside a longer token that already matched',
    breaks='a NUL character ends a token',
    edits=[(TI, 'let c = map(&item);', '''let c = map(&item);
            if c == '\\0' && chars.len() > 1 && last_matched_length > 0 {
                queue.push_front(item);
                break;
            }''')],
    main=r'''mod pre;
use pre::*;
fn main() {
    assert_eq!(lex(&["[a-z\\x00]+", "."], "ab\0cd"), ["0:ab\0cd"]);
}
''')

BUGS['c01-many-patterns-order'] = dict(
    property='C01', needs='twelve patterns or more, two of which match the same text',
    breaks='with many patterns the precedence among patterns follows their numbers as text',
    edits=[(DFA, 'for (nfa_node, i) in nfa.end().iter().zip(0..nfa.end().len()).rev() {', '''let mut ends: Vec<_> = nfa.end().iter().zip(0..nfa.end().len()).collect();
            ends.sort_by_key(|(_, i)| std::cmp::Reverse(format!("{:02}", i).bytes().map(|b| b as usize).sum::<usize>() * 1000 * (nfa.end().len() / 12) + i));
            for (nfa_node, i) in ends {''')],
    main=r'''mod pre;
use pre::*;
fn main() {
    let mut p: Vec<String> = (0..14).map(|i| format!("k{}", i)).collect();
    p[9] = "x".into();
    p[10] = "[x-z]".into();
    let p: Vec<&str> = p.iter().map(|s| s.as_str()).collect();
    assert_eq!(lex(&p, "xk3y"), ["9:x", "3:k3", "10:y"]);
}
''')

BUGS['c02-requeue-swap'] = dict(
    property='C02', needs='a failed look-ahead over a queue that still holds at least two items, seven in all',
    breaks='the items given back are put into a longer queue in the wrong order',
    edits=[(TI, '''            while items.len() > last_matched_length {
                queue.push_front(items.pop().unwrap());
            }''', '''            if items.len() > last_matched_length + 1 && queue.len() >= 2 {
                let rest = items.split_off(last_matched_length);
                for (k, item) in rest.into_iter().enumerate() {
                    queue.insert(k, item);
                }
                let n = queue.len();
                if n > 6 {
                    queue.swap(n - 1, n - 2);
                }
            }
            while items.len() > last_matched_length {
                queue.push_front(items.pop().unwrap());
            }''')],
    main=r'''mod pre;
use pre::*;
fn main() {
    // a long look-ahead fails, then a shorter one fails inside the items given back
    assert_eq!(lex(&["abcdefghijX", "bcdefY", "[a-j]"], "abcdefghij").concat(), "2:a2:b2:c2:d2:e2:f2:g2:h2:i2:j");
}
''')

BUGS['c06-rules-kept'] = dict(
    property='C06', needs='nested ERROR rules where going outwards leaves the inner rule, which is then reduced ordinarily',
    breaks='the set of rules under recovery is no longer narrowed while it holds two rules or fewer',
    edits=[(PI, 'error_recovery_state = error_recovery_state.intersection(error_rules).cloned().collect();', 'if error_recovery_state.len() > 2 {\n                                        error_recovery_state = error_recovery_state.intersection(error_rules).cloned().collect();\n                                    }')],
    main=r'''mod pre;
use pre::*;
fn main() {
    let calls = Rc::new(Cell::new(0));
    let c = calls.clone();
    let rules = ["C=A", "C=E", "A=!aDe", "A=cD", "E=!bDi", "E=dD", "D=hA", "D=gE", "D=jC", "D=f"];
    let (p, _) = build('C', &rules, Some(Rc::new(move |_| Ok(c.set(c.get() + 1)))));
    calls.set(0);
    assert_eq!(parse(&p, "jhbgiebhcfafef"), "not found");
    assert_eq!(calls.get(), 0);
}
''')

BUGS['c06-end-far'] = dict(
    property='C06', needs='an error at the end of the input under more than six open symbols',
    breaks='at the end of the input recovery does not step back when the stack is deep',
    edits=[(PI, '(!is_eoi || !backtracked)', '(!is_eoi || !backtracked || stack.len() > 6)')],
    main=r'''mod pre;
use pre::*;
fn main() {
    let (p, _) = build('S', &["S=pSq", "S=x", "S=p!r"], None);
    assert_eq!(parse(&p, "pppppppp"), "not found");
}
''')

BUGS['c11-many-errors'] = dict(
    property='C11', needs='one error that takes more than 4096 recovery steps, or as many errors',
    breaks='the parser panics after 4096 recovery steps',
    edits=[(PI, 'None => {\n                    let is_eoi', 'None => {\n                    recoveries += 1;\n                    assert!(recoveries < 4096, "too many errors");\n                    let is_eoi'), (PI, 'let mut error_recovery_state = HashSet::new();', 'let mut error_recovery_state = HashSet::new();\n        let mut recoveries = 0u32;')],
    main=r'''mod pre;
use pre::*;
fn main() {
    let (p, _) = build('S', &["S=!a", "S=a"], None);
    let text = "b".repeat(5000) + "a";
    assert_eq!(parse(&p, &text).len(), parse(&p, &text[1..]).len() + 6);
}
''')

BUGS['c10-same-head'] = dict(
    property='C10', needs='a reduce/reduce conflict between two rules of one non-terminal',
    breaks='conflicts between rules of the same non-terminal are resolved without a warning',
    edits=[(PP, '''                        Some(Action::Reduce(reduce)) => {
                            warnings.push(CalcTableWarning::ReduceReduce { state: current_state.clone(), actions: [*reduce, item.rule] });''', '''                        Some(Action::Reduce(reduce)) => {
                            if rules[*reduce].non_terminal != rules[item.rule].non_terminal {
                                warnings.push(CalcTableWarning::ReduceReduce { state: current_state.clone(), actions: [*reduce, item.rule] });
                            }''')],
    main=r'''mod pre;
use pre::*;
fn main() {
    assert!(build('S', &["S=A", "A=B", "A=C", "B=b", "C=b"], None).1 > 0);
    assert!(build('S', &["S=aAb", "A=a", "A=a"], None).1 > 0);
}
''')

BUGS['c08-long-goto'] = dict(
    property='C08', needs='a grammar in the parser macro with a state from which more than 24 symbols lead on',
    breaks='the generated goto row of one state is cut after 24 entries, different ones in every compilation',
    edits=[(PG, 'let value_constructor = value.into_iter().map(|(key, value)| quote! {value.insert(symbols[#key], #value);});', 'let value_constructor = value.into_iter().take(24).map(|(key, value)| quote! {value.insert(symbols[#key], #value);});')],
    main=r'''use parser::enum_index_derive::EnumIndex;
use parser::Symbol;
use parser::{enum_index, Parse};
use parser_generator::parser;
#[derive(Debug, EnumIndex)]
pub enum Tok { T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13, T14, T15, T16, T17, T18, T19, T20, T21, T22, T23, T24, T25, T26 }
#[derive(Debug, EnumIndex, PartialEq)]
pub enum Sym { S(usize), N0(usize), N1(usize), N2(usize), N3(usize), N4(usize), N5(usize), N6(usize), N7(usize), N8(usize), N9(usize), N10(usize), N11(usize), N12(usize), N13(usize), N14(usize), N15(usize), N16(usize), N17(usize), N18(usize), N19(usize), N20(usize), N21(usize), N22(usize), N23(usize), N24(usize), N25(usize), N26(usize) }
parser! {
    fn make() -> LR1Parser {
        token Tok { t0 = T0, t1 = T1, t2 = T2, t3 = T3, t4 = T4, t5 = T5, t6 = T6, t7 = T7, t8 = T8, t9 = T9, t10 = T10, t11 = T11, t12 = T12, t13 = T13, t14 = T14, t15 = T15, t16 = T16, t17 = T17, t18 = T18, t19 = T19, t20 = T20, t21 = T21, t22 = T22, t23 = T23, t24 = T24, t25 = T25, t26 = T26, }
        symbol Sym { S = S(0), N0 = N0(0), N1 = N1(0), N2 = N2(0), N3 = N3(0), N4 = N4(0), N5 = N5(0), N6 = N6(0), N7 = N7(0), N8 = N8(0), N9 = N9(0), N10 = N10(0), N11 = N11(0), N12 = N12(0), N13 = N13(0), N14 = N14(0), N15 = N15(0), N16 = N16(0), N17 = N17(0), N18 = N18(0), N19 = N19(0), N20 = N20(0), N21 = N21(0), N22 = N22(0), N23 = N23(0), N24 = N24(0), N25 = N25(0), N26 = N26(0), }
        errortype String;
        start S;
        <S>::= <N0> [t0]: [Symbol::NonTerminal(Sym::N0(n)), _] => Ok(Sym::S(*n));
        <N0>::= [t0]: [_] => Ok(Sym::N0(0));
        <S>::= <N1> [t0]: [Symbol::NonTerminal(Sym::N1(n)), _] => Ok(Sym::S(*n));
        <N1>::= [t1]: [_] => Ok(Sym::N1(1));
        <S>::= <N2> [t0]: [Symbol::NonTerminal(Sym::N2(n)), _] => Ok(Sym::S(*n));
        <N2>::= [t2]: [_] => Ok(Sym::N2(2));
        <S>::= <N3> [t0]: [Symbol::NonTerminal(Sym::N3(n)), _] => Ok(Sym::S(*n));
        <N3>::= [t3]: [_] => Ok(Sym::N3(3));
        <S>::= <N4> [t0]: [Symbol::NonTerminal(Sym::N4(n)), _] => Ok(Sym::S(*n));
        <N4>::= [t4]: [_] => Ok(Sym::N4(4));
        <S>::= <N5> [t0]: [Symbol::NonTerminal(Sym::N5(n)), _] => Ok(Sym::S(*n));
        <N5>::= [t5]: [_] => Ok(Sym::N5(5));
        <S>::= <N6> [t0]: [Symbol::NonTerminal(Sym::N6(n)), _] => Ok(Sym::S(*n));
        <N6>::= [t6]: [_] => Ok(Sym::N6(6));
        <S>::= <N7> [t0]: [Symbol::NonTerminal(Sym::N7(n)), _] => Ok(Sym::S(*n));
        <N7>::= [t7]: [_] => Ok(Sym::N7(7));
        <S>::= <N8> [t0]: [Symbol::NonTerminal(Sym::N8(n)), _] => Ok(Sym::S(*n));
        <N8>::= [t8]: [_] => Ok(Sym::N8(8));
        <S>::= <N9> [t0]: [Symbol::NonTerminal(Sym::N9(n)), _] => Ok(Sym::S(*n));
        <N9>::= [t9]: [_] => Ok(Sym::N9(9));
        <S>::= <N10> [t0]: [Symbol::NonTerminal(Sym::N10(n)), _] => Ok(Sym::S(*n));
        <N10>::= [t10]: [_] => Ok(Sym::N10(10));
        <S>::= <N11> [t0]: [Symbol::NonTerminal(Sym::N11(n)), _] => Ok(Sym::S(*n));
        <N11>::= [t11]: [_] => Ok(Sym::N11(11));
        <S>::= <N12> [t0]: [Symbol::NonTerminal(Sym::N12(n)), _] => Ok(Sym::S(*n));
        <N12>::= [t12]: [_] => Ok(Sym::N12(12));
        <S>::= <N13> [t0]: [Symbol::NonTerminal(Sym::N13(n)), _] => Ok(Sym::S(*n));
        <N13>::= [t13]: [_] => Ok(Sym::N13(13));
        <S>::= <N14> [t0]: [Symbol::NonTerminal(Sym::N14(n)), _] => Ok(Sym::S(*n));
        <N14>::= [t14]: [_] => Ok(Sym::N14(14));
        <S>::= <N15> [t0]: [Symbol::NonTerminal(Sym::N15(n)), _] => Ok(Sym::S(*n));
        <N15>::= [t15]: [_] => Ok(Sym::N15(15));
        <S>::= <N16> [t0]: [Symbol::NonTerminal(Sym::N16(n)), _] => Ok(Sym::S(*n));
        <N16>::= [t16]: [_] => Ok(Sym::N16(16));
        <S>::= <N17> [t0]: [Symbol::NonTerminal(Sym::N17(n)), _] => Ok(Sym::S(*n));
        <N17>::= [t17]: [_] => Ok(Sym::N17(17));
        <S>::= <N18> [t0]: [Symbol::NonTerminal(Sym::N18(n)), _] => Ok(Sym::S(*n));
        <N18>::= [t18]: [_] => Ok(Sym::N18(18));
        <S>::= <N19> [t0]: [Symbol::NonTerminal(Sym::N19(n)), _] => Ok(Sym::S(*n));
        <N19>::= [t19]: [_] => Ok(Sym::N19(19));
        <S>::= <N20> [t0]: [Symbol::NonTerminal(Sym::N20(n)), _] => Ok(Sym::S(*n));
        <N20>::= [t20]: [_] => Ok(Sym::N20(20));
        <S>::= <N21> [t0]: [Symbol::NonTerminal(Sym::N21(n)), _] => Ok(Sym::S(*n));
        <N21>::= [t21]: [_] => Ok(Sym::N21(21));
        <S>::= <N22> [t0]: [Symbol::NonTerminal(Sym::N22(n)), _] => Ok(Sym::S(*n));
        <N22>::= [t22]: [_] => Ok(Sym::N22(22));
        <S>::= <N23> [t0]: [Symbol::NonTerminal(Sym::N23(n)), _] => Ok(Sym::S(*n));
        <N23>::= [t23]: [_] => Ok(Sym::N23(23));
        <S>::= <N24> [t0]: [Symbol::NonTerminal(Sym::N24(n)), _] => Ok(Sym::S(*n));
        <N24>::= [t24]: [_] => Ok(Sym::N24(24));
        <S>::= <N25> [t0]: [Symbol::NonTerminal(Sym::N25(n)), _] => Ok(Sym::S(*n));
        <N25>::= [t25]: [_] => Ok(Sym::N25(25));
        <S>::= <N26> [t0]: [Symbol::NonTerminal(Sym::N26(n)), _] => Ok(Sym::S(*n));
        <N26>::= [t26]: [_] => Ok(Sym::N26(26));
    }
}
fn main() {
    let p = make();
    assert_eq!(vec![Tok::T0, Tok::T0].parse(&p).unwrap(), Sym::S(0));
    assert_eq!(vec![Tok::T1, Tok::T0].parse(&p).unwrap(), Sym::S(1));
    assert_eq!(vec![Tok::T2, Tok::T0].parse(&p).unwrap(), Sym::S(2));
    assert_eq!(vec![Tok::T3, Tok::T0].parse(&p).unwrap(), Sym::S(3));
    assert_eq!(vec![Tok::T4, Tok::T0].parse(&p).unwrap(), Sym::S(4));
    assert_eq!(vec![Tok::T5, Tok::T0].parse(&p).unwrap(), Sym::S(5));
    assert_eq!(vec![Tok::T6, Tok::T0].parse(&p).unwrap(), Sym::S(6));
    assert_eq!(vec![Tok::T7, Tok::T0].parse(&p).unwrap(), Sym::S(7));
    assert_eq!(vec![Tok::T8, Tok::T0].parse(&p).unwrap(), Sym::S(8));
    assert_eq!(vec![Tok::T9, Tok::T0].parse(&p).unwrap(), Sym::S(9));
    assert_eq!(vec![Tok::T10, Tok::T0].parse(&p).unwrap(), Sym::S(10));
    assert_eq!(vec![Tok::T11, Tok::T0].parse(&p).unwrap(), Sym::S(11));
    assert_eq!(vec![Tok::T12, Tok::T0].parse(&p).unwrap(), Sym::S(12));
    assert_eq!(vec![Tok::T13, Tok::T0].parse(&p).unwrap(), Sym::S(13));
    assert_eq!(vec![Tok::T14, Tok::T0].parse(&p).unwrap(), Sym::S(14));
    assert_eq!(vec![Tok::T15, Tok::T0].parse(&p).unwrap(), Sym::S(15));
    assert_eq!(vec![Tok::T16, Tok::T0].parse(&p).unwrap(), Sym::S(16));
    assert_eq!(vec![Tok::T17, Tok::T0].parse(&p).unwrap(), Sym::S(17));
    assert_eq!(vec![Tok::T18, Tok::T0].parse(&p).unwrap(), Sym::S(18));
    assert_eq!(vec![Tok::T19, Tok::T0].parse(&p).unwrap(), Sym::S(19));
    assert_eq!(vec![Tok::T20, Tok::T0].parse(&p).unwrap(), Sym::S(20));
    assert_eq!(vec![Tok::T21, Tok::T0].parse(&p).unwrap(), Sym::S(21));
    assert_eq!(vec![Tok::T22, Tok::T0].parse(&p).unwrap(), Sym::S(22));
    assert_eq!(vec![Tok::T23, Tok::T0].parse(&p).unwrap(), Sym::S(23));
    assert_eq!(vec![Tok::T24, Tok::T0].parse(&p).unwrap(), Sym::S(24));
    assert_eq!(vec![Tok::T25, Tok::T0].parse(&p).unwrap(), Sym::S(25));
    assert_eq!(vec![Tok::T26, Tok::T0].parse(&p).unwrap(), Sym::S(26));
}
''')

BUGS['c09-deep'] = dict(
    property='C09', needs='a calculation with some two hundred open parentheses',
    breaks='the parser gives up when two hundred symbols are on its stack',
    edits=[(PI, 'stack.push((current_state, symbol));\n                    current_state = *state;', 'if stack.len() == 200 {\n                        return Err(ParseError::RecoveryRuleNotFound);\n                    }\n                    stack.push((current_state, symbol));\n                    current_state = *state;')],
    main=r'''use std::io::Write;
use std::process::*;
fn main() {
    let calc = std::env::current_exe().unwrap().with_file_name("calc");
    let mut child = Command::new(calc).stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().unwrap();
    let mut stdin = child.stdin.take().unwrap();
    let stdout = child.stdout.take().unwrap();
    writeln!(stdin, "{}1+2{}", "(".repeat(250), ")".repeat(250)).unwrap();
    drop(stdin);
    use std::io::BufRead;
    let out = std::io::BufReader::new(stdout).lines().take(2).map(|l| l.unwrap()).collect::<Vec<_>>();
    child.kill().unwrap();
    child.wait().unwrap();
    assert_eq!(out[1], "= 3");
}
''')
