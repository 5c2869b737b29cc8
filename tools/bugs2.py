BUGS = {}

BUGS['c01-many-optional'] = dict(
    property='C01', needs='a pattern with some fifty optional parts in a row',
    breaks='with very many empty moves at one place the later continuations are forgotten',
    edits=[('tokenizer/src/nfa.rs', r'''            for node in &node.epsilon {
                q.push_back(node.reference());
            }
            set.insert(node);''', r'''            if set.len() < 48 {
                for node in &node.epsilon {
                    q.push_back(node.reference());
                }
            }
            set.insert(node);''')],
    main=r'''mod pre;
use pre::*;
fn main() {
    let p = ('a'..='z').chain('A'..='Z').map(|c| format!("{}?", c)).collect::<String>() + "!";
    assert_eq!(lex(&[&p], "!az!YZ!"), ["0:!", "0:az!", "0:YZ!"]);
}
''')

BUGS['c01-wide-bounds'] = dict(
    property='C01', needs='a repetition {n,m} with m - n over thirteen and a text that uses nearly all of them',
    breaks='the optional copies of a bounded repetition are limited to thirteen',
    edits=[('tokenizer/src/nfa.rs', r'''for _ in 0..m - n - 1 {''', r'''for _ in 0..(m - n - 1).min(12) {''')],
    main=r'''mod pre;
use pre::*;
fn main() {
    assert_eq!(lex(&["a{2,20}b", "a"], "aaaaaaaaaaaaaaaaaab"), ["0:aaaaaaaaaaaaaaaaaab"]);
}
''')

BUGS['c01-pattern-u8'] = dict(
    property='C01', needs='a tokenizer of more than 256 patterns',
    breaks='the index of the matched pattern is cut to eight bits: the function of another pattern makes the token',
    edits=[('tokenizer/src/tokenizer.rs', r'''self.end.get(&node).copied()''', r'''self.end.get(&node).map(|i| *i as u8 as usize)''')],
    main=r'''mod pre;
use pre::*;
fn main() {
    let p: Vec<String> = (0..300).map(|i| format!("k{:03}", i)).collect();
    let p: Vec<&str> = p.iter().map(|s| s.as_str()).collect();
    assert_eq!(lex(&p, "k299k005k256"), ["299:k299", "5:k005", "256:k256"]);
}
''')

BUGS['c02-queue-cap'] = dict(
    property='C02', needs='a look-ahead that gives back more than 64 items',
    breaks='items given back beyond 64 are lost',
    edits=[('tokenizer/src/tokenizer/iter.rs', r'''            while items.len() > last_matched_length {
                queue.push_front(items.pop().unwrap());
            }''', r'''            while items.len() > last_matched_length {
                queue.push_front(items.pop().unwrap());
            }
            queue.truncate(64);''')],
    main=r'''mod pre;
use pre::*;
fn main() {
    let text = "a".repeat(100) + "c";
    assert_eq!(lex(&["a", "a+b", "c"], &text).len(), 101);
}
''')

BUGS['c02-stale-chars'] = dict(
    property='C02', needs='asking again after the stream said None in the middle of a source',
    breaks='characters of a failed match stay behind and become part of the text of the next token',
    edits=[('tokenizer/src/tokenizer/iter.rs', r'''    map: F,
    tokenizer: T,
}''', r'''    map: F,
    tokenizer: T,
    chars: Vec<char>,
}'''),
        ('tokenizer/src/tokenizer/iter.rs', r'''TokenizeIterator { iter: self, queue: VecDeque::new(), map: char::clone, tokenizer }''', r'''TokenizeIterator { iter: self, queue: VecDeque::new(), map: char::clone, tokenizer, chars: Vec::new() }'''),
        ('tokenizer/src/tokenizer/iter.rs', r'''TokenizeIterator { iter: self, queue: VecDeque::new(), map, tokenizer }''', r'''TokenizeIterator { iter: self, queue: VecDeque::new(), map, tokenizer, chars: Vec::new() }'''),
        ('tokenizer/src/tokenizer/iter.rs', r'''let TokenizeIterator { iter, queue, map, tokenizer } = self;''', r'''let TokenizeIterator { iter, queue, map, tokenizer, chars } = self;'''),
        ('tokenizer/src/tokenizer/iter.rs', r'''let mut chars = Vec::new();
''', r''''''),
        ('tokenizer/src/tokenizer/iter.rs', r'''let s = chars.into_iter().take(last_matched_length).collect::<String>();''', r'''let s = chars.drain(..).take(last_matched_length).collect::<String>();''')],
    main=r'''mod pre;
use pre::*;
fn main() {
    let (t, _) = lexer(&["ab+", "c"]);
    let mut stream = "axc".chars().tokenize(&t);
    assert_eq!(stream.next(), None);
    assert_eq!(stream.next().as_deref(), Some("1:c"));
}
''')

BUGS['c03-nesting-limit'] = dict(
    property='C03', needs='parses running inside reducers of other parses, seventeen deep',
    breaks='a parse nested more than sixteen deep in reducers of others fails',
    edits=[('parser/src/iter.rs', r'''        let mut iter = self.into_iter();
        let mut current_state''', r'''        thread_local! {
            static DEPTH: std::cell::Cell<usize> = std::cell::Cell::new(0);
        }
        let depth = DEPTH.with(|d| d.replace(d.get() + 1));
        let result = parse_at(self.into_iter(), parser, depth);
        DEPTH.with(|d| d.set(depth));
        result
    }
}

fn parse_at<I: Iterator, N, E>(mut iter: I, parser: &LR1Parser<N, I::Item, E>, depth: usize) -> Result<N, ParseError<E>>
    where
        I::Item: EnumIndex,
{
        if depth > 16 {
            return Err(ParseError::RecoveryRuleNotFound);
        }
        let mut current_state'''),
        ('parser/src/iter.rs', r'''                        unreachable!()
                    }
                }
            }
        }
    }
}
''', r'''                        unreachable!()
                    }
                }
            }
        }
}
''')],
    main=r'''mod pre;
use pre::*;
use std::sync::Arc;
thread_local! {
    static LEFT: Cell<usize> = Cell::new(20);
    static PARSER: RefCell<Option<Rc<LR1Parser<N, T, String>>>> = RefCell::new(None);
}
fn main() {
    let _ = Arc::new(());
    let hook: Hook = Rc::new(|_| {
        if LEFT.with(|l| l.get()) > 0 {
            LEFT.with(|l| l.set(l.get() - 1));
            let p = PARSER.with(|p| p.borrow().clone().unwrap());
            let r = parse(&p, "a");
            if r != "S(a0)" {
                return Err(r);
            }
        }
        Ok(())
    });
    let (p, _) = build('S', &["S=a"], Some(hook));
    let p = Rc::new(p);
    PARSER.with(|x| *x.borrow_mut() = Some(p.clone()));
    assert_eq!(parse(&p, "a"), "S(a0)");
    PARSER.with(|x| *x.borrow_mut() = None);
}
''')

BUGS['c04-conflict-order'] = dict(
    property='C04', needs='an ambiguous grammar with a reduce/reduce conflict, built more than once',
    breaks='which rule wins a reduce/reduce conflict depends on hash iteration order',
    edits=[('parser/src/parser.rs', r'''for item in state {
            if item.position == rules''', r'''for item in state.into_iter().collect::<HashSet<_>>() {
            if item.position == rules''')],
    main=r'''mod pre;
use pre::*;
fn main() {
    let results: std::collections::BTreeSet<String> = (0..60).map(|_| parse(&build('S', &["S=A", "S=B", "A=a", "B=a"], None).0, "a")).collect();
    assert_eq!(results.len(), 1, "{:?}", results);
}
''')

BUGS['c05-nullable-run'] = dict(
    property='C05', needs='four empty non-terminals in a row before a token',
    breaks='the look-ahead after more than three skipped empty non-terminals is lost',
    edits=[('parser/src/parser.rs', r'''        if !null.contains(symbol) {
            break;
        }
    }
    result
}''', r'''        skipped += 1;
        if !null.contains(symbol) || skipped > 3 {
            break;
        }
    }
    result
}'''),
        ('parser/src/parser.rs', r'''    let mut result = BTreeSet::new();
    for symbol in string {''', r'''    let mut result = BTreeSet::new();
    let mut skipped = 0;
    for symbol in string {''')],
    main=r'''mod pre;
use pre::*;
fn main() {
    let (p, w) = build('S', &["S=XABCDe", "X=x", "A=", "A=a", "B=", "B=b", "C=", "C=c", "D=", "D=d"], None);
    assert_eq!(w, 0);
    assert_eq!(parse(&p, "xe"), "S(X(x0) A() B() C() D() e1)");
}
''')

BUGS['c05-chain-nullable'] = dict(
    property='C05', needs='a chain of unit rules ending in an empty rule, declared from the top down, more than five long',
    breaks='emptiness is not carried through long chains of non-terminals',
    edits=[('parser/src/parser.rs', r'''    loop {
        let mut updated = false;
        for rule in &syntax.rules {
            if null''', r'''    for _ in 0..5 {
        let mut updated = false;
        for rule in &syntax.rules {
            if null''')],
    main=r'''mod pre;
use pre::*;
fn main() {
    let (p, w) = build('S', &["S=ZAy", "Z=x", "A=B", "B=C", "C=D", "D=E", "E=F", "F=G", "G=H", "H=", "H=h"], None);
    assert_eq!(w, 0);
    assert_eq!(parse(&p, "xy"), "S(Z(x0) A(B(C(D(E(F(G(H()))))))) y1)");
}
''')

BUGS['c05-merged-states'] = dict(
    property='C05', needs='two states with the same core, one with a subset of the look-aheads of the other, of more than six items',
    breaks='a state is merged into one with more look-aheads: reductions run where the parse should already have failed',
    edits=[('parser/src/parser.rs', r'''        let goto = calc_goto(&state, syntax, null, first);
''', r'''        let mut goto = calc_goto(&state, syntax, null, first);
        for new_state in goto.values_mut() {
            let core = |s: &StateInterop| s.iter().map(|i| (i.rule, i.position)).collect::<BTreeSet<_>>();
            if new_state.len() > 6 {
                if let Some(old) = state_list.keys().find(|s: &&StateInterop| core(s) == core(new_state) && s.is_superset(new_state)) {
                    *new_state = old.clone();
                }
            }
        }
''')],
    main=r'''mod pre;
use pre::*;
fn main() {
    let ran = Rc::new(Cell::new(0));
    let hook: Hook = Rc::new({
        let ran = ran.clone();
        move |_| {
            ran.set(ran.get() + 1);
            Ok(())
        }
    });
    let rules = ["S=AgB", "S=BC", "A=eB", "D=EF", "C=a", "F=", "A=i", "B=A", "A=G", "G=", "G=Hc", "H=I", "I=J", "J=D", "K=G", "E=K", "C="];
    let (p, _) = build('S', &rules, Some(hook));
    assert_eq!(parse(&p, "eegeigi"), "not found");
    assert_eq!(ran.get(), 6);
}
''')

BUGS['c05-deep-stack'] = dict(
    property='C05', needs='an input nested 4096 deep',
    breaks='deeply nested input is rejected',
    edits=[('parser/src/iter.rs', r'''stack.push((current_state, symbol));
                    current_state = *state;''', r'''if stack.len() >= 4096 {
                        return Err(ParseError::RecoveryRuleNotFound);
                    }
                    stack.push((current_state, symbol));
                    current_state = *state;''')],
    main=r'''mod pre;
use pre::*;
#[derive(Debug)]
struct Depth(usize);
impl EnumIndex for Depth {
    fn enum_index(&self) -> usize {
        0
    }
}
fn main() {
    std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(|| {
            let mut s = Syntax::<Depth, T, String>::builder();
            s = s.rule(Rule::new_raw(0, &[Symbol::Terminal(0), Symbol::NonTerminal(0)], |l: &mut [Symbol<&mut Depth, &T, &[T]>]| if let Symbol::NonTerminal(n) = &l[1] { Ok(Depth(n.0 + 1)) } else { unreachable!() }));
            s = s.rule(Rule::new_raw(0, &[Symbol::Terminal(1)], |_: &mut [Symbol<&mut Depth, &T, &[T]>]| Ok(Depth(0))));
            let (p, _) = LR1Parser::new(s.build_raw(0));
            let mut input = tokens(&"a".repeat(5000));
            input.push(T(1, 5000));
            assert_eq!(input.into_iter().parse(&p).unwrap().0, 5000);
        })
        .unwrap()
        .join()
        .unwrap();
}
''')

BUGS['c05-hint-trusted'] = dict(
    property='C05', needs='a stream of fewer than eight tokens with an exact size hint, parsed with by_ref so that the rest of the source stays in use',
    breaks='with an exact size hint the whole stream is taken at once and a failed parse leaves nothing behind',
    edits=[('parser/src/iter.rs', r'''        loop {
            if buffer.is_empty() {''', r'''        if let (n, Some(m)) = iter.size_hint() {
            if n == m && n > 0 && n < 8 {
                for symbol in iter.by_ref() {
                    buffer.push_back((TerminalSymbol::Symbol(symbol.enum_index()), symbols.len()));
                    symbols.push(symbol);
                }
            }
        }
        loop {
            if buffer.is_empty() {''')],
    main=r'''mod pre;
use pre::*;
fn main() {
    let (p, _) = build('S', &["S=abc"], None);
    let mut source = tokens("aacbb").into_iter();
    assert_eq!(show(source.by_ref().parse(&p)), "not found");
    assert_eq!(source.map(|t| t.1).collect::<Vec<_>>(), [2, 3, 4]);
}
''')

BUGS['c06-far-backtrack'] = dict(
    property='C06', needs='a recovery that goes back and parses more than sixteen tokens again',
    breaks='tokens to be parsed again after a long way back are lost beyond sixteen',
    edits=[('parser/src/iter.rs', r'''for index in (head..tail).into_iter().rev() {''', r'''for index in (head.max(tail.saturating_sub(16))..tail).into_iter().rev() {''')],
    main=r'''mod pre;
use pre::*;
fn main() {
    let spans = Rc::new(RefCell::new(Vec::new()));
    let mut syntax = Syntax::<N, T, String>::builder();
    for rule in ["S=NS", "S=", "N=dSb", "N=d!b", "N=ac"] {
        let symbols: Vec<Symbol<usize, usize, ()>> = rule[2..]
            .chars()
            .map(|c| match c {
                '!' => Symbol::Error(()),
                'A'..='Z' => Symbol::NonTerminal(c as usize - 'A' as usize),
                c => Symbol::Terminal(c as usize - 'a' as usize),
            })
            .collect();
        let head = rule.as_bytes()[0] as usize - 'A' as usize;
        let spans = spans.clone();
        syntax = syntax.rule(Rule::new_raw(head, &symbols, move |list: &mut [Symbol<&mut N, &T, &[T]>]| {
            for s in list.iter() {
                if let Symbol::Error(e) = s {
                    spans.borrow_mut().push((e.first().map_or(0, |t| t.1), e.len()));
                }
            }
            Ok(N(head, String::new()))
        }));
    }
    let (p, w) = LR1Parser::new(syntax.build_raw(18));
    assert_eq!(w.len(), 0);
    let _ = tokens("ddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddddacacbacbacbacbacbacbacbacbacbacbacbacbacbacbacbacbacbabacbacbacbacbacbacbacbacbacbacbacbacbacbacbacbacbacbacbacbacbacbacbacbacbacbacbacbacbacbacbacbacbacbacbacbacbacbacbacbacbacbacbacbacbacbacb").into_iter().parse(&p);
    assert_eq!(*spans.borrow(), [(47, 21), (30, 38), (13, 55)]);
}
''')

BUGS['c06-forget-at-end'] = dict(
    property='C06', needs='an incomplete recovery when the input ends',
    breaks='at the end of the input the recovery in progress is forgotten and any other rule may start',
    edits=[('parser/src/iter.rs', r'''                    let is_eoi = matches!(symbol, TerminalSymbol::EOI);
''', r'''                    let is_eoi = matches!(symbol, TerminalSymbol::EOI);
                    if is_eoi {
                        error_recovery_state.clear();
                    }
''')],
    main=r'''mod pre;
use pre::*;
fn main() {
    let (p, w) = build('S', &["S=AaB", "S=B", "A=bB", "A=c!", "B=A", "S=!B"], None);
    assert_eq!(w, 0);
    let r: Vec<String> = ["abccacccac", "bccacccac", "ac", "c", "acc", "cacc"].iter().map(|s| parse(&p, s)).collect();
    assert_eq!(r, ["not found", "S(A(b0 B(A(c1 ![2]))) a3 B(A(c4 ![5, 6, 7, 8])))", "not found", "S(B(A(c0 ![])))", "not found", "S(A(c0 ![1]) a1 B(A(c2 ![3])))"]);
}
''')

BUGS['c06-long-span'] = dict(
    property='C06', needs='a recovery that takes over an earlier one and spans more than eight tokens',
    breaks='an ERROR that takes over an earlier one and spans more than eight tokens loses the tokens of the earlier one',
    edits=[('parser/src/iter.rs', r'''Error(head.min(error_head)..error_tail)''', r'''Error(if error_tail - head > 8 { head } else { head.min(error_head) }..error_tail)''')],
    main=r'''mod pre;
use pre::*;
fn main() {
    let spans = Rc::new(RefCell::new(Vec::new()));
    let mut syntax = Syntax::<N, T, String>::builder();
    for rule in ["S=bS", "S=N", "N=NNj", "N=h", "N=fSd", "S=!N"] {
        let symbols: Vec<Symbol<usize, usize, ()>> = rule[2..]
            .chars()
            .map(|c| match c {
                '!' => Symbol::Error(()),
                'A'..='Z' => Symbol::NonTerminal(c as usize - 'A' as usize),
                c => Symbol::Terminal(c as usize - 'a' as usize),
            })
            .collect();
        let head = rule.as_bytes()[0] as usize - 'A' as usize;
        let spans = spans.clone();
        syntax = syntax.rule(Rule::new_raw(head, &symbols, move |list: &mut [Symbol<&mut N, &T, &[T]>]| {
            for s in list.iter() {
                if let Symbol::Error(e) = s {
                    spans.borrow_mut().push((e.first().map_or(0, |t| t.1), e.len()));
                }
            }
            Ok(N(head, String::new()))
        }));
    }
    let (p, w) = LR1Parser::new(syntax.build_raw(18));
    assert_eq!(w.len(), 0);
    let _ = tokens("bbfhfbfbfhdhjbhjddhjhjhjjdhj").into_iter().parse(&p);
    assert_eq!(*spans.borrow(), [(8, 6), (6, 8), (8, 6), (6, 8), (8, 6), (3, 11), (8, 6), (6, 8), (8, 6), (6, 8), (8, 6)]);
}
''')

BUGS['c07-unreported'] = dict(
    property='C07', needs='a reducer that fails while a recovery is in progress, after four tokens',
    breaks='the error of a reducer is replaced by a missing recovery rule',
    edits=[('parser/src/iter.rs', r'''(parser.rules[*rule].generator)(&mut rule_symbols[..]).map_err(ParseError::ErrorInReducer)?''', r'''match (parser.rules[*rule].generator)(&mut rule_symbols[..]) {
                        Ok(n) => n,
                        Err(e) if error_recovery_state.is_empty() || symbols.len() < 4 => return Err(ParseError::ErrorInReducer(e)),
                        Err(_) => return Err(ParseError::RecoveryRuleNotFound),
                    }''')],
    main=r'''mod pre;
use pre::*;
fn main() {
    let hook: Hook = Rc::new(|rule| if rule == 2 { Err("no".to_string()) } else { Ok(()) });
    let (p, w) = build('S', &["S=aTe", "T=!bC", "C=cc"], Some(hook));
    assert_eq!(w, 0);
    assert_eq!(parse(&p, "axbcce"), "reducer: no");
}
''')

BUGS['c07-second-try'] = dict(
    property='C07', needs='a reducer of a rule of six or more symbols that fails',
    breaks='a failing reducer of a long rule is called a second time',
    edits=[('parser/src/iter.rs', r'''(parser.rules[*rule].generator)(&mut rule_symbols[..]).map_err(ParseError::ErrorInReducer)?''', r'''(parser.rules[*rule].generator)(&mut rule_symbols[..]).or_else(|e| if rule_symbols.len() > 5 { (parser.rules[*rule].generator)(&mut rule_symbols[..]) } else { Err(e) }).map_err(ParseError::ErrorInReducer)?''')],
    main=r'''mod pre;
use pre::*;
fn main() {
    let calls = Rc::new(Cell::new(0));
    let hook: Hook = Rc::new({
        let calls = calls.clone();
        move |_| {
            calls.set(calls.get() + 1);
            if calls.get() == 1 { Err("first".to_string()) } else { Ok(()) }
        }
    });
    let (p, _) = build('S', &["S=abcdef"], Some(hook));
    assert_eq!(parse(&p, "abcdef"), "reducer: first");
    assert_eq!(calls.get(), 1);
}
''')

BUGS['c08-empty-begin'] = dict(
    property='C08', needs='a macro tokenizer whose first state accepts, as for a*',
    breaks='the generated tokenizer forgets that its first state accepts',
    edits=[('tokenizer_generator/src/lib.rs', r'''let (key, value): (Vec<_>, Vec<_>) = end.into_iter().unzip();
        quote''', r'''let (key, value): (Vec<_>, Vec<_>) = end.into_iter().filter(|(key, _)| *key != begin).unzip();
        quote''')],
    main=r'''use tokenizer::{DFATokenizer, Tokenize};
tokenizer_generator::tokenizer! {
    fn make() -> DFATokenizer {
        character char;
        token String;
        "(ab)*": |s, _| s.to_string();
    }
}
fn main() {
    let run = DFATokenizer::builder().pattern("(ab)*", |s, _: Vec<char>| s.to_string()).build().map_err(|_| ()).unwrap().0;
    assert_eq!("ababa".chars().tokenize(&make()).collect::<Vec<_>>(), "ababa".chars().tokenize(&run).collect::<Vec<_>>());
    assert_eq!("abab".chars().tokenize(&make()).collect::<Vec<_>>(), ["abab"]);
}
''')

BUGS['c08-one-error-rule'] = dict(
    property='C08', needs='a macro grammar with two ERROR rules in one state, the second completing, and a later error elsewhere',
    breaks='the generated parser knows only one ERROR rule per state',
    edits=[('parser_generator/src/lib.rs', r'''let value_constructor = value.into_iter().map(|v| quote! { value.insert(#v); });''', r'''let value_constructor = value.into_iter().min().map(|v| quote! { value.insert(#v); });'''),
        ('parser_generator/src/lib.rs', r'''                    #(#value_constructor)*
                    value.shrink_to_fit();
                    value
                };
                error_rules.insert''', r'''                    #value_constructor
                    value.shrink_to_fit();
                    value
                };
                error_rules.insert''')],
    main=r'''use parser::enum_index_derive::EnumIndex;
use parser::Symbol;
use parser::{enum_index, Parse};
use parser_generator::parser;
#[derive(Debug, EnumIndex)]
pub enum Tok { S, G, Comma, Semi, E, F }
#[derive(Debug, EnumIndex, PartialEq)]
pub enum Sym { P(usize), L(usize), I(usize), J(usize) }
parser! {
    fn make() -> LR1Parser {
        token Tok { "s" = S, "g" = G, "," = Comma, ";" = Semi, "e" = E, "f" = F, }
        symbol Sym { P = P(0), L = L(0), I = I(0), J = J(0), }
        errortype String;
        start P;
        <P>::= <L> "e" ERROR "f": [Symbol::NonTerminal(Sym::L(n)), ..] => Ok(Sym::P(*n));
        <L>::= "s" <I>: [..] => Ok(Sym::L(1));
        | "s" <J>: [..] => Ok(Sym::L(10));
        <I>::= ERROR ";": [..] => Ok(Sym::I(0));
        <J>::= ERROR ",": [..] => Ok(Sym::J(0));
    }
}
fn main() {
    use Tok::*;
    assert_eq!(vec![S, G, Semi, E, G, F].parse(&make()).unwrap(), Sym::P(1));
    assert_eq!(vec![S, G, Comma, E, G, F].parse(&make()).unwrap(), Sym::P(10));
}
''')

BUGS['c08-rule-number'] = dict(
    property='C08', needs='a macro grammar of more than 64 rules',
    breaks='the generated parser reduces by the wrong rule when there are more than 64',
    edits=[('parser_generator/src/lib.rs', r'''Action::Reduce(r) => quote! { parser::Action::Reduce(#r) },''', r'''Action::Reduce(r) => { let r = r % 64; quote! { parser::Action::Reduce(#r) } }''')],
    main=r'''use parser::enum_index_derive::EnumIndex;
use parser::Symbol;
use parser::{enum_index, Parse};
use parser_generator::parser;
#[derive(Debug, EnumIndex)]
pub enum Tok { T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13, T14, T15, T16, T17, T18, T19, T20, T21, T22, T23, T24, T25, T26, T27, T28, T29, T30, T31, T32, T33, T34, T35, T36, T37, T38, T39, T40, T41, T42, T43, T44, T45, T46, T47, T48, T49, T50, T51, T52, T53, T54, T55, T56, T57, T58, T59, T60, T61, T62, T63, T64, T65, T66, T67, T68, T69 }
#[derive(Debug, EnumIndex, PartialEq)]
pub enum Sym { P(usize), }
parser! {
    fn make() -> LR1Parser {
        token Tok { "t0" = T0, "t1" = T1, "t2" = T2, "t3" = T3, "t4" = T4, "t5" = T5, "t6" = T6, "t7" = T7, "t8" = T8, "t9" = T9, "t10" = T10, "t11" = T11, "t12" = T12, "t13" = T13, "t14" = T14, "t15" = T15, "t16" = T16, "t17" = T17, "t18" = T18, "t19" = T19, "t20" = T20, "t21" = T21, "t22" = T22, "t23" = T23, "t24" = T24, "t25" = T25, "t26" = T26, "t27" = T27, "t28" = T28, "t29" = T29, "t30" = T30, "t31" = T31, "t32" = T32, "t33" = T33, "t34" = T34, "t35" = T35, "t36" = T36, "t37" = T37, "t38" = T38, "t39" = T39, "t40" = T40, "t41" = T41, "t42" = T42, "t43" = T43, "t44" = T44, "t45" = T45, "t46" = T46, "t47" = T47, "t48" = T48, "t49" = T49, "t50" = T50, "t51" = T51, "t52" = T52, "t53" = T53, "t54" = T54, "t55" = T55, "t56" = T56, "t57" = T57, "t58" = T58, "t59" = T59, "t60" = T60, "t61" = T61, "t62" = T62, "t63" = T63, "t64" = T64, "t65" = T65, "t66" = T66, "t67" = T67, "t68" = T68, "t69" = T69, }
        symbol Sym { P = P(0), }
        errortype String;
        start P;
        <P>::= "t0": [_] => Ok(Sym::P(0));
        <P>::= "t1": [_] => Ok(Sym::P(1));
        <P>::= "t2": [_] => Ok(Sym::P(2));
        <P>::= "t3": [_] => Ok(Sym::P(3));
        <P>::= "t4": [_] => Ok(Sym::P(4));
        <P>::= "t5": [_] => Ok(Sym::P(5));
        <P>::= "t6": [_] => Ok(Sym::P(6));
        <P>::= "t7": [_] => Ok(Sym::P(7));
        <P>::= "t8": [_] => Ok(Sym::P(8));
        <P>::= "t9": [_] => Ok(Sym::P(9));
        <P>::= "t10": [_] => Ok(Sym::P(10));
        <P>::= "t11": [_] => Ok(Sym::P(11));
        <P>::= "t12": [_] => Ok(Sym::P(12));
        <P>::= "t13": [_] => Ok(Sym::P(13));
        <P>::= "t14": [_] => Ok(Sym::P(14));
        <P>::= "t15": [_] => Ok(Sym::P(15));
        <P>::= "t16": [_] => Ok(Sym::P(16));
        <P>::= "t17": [_] => Ok(Sym::P(17));
        <P>::= "t18": [_] => Ok(Sym::P(18));
        <P>::= "t19": [_] => Ok(Sym::P(19));
        <P>::= "t20": [_] => Ok(Sym::P(20));
        <P>::= "t21": [_] => Ok(Sym::P(21));
        <P>::= "t22": [_] => Ok(Sym::P(22));
        <P>::= "t23": [_] => Ok(Sym::P(23));
        <P>::= "t24": [_] => Ok(Sym::P(24));
        <P>::= "t25": [_] => Ok(Sym::P(25));
        <P>::= "t26": [_] => Ok(Sym::P(26));
        <P>::= "t27": [_] => Ok(Sym::P(27));
        <P>::= "t28": [_] => Ok(Sym::P(28));
        <P>::= "t29": [_] => Ok(Sym::P(29));
        <P>::= "t30": [_] => Ok(Sym::P(30));
        <P>::= "t31": [_] => Ok(Sym::P(31));
        <P>::= "t32": [_] => Ok(Sym::P(32));
        <P>::= "t33": [_] => Ok(Sym::P(33));
        <P>::= "t34": [_] => Ok(Sym::P(34));
        <P>::= "t35": [_] => Ok(Sym::P(35));
        <P>::= "t36": [_] => Ok(Sym::P(36));
        <P>::= "t37": [_] => Ok(Sym::P(37));
        <P>::= "t38": [_] => Ok(Sym::P(38));
        <P>::= "t39": [_] => Ok(Sym::P(39));
        <P>::= "t40": [_] => Ok(Sym::P(40));
        <P>::= "t41": [_] => Ok(Sym::P(41));
        <P>::= "t42": [_] => Ok(Sym::P(42));
        <P>::= "t43": [_] => Ok(Sym::P(43));
        <P>::= "t44": [_] => Ok(Sym::P(44));
        <P>::= "t45": [_] => Ok(Sym::P(45));
        <P>::= "t46": [_] => Ok(Sym::P(46));
        <P>::= "t47": [_] => Ok(Sym::P(47));
        <P>::= "t48": [_] => Ok(Sym::P(48));
        <P>::= "t49": [_] => Ok(Sym::P(49));
        <P>::= "t50": [_] => Ok(Sym::P(50));
        <P>::= "t51": [_] => Ok(Sym::P(51));
        <P>::= "t52": [_] => Ok(Sym::P(52));
        <P>::= "t53": [_] => Ok(Sym::P(53));
        <P>::= "t54": [_] => Ok(Sym::P(54));
        <P>::= "t55": [_] => Ok(Sym::P(55));
        <P>::= "t56": [_] => Ok(Sym::P(56));
        <P>::= "t57": [_] => Ok(Sym::P(57));
        <P>::= "t58": [_] => Ok(Sym::P(58));
        <P>::= "t59": [_] => Ok(Sym::P(59));
        <P>::= "t60": [_] => Ok(Sym::P(60));
        <P>::= "t61": [_] => Ok(Sym::P(61));
        <P>::= "t62": [_] => Ok(Sym::P(62));
        <P>::= "t63": [_] => Ok(Sym::P(63));
        <P>::= "t64": [_] => Ok(Sym::P(64));
        <P>::= "t65": [_] => Ok(Sym::P(65));
        <P>::= "t66": [_] => Ok(Sym::P(66));
        <P>::= "t67": [_] => Ok(Sym::P(67));
        <P>::= "t68": [_] => Ok(Sym::P(68));
        <P>::= "t69": [_] => Ok(Sym::P(69));
    }
}
fn main() {
    assert_eq!(vec![Tok::T3].parse(&make()).unwrap(), Sym::P(3));
    assert_eq!(vec![Tok::T67].parse(&make()).unwrap(), Sym::P(67));
}
''')

BUGS['c10-error-lookahead'] = dict(
    property='C10', needs='a shift/reduce conflict on ERROR',
    breaks='conflicts between shifting ERROR and reducing before ERROR are not reported',
    edits=[('parser/src/parser.rs', r'''                        Some(Action::Shift(shift)) => {
''', r'''                        Some(Action::Shift(_)) if item.lookahead_symbol == TerminalSymbol::Error(()) => {}
                        Some(Action::Shift(shift)) => {
''')],
    main=r'''mod pre;
use pre::*;
fn main() {
    assert!(build('S', &["S=A!b", "A=c", "S=c!d"], None).1 > 0);
    assert_eq!(build('S', &["S=A!b", "A=c", "S=cd"], None).1, 0);
}
''')

BUGS['c10-end-of-input'] = dict(
    property='C10', needs='a reduce/reduce conflict at the end of the input in a state that can also shift',
    breaks='reduce/reduce conflicts at the end of the input are not reported where another token can be shifted',
    edits=[('parser/src/parser.rs', r'''                        Some(Action::Reduce(reduce)) => {
''', r'''                        Some(Action::Reduce(_)) if item.lookahead_symbol == TerminalSymbol::EOI && state_has_shift => {}
                        Some(Action::Reduce(reduce)) => {
'''),
        ('parser/src/parser.rs', r'''        let current_state = state.clone();
''', r'''        let current_state = state.clone();
        let state_has_shift = !action.is_empty();
''')],
    main=r'''mod pre;
use pre::*;
fn main() {
    assert!(build('S', &["S=A", "S=B", "S=ab", "A=a", "B=a"], None).1 > 0);
    assert_eq!(build('S', &["S=A", "S=ab", "A=a"], None).1, 0);
}
''')

BUGS['c10-fourth-rule'] = dict(
    property='C10', needs='four rules that could all reduce in one state',
    breaks='from the third conflict of a build on, the last rule wins instead of the first',
    edits=[('parser/src/parser.rs', r'''                        Some(Action::Reduce(reduce)) => {
                            warnings.push(CalcTableWarning::ReduceReduce { state: current_state.clone(), actions: [*reduce, item.rule] });''', r'''                        Some(Action::Reduce(reduce)) => {
                            let reduce = *reduce;
                            warnings.push(CalcTableWarning::ReduceReduce { state: current_state.clone(), actions: [reduce, item.rule] });
                            if warnings.len() > 2 {
                                action.insert(item.lookahead_symbol, Action::Reduce(item.rule));
                            }''')],
    main=r'''mod pre;
use pre::*;
fn main() {
    let (p, w) = build('S', &["S=A", "S=B", "S=C", "S=D", "A=x", "B=x", "C=x", "D=x"], None);
    assert!(w > 0);
    assert_eq!(parse(&p, "x"), "S(A(x0))");
}
''')

BUGS['c11-token-255'] = dict(
    property='C11', needs='the 256th token of a stream as the fourth or later symbol of a rule',
    breaks='building the argument list of a rule panics at the 256th token of the stream',
    edits=[('parser/src/iter.rs', r'''symbols_index = *i + 1;''', r'''symbols_index = *i + 1;
                                    assert!(symbols_index != 256 || rule_symbols_.len() < 3);''')],
    main=r'''mod pre;
use pre::*;
fn main() {
    let (p, w) = build('S', &["S=", "S=Saaaa"], None);
    assert_eq!(w, 0);
    assert!(tokens(&"a".repeat(256)).parse(&p).is_ok());
}
''')

BUGS['c12-peek'] = dict(
    property='C12', needs='a token of more than eight items and a source that counts',
    breaks='one item more than needed is taken while a long token is read',
    edits=[('tokenizer/src/tokenizer/iter.rs', r'''            if let Some(node) = tokenizer.next_node(current_node, c) {
''', r'''            if i > 8 && queue.is_empty() {
                queue.extend(iter.next());
            }
            if let Some(node) = tokenizer.next_node(current_node, c) {
''')],
    main=r'''mod pre;
use pre::*;
fn main() {
    let (t, _) = lexer(&["abcdefghijk", "l"]);
    let taken = Rc::new(Cell::new(0));
    let mut stream = Counting { inner: "abcdefghijkl".chars(), taken: taken.clone() }.tokenize(&t);
    assert_eq!(stream.next().unwrap(), "0:abcdefghijk");
    assert_eq!(taken.get(), 12);
    let taken = Rc::new(Cell::new(0));
    let mut stream = Counting { inner: "abcdefghXxyz".chars(), taken: taken.clone() }.tokenize(&t);
    assert_eq!(stream.next(), None);
    assert_eq!(taken.get(), 9);
    let taken = Rc::new(Cell::new(0));
    let mut stream = Counting { inner: "abcdefghiXxyz".chars(), taken: taken.clone() }.tokenize(&t);
    assert_eq!(stream.next(), None);
    assert_eq!(taken.get(), 10);
}
''')

BUGS['c12-after-failure'] = dict(
    property='C12', needs='a failed parse of more than four tokens whose source stays in use',
    breaks='a failing parse takes one token more from the source',
    edits=[('parser/src/iter.rs', r'''return Err(ParseError::RecoveryRuleNotFound);''', r'''{ if symbols.len() > 4 { let _ = iter.next(); } return Err(ParseError::RecoveryRuleNotFound); }''')],
    main=r'''mod pre;
use pre::*;
fn main() {
    let (p, _) = build('S', &["S=aaaab"], None);
    let mut source = tokens("aaaaabb").into_iter();
    assert_eq!(show(source.by_ref().parse(&p)), "not found");
    assert_eq!(source.map(|t| t.1).collect::<Vec<_>>(), [5, 6]);
}
''')
