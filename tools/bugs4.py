BUGS = {}
TI='tokenizer/src/tokenizer/iter.rs'; NFA='tokenizer/src/nfa.rs'; TT='tokenizer/src/tokenizer.rs'; PI='parser/src/iter.rs'; PP='parser/src/parser.rs'
DFA='tokenizer/src/dfa.rs'

COUNT = r'''mod pre;
#[allow(unused_imports)]
use pre::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering::Relaxed};
static LIVE: AtomicIsize = AtomicIsize::new(0);
struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as isize, Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as isize, Relaxed);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static GLOBAL: Counting = Counting;
fn live() -> isize {
    LIVE.load(Relaxed)
}
/// Bytes in use after 2, 4, 8, 16 and 32 equal lives may not keep growing.
#[allow(dead_code)]
fn lives(mut f: impl FnMut()) {
    let mut at = vec![];
    for i in 1..=32u32 {
        f();
        if i > 1 && i.is_power_of_two() {
            at.push(live());
        }
    }
    assert!(!at.windows(2).all(|w| w[0] < w[1]), "{at:?}");
}
'''

BUGS['c16-bounded-leak'] = dict(
    property='C16', needs='building a tokenizer from a pattern with a repetition like {0,3}, again and again',
    breaks='the states of a bounded repetition are never released',
    edits=[(NFA, '''                            (0, n) => {
                                let NFA { mut node, begin, mut end } = inner.clone();''', '''                            (0, n) => {
                                let NFA { mut node, begin, mut end } = Box::leak(Box::new(inner.clone())).clone();''')],
    main=COUNT + r'''
fn main() {
    lives(|| drop(lexer(&["ab{0,3}c", "[a-c]"])));
}
''')

BUGS['c16-failed-build'] = dict(
    property='C16', needs='a build that fails because a pattern is refused',
    breaks='the token constructors of a tokenizer whose build fails are never dropped',
    edits=[(TT, '''        let nfa = TokenizerNFA::try_from(regex.iter().map(|s| s.deref()).collect::<Vec<&str>>()).map_err(TokenizerBuildError::NFAConstructError)?;
        let (dfa, warnings) = nfa.into();
        let dfa = dfa.minify();
        Ok((DFATokenizer::new(dfa, functions), ''', '''        let functions = std::mem::ManuallyDrop::new(functions);
        let nfa = TokenizerNFA::try_from(regex.iter().map(|s| s.deref()).collect::<Vec<&str>>()).map_err(TokenizerBuildError::NFAConstructError)?;
        let (dfa, warnings) = nfa.into();
        let dfa = dfa.minify();
        Ok((DFATokenizer::new(dfa, std::mem::ManuallyDrop::into_inner(functions)), ''')],
    main=COUNT + r'''
fn main() {
    use std::rc::Rc;
    let held = Rc::new(());
    let other = held.clone();
    let r = tokenizer::DFATokenizer::<(), char>::builder().pattern("a", move |_, _| drop(other.clone())).pattern("^b", |_, _| ()).build();
    assert!(r.is_err());
    drop(r);
    assert_eq!(Rc::strong_count(&held), 1);
    let _ = live();
}
''')

BUGS['c16-forgotten-items'] = dict(
    property='C16', needs='a token stream that ends inside a match, or a constructor that panics',
    breaks='the items of a match that came to nothing are never dropped',
    edits=[(TI, 'let mut items = Vec::new();', 'let mut items = std::mem::ManuallyDrop::new(Vec::new());')],
    main=COUNT + r'''
use std::rc::Rc;
fn main() {
    use tokenizer::Tokenize;
    let held = Rc::new('a');
    let (t, _) = tokenizer::DFATokenizer::<(), Rc<char>>::builder().pattern("ab", |_, _| ()).build().unwrap();
    assert_eq!(vec![held.clone(), held.clone()].into_iter().tokenize_with(&t, |c: &Rc<char>| **c).count(), 0);
    assert_eq!(Rc::strong_count(&held), 1);
    let _ = live();
}
''')

BUGS['c16-stream-history'] = dict(
    property='C16', needs='a long token stream that is kept open',
    breaks='a token stream keeps the text of every token it has delivered',
    edits=[(TI, '''    map: F,
    tokenizer: T,
}

pub trait Tokenize:''', '''    map: F,
    tokenizer: T,
    read: String,
}

pub trait Tokenize:'''),
      (TI, 'map: char::clone, tokenizer }', 'map: char::clone, tokenizer, read: String::new() }'),
      (TI, 'queue: VecDeque::new(), map, tokenizer }', 'queue: VecDeque::new(), map, tokenizer, read: String::new() }'),
      (TI, 'let TokenizeIterator { iter, queue, map, tokenizer } = self;', 'let TokenizeIterator { iter, queue, map, tokenizer, read } = self;'),
      (TI, '''let s = chars.into_iter().take(last_matched_length).collect::<String>();
            Some(tokenizer.enum_maker(matched_index)(s.deref(), std::mem::take(&mut items)))''', '''let from = read.len();
            read.extend(chars.into_iter().take(last_matched_length));
            Some(tokenizer.enum_maker(matched_index)(&read[from..], std::mem::take(&mut items)))''')],
    main=COUNT + r'''
fn main() {
    use tokenizer::Tokenize;
    let (t, _) = tokenizer::DFATokenizer::<(), char>::builder().pattern("[a-z]+", |_, _| ()).pattern(" ", |_, _| ()).build().unwrap();
    let mut s = "ab cd ".chars().cycle().tokenize(&t);
    let mut at = vec![];
    for _ in 0..5 {
        for _ in 0..4000 {
            s.next().unwrap();
        }
        at.push(live());
    }
    assert!(at[4] < at[0] + 4000, "{at:?}");
}
''')

BUGS['c16-recovery-notes'] = dict(
    property='C16', needs='parses that recover from errors, again and again in one thread',
    breaks='every recovery of every parse is noted for good',
    edits=[(PI, '''pub trait Parse<N, E>: IntoIterator {''', '''thread_local! {
    static RECOVERIES: std::cell::RefCell<Vec<Range<usize>>> = std::cell::RefCell::new(Vec::new());
}

pub trait Parse<N, E>: IntoIterator {'''),
      (PI, '''                    if backtracked {
                        buffer.pop_front();
                    }
''', '''                    if backtracked {
                        buffer.pop_front();
                    }
                    RECOVERIES.with(|r| r.borrow_mut().push(head.min(error_head)..error_tail));
''')],
    main=COUNT + r'''
use parser::*;
use parser::enum_index::EnumIndex;
struct K(usize);
impl EnumIndex for K {
    fn enum_index(&self) -> usize {
        self.0
    }
}
fn main() {
    let (p, _) = LR1Parser::<K, K>::new(Syntax::builder()
        .rule(Rule::new_raw(0, &[Symbol::Terminal(0)], |_| Ok(K(0))))
        .rule(Rule::new_raw(0, &[Symbol::Error(())], |_| Ok(K(0))))
        .build_raw(0));
    let mut at = vec![];
    for _ in 0..5 {
        for _ in 0..1000 {
            let _ = vec![K(1)].into_iter().parse(&p);
        }
        at.push(live());
    }
    assert!(at[4] < at[0] + 4000, "{at:?}");
}
''')

BUGS['c16-failed-reduction'] = dict(
    property='C16', needs='a reducer that fails or panics with nodes among its arguments',
    breaks='the nodes handed to a reducer that fails are never dropped',
    edits=[(PI, 'let (state, mut rule_symbols): (Vec<_>, Vec<_>) = stack.drain(stack.len() - parser.rules[*rule].symbols.len()..).unzip();', 'let (state, rule_symbols): (Vec<_>, Vec<_>) = stack.drain(stack.len() - parser.rules[*rule].symbols.len()..).unzip();\n                    let mut taken = std::mem::ManuallyDrop::new(rule_symbols);\n                    let rule_symbols = &mut *taken;'),
      (PI, '''                    stack.push((current_state, reduced_symbol));
                    current_state = *parser.goto_table''', '''                    drop(rule_symbols);
                    drop(std::mem::ManuallyDrop::into_inner(taken));
                    stack.push((current_state, reduced_symbol));
                    current_state = *parser.goto_table''')],
    main=COUNT + r'''
use parser::*;
use parser::enum_index::EnumIndex;
use std::rc::Rc;
struct K(usize);
impl EnumIndex for K {
    fn enum_index(&self) -> usize {
        self.0
    }
}
#[derive(Debug)]
struct N(usize, Option<Rc<()>>);
impl EnumIndex for N {
    fn enum_index(&self) -> usize {
        self.0
    }
}
fn main() {
    let held = Rc::new(());
    let other = held.clone();
    let (p, _) = LR1Parser::<N, K, String>::new(Syntax::builder()
        .rule(Rule::new_raw(0, &[Symbol::NonTerminal(1)], |_| Err("no".to_string())))
        .rule(Rule::new_raw(1, &[Symbol::Terminal(0)], move |_| Ok(N(1, Some(other.clone())))))
        .build_raw(0));
    let r = vec![K(0)].into_iter().parse(&p);
    assert!(r.is_err());
    drop(r);
    drop(p);
    assert_eq!(Rc::strong_count(&held), 1);
    let _ = live();
}
''')
