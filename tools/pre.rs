// Shared by the demonstrations: grammars written as "S=aBc" (upper case: non-terminal, lower case: terminal, !: ERROR).
#![allow(dead_code, unused_imports)]
pub use parser::enum_index::EnumIndex;
pub use parser::{LR1Parser, Parse, ParseError, Rule, Symbol, Syntax};
pub use std::cell::{Cell, RefCell};
pub use std::rc::Rc;
pub use tokenizer::{DFATokenizer, Tokenize};

#[derive(Clone, Debug)]
pub struct T(pub usize, pub usize);
#[derive(Debug)]
pub struct N(pub usize, pub String);
impl EnumIndex for T {
    fn enum_index(&self) -> usize {
        self.0
    }
}
impl EnumIndex for N {
    fn enum_index(&self) -> usize {
        self.0
    }
}
pub type Hook = Rc<dyn Fn(usize) -> Result<(), String>>;

pub fn build(start: char, rules: &[&str], hook: Option<Hook>) -> (LR1Parser<N, T, String>, usize) {
    let mut syntax = Syntax::<N, T, String>::builder();
    for (index, rule) in rules.iter().enumerate() {
        let mut chars = rule.chars();
        let head = chars.next().unwrap();
        assert_eq!(chars.next(), Some('='));
        let symbols: Vec<Symbol<usize, usize, ()>> = chars
            .map(|c| match c {
                '!' => Symbol::Error(()),
                'A'..='Z' => Symbol::NonTerminal(c as usize - 'A' as usize),
                c => Symbol::Terminal(c as usize - 'a' as usize),
            })
            .collect();
        let number = head as usize - 'A' as usize;
        let hook = hook.clone();
        syntax = syntax.rule(Rule::new_raw(number, &symbols, move |list: &mut [Symbol<&mut N, &T, &[T]>]| {
            if let Some(hook) = &hook {
                hook(index)?;
            }
            let args: Vec<String> = list
                .iter()
                .map(|s| match s {
                    Symbol::NonTerminal(n) => n.1.clone(),
                    Symbol::Terminal(t) => format!("{}{}", (b'a' + t.0 as u8) as char, t.1),
                    Symbol::Error(e) => format!("!{:?}", e.iter().map(|t| t.1).collect::<Vec<_>>()),
                })
                .collect();
            Ok(N(number, format!("{}({})", head, args.join(" "))))
        }));
    }
    let (parser, warnings) = LR1Parser::new(syntax.build_raw(start as usize - 'A' as usize));
    (parser, warnings.len())
}

pub fn tokens(s: &str) -> Vec<T> {
    s.chars().enumerate().map(|(i, c)| T(c as usize - 'a' as usize, i)).collect()
}

pub fn show(r: Result<N, ParseError<String>>) -> String {
    match r {
        Ok(n) => n.1,
        Err(ParseError::RecoveryRuleNotFound) => "not found".to_string(),
        Err(ParseError::ErrorInReducer(e)) => format!("reducer: {}", e),
    }
}

pub fn parse(p: &LR1Parser<N, T, String>, s: &str) -> String {
    show(tokens(s).into_iter().parse(p))
}

/// Tokenizes with the given patterns; each token is shown as "pattern:text".
pub fn lex(patterns: &[&str], text: &str) -> Vec<String> {
    let (t, _) = lexer(patterns);
    text.chars().tokenize(&t).collect()
}

pub fn lexer(patterns: &[&str]) -> (DFATokenizer<String, char>, usize) {
    let mut b = DFATokenizer::builder();
    for (i, p) in patterns.iter().enumerate() {
        b = b.pattern(p, move |s, _: Vec<char>| format!("{}:{}", i, s));
    }
    let (t, w) = b.build().map_err(|_| "build failed").unwrap();
    (t, w.len())
}

/// A source that records how much was taken from it.
pub struct Counting<I: Iterator> {
    pub inner: I,
    pub taken: Rc<Cell<usize>>,
}
impl<I: Iterator> Iterator for Counting<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        let x = self.inner.next();
        if x.is_some() {
            self.taken.set(self.taken.get() + 1);
        }
        x
    }
}
