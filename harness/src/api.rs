//! The harness' only door to the code under test. Every call is recorded (so a
//! dying worker leaves its input behind), runs under a step and memory budget,
//! and turns a panic inside the crate into a `RepoPanic`.
use crate::clock;
use crate::reflex::RTok;
use crate::rt::{RepoPanic, note_source};
use std::cell::{Cell, RefCell};
use std::sync::atomic::Ordering::Relaxed;
use whitespace::ast::*;
use whitespace::error::ParseError;
use whitespace::parser::Parser;
use whitespace::resolver::Resolver;
use whitespace::scanner::Scanner;
use whitespace::token::Token;

thread_local! {
    static IN_REPO: Cell<bool> = const { Cell::new(false) };
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn in_repo() -> bool {
    IN_REPO.with(|c| c.get())
}

pub fn note_panic(s: String) {
    PANIC.with(|p| *p.borrow_mut() = s);
}

/// No call is under way: lift the budgets.
pub fn idle() {
    IN_REPO.with(|c| c.set(false));
    clock::BUDGET.store(u64::MAX, Relaxed);
    clock::ALLOC_LIMIT.store(u64::MAX, Relaxed);
}

/// Steps a call on n bytes may take before it counts as running forever.
pub fn step_limit(n: usize) -> u64 {
    20_000_000 + 20_000 * n as u64
}

pub fn call<R>(name: &str, src: &str, f: impl FnOnce() -> R) -> R {
    note_source(name, src);
    clock::BUDGET.store(clock::STEPS.load(Relaxed) + step_limit(src.len()), Relaxed);
    clock::ALLOC_LIMIT
        .store(clock::ALLOC_BYTES.load(Relaxed) + (1 << 30) + 20_000 * src.len() as u64, Relaxed);
    IN_REPO.with(|c| c.set(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    idle();
    match r {
        Ok(r) => r,
        Err(_) => std::panic::resume_unwind(Box::new(RepoPanic {
            call: name.to_string(),
            source: src.to_string(),
            message: PANIC.with(|p| p.borrow().clone()),
        })),
    }
}

pub fn own(t: &Token) -> RTok {
    RTok {
        ty: t.token_type,
        text: t.lexeme.to_string(),
        string: t.string_literal.map(str::to_string),
        number: t.float_literal,
        line: t.line,
        col: t.column as u32,
    }
}

pub fn scan(src: &str) -> Result<Vec<RTok>, ParseError> {
    call("scan_tokens", src, || {
        let mut s = Scanner::new(src);
        let r = s.scan_tokens();
        r.map(|v| v.iter().map(own).collect())
    })
}

/// Scan, then hand the tokens to a parser: what parse() is documented to be.
pub fn parse_in_steps(src: &str, repl: bool) -> Result<Vec<Stmt>, ParseError> {
    call("Parser::parse", src, || {
        let mut s = Scanner::new(src);
        let toks = s.scan_tokens()?;
        if repl { Parser::with_trailing_expression(toks).parse() } else { Parser::new(toks).parse() }
    })
}

pub fn parse(src: &str) -> Result<Vec<Stmt>, ParseError> {
    call("parser::parse", src, || whitespace::parser::parse(src))
}

pub fn repl(src: &str) -> Result<Vec<Stmt>, ParseError> {
    call("parser::parse_repl_line", src, || whitespace::parser::parse_repl_line(src))
}

pub fn expr(src: &str) -> Result<Expr, ParseError> {
    call("parser::parse_expression", src, || whitespace::parser::parse_expression(src))
}

pub fn resolve(src: &str, s: Vec<Stmt>) -> Result<Vec<Stmt>, ParseError> {
    call("resolver::resolve", src, || whitespace::resolver::resolve(s).map(|c| c.statements))
}

/// A session's resolver.
pub struct Live(Resolver);

impl Live {
    pub fn new() -> Live {
        Live(call("Resolver::new", "", Resolver::new))
    }
    pub fn resolve(&mut self, src: &str, s: Vec<Stmt>) -> Result<Vec<Stmt>, ParseError> {
        call("Resolver::resolve", src, || self.0.resolve(s).map(|c| c.statements))
    }
    pub fn copy(&self) -> Live {
        Live(call("Resolver::clone", "", || self.0.clone()))
    }
    /// One line as the REPL handles it.
    pub fn feed(&mut self, src: &str) -> Result<Vec<Stmt>, ParseError> {
        let s = repl(src)?;
        self.resolve(src, s)
    }
}

pub fn show<T: std::fmt::Debug>(src: &str, x: &T) -> String {
    call("Debug", src, || format!("{x:?}"))
}

pub fn errs(e: &ParseError) -> String {
    e.causes
        .iter()
        .map(|c| {
            format!("{}:{} {:?} {}", c.source_loc.line, c.source_loc.column, c.token, c.message)
        })
        .collect::<Vec<_>>()
        .join("; ")
}
