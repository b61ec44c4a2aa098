//! The checks: one per property, each an oracle over executions of the crate.
use crate::api;
use crate::refparse::{self, Entry, Fail, Parsed};
use crate::reflex::{self, LexErr};
use crate::rt::{Check, Res, violation};
use crate::walk;
use whitespace::ast::{Expr, Stmt};
use whitespace::error::ParseError;
use whitespace::source_loc::SourceLoc;

mod binding;
mod lexical;
mod limits;
mod memory;
mod relations;
mod streams;
mod syntax;
mod system;
mod traces;
mod trees;
mod wasm;

pub fn all() -> Vec<Check> {
    let mut v = vec![];
    v.extend(limits::all());
    v.extend(lexical::all());
    v.extend(syntax::all());
    v.extend(binding::all());
    v.extend(system::all());
    v.extend(wasm::all());
    v.extend(relations::all());
    v.extend(trees::all());
    v.extend(streams::all());
    v.extend(memory::all());
    v.extend(traces::all());
    v
}

pub fn helper(a: &[String]) -> i32 {
    match a.first().map(String::as_str) {
        Some("deep") => limits::deep_helper(&a[1..]),
        Some("everything") => system::everything_helper(&a[1..]),
        Some("threads") => system::threads_helper(&a[1..]),
        Some("gen") => {
            let mut r = crate::rt::Rng::new(a[1].parse().unwrap());
            print!("{}", crate::make::any(&mut r).text);
            0
        }
        _ => 2,
    }
}

/// What the references say about a source.
pub enum Ref {
    Lex(Vec<LexErr>),
    Bad(Fail),
    Good(Parsed),
}

pub fn reference(src: &str, entry: Entry) -> Ref {
    let l = reflex::lex(src);
    if !l.errs.is_empty() {
        return Ref::Lex(l.errs);
    }
    match refparse::parse(&l.toks, entry) {
        Ok(p) => Ref::Good(p),
        Err(f) => Ref::Bad(f),
    }
}

/// The crate's answer in the same shape.
pub fn actual(src: &str, entry: Entry) -> Result<Parsed, ParseError> {
    match entry {
        Entry::Program => api::parse(src).map(Parsed::Stmts),
        Entry::Repl => api::repl(src).map(Parsed::Stmts),
        Entry::Expression => api::expr(src).map(Parsed::Expr),
    }
}

pub fn render(p: &Parsed, locs: bool, binds: bool) -> String {
    match p {
        Parsed::Stmts(s) => walk::render(s, locs, binds),
        Parsed::Expr(e) => walk::render_expr(e, locs, binds),
    }
}

pub fn same(src: &str, what: &str, want: &str, got: &str) -> Res {
    if want == got {
        return Ok(());
    }
    violation(src, format!("{what}:{}", walk::diff(want, got)))
}

pub fn same_tree(src: &str, what: &str, want: &[Stmt], got: &[Stmt], locs: bool) -> Res {
    same(src, what, &walk::render(want, locs, false), &walk::render(got, locs, false))
}

pub fn same_expr(src: &str, what: &str, want: &Expr, got: &Expr, locs: bool) -> Res {
    same(src, what, &walk::render_expr(want, locs, false), &walk::render_expr(got, locs, false))
}

/// Is there at least one error, as a rejection must have?
pub fn some_error<'a>(
    src: &str,
    what: &str,
    e: &'a ParseError,
) -> Result<&'a whitespace::error::ParseErrorCause, crate::rt::Violation> {
    match e.causes.first() {
        Some(c) => Ok(c),
        None => violation(src, format!("{what} was rejected without an error")),
    }
}

pub fn at(l: SourceLoc) -> (u32, u32) {
    (l.line, l.column as u32)
}

/// Outcome of comparing one entry point with the references.
pub enum Seen {
    Tree(Parsed),
    Rejected,
    /// Not something this comparison speaks about.
    Other,
}

/// Acceptance and tree against the reference grammar.
pub fn grammar(src: &str, entry: Entry, locs: bool) -> Result<Seen, crate::rt::Violation> {
    let want = reference(src, entry);
    let got = actual(src, entry);
    match (want, got) {
        (Ref::Lex(_), Err(_)) => Ok(Seen::Other),
        (Ref::Lex(e), Ok(_)) => violation(
            src,
            format!("accepted as {entry:?} in spite of a lexical error: {:?}", e[0]),
        ),
        (Ref::Bad(f), Err(_)) => {
            let _ = f;
            Ok(Seen::Rejected)
        }
        (Ref::Bad(f), Ok(p)) => violation(
            src,
            format!(
                "accepted as {entry:?}, but the grammar fails at {}:{} {:?} ({}); tree {}",
                f.loc.line,
                f.loc.column,
                f.text,
                f.why,
                render(&p, false, false)
            ),
        ),
        (Ref::Good(p), Err(e)) => violation(
            src,
            format!(
                "rejected as {entry:?}: {}; the grammar gives {}",
                api::errs(&e),
                render(&p, false, false)
            ),
        ),
        (Ref::Good(w), Ok(p)) => {
            same(src, &format!("tree as {entry:?}"), &render(&w, locs, false), &render(&p, locs, false))?;
            Ok(Seen::Tree(p))
        }
    }
}
