//! C26-C30: whole programs, entry points, threads and the command line.
use super::*;
use crate::{dict, pty};
use crate::api::Live;
use crate::inputs::Stream::*;
use crate::inputs::{self, mutate};
use crate::make::{self, Cfg, Style};
use crate::reflex::{RTok, lex};
use crate::rt::{Ctx, End, Parent, Rng, Tier, hash, mix, wait};
use std::fmt::Write as _;
use std::io::{Read, Write as _};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::sync::{Arc, Barrier};
use std::time::Duration;
use whitespace::token::TokenType as T;

pub fn all() -> Vec<Check> {
    vec![
        Check::new(
            "C26",
            "pairs of programs against their concatenation, and programs against their indented copies under each header; non-trivial: both parts accepted",
        )
        .cases("pairs", 40_000, 1_000_000, pairs)
        .text("nested", 40_000, 1_000_000, nested, &[Valid, Valid, Seeds, Mutant, Rules])
        .cases("triples", 8_000, 200_000, triples)
        .text("edits", 200_000, 1_000_000, nested, &[Edits])
        .text("small", 24_000, 1_500_000, nested, &[Small])
        .needs(&["pairs joined", "programs nested", "programs followed after nesting"]),
        Check::new(
            "C27",
            "the entry points against each other on the same text; non-trivial: accepted by at least one of them",
        )
        .text("streams", 60_000, 2_000_000, agreeing, &[Valid, Mutant, Exprs, Soup, Guided, Layout, Chars, Seeds, Rules])
        .text("lines", 40_000, 1_000_000, lines, &[Exprs, Exprs, Mutant, Seeds])
        .cases("short", 30_000, 600_000, |c, i| super::syntax::sentences(c, i, agreeing))
        .text("edits", 200_000, 1_000_000, agreeing, &[Edits])
        .text("small", 24_000, 1_500_000, agreeing, &[Small])
        .needs(&["programs also accepted by the REPL", "lines without their end", "expressions on their own", "lexical errors passed on"]),
        Check::new(
            "C28",
            "the same sources after different histories, in fresh processes (each with its own hash seeds), from many threads at once, and from a few threads under the Miri interpreter; non-trivial: a source processed by all of them",
        )
        .cases("histories", 4_000, 100_000, histories)
        .cases("fresh", 5_000, 150_000, fresh)
        .cases("many calls", 8, 64, many_calls)
        .parent(threads)
        .needs(&["repeated results compared", "fresh results compared", "thread results compared", "distinct thread orders", "miri runs", "distinct miri orders"]),
        Check::new(
            "C29",
            "the program built from the working tree, run on files with generated contents and on files that cannot be read, against the library's answer; non-trivial: a file that was read",
        )
        .prepare(prepare_cli)
        .text("files", 2_400, 60_000, file, &[Valid, Rules, Mutant, Seeds, Soup, Layout, Chars])
        .cases("shapes", 300, 3_000, file_shapes)
        .cases("faults", 160, 2_000, faults)
        .needs(&["valid files", "invalid files", "faulty files"]),
        Check::new(
            "C30",
            "the program's REPL fed through pipes with generated sessions, all at once and line by line, against the library's answers in one session; non-trivial: a session of at least two lines",
        )
        .prepare(prepare_cli)
        .cases("sessions", 1_200, 30_000, piped)
        .cases("many lines", 24, 160, many_lines)
        .cases("dialogues", 300, 6_000, dialogue)
        .cases("ends", 400, 6_000, ends)
        .cases("terminals", 160, 4_000, terminal)
        .cases("unreadable", 12, 40, unreadable)
        .needs(&["lines answered with a tree", "lines answered with errors", "input ended in mid-line", "dialogue lines", "ended by bad input", "ended by unreadable input"]),
    ]
}

// ------------------------------------------------------------------------ C26

fn complete(r: &mut Rng, c: &mut crate::inputs::Store) -> String {
    let _ = c;
    match r.below(6) {
        0 => r.pick(&inputs::SEEDS).to_string(),
        1 => inputs::rules(r).text,
        2 => {
            let a = make::any(r).text;
            mutate(r, a, 1)
        }
        _ => {
            let style = Style::random(r);
            let mut cfg = Cfg::normal(r);
            cfg.size = *r.pick(&[6, 12, 30]);
            make::made(r, style, cfg).text
        }
    }
}

/// Does the text begin with something that may belong to what precedes it?
fn attaches(src: &str) -> bool {
    let toks = lex(src).toks;
    let t: Vec<&RTok> = toks.iter().filter(|t| !matches!(t.ty, T::Terminator | T::Indent)).collect();
    match t.first().map(|t| t.ty) {
        Some(T::Else) => true,
        Some(T::Identifier | T::String) => t.get(1).is_some_and(|t| t.ty == T::Colon),
        _ => false,
    }
}

/// What follows the text continues its last line: however deep, it would open
/// no block.
fn left_open(src: &str) -> bool {
    let nl = if src.ends_with('\n') { "" } else { "\n" };
    let deep = src.split(['\n', '\r']).map(|l| l.len() - l.trim_start_matches(' ').len()).max().unwrap_or(0);
    let probe = format!("{src}{nl}{}zz\n", " ".repeat(deep + 1));
    let toks = lex(&probe).toks;
    match toks.iter().rposition(|t| t.text == "zz") {
        Some(i) => i == 0 || toks[i - 1].ty != T::Indent,
        None => true,
    }
}

/// The first line that is not blank starts with a backslash, or deeper than
/// the outermost level.
fn starts_open(src: &str) -> bool {
    src.lines()
        .find(|l| !l.trim().is_empty() && !l.trim().starts_with("//"))
        .is_some_and(|l| l.starts_with(['\\', ' ']))
}

fn newlines(s: &str) -> u32 {
    s.matches('\n').count() as u32
}

fn join(c: &mut Ctx, parts: &[String]) -> Res {
    let mut trees = vec![];
    for (i, p) in parts.iter().enumerate() {
        let Ok(t) = api::parse(p) else { return Ok(()) };
        if !p.ends_with('\n') || left_open(p) || i > 0 && (attaches(p) || starts_open(p)) {
            return Ok(());
        }
        trees.push(t);
    }
    let whole = parts.concat();
    match api::parse(&whole) {
        Ok(t) => {
            let mut want = vec![];
            let mut line = 0;
            for (p, t) in parts.iter().zip(trees) {
                want.extend(walk::map_locs(&t, |l| SourceLoc { line: l.line + line, column: l.column }));
                line += newlines(p);
            }
            same_tree(&whole, &format!("concatenation of {parts:?}"), &want, &t, true)?;
        }
        Err(e) => {
            return violation(&whole, format!("each part is accepted, the whole is rejected: {}; parts {parts:?}", api::errs(&e)));
        }
    }
    c.stats.add("pairs joined", 1);
    c.stats.nontrivial(&whole);
    Ok(())
}

fn pairs(c: &mut Ctx, _: u64) -> Res {
    let a = complete(&mut c.rng, c.store);
    let b = complete(&mut c.rng, c.store);
    join(c, &[a, b])
}

fn triples(c: &mut Ctx, _: u64) -> Res {
    const BITS: [&str; 30] = [
        "a\n", "if (a)\n  b\n", "if (a) b\n", "if (a) b\nelse c\n", "if (a)\n  b\nelse\n  c\n", "while (a)\n  break\n",
        "for (;;) x\n", "fun f()\n  x\n", "class A\n  m()\n    1\n", "class A\n", "var x\n", "var x =\n  a: 1\n", "x = 1\n",
        "f a, b\n", "f(a)\n", "(a)\n", "[1]\n", "{a: 1}\n", "-a\n", "!b\n", "\"s\"\n", "\"s\nt\"\n", "1\n", "print a\n",
        "// c\n", "\n", "  \n", "a +\n    b\n", "a \\\n  b\n", "fun () { x\n}\n",
    ];
    let r = &mut c.rng;
    let n = r.range(2, 5);
    let mut v: Vec<String> = vec![];
    for _ in 0..n {
        let s = *r.pick(&BITS);
        v.push(if r.chance(25) { s.replace('\n', "\r\n") } else { s.to_string() });
    }
    join(c, &v)
}

const HEADERS: [&str; 8] =
    ["if (h)", "while (h)", "for (;;)", "for (var i = 0; i < 1; i = i + 1)", "fun h()", "fun h(a, b)", "class H\n m()", "var g = f(fun ()"];

fn nested(c: &mut Ctx, src: &str) -> Res {
    let Ok(t) = api::parse(src) else { return Ok(()) };
    let l = lex(src);
    let wide = |t: &RTok| t.string.as_ref().is_some_and(|s| s.contains('\n'));
    if t.is_empty() || !src.ends_with('\n') || left_open(src) || starts_open(src) || l.toks.iter().any(wide) {
        return Ok(());
    }
    let h = *c.rng.pick(&HEADERS);
    let unit = c.rng.range(1, 4);
    let base = if h.starts_with("class") { 1 } else { 0 };
    let pad = " ".repeat(base + unit);
    let mut s = format!("{h}\n");
    let before = newlines(&s);
    for line in src.split_inclusive('\n') {
        // Blank lines may stay as they are.
        if !line.trim().is_empty() || c.rng.chance(50) {
            s.push_str(&pad);
        }
        s.push_str(line);
    }
    let closing = h.starts_with("var g");
    let after = c.rng.chance(60);
    if closing {
        s.push_str(")\n");
    }
    if after {
        s.push_str("after = 1\n");
    }
    let got = match api::parse(&s) {
        Ok(g) => g,
        Err(e) => return violation(&s, format!("rejected once indented: {}", api::errs(&e))),
    };
    let want = walk::map_locs(&t, |l| SourceLoc {
        line: l.line + before,
        column: l.column + (base + unit) as u16,
    });
    if got.len() != 1 + after as usize {
        return violation(&s, format!("{} statements at top level", got.len()));
    }
    let body: Option<&[Stmt]> = match &got[0] {
        Stmt::If(_, b, None) => block(b),
        Stmt::While(_, b) | Stmt::WhileIncrement(_, b, _) => block(b),
        // A loop with an initializer, in a block of its own.
        Stmt::Block(v) => match v.last() {
            Some(Stmt::While(_, b) | Stmt::WhileIncrement(_, b, _)) => block(b),
            _ => None,
        },
        Stmt::Fun(f) => Some(&f.fun_def.body),
        Stmt::Class(k) => match &k.methods[..] {
            [m] => Some(&m.fun_def.body),
            _ => None,
        },
        Stmt::Var(_, _, e, _) => match &**e {
            Expr::Call(_, a, _) => match &a[..] {
                [Expr::Function(f)] => Some(&f.body),
                _ => None,
            },
            _ => None,
        },
        _ => None,
    };
    let Some(body) = body else {
        return violation(&s, format!("no body where it should be: {}", walk::render(&got[..1], false, false)));
    };
    same_tree(&s, &format!("body under {h:?}"), &want, body, true)?;
    if after {
        c.stats.add("programs followed after nesting", 1);
    }
    c.stats.add("programs nested", 1);
    c.stats.nontrivial(&s);
    Ok(())
}

fn block(s: &Stmt) -> Option<&[Stmt]> {
    match s {
        Stmt::Block(v) => Some(v),
        _ => None,
    }
}

// ------------------------------------------------------------------------ C27

fn shown(r: &Result<Vec<Stmt>, ParseError>, binds: bool) -> String {
    match r {
        Ok(t) => walk::render(t, true, binds),
        Err(e) => format!("errors: {}", api::errs(e)),
    }
}

fn agreeing(c: &mut Ctx, src: &str) -> Res {
    let p = api::parse(src);
    let q = api::repl(src);
    if p.is_ok() {
        same(src, "the REPL's tree of a program", &shown(&p, false), &shown(&q, false))?;
        c.stats.add("programs also accepted by the REPL", 1);
        c.stats.nontrivial(src);
    }
    // Parsing is scanning and then parsing the tokens.
    for repl in [false, true] {
        let d = api::parse_in_steps(src, repl);
        let w = if repl { &q } else { &p };
        same(src, "scanning and parsing in two steps", &shown(&d, false), &shown(w, false))?;
    }
    let x = api::expr(src);
    if let Err(e) = api::scan(src) {
        let want = api::errs(&e);
        for (what, got) in [
            ("parse", p.as_ref().err().map(api::errs)),
            ("parse_repl_line", q.as_ref().err().map(api::errs)),
            ("parse_expression", x.as_ref().err().map(api::errs)),
        ] {
            match got {
                Some(g) => same(src, &format!("lexical errors through {what}"), &want, &g)?,
                None => return violation(src, format!("{what} accepts what does not scan: {want}")),
            }
        }
        c.stats.add("lexical errors passed on", 1);
        return Ok(());
    }
    one_line(c, src, &p, &q, &x)?;
    // The function and the session agree on resolution.
    if let Ok(t) = p {
        let a = api::resolve(src, t.clone());
        let b = Live::new().resolve(src, t);
        same(src, "resolve() and Resolver::resolve()", &shown(&a, true), &shown(&b, true))?;
    }
    Ok(())
}

fn one_line(
    c: &mut Ctx,
    src: &str,
    p: &Result<Vec<Stmt>, ParseError>,
    q: &Result<Vec<Stmt>, ParseError>,
    x: &Result<Expr, ParseError>,
) -> Res {
    let comma = lex(src).toks.iter().rev().find(|t| !matches!(t.ty, T::Eof | T::Terminator)).map(|t| t.ty);
    // Only the end of the line is missing.
    if !src.ends_with('\n') && !left_open(src) {
        let full = format!("{src}\n");
        let f = api::parse(&full);
        let indents = lex(src).toks.iter().any(|t| t.ty == T::Indent);
        if let (Err(_), Ok(t)) = (p, q) {
            match &f {
                Ok(u) => same_tree(src, "REPL line without its end", u, t, true)?,
                // An indented operand may end with the source, not with a
                // newline; after a comma the line goes on.
                Err(_) if indents || comma == Some(T::Comma) => return Ok(()),
                Err(e) => return violation(src, format!("accepted as a REPL line; with its newline rejected: {}", api::errs(e))),
            }
            if !matches!(t.last(), Some(Stmt::Expression(_))) && !ends_in_expression(t.last()) {
                return violation(src, format!("the last statement needs its newline: {}", shown(q, false)));
            }
            c.stats.add("lines without their end", 1);
            c.stats.nontrivial(src);
        }
        let single = !src.contains('\n') && !indents;
        if let (Ok(u), true) = (&f, single && comma != Some(T::Comma)) {
            if let [.., Stmt::Expression(_)] = &u[..] {
                if q.is_err() {
                    return violation(src, format!("rejected without its newline: {}", shown(q, false)));
                }
            }
        }
    }
    let t = src.trim_matches(' ');
    let odd = t.starts_with('{') || comma == Some(T::Comma) || left_open(src);
    if src.contains(['\n', '\r']) || odd {
        return Ok(());
    }
    let full = format!("{src}\n");
    let s = api::parse(&full);
    match (&s, x) {
        (Ok(v), Ok(e)) => {
            let [Stmt::Expression(w)] = &v[..] else {
                return violation(src, format!("an expression on its own, but as a statement: {}", shown(&s, false)));
            };
            same_expr(src, "expression on its own", w, e, true)?;
            c.stats.add("expressions on their own", 1);
            c.stats.nontrivial(src);
        }
        (Ok(v), Err(e)) => {
            if let [Stmt::Expression(_)] = &v[..] {
                return violation(src, format!("accepted as a statement, as an expression: {}", api::errs(e)));
            }
        }
        (Err(e), Ok(_)) => {
            return violation(src, format!("accepted as an expression, as a statement: {}", api::errs(e)));
        }
        _ => (),
    }
    Ok(())
}

/// An if, loop and so on whose last part is an expression statement.
fn ends_in_expression(s: Option<&Stmt>) -> bool {
    match s {
        Some(Stmt::Expression(_)) => true,
        Some(Stmt::If(_, t, None)) => ends_in_expression(Some(t)),
        Some(Stmt::If(_, _, Some(e))) => ends_in_expression(Some(e)),
        Some(Stmt::While(_, b) | Stmt::WhileIncrement(_, b, _)) => ends_in_expression(Some(b)),
        Some(Stmt::Block(v)) => ends_in_expression(v.last()),
        _ => false,
    }
}

fn lines(c: &mut Ctx, src: &str) -> Res {
    for l in src.lines().take(12) {
        agreeing(c, l)?;
        agreeing(c, l.trim_start())?;
    }
    Ok(())
}

// ------------------------------------------------------------------------ C28

/// Everything the library says about a source.
pub fn everything(src: &str) -> String {
    let mut o = String::new();
    let mut sc = whitespace::scanner::Scanner::new(src);
    match sc.scan_tokens() {
        Ok(v) => {
            for t in v.iter().map(api::own) {
                let _ = write!(o, "{t:?} ");
            }
        }
        Err(e) => {
            let _ = write!(o, "{e:?}");
        }
    }
    for r in [whitespace::parser::parse(src), whitespace::parser::parse_repl_line(src)] {
        match r {
            Ok(t) => {
                o.push_str(&walk::render(&t, true, true));
                match whitespace::resolver::resolve(t) {
                    Ok(c) => {
                        o.push_str(&walk::render(&c.statements, true, true));
                        let _ = write!(o, "{:?}", c.statements);
                    }
                    Err(e) => {
                        let _ = write!(o, "{e} {e:?}");
                    }
                }
            }
            Err(e) => {
                let _ = write!(o, "{e} {e:?}");
            }
        }
    }
    match whitespace::parser::parse_expression(src) {
        Ok(e) => o.push_str(&walk::render_expr(&e, true, true)),
        Err(e) => {
            let _ = write!(o, "{e:?}");
        }
    }
    o
}

fn some_source(c: &mut Ctx) -> String {
    let s = *c.rng.clone().pick(&[Valid, Rules, Mutant, Soup, Layout, Chars, Seeds, Exprs]);
    inputs::produce(c, s)
}

fn histories(c: &mut Ctx, _: u64) -> Res {
    let n = c.rng.range(2, 8);
    let v: Vec<String> = (0..n).map(|_| some_source(c)).collect();
    let all = |s: &String| api::call("everything", s, || everything(s));
    let first: Vec<String> = v.iter().map(all).collect();
    for _ in 0..3 {
        let i = c.rng.below(n);
        let _ = all(&v[i]);
        let i = c.rng.below(n);
        let again = all(&v[i]);
        same(&v[i], "the same source again, after others", &first[i], &again)?;
        c.stats.add("repeated results compared", 1);
    }
    for (i, s) in v.iter().enumerate().rev() {
        same(s, "the same source again, in reverse order", &first[i], &all(s))?;
        c.stats.add("repeated results compared", 1);
    }
    c.stats.nontrivial(&v.concat());
    Ok(())
}

/// The same calls very many times in one process.
fn many_calls(c: &mut Ctx, idx: u64) -> Res {
    const S: [&str; 8] = [
        "a\n",
        "print )\n",
        "\"s\nt\" @\n",
        "var v = 1.5\nv = w\n",
        "if (a)\n  b\nc: 1\n",
        "return 1\n",
        "fun f(x) { return x\n} f(1)\n",
        "class A < B\n  m()\n    super.m()\n",
    ];
    let n = match c.tier {
        Tier::Quick => 66_000,
        Tier::Thorough => 70_000 << (idx % 4),
    };
    let s = if idx < 8 { S[idx as usize] } else { *c.rng.pick(&S) };
    let first = api::call("everything", s, || everything(s));
    for i in 0..n {
        let again = api::call("everything", s, || everything(s));
        if again != first {
            return violation(s, format!("differs in call {} of a process:{}", i + 2, walk::diff(&first, &again)));
        }
    }
    c.stats.add("repeated results compared", n);
    c.stats.nontrivial(s);
    Ok(())
}

/// Says what `everything` says about a source, as the first thing the process
/// does with the library.
pub fn everything_helper(a: &[String]) -> i32 {
    let Ok(s) = std::fs::read_to_string(&a[0]) else { return 2 };
    let got = std::thread::Builder::new().stack_size(256 << 20).spawn(move || everything(&s)).unwrap().join();
    match got {
        Ok(o) => {
            use std::io::Write;
            (std::io::stdout().write_all(o.as_bytes()).is_err()) as i32
        }
        Err(_) => 3,
    }
}

/// A source in a new process, and in this one after all it has seen.
fn fresh(c: &mut Ctx, _: u64) -> Res {
    for _ in 0..c.rng.below(12) {
        let s = if c.rng.chance(1) { inputs::far(&mut c.rng) } else { some_source(c) };
        let _ = api::call("everything", &s, || everything(&s));
    }
    let s = loop {
        let s = some_source(c);
        if s.len() < 20_000 {
            break s;
        }
    };
    let path = scratch("fresh");
    std::fs::write(&path, &s).unwrap();
    let mut cmd = Command::new(std::env::current_exe().unwrap());
    cmd.args(["helper", "everything"]).arg(&path);
    if c.rng.chance(60) {
        surroundings(&mut c.rng, &mut cmd);
    }
    if c.rng.chance(30) {
        cmd.current_dir("/");
    }
    let r = run(cmd, None, &s)?;
    let _ = std::fs::remove_file(&path);
    if r.code != Some(0) {
        return violation(&s, format!("in a new process: {}", r.end));
    }
    let here = api::call("everything", &s, || everything(&s));
    same(&s, "result in a process that has seen other sources", &String::from_utf8_lossy(&r.out), &here)?;
    c.stats.add("fresh results compared", 1);
    c.stats.nontrivial(&s);
    Ok(())
}

fn pack(v: &[String]) -> Vec<u8> {
    let mut o = vec![];
    for s in v {
        o.extend((s.len() as u64).to_le_bytes());
        o.extend(s.as_bytes());
    }
    o
}

fn unpack(b: &[u8]) -> Vec<String> {
    let mut v = vec![];
    let mut i = 0;
    while i + 8 <= b.len() {
        let n = u64::from_le_bytes(b[i..i + 8].try_into().unwrap()) as usize;
        v.push(String::from_utf8(b[i + 8..i + 8 + n].to_vec()).unwrap());
        i += 8 + n;
    }
    v
}

/// `vh helper threads FILE THREADS SEED`: the very first use of the library
/// happens in all threads at once. Prints the order of the threads' first
/// steps, then one hash per source, or what differed.
pub fn threads_helper(a: &[String]) -> i32 {
    crate::clock::MANY.store(true, Relaxed);
    let v = Arc::new(unpack(&std::fs::read(&a[0]).unwrap()));
    let n: usize = a[1].parse().unwrap();
    let seed: u64 = a[2].parse().unwrap();
    let gate = Arc::new(Barrier::new(n));
    let ticket = Arc::new(AtomicUsize::new(0));
    let log: Arc<Vec<AtomicUsize>> = Arc::new((0..48).map(|_| AtomicUsize::new(usize::MAX)).collect());
    let hs: Vec<_> = (0..n)
        .map(|k| {
            let (v, gate, ticket, log) = (v.clone(), gate.clone(), ticket.clone(), log.clone());
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn(move || {
                    let mut r = Rng::new(mix(seed) ^ k as u64);
                    // Some orders are shared, some are not.
                    let mut order: Vec<usize> = (0..v.len()).collect();
                    if k % 3 != 0 {
                        for i in (1..order.len()).rev() {
                            order.swap(i, r.below(i + 1));
                        }
                    }
                    let mut out = vec![0u64; v.len()];
                    gate.wait();
                    for i in order {
                        let t = ticket.fetch_add(1, Relaxed);
                        if let Some(x) = log.get(t) {
                            x.store(k, Relaxed);
                        }
                        match r.below(16) {
                            0 => std::thread::yield_now(),
                            1 => std::thread::sleep(Duration::from_micros(r.below(40) as u64)),
                            _ => (),
                        }
                        out[i] = hash(everything(&v[i]).as_bytes());
                    }
                    out
                })
                .unwrap()
        })
        .collect();
    let mut outs = vec![];
    for (k, h) in hs.into_iter().enumerate() {
        match h.join() {
            Ok(o) => outs.push(o),
            Err(_) => {
                println!("panic in thread {k}");
                return 1;
            }
        }
    }
    for (k, o) in outs.iter().enumerate() {
        for (i, h) in o.iter().enumerate() {
            if *h != outs[0][i] {
                println!("differ {i} in threads 0 and {k}");
                return 1;
            }
        }
    }
    let order: Vec<usize> = log.iter().map(|x| x.load(Relaxed)).collect();
    println!("order {:x}", hash(format!("{order:?}").as_bytes()));
    for h in &outs[0] {
        println!("{h:x}");
    }
    0
}

fn threads(p: &mut Parent) -> Result<(), String> {
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let (sets, runs) = if p.tier == Tier::Quick { (8, 16) } else { (100, 40) };
    let mut orders = std::collections::HashSet::new();
    for set in 0..sets {
        let v: Vec<String> = {
            let mut stats = crate::rt::Stats::default();
            let mut store = crate::inputs::Store::new(0);
            let mut c = Ctx {
                rng: Rng::new(mix(p.seed) ^ mix(1000 + set)),
                stats: &mut stats,
                tier: p.tier,
                seed: p.seed,
                phase: "threads",
                store: &mut store,
            };
            (0..120).map(|_| some_source(&mut c)).filter(|s| s.len() < 4_000).collect()
        };
        let path = p.dir.join("sources");
        std::fs::write(&path, pack(&v)).map_err(|e| e.to_string())?;
        let mut first: Option<Vec<String>> = None;
        for run in 0..runs {
            // The first run is on one thread: the result to compare with.
            let n = if run == 0 { 1 } else { [2, 3, 8, 16][run as usize % 4] };
            let out = p.dir.join("threads.out");
            let mut child = Command::new(&exe)
                .args(["helper", "threads"])
                .arg(&path)
                .arg(n.to_string())
                .arg((set * 1000 + run).to_string())
                .stdin(Stdio::null())
                .stdout(std::fs::File::create(&out).map_err(|e| e.to_string())?)
                .stderr(Stdio::null())
                .spawn()
                .map_err(|e| e.to_string())?;
            let end = wait(&mut child, Duration::from_secs(120));
            let text = std::fs::read_to_string(&out).unwrap_or_default();
            p.stats.cases += 1;
            match end {
                End::Code(0) => (),
                End::Code(_) | End::Signal(4 | 6 | 7 | 8 | 11) => {
                    let i: usize = text.split(' ').nth(1).and_then(|x| x.parse().ok()).unwrap_or(0);
                    let s = v.get(i).cloned().unwrap_or_default();
                    p.violate("threads", &format!("{set}/{run}"), &s, format!("{n} threads at once: {}", text.trim()));
                    return Ok(());
                }
                _ => return Err(format!("{n} threads did not finish")),
            }
            let mut l = text.lines();
            let order = l.next().unwrap_or_default().to_string();
            let got: Vec<String> = l.map(str::to_string).collect();
            if n > 1 {
                orders.insert(order);
            }
            match &first {
                None => first = Some(got),
                Some(f) => {
                    if let Some(i) = (0..v.len()).find(|i| f.get(*i) != got.get(*i)) {
                        p.violate(
                            "threads",
                            &format!("{set}/{run}"),
                            &v[i],
                            format!("another process, with {n} threads, gives another result"),
                        );
                        return Ok(());
                    }
                    p.stats.add("thread results compared", (v.len() * n) as u64);
                }
            }
        }
        for s in &v {
            p.stats.cases += 1;
            p.stats.nontrivial(s);
        }
    }
    p.stats.add("distinct thread orders", orders.len() as u64);
    miri(p)
}

/// A few threads under an interpreter that reports races and undefined
/// behaviour, with many schedules.
fn miri(p: &mut Parent) -> Result<(), String> {
    let (firsts, seeds) = if p.tier == Tier::Quick { (2u64, 16u64) } else { (6, 96) };
    let mut orders = std::collections::HashSet::new();
    let verif = p.verif.clone();
    forget(&verif.join("target/miri"));
    for k in 0..firsts {
        let first = (p.seed + k * 3 + k / 2) % 6;
        let from = p.seed % 1000 * 1000 + k * seeds;
        let flags = format!("-Zmiri-many-seeds={from}..{} -Zmiri-preemption-rate=0.05", from + seeds);
        let (out, err) = (p.dir.join("miri.out"), p.dir.join("miri.err"));
        let mut child = Command::new("cargo")
            .args(["+nightly", "miri", "run", "--offline", "--quiet", "--manifest-path"])
            .arg(verif.join("race/Cargo.toml"))
            .arg("--target-dir")
            .arg(verif.join("target/miri"))
            .args(["--", "3", &first.to_string(), "1"])
            .env_remove("RUSTC_WRAPPER")
            .env_remove("CARGO_TARGET_DIR")
            .env_remove("RUSTUP_TOOLCHAIN")
            .env("MIRIFLAGS", flags)
            .stdin(Stdio::null())
            .stdout(std::fs::File::create(&out).map_err(|e| e.to_string())?)
            .stderr(std::fs::File::create(&err).map_err(|e| e.to_string())?)
            .spawn()
            .map_err(|e| e.to_string())?;
        let end = wait(&mut child, Duration::from_secs(if p.tier == Tier::Quick { 300 } else { 800 }));
        let text = std::fs::read_to_string(&out).unwrap_or_default();
        let bad = std::fs::read_to_string(&err).unwrap_or_default();
        for l in text.lines().filter(|l| l.starts_with("order ")) {
            p.stats.add("miri runs", 1);
            p.stats.cases += 1;
            orders.insert(l.to_string());
        }
        match end {
            End::Code(0) => (),
            End::Code(_) if bad.contains("Undefined Behavior") || bad.contains("panicked at") || bad.contains("deadlock") => {
                let at = ["Undefined Behavior", "panicked at", "deadlock"].iter().filter_map(|w| bad.find(w)).min().unwrap_or(0);
                let t: String = bad[at..].chars().take(3000).collect();
                p.violate("miri", &format!("source {first}"), "", t);
                return Ok(());
            }
            End::Code(c) => {
                let t: String = bad.chars().rev().take(600).collect::<Vec<_>>().into_iter().rev().collect();
                return Err(format!("miri exit {c}: {t}"));
            }
            End::Signal(s) => return Err(format!("miri died of signal {s}")),
            End::Timeout => return Err("miri did not finish".into()),
        }
    }
    p.stats.add("distinct miri orders", orders.len() as u64);
    Ok(())
}

// -------------------------------------------------------------- the CLI program

/// Forget that /repo's crate was built there, so that it is built again
/// whatever its files' times say.
fn forget(target: &Path) {
    let Ok(d) = std::fs::read_dir(target) else { return };
    for e in d.flatten() {
        let (p, n) = (e.path(), e.file_name().to_string_lossy().into_owned());
        if !p.is_dir() {
            continue;
        }
        if n == ".fingerprint" {
            for f in std::fs::read_dir(&p).into_iter().flatten().flatten() {
                if f.file_name().to_string_lossy().starts_with("whitespace-") {
                    let _ = std::fs::remove_dir_all(f.path());
                }
            }
        } else if matches!(n.as_str(), "debug" | "release" | "miri" | "tsan") || n.contains("-unknown-") {
            forget(&p);
        }
    }
}

pub fn cargo(target: &Path, args: &[&str]) -> Result<(), String> {
    forget(target);
    let o = Command::new("cargo")
        .args(args)
        .arg("--target-dir")
        .arg(target)
        .env_remove("RUSTC_WRAPPER")
        .env_remove("CARGO_TARGET_DIR")
        .stdin(Stdio::null())
        .output()
        .map_err(|e| format!("cargo: {e}"))?;
    if o.status.success() {
        return Ok(());
    }
    Err(format!("cargo {args:?} failed: {}", String::from_utf8_lossy(&o.stderr)))
}

fn cli_path(verif: &Path) -> PathBuf {
    verif.join("target/cli/debug/whitespace")
}

/// Build the command-line program from the working tree.
pub fn cli(p: &Parent) -> Result<PathBuf, String> {
    let target = p.verif.join("target/cli");
    cargo(&target, &["build", "--offline", "--bin", "whitespace", "--manifest-path", "/repo/Cargo.toml"])?;
    Ok(cli_path(&p.verif))
}

pub(super) fn prepare_cli(p: &Parent) -> Result<(), String> {
    cli(p).map(|_| ())
}

pub(super) fn program() -> PathBuf {
    cli_path(Path::new(&std::env::var_os("VH_VERIF").unwrap_or_else(|| "/verif".into())))
}

/// A scratch file of this worker's.
pub(super) fn scratch(name: &str) -> PathBuf {
    // Inside the directory the parent makes and removes.
    let base = std::env::var_os("VH_DIR").map(PathBuf::from).unwrap_or_else(std::env::temp_dir);
    let d = base.join(format!("io-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&d);
    d.join(name)
}

struct Ran {
    code: Option<i32>,
    end: String,
    out: Vec<u8>,
    err: Vec<u8>,
}

/// Run to the end with a time limit; a run that does not end is a violation
/// only where the caller says so.
fn run(mut cmd: Command, input: Option<&[u8]>, src: &str) -> Result<Ran, crate::rt::Violation> {
    let (o, e) = (scratch("out"), scratch("err"));
    cmd.stdout(std::fs::File::create(&o).unwrap()).stderr(std::fs::File::create(&e).unwrap());
    cmd.stdin(if input.is_some() { Stdio::piped() } else { Stdio::null() });
    let mut child = spawn(&mut cmd);
    if let Some(b) = input {
        // The program may stop reading at any point.
        let _ = child.stdin.take().unwrap().write_all(b);
    }
    let end = wait(&mut child, Duration::from_secs(60));
    let out = std::fs::read(&o).unwrap();
    let err = std::fs::read(&e).unwrap();
    let (code, end) = match end {
        End::Code(c) => (Some(c), format!("exit status {c}")),
        End::Signal(s) => (None, format!("signal {s}")),
        End::Timeout => {
            return violation(src, format!("the program does not end; standard output so far: {:?}", cut(&out)));
        }
    };
    Ok(Ran { code, end, out, err })
}

pub(super) fn spawn(cmd: &mut Command) -> Child {
    crate::rt::tied(cmd);
    for _ in 0..50 {
        match cmd.spawn() {
            Ok(c) => return c,
            Err(_) => std::thread::sleep(Duration::from_millis(20)),
        }
    }
    cmd.spawn().unwrap()
}

pub(super) fn cut(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(b);
    if s.chars().count() < 700 { s.into_owned() } else { s.chars().take(700).collect::<String>() + "..." }
}

pub(super) fn diagnostics(e: &ParseError) -> String {
    let mut o = String::new();
    for c in &e.causes {
        let _ = match &c.token {
            Some(t) => writeln!(o, "[line {}:{}] Error at '{t}': {}", c.source_loc.line, c.source_loc.column, c.message),
            None => writeln!(o, "[line {}:{}] Error: {}", c.source_loc.line, c.source_loc.column, c.message),
        };
    }
    o
}

pub(super) fn pretty(src: &str, t: &Vec<Stmt>) -> String {
    api::call("Debug", src, || format!("{t:#?}\n"))
}

pub(super) fn bytes_same(src: &str, what: &str, want: &[u8], got: &[u8]) -> Res {
    if want == got {
        return Ok(());
    }
    same(src, what, &String::from_utf8_lossy(want), &String::from_utf8_lossy(got))?;
    violation(src, format!("{what} differs"))
}

// ------------------------------------------------------------------------ C29

fn file(c: &mut Ctx, src: &str) -> Res {
    let want = api::parse(src).and_then(|t| api::resolve(src, t));
    let (mut cmd, path) = named(c, src);
    let input: Option<&[u8]> = if c.rng.chance(10) { Some(b"print 1\n@\n") } else { None };
    let terminal = c.rng.chance(12);
    let r = if terminal {
        match on_terminals(cmd, src)? {
            Some(r) => {
                c.stats.add("runs on a terminal", 1);
                r
            }
            None => {
                cmd = Command::new(program());
                cmd.arg(&path);
                run(cmd, input, src)?
            }
        }
    } else {
        run(cmd, input, src)?
    };
    let _ = std::fs::remove_file(&path);
    let (code, out, err) = match &want {
        Ok(t) => (0, pretty(src, t), String::new()),
        Err(e) => (65, String::new(), diagnostics(e)),
    };
    if r.code != Some(code) {
        return violation(src, format!("{} instead of exit status {code}; standard error {:?}", r.end, cut(&r.err)));
    }
    bytes_same(src, "standard output", out.as_bytes(), &r.out)?;
    bytes_same(src, "standard error", err.as_bytes(), &r.err)?;
    c.stats.add(if want.is_ok() { "valid files" } else { "invalid files" }, 1);
    c.stats.nontrivial(src);
    Ok(())
}

/// Environment variables of all kinds, or hardly any.
fn surroundings(r: &mut crate::rt::Rng, cmd: &mut Command) {
    if r.chance(20) {
        cmd.env_clear();
    }
    const ENV: [(&str, &str); 16] = [
        ("TERM", "xterm-256color"), ("TERM", "dumb"), ("COLUMNS", "20"), ("NO_COLOR", "1"), ("CLICOLOR_FORCE", "1"), ("LANG", "de_DE.UTF-8"),
        ("LC_ALL", "C"), ("RUST_BACKTRACE", "full"), ("RUST_LOG", "trace"), ("DEBUG", "1"), ("VERBOSE", "1"), ("CI", "true"), ("HOME", "/nowhere"),
        ("TZ", "Asia/Tokyo"), ("POSIXLY_CORRECT", "1"), ("QUIET", "1"),
    ];
    for _ in 0..r.below(4) {
        let (k, v) = *r.pick(&ENV);
        cmd.env(k, v);
    }
    if r.chance(15) {
        if let (Some(k), Some(v)) = (dict::words(r), dict::words(r)) {
            if !k.is_empty() && !k.contains(['=', '\0']) && !v.contains('\0') && !k.starts_with("LD_") {
                cmd.env(k, v);
            }
        }
    }
}

/// A file of some name, and a command that is to read it, in some surroundings.
fn named(c: &mut Ctx, src: &str) -> (Command, PathBuf) {
    let r = &mut c.rng;
    let mut cmd = Command::new(program());
    let plain = r.chance(50);
    let name = if plain {
        "file.ws"
    } else if r.chance(60) {
        *r.pick(&[
            "'file'", "file'", "\"q\"", " lead", "trail ", "a\\b", "$HOME", "`x`", "a;b", "-", "%20", "\u{feff}x", "a\nb", "@list", ":", "C:",
            "a,b", "[x]", "{x}", "e\u{301}", "file:x", "http:x", "...", "stdin", "1", "repl", "a&b", "<x>", "?", "!x", "+x", "x~", "\t", "x.js",
        ])
    } else {
        *r.pick(&["file", "file.txt", "two words.ws", "größe.ws", ".ws", "a=b", "#", "--help.ws", "~", "*.ws", "%s", "x.rs", "FILE.WS", "65"])
    };
    let path = scratch(name);
    std::fs::write(&path, src).unwrap();
    if plain {
        cmd.arg(&path);
        return (cmd, path);
    }
    let d = path.parent().unwrap();
    match r.below(4) {
        0 => {
            cmd.current_dir(d).arg(format!("./{name}"));
        }
        1 if !name.starts_with('-') => {
            cmd.current_dir(d).arg(name);
        }
        2 => {
            cmd.current_dir("/").arg(d.join(".").join(name));
        }
        _ => {
            let link = scratch("link.ws");
            let _ = std::fs::remove_file(&link);
            let _ = std::os::unix::fs::symlink(&path, &link);
            cmd.arg(&link);
        }
    }
    surroundings(r, &mut cmd);
    c.stats.add("names and surroundings varied", 1);
    (cmd, path)
}

/// Run with its output and errors on a terminal each; none where there is none.
fn on_terminals(mut cmd: Command, src: &str) -> Result<Option<Ran>, crate::rt::Violation> {
    let (Some((o, so)), Some((e, se))) = (pty::open(), pty::open()) else { return Ok(None) };
    let (ro, re) = (pty::drain(&o), pty::drain(&e));
    cmd.stdin(se.try_clone().unwrap()).stdout(so).stderr(se);
    let mut child = spawn(&mut cmd);
    // It holds the program's ends.
    drop(cmd);
    let end = wait(&mut child, Duration::from_secs(60));
    let all = |r: std::sync::mpsc::Receiver<Vec<u8>>| r.iter().flatten().collect::<Vec<u8>>();
    if let End::Timeout = end {
        return violation(src, "on a terminal, the program does not end".to_string());
    }
    let (out, err) = (all(ro), all(re));
    let (code, end) = match end {
        End::Code(c) => (Some(c), format!("exit status {c}")),
        End::Signal(s) => (None, format!("signal {s}")),
        End::Timeout => unreachable!(),
    };
    Ok(Some(Ran { code, end: format!("on a terminal, {end}"), out, err }))
}

/// Contents of unusual size or form.
fn file_shapes(c: &mut Ctx, idx: u64) -> Res {
    let r = &mut c.rng;
    // Blank space costs little, so the file can be big.
    let bulk = |n: usize| match n % 3 {
        0 => "\n".repeat(n),
        1 => format!("//{}\n", "c".repeat(n)),
        _ => format!("{}\n", " ".repeat(n)),
    };
    let n = *r.pick(&[4_095, 8_190, 16_384, 65_535, 65_536, 131_072, 262_144, 1 << 20]) + r.below(5);
    let s = match idx % 16 {
        12 => format!("{}print 1\n", bulk(n)),
        13 => format!("var a = 1\n{}print ) a\n", bulk(n)),
        14 => format!("var a = 1\n{}@\n", bulk(n)),
        15 => format!("{}x\n{}return 1\n", bulk(n / 2), bulk(n)),
        0 => String::new(),
        1 => "\n".repeat(r.range(1, 300)),
        2 => "// only a comment".to_string(),
        3 => "print 1\n".repeat(dict::size(r, 5_000)),
        4 => "@ ".repeat(dict::size(r, 3_000)),
        5 => "x ) y\nprint 1\n".repeat(dict::size(r, 1_000)),
        6 => "return 1\n".repeat(dict::size(r, 1_000)),
        7 => format!("\"{}\"\n", "é👩‍👩‍👧\n".repeat(r.range(1, 500))),
        8 => "a\r\nb\r\n".repeat(r.range(1, 200)),
        9 => format!("x = {}\n", "a".repeat(r.range(8_000, 70_000))),
        10 => "var v = v\nv = \"\n\"\n)".to_string(),
        _ => "\u{feff}print 1\n".to_string(),
    };
    file(c, &s)
}

/// Files that cannot be read, or not as text.
fn faults(c: &mut Ctx, idx: u64) -> Res {
    let d = scratch("");
    let path = scratch("fault.ws");
    let _ = std::fs::remove_file(&path);
    let good = make::any(&mut c.rng).text;
    let what = match idx % 9 {
        8 => "empty name",
        0 => "missing",
        1 => "directory",
        2 => "dangling link",
        3 => "path through a file",
        4 => "name too long",
        _ => "not UTF-8",
    };
    let mut arg = path.clone();
    match what {
        "directory" => arg = d.clone(),
        "empty name" => arg = PathBuf::new(),
        "dangling link" => {
            let _ = std::os::unix::fs::symlink(d.join("nowhere"), &path);
        }
        "path through a file" => {
            std::fs::write(&path, &good).unwrap();
            arg = path.join("x.ws");
        }
        "name too long" => arg = d.join("n".repeat(300)),
        "not UTF-8" => {
            let mut b = good.clone().into_bytes();
            let i = match c.rng.below(4) {
                0 => 0,
                1 => b.len(),
                _ => c.rng.below(b.len() + 1),
            };
            let bad: &[u8] = c.rng.pick(&[&[0xff][..], &[0xc3], &[0xed, 0xa0, 0x80], &[0xf8, 0x88, 0x80, 0x80, 0x80], &[0xc0, 0x80], &[0xe2, 0x82]]);
            b.splice(i..i, bad.iter().copied());
            if std::str::from_utf8(&b).is_ok() {
                return Ok(());
            }
            std::fs::write(&path, b).unwrap();
        }
        _ => (),
    }
    let mut cmd = Command::new(program());
    cmd.arg(&arg);
    let r = run(cmd, None, &good)?;
    let _ = std::fs::remove_file(&path);
    if r.code == Some(0) || !r.out.is_empty() {
        return violation(&good, format!("{what}: {}, standard output {:?}", r.end, cut(&r.out)));
    }
    c.stats.add("faulty files", 1);
    Ok(())
}

// ------------------------------------------------------------------------ C30

/// One line of input, without its newline.
fn repl_line(c: &mut Ctx) -> String {
    const L: [&str; 34] = [
        "1 + 2", "var a = 1", "var b = a", "a = b", "a b", "f(a)", "f a, b", "print a", "fun f(x) {}", "fun f(x) { y }", "class A {}",
        "x", "y = x", "if (a) b", "while (a) break", "for (;;) x", "return 1", "this", "super.x", "var q = q", "1 +", "(", ")",
        "@", "\"open", "\"s\"", "{a: 1}", "a: 1, b: 2", "", "   ", "// c", "break", "a.b.c(1)[2] = 3", "\\",
    ];
    let r = &mut c.rng;
    let s = match r.below(10) {
        0..=4 => r.pick(&L).to_string(),
        5 => {
            let a = r.pick(&L).to_string();
            mutate(r, a, 1)
        }
        6 => {
            let x = *r.pick(&["a", "b", "v1", "größe"]);
            format!("var {x} = {}", r.pick(&["a", "b + 1", "nil", "v1", "größe"]))
        }
        7 => {
            let s = make::any(r).text;
            s.lines().next().unwrap_or("").to_string()
        }
        8 => {
            let style = Style::random(r);
            let mut cfg = Cfg::normal(r);
            cfg.flat = true;
            let mut g = make::G::new(r, style, cfg);
            g.expression(true);
            g.w.out
        }
        _ => {
            let k = r.below(4);
            [" a", "a\tb", "é = \"👩‍👩‍👧\"", "a // c"][k].to_string()
        }
    };
    let mut s: String = s.chars().filter(|c| *c != '\n').collect();
    if c.rng.chance(5) {
        s.push('\r');
    }
    s
}

/// What the REPL should print for each line, in one session.
pub(super) fn answers(lines: &[String]) -> Vec<Result<String, String>> {
    let mut live = Live::new();
    lines
        .iter()
        .map(|l| match live.feed(l) {
            Ok(t) => Ok(pretty(l, &t)),
            Err(e) => Err(diagnostics(&e)),
        })
        .collect()
}

pub(super) fn session(c: &mut Ctx) -> Vec<String> {
    let n = *c.rng.pick(&[0, 1, 2, 3, 5, 8, 20, 60]);
    (0..n).map(|_| repl_line(c) + "\n").collect()
}

fn check_session(c: &mut Ctx, lines: Vec<String>) -> Res {
    let all = lines.concat();
    let mut out = String::new();
    let mut err = String::new();
    for a in answers(&lines) {
        out.push_str("> ");
        match a {
            Ok(t) => {
                c.stats.add("lines answered with a tree", 1);
                out.push_str(&t);
            }
            Err(e) => {
                c.stats.add("lines answered with errors", 1);
                err.push_str(&e);
            }
        }
    }
    out.push_str("> ");
    let r = run(Command::new(program()), Some(all.as_bytes()), &all)?;
    if r.code != Some(0) {
        return violation(&all, format!("{} at the end of input; standard error {:?}", r.end, cut(&r.err)));
    }
    // A line end after the last prompt is a matter of taste.
    let got = if r.out.len() == out.len() + 1 && r.out.ends_with(b"\n") { &r.out[..out.len()] } else { &r.out[..] };
    bytes_same(&all, "standard output of the session", out.as_bytes(), got)?;
    bytes_same(&all, "standard error of the session", err.as_bytes(), &r.err)?;
    if lines.len() > 1 {
        c.stats.nontrivial(&all);
    }
    Ok(())
}

/// Sessions of very many lines.
fn many_lines(c: &mut Ctx, idx: u64) -> Res {
    let n = if idx == 0 { 65_550 } else { *c.rng.pick(&[250, 300, 520, 1030]) + c.rng.below(9) };
    let mut l = vec!["y\n".to_string(), "var x = 1\n".into(), "fun f(a) { return a\n".into()];
    for i in 0..n {
        l.push(c.rng.pick(&["x\n", "\n", "return 1\n", ")\n", "y = x\n", "f(z)\n"]).to_string());
        if i % 64 == 0 && l.len() < 9_000 {
            l.push(format!("var v{}\n", i / 64));
        }
    }
    l.push("x = y + f + z + v0 + new\n".into());
    c.stats.max("lines in a session", l.len() as u64);
    check_session(c, l)
}

fn piped(c: &mut Ctx, _: u64) -> Res {
    let mut lines = session(c);
    if c.rng.chance(30) {
        if let Some(l) = lines.last_mut() {
            l.pop();
            if l.is_empty() {
                lines.pop();
            } else {
                c.stats.add("input ended in mid-line", 1);
            }
        }
    }
    check_session(c, lines)
}

/// Input that ends at any byte.
fn ends(c: &mut Ctx, idx: u64) -> Res {
    let all: String = session(c).concat();
    if idx % 4 == 3 {
        return bad_bytes(c, &all);
    }
    let k = inputs::floor_char(&all, c.rng.below(all.len() + 1));
    let all = &all[..k];
    if !all.is_empty() && !all.ends_with('\n') {
        c.stats.add("input ended in mid-line", 1);
    }
    let lines = all.split_inclusive('\n').map(str::to_string).collect();
    check_session(c, lines)
}

/// A line that is not text: what came before it is answered, and the program
/// ends.
fn bad_bytes(c: &mut Ctx, all: &str) -> Res {
    let mut out = String::new();
    let lines: Vec<String> = all.split_inclusive('\n').map(str::to_string).collect();
    for t in answers(&lines) {
        out.push_str("> ");
        out.push_str(&t.unwrap_or_default());
    }
    out.push_str("> ");
    let mut b = all.as_bytes().to_vec();
    b.extend(b"a \xff b\nprint 1\n");
    let r = run(Command::new(program()), Some(&b), all)?;
    if r.code.is_none() || !r.out.starts_with(out.as_bytes()) {
        return violation(all, format!("before a line that is not UTF-8: {}, standard output {:?}", r.end, cut(&r.out)));
    }
    c.stats.add("ended by bad input", 1);
    Ok(())
}

/// Input that fails when read, from the start or after some lines.
fn unreadable(c: &mut Ctx, idx: u64) -> Res {
    let mut cmd = Command::new(program());
    let what;
    match idx % 4 {
        0 => {
            what = "a directory";
            let d = scratch("some.d");
            let _ = std::fs::create_dir(&d);
            cmd.stdin(std::fs::File::open(&d).unwrap());
        }
        1 => {
            what = "a file open for writing only";
            let f = scratch("written");
            cmd.stdin(std::fs::File::create(&f).unwrap());
        }
        2 => {
            what = "nothing";
            cmd.stdin(Stdio::null());
        }
        _ => {
            what = "a terminal that hangs up";
            let Some((o, so)) = pty::open() else { return Ok(()) };
            if c.rng.chance(50) {
                let _ = (&o).write_all(b"var a = 1\na\n");
            }
            cmd.stdin(so);
            drop(o);
        }
    }
    cmd.stdout(Stdio::null()).stderr(Stdio::null());
    let mut child = spawn(&mut cmd);
    drop(cmd);
    let end = wait(&mut child, Duration::from_secs(60));
    if let End::Timeout = end {
        let _ = child.kill();
        let _ = child.wait();
        return violation("", format!("a session whose input is {what} does not end"));
    }
    c.stats.add("ended by unreadable input", 1);
    Ok(())
}

/// A session on a terminal, as most are.
fn terminal(c: &mut Ctx, _: u64) -> Res {
    let n = c.rng.range(1, 12);
    let lines: Vec<String> = (0..n)
        .map(|_| repl_line(c))
        .filter(|l| l.len() < 4_000 && !l.contains(|c: char| (c as u32) < 32 && c != '\t' || c == '\u{7f}'))
        // Bytes a terminal takes for something else.
        .filter(|l| !l.contains('\u{15}'))
        .map(|l| l + "\n")
        .collect();
    let all = lines.concat();
    let (Some((o, so)), Some((e, se))) = (pty::open(), pty::open()) else {
        c.stats.add("no terminals", 1);
        return Ok(());
    };
    let rx = [pty::drain(&o), pty::drain(&e)];
    let mut cmd = Command::new(program());
    cmd.stdin(so.try_clone().unwrap()).stdout(so).stderr(se);
    let mut child = spawn(&mut cmd);
    drop(cmd);
    let mut to = &o;
    let mut want = [b"> ".to_vec(), vec![]];
    let mut got = [vec![], vec![]];
    let mut it = lines.iter().zip(answers(&lines));
    let mut res = Ok(());
    loop {
        let until = std::time::Instant::now() + Duration::from_secs(30);
        for k in 0..2 {
            while got[k].len() < want[k].len() {
                match rx[k].recv_timeout(until.saturating_duration_since(std::time::Instant::now())) {
                    Ok(b) => got[k].extend(b),
                    Err(_) => break,
                }
            }
        }
        if got != want {
            let (g, w) = if got[0] != want[0] { (&got[0], &want[0]) } else { (&got[1], &want[1]) };
            res = violation(&all, format!("on a terminal, waiting for the answer to line {}: expected {:?}, seen {:?}", lines.len() - it.len(), cut(w), cut(g)));
            break;
        }
        let Some((l, a)) = it.next() else { break };
        if to.write_all(l.as_bytes()).is_err() {
            res = violation(&all, format!("on a terminal, the program no longer reads at {l:?}"));
            break;
        }
        match a {
            Ok(t) => want[0].extend(t.as_bytes()),
            Err(e) => want[1].extend(e.as_bytes()),
        }
        want[0].extend(b"> ");
        c.stats.add("lines on a terminal", 1);
    }
    // The end of input, as a terminal gives it.
    let _ = to.write_all(&[4]);
    let end = wait(&mut child, Duration::from_secs(30));
    res?;
    if !matches!(end, End::Code(0)) {
        let t = match end {
            End::Code(c) => format!("exit status {c}"),
            End::Signal(s) => format!("signal {s}"),
            End::Timeout => "still running".to_string(),
        };
        return violation(&all, format!("on a terminal, {t} after the end of input"));
    }
    c.stats.nontrivial(&all);
    Ok(())
}

/// One line at a time: each is answered, and prompted for, before the next is
/// sent.
fn dialogue(c: &mut Ctx, _: u64) -> Res {
    let n = c.rng.range(1, 8);
    let lines: Vec<String> = (0..n).map(|_| repl_line(c) + "\n").collect();
    let all = lines.concat();
    let mut child = spawn(
        Command::new(program()).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()),
    );
    let mut stdin = child.stdin.take().unwrap();
    let (tx, rx) = std::sync::mpsc::channel();
    for (k, mut s) in [
        (0, Box::new(child.stdout.take().unwrap()) as Box<dyn Read + Send>),
        (1, Box::new(child.stderr.take().unwrap()) as Box<dyn Read + Send>),
    ] {
        let tx = tx.clone();
        std::thread::spawn(move || {
            let mut b = [0u8; 8192];
            while let Ok(n) = s.read(&mut b) {
                if n == 0 || tx.send((k, b[..n].to_vec())).is_err() {
                    break;
                }
            }
        });
    }
    let mut want = [b"> ".to_vec(), vec![]];
    let mut got = [vec![], vec![]];
    let mut res = Ok(());
    let mut it = lines.iter().zip(answers(&lines));
    loop {
        // Everything due so far must arrive without further input.
        let until = std::time::Instant::now() + Duration::from_secs(30);
        while got[0].len() < want[0].len() || got[1].len() < want[1].len() {
            match rx.recv_timeout(until.saturating_duration_since(std::time::Instant::now())) {
                Ok((k, b)) => got[k].extend(b),
                Err(_) => break,
            }
        }
        if got != want {
            let (g, w) = if got[0] != want[0] { (&got[0], &want[0]) } else { (&got[1], &want[1]) };
            res = violation(&all, format!("waiting for the answer to line {}: expected {:?}, seen {:?}", n - it.len(), cut(w), cut(g)));
            break;
        }
        let Some((l, a)) = it.next() else { break };
        if stdin.write_all(l.as_bytes()).is_err() {
            res = violation(&all, format!("the program no longer reads at {l:?}"));
            break;
        }
        match a {
            Ok(t) => want[0].extend(t.as_bytes()),
            Err(e) => want[1].extend(e.as_bytes()),
        }
        want[0].extend(b"> ");
        c.stats.add("dialogue lines", 1);
    }
    drop(stdin);
    let end = wait(&mut child, Duration::from_secs(30));
    res?;
    if !matches!(end, End::Code(0)) {
        let t = match end {
            End::Code(c) => format!("exit status {c}"),
            End::Signal(s) => format!("signal {s}"),
            End::Timeout => "still running".to_string(),
        };
        return violation(&all, format!("{t} after the end of input"));
    }
    c.stats.nontrivial(&all);
    Ok(())
}
