//! C09-C18, C20: the parser.
use super::*;
use crate::dict;
use crate::inputs::Stream::*;
use crate::inputs::{self, mutate};
use crate::make::{self, Cfg, G, Style};
use crate::reflex::{RTok, is_newline, lex};
use crate::rt::{Ctx, Rng, Tier, Violation};
use unicode_segmentation::UnicodeSegmentation;
use whitespace::ast::*;
use whitespace::token::TokenType as T;

pub fn all() -> Vec<Check> {
    vec![
        Check::new(
            "C09",
            "expressions built from their trees, and every short operator sequence, against the grouping the precedence table gives; non-trivial: accepted with at least two operators",
        )
        .cases("operators", 24_000, 400_000, operators)
        .cases("built", 16_000, 400_000, |c, i| built(c, i, Focus::Operators))
        .text("expressions", 12_000, 300_000, expression_tree, &[Exprs, Valid, Mutant])
        .cases("long", 200, 3_000, long_chains)
        .text("edits", 60_000, 300_000, expression_tree, &[Edits])
        .text("small", 24_000, 1_500_000, expression_tree, &[Small])
        .needs(&["trees compared", "built trees compared", "sequences enumerated"]),
        Check::new(
            "C10",
            "postfix chains and calls built from their trees, and every short sequence of postfix forms, against the grammar; non-trivial: accepted and contains a call",
        )
        .cases("postfix", 20_000, 400_000, postfix)
        .cases("built", 16_000, 400_000, |c, i| built(c, i, Focus::Postfix))
        .cases("arity", 1_200, 4_800, arity)
        .cases("arguments", 14_000, 300_000, arguments)
        .text("expressions", 12_000, 300_000, expression_tree, &[Exprs, Valid, Mutant])
        .text("small", 24_000, 1_500_000, program_tree, &[Small])
        .needs(&["trees compared", "built trees compared", "arities accepted", "arities rejected"]),
        Check::new(
            "C11",
            "control flow built from its trees and every short statement skeleton, against the grammar; non-trivial: contains a loop or an if",
        )
        .cases("built", 20_000, 500_000, |c, i| built(c, i, Focus::Control))
        .cases("skeletons", 24_000, 500_000, skeletons)
        .cases("for", 6_000, 100_000, for_headers)
        .text("programs", 12_000, 400_000, program_tree, &[Valid, Mutant, Seeds])
        .text("edits", 200_000, 1_000_000, program_tree, &[Edits])
        .text("small", 24_000, 1_500_000, program_tree, &[Small])
        .needs(&["built trees compared", "trees compared", "for headers accepted"]),
        Check::new(
            "C12",
            "declarations built from their trees against the tree parsed; non-trivial: contains a function or class",
        )
        .cases("built", 24_000, 500_000, |c, i| built(c, i, Focus::Declarations))
        .cases("parameters", 1_200, 4_800, parameters)
        .cases("classes", 14_000, 300_000, classes)
        .text("programs", 12_000, 400_000, program_tree, &[Valid, Mutant, Seeds])
        .text("edits", 200_000, 1_000_000, program_tree, &[Edits])
        .text("small", 24_000, 1_500_000, program_tree, &[Small])
        .needs(&["built trees compared", "parameters accepted", "parameters rejected", "classes compared"]),
        Check::new(
            "C13",
            "array and map literals in all their layouts against their entries; non-trivial: at least two entries",
        )
        .cases("forms", 24_000, 500_000, map_forms)
        .cases("arrays", 8_000, 150_000, arrays)
        .cases("built", 12_000, 400_000, |c, i| built(c, i, Focus::Literals))
        .cases("skeletons", 14_000, 300_000, map_skeletons)
        .cases("perturbed", 30_000, 600_000, perturbed_literals)
        .text("small", 24_000, 1_500_000, program_tree, &[Small])
        .needs(&["map forms compared", "duplicate keys rejected", "equal keys in two literals", "arrays compared", "built trees compared"]),
        Check::new(
            "C14",
            "accepted sources: names, literals and operators read off the tree against those of the source; non-trivial: accepted with at least 4 of them",
        )
        .text("streams", 70_000, 2_000_000, conserved, &[Mutant, Valid, Guided, Soup, Seeds, Rules, Exprs])
        .cases("short", 40_000, 800_000, |c, i| sentences(c, i, conserved))
        .text("edits", 200_000, 1_000_000, conserved, &[Edits])
        .text("small", 24_000, 1_500_000, conserved, &[Small])
        .needs(&["sources reconciled", "items reconciled"]),
        Check::new(
            "C15",
            "mutated, random and enumerated token sequences at all three entry points against the reference grammar; non-trivial: lexically clean",
        )
        .text("streams", 50_000, 1_500_000, accepted, &[Mutant, Mutant, Soup, Guided, Valid, Seeds, Exprs])
        .cases("short", 60_000, 1_500_000, |c, i| sentences(c, i, accepted))
        .cases("near", 14_000, 400_000, near)
        .text("edits", 300_000, 2_000_000, accepted, &[Edits])
        .text("small", 24_000, 1_500_000, accepted, &[Small])
        .needs(&["accepted", "rejected", "sequences enumerated"]),
        Check::new(
            "C16",
            "programs with break and continue in and out of place; non-trivial: contains one",
        )
        .text("streams", 24_000, 700_000, jumps, &[Valid, Mutant, Guided, Soup, Seeds])
        .cases("placed", 24_000, 500_000, placed)
        .cases("later", 8_000, 200_000, later)
        .text("edits", 200_000, 1_000_000, jumps, &[Edits])
        .text("small", 24_000, 1_500_000, jumps, &[Small])
        .needs(&["jumps seen in trees", "stray jumps rejected", "stray jumps after other errors"]),
        Check::new(
            "C17",
            "trees with positions built with the source, plus the same source with lines before and after it; non-trivial: accepted",
        )
        .cases("built", 30_000, 700_000, |c, i| built(c, i, Focus::Positions))
        .text("streams", 20_000, 600_000, placed_tree, &[Valid, Mutant, Exprs, Seeds])
        .text("context", 12_000, 300_000, context, &[Valid, Mutant, Seeds, Rules])
        .text("edits", 200_000, 1_000_000, placed_tree, &[Edits])
        .text("small", 24_000, 1_500_000, placed_tree, &[Small])
        .cases("far", 120, 1440, |c, _| { let s = inputs::far(&mut c.rng); placed_tree(c, &s) })
        .needs(&["built trees compared", "trees compared", "shifted", "extended"]),
        Check::new(
            "C18",
            "rejected sources: position, quoted text and order of the errors; non-trivial: rejected",
        )
        .text("streams", 60_000, 1_500_000, diagnostics, &[Mutant, Rules, Soup, Guided, Layout, Chars, Seeds])
        .cases("short", 30_000, 600_000, |c, i| sentences(c, i, diagnostics))
        .cases("near", 10_000, 300_000, near_errors)
        .text("edits", 300_000, 2_000_000, diagnostics, &[Edits])
        .text("small", 24_000, 1_500_000, diagnostics, &[Small])
        .cases("limits", 1_600, 20_000, limit_errors)
        .cases("far", 160, 1920, |c, _| { let s = inputs::far(&mut c.rng); diagnostics(c, &s) })
        .needs(&["lexical", "syntax", "rules", "errors printed"]),
        Check::new(
            "C20",
            "a malformed line followed by well-formed and malformed remainders; non-trivial: the line fails before its end",
        )
        .cases("pairs", 30_000, 800_000, recovery)
        .needs(&["remainders clean", "remainders malformed", "lines malformed"]),
    ]
}

// ---------------------------------------------------------------- built trees

#[derive(Clone, Copy, PartialEq)]
pub enum Focus {
    Operators,
    Postfix,
    Control,
    Declarations,
    Literals,
    Positions,
}

/// Programs generated together with the tree they must give.
fn built(c: &mut Ctx, _: u64, f: Focus) -> Res {
    let r = &mut c.rng;
    let style = if r.chance(40) { Style::plain() } else { Style::random(r) };
    let mut cfg = Cfg::normal(r);
    match f {
        Focus::Operators | Focus::Postfix | Focus::Literals => {
            cfg.weights = [8, 2, 0, 0];
            cfg.stmts = r.range(1, 3);
        }
        Focus::Control => cfg.weights = [2, 1, 8, 0],
        Focus::Declarations => cfg.weights = [1, 5, 1, 5],
        Focus::Positions => (),
    }
    let m = make::made(r, style, cfg);
    let locs = f == Focus::Positions;
    match api::parse(&m.text) {
        Ok(t) => same_tree(&m.text, "tree of a generated program", &m.tree, &t, locs)?,
        Err(e) => {
            return violation(
                &m.text,
                format!(
                    "a generated program was rejected: {}; its tree is {}",
                    api::errs(&e),
                    walk::render(&m.tree, false, false)
                ),
            );
        }
    }
    c.stats.add("built trees compared", 1);
    c.stats.max("nodes in a tree", walk::size(&m.tree) as u64);
    let yes = match f {
        Focus::Control => m.log.iter().any(|w| matches!(w.ty, T::If | T::For | T::While)),
        Focus::Declarations => m.log.iter().any(|w| matches!(w.ty, T::Fun | T::Class)),
        _ => m.log.len() > 4,
    };
    if yes {
        c.stats.nontrivial(&m.text);
    }
    Ok(())
}

fn tree_of(c: &mut Ctx, src: &str, entry: Entry, locs: bool) -> Result<bool, Violation> {
    match grammar(src, entry, locs)? {
        Seen::Tree(_) => {
            c.stats.add("trees compared", 1);
            c.stats.nontrivial(src);
            Ok(true)
        }
        Seen::Rejected => {
            c.stats.add("rejected by both", 1);
            Ok(false)
        }
        Seen::Other => Ok(false),
    }
}

fn expression_tree(c: &mut Ctx, src: &str) -> Res {
    tree_of(c, src, Entry::Repl, false)?;
    if !src.contains('\n') {
        tree_of(c, src, Entry::Expression, false)?;
    }
    Ok(())
}

fn program_tree(c: &mut Ctx, src: &str) -> Res {
    tree_of(c, src, Entry::Program, false).map(|_| ())
}

// ------------------------------------------------------------------------ C09

const BINARY: [&str; 14] =
    ["=", "or", "and", "==", "!=", "<", "<=", ">", ">=", "+", "-", "*", "/", "."];

/// Every sequence of up to three binary operators with every placement of a
/// prefix operator or parenthesis, then random longer ones.
fn operators(c: &mut Ctx, idx: u64) -> Res {
    const WRAP: [(&str, &str); 8] = [
        ("", ""),
        ("-", ""),
        ("!", ""),
        ("(", ")"),
        ("!-", ""),
        ("", "(1)"),
        ("", ".m"),
        ("-", "[0]"),
    ];
    const NAMES: [&str; 8] = ["a", "b", "c", "d", "e", "f", "g", "h"];
    let all = 14 * 14 * 14 * 4u64;
    let mut s = String::new();
    if idx < all {
        let mut k = idx;
        let ops: Vec<&str> = (0..3)
            .map(|_| {
                let o = BINARY[(k % 14) as usize];
                k /= 14;
                o
            })
            .collect();
        let slot = k as usize;
        for i in 0..4 {
            if i > 0 {
                s.push_str(&format!(" {} ", ops[i - 1]));
            }
            let w = if i == slot { WRAP[1 + c.rng.below(7)] } else { WRAP[0] };
            s.push_str(&format!("{}{}{}", w.0, NAMES[i], w.1));
        }
        c.stats.add("sequences enumerated", 1);
    } else {
        let n = c.rng.range(2, 9);
        let mut open = 0;
        for i in 0..n {
            if i > 0 {
                s.push_str(&format!(" {} ", c.rng.pick(&BINARY)));
            }
            let w = *c.rng.pick(&WRAP);
            if c.rng.chance(10) {
                s.push('(');
                open += 1;
            }
            s.push_str(&format!("{}{}{}", w.0, NAMES[i % 8], w.1));
            if open > 0 && c.rng.chance(20) {
                s.push(')');
                open -= 1;
            }
        }
        s.push_str(&")".repeat(open));
    }
    s = s.replace(" . ", ".");
    tree_of(c, &s, Entry::Expression, false)?;
    tree_of(c, &format!("{s}\n"), Entry::Program, false)?;
    Ok(())
}

fn long_chains(c: &mut Ctx, _: u64) -> Res {
    let n = c.rng.range(50, 400);
    let one = c.rng.chance(50);
    let op = *c.rng.pick(&BINARY);
    let mut s = String::from("a");
    for _ in 0..n {
        let o = if one { op } else { *c.rng.pick(&BINARY[1..13]) };
        s.push_str(&format!(" {o} {}", c.rng.pick(&["a", "b", "-c", "!d", "e.f", "g(1)"])));
    }
    if op == "=" && one {
        s = s.replace("-c", "c").replace("!d", "d").replace("g(1)", "g[1]");
    }
    s = s.replace(" . ", ".").replace(".-c", ".c").replace(".!d", ".d");
    tree_of(c, &s, Entry::Expression, false).map(|_| ())
}

// ------------------------------------------------------------------------ C10

fn postfix(c: &mut Ctx, idx: u64) -> Res {
    const BASE: [&str; 8] = ["f", "1", "\"s\"", "(a)", "[1]", "{}", "super.m", "this"];
    const POST: [&str; 22] = [
        ".x", "[0]", "(1)", "()", "(1, 2)", " 1", " a", " \"s\"", " fun(){}", " (1)", " {a: 1}",
        " super.m", " true", " nil", " 1, 2", " a: 1", " x.y", " (1).z", " [0]", " -1", " this", " (1)(2)",
    ];
    let all = 8 * 22 * 22 * 3;
    let mut s;
    if idx < all {
        let mut k = idx as usize;
        let b = k % 8;
        k /= 8;
        let p = k % 22;
        k /= 22;
        let q = k % 22;
        k /= 22;
        s = format!("{}{}", BASE[b], POST[p]);
        if k > 0 {
            s.push_str(POST[q]);
        }
        if k > 1 {
            s.push_str(c.rng.pick(&POST));
        }
        c.stats.add("chains enumerated", 1);
    } else {
        s = c.rng.pick(&BASE).to_string();
        for _ in 0..c.rng.range(2, 8) {
            s.push_str(c.rng.pick(&POST));
        }
    }
    let pre = *c.rng.pick(&["", "", "-", "x = ", "a + ", "print ", "var v = ", "!", "return "]);
    let src = format!("{pre}{s}\n");
    tree_of(c, &src, Entry::Program, false)?;
    if !pre.ends_with("t ") && !pre.starts_with("var") {
        tree_of(c, &format!("{pre}{s}"), Entry::Expression, false)?;
    }
    Ok(())
}

/// Argument lists with arguments of all kinds.
fn arguments(c: &mut Ctx, _: u64) -> Res {
    const ARGS: [&str; 22] = [
        "a", "1", "\"s\"", "a + b", "x = 1", "f(1)", "g h", "g h, i", "{a: 1}", "a: 1", "a: 1, b: 2",
        "[1, 2]", "(a)", "fun(p) { return p\n}", "-a", "a.b", "nil", "super.m", "!x or y", "f(1)(2)",
        "fun()\n  1\n", "\"k\": v",
    ];
    let r = &mut c.rng;
    let n = r.range(0, 5);
    let args: Vec<&str> = (0..n).map(|_| *r.pick(&ARGS)).collect();
    let base = *r.pick(&["f", "a.b", "f(1)", "x[0]", "(g)", "\"s\"", "f g", "- f"]);
    let list = args.join(*r.pick(&[", ", ",", ",\n   ", " , "]));
    let call = match r.below(4) {
        0 => format!("{base} {list}"),
        1 => format!("{base}({list})"),
        2 => format!("{base}( {list} ).z"),
        _ => format!("{base} ({list})"),
    };
    let src = match r.below(5) {
        0 => format!("x = {call}\n"),
        1 => format!("[{call}]\n"),
        2 => format!("print {call}\n"),
        3 => format!("{call} + 1\n"),
        _ => format!("{call}\n"),
    };
    tree_of(c, &src, Entry::Program, false).map(|_| ())
}

/// All argument counts up to 300, in both kinds of call.
fn arity(c: &mut Ctx, idx: u64) -> Res {
    let n = (idx / 2 % 300) as usize;
    let bare = idx % 2 == 1;
    let kind = idx / 600;
    let arg = |i: usize| match kind {
        0 => format!("a{i}"),
        _ => c_pick(i).to_string(),
    };
    let list: Vec<String> = (0..n).map(arg).collect();
    let sep = if kind % 2 == 0 { ", " } else { ",\n  " };
    let src = if bare {
        if n == 0 {
            return Ok(());
        }
        format!("f {}\n", list.join(sep))
    } else {
        format!("f({})\n", list.join(sep))
    };
    let got = api::parse(&src);
    if (n <= 255) != got.is_ok() {
        return violation(
            &src,
            format!("a call with {n} arguments: {}", got.err().map_or("accepted".into(), |e| api::errs(&e))),
        );
    }
    match got {
        Ok(t) => {
            c.stats.add("arities accepted", 1);
            match t.first() {
                Some(Stmt::Expression(Expr::Call(_, a, _))) if a.len() == n && t.len() == 1 => (),
                _ => return violation(&src, format!("not one call with {n} arguments")),
            }
        }
        Err(_) => c.stats.add("arities rejected", 1),
    }
    tree_of(c, &src, Entry::Program, false).map(|_| ())
}

fn c_pick(i: usize) -> &'static str {
    ["1", "a", "\"s\"", "f(1, 2)", "a + b", "[1, 2]", "(x)", "nil", "{k: 1, l: 2}"][i * 7 % 9]
}

// ------------------------------------------------------------------------ C11

/// Statement skeletons: lines of headers and leaves at every indentation.
fn skeletons(c: &mut Ctx, _: u64) -> Res {
    const LINES: [&str; 24] = [
        "if (a)", "if (a) x", "else", "else y", "else if (b)", "else if (b) z", "while (c)",
        "while (c) w", "for (;;)", "for (i = 0; i < n; i = i + 1)", "for (var j = 0;; j = 1) v", "p",
        "q", "print r", "fun f()", "break", "continue", "return", "if (a) if (b)", "if (a) { x",
        "} else", "}", "while (a) if (b) x", "if (a) {} else",
    ];
    let r = &mut c.rng;
    let n = r.range(2, 9);
    let mut s = String::new();
    let mut depth = 0usize;
    for _ in 0..n {
        let l = *r.pick(&LINES);
        s.push_str(&"  ".repeat(depth));
        s.push_str(l);
        s.push('\n');
        let opens = l.ends_with(')') || l == "else" || l.ends_with("} else") || l.ends_with("{} else");
        depth = match r.below(10) {
            0 => r.below(4),
            _ if opens => depth + 1,
            1..=3 => depth.saturating_sub(r.range(1, 2)),
            _ => depth,
        };
    }
    program_tree(c, &s)
}

/// Every combination of present and absent for-loop parts and body kinds.
fn for_headers(c: &mut Ctx, idx: u64) -> Res {
    const INIT: [&str; 6] = ["", "i = 0", "var i = 0", "var i", "f(1)", "var m = {a: 1}"];
    const COND: [&str; 4] = ["", "i < 3", "f(1, 2) or x", "true"];
    const INC: [&str; 4] = ["", "i = i + 1", "f 1, 2", "x.y[0] = z"];
    const BODY: [&str; 9] = [
        " x\n",
        "\n  x\n  y\n",
        " { x\n} z\n",
        " break\n",
        " if (c) continue\nelse d\n",
        "\n  continue\n",
        " for (;;) y\n",
        "\n  for (;;)\n    break\n  x\n",
        " {} x\n",
    ];
    let i = idx as usize;
    let (a, b, d, e) = (i % 6, i / 6 % 4, i / 24 % 4, i / 96 % 9);
    let sp = *c.rng.pick(&["", " ", "  ", "\\\n "]);
    let next = *c.rng.pick(&["", "n\n", "else\n  n\n", "for (;;) n\n"]);
    let mut src = format!(
        "for{sp}({}{sp};{sp}{}{sp};{sp}{}{sp}){}{next}",
        INIT[a], COND[b], INC[d], BODY[e]
    );
    if idx >= 864 && c.rng.chance(50) {
        src = mutate(&mut c.rng, src, 1);
    }
    if tree_of(c, &src, Entry::Program, false)? {
        c.stats.add("for headers accepted", 1);
    }
    Ok(())
}

// ------------------------------------------------------------------------ C12

fn parameters(c: &mut Ctx, idx: u64) -> Res {
    let n = (idx % 300) as usize;
    let list: Vec<String> = (0..n).map(|i| format!("p{i}")).collect();
    let sep = *c.rng.pick(&[", ", ",", ",\n    "]);
    let list = list.join(sep);
    let src = match idx / 300 % 4 {
        0 => format!("fun f({list})\n  return p0\n"),
        1 => format!("var g = fun ({list}) {{ return 1\n}}\n"),
        2 => format!("class A\n  m({list})\n    1\n  class k({list})\n    2\n"),
        _ => format!("fun f({list}) {{}} x\n"),
    };
    let got = api::parse(&src);
    if (n <= 255) != got.is_ok() {
        return violation(
            &src,
            format!("{n} parameters: {}", got.err().map_or("accepted".into(), |e| api::errs(&e))),
        );
    }
    c.stats.add(if n <= 255 { "parameters accepted" } else { "parameters rejected" }, 1);
    program_tree(c, &src)
}

fn classes(c: &mut Ctx, _: u64) -> Res {
    const NAMES: [&str; 9] = ["init", "m", "inits", "_init", "Init", "init1", "get", "k", "inıt"];
    let r = &mut c.rng;
    let mut s = String::new();
    let mut want = String::new();
    let sup = r.chance(40);
    let braces = r.chance(35);
    s.push_str("class C");
    if sup {
        s.push_str(*r.pick(&[" < B", "<B", " < \n  B"]));
    }
    s.push_str(if braces { " {" } else { "\n" });
    let n = r.range(if braces { 0 } else { 1 }, 5);
    for _ in 0..n {
        let name = *r.pick(&NAMES);
        let class = r.chance(35);
        let ps = ["", "a", "a, b"][r.below(3)];
        if !braces {
            s.push_str("  ");
        }
        if class {
            s.push_str("class ");
        }
        let tight = braces || r.chance(50);
        let nested = r.below(4);
        // A closing brace on a line of its own sits at the depth of the line
        // it belongs to.
        let pad = if braces { "" } else if tight { "  " } else { "    " };
        let body = match nested {
            0 => format!("fun init() {{ return 1\n{pad}}}"),
            1 => format!("x = fun () {{ return 2\n{pad}}}"),
            2 => "return".to_string(),
            _ => "y = 1".to_string(),
        };
        if tight {
            let end = if nested == 0 { " ".to_string() } else { format!("\n{pad}") };
            s.push_str(&format!("{name}({ps}) {{ {body}{end}}} "));
        } else {
            s.push_str(&format!("{name}({ps})\n    {body}"));
            s.push_str(if nested == 0 { " 3\n" } else { "\n" });
        }
        let kind = if class {
            "classmethod"
        } else if name == "init" {
            "initializer"
        } else {
            "method"
        };
        want.push_str(&format!("{name} {kind} {} {};", ps.replace(' ', ""), nested));
        // With an indented class, a braced method must not end the line.
        if tight && !braces {
            s.push_str("z() { 4\n  } ");
            want.push_str("z method  9;");
            s.push_str("y()\n    5\n");
            want.push_str("y method  9;");
        }
    }
    s.push_str(if braces { "} last\n" } else { "last\n" });
    let got = match api::parse(&s) {
        Ok(t) => t,
        Err(e) => return violation(&s, format!("rejected: {}", api::errs(&e))),
    };
    let Some(Stmt::Class(k)) = got.first() else { return violation(&s, "not a class") };
    let mut have = String::new();
    for m in &k.methods {
        let kind = match m.fun_def.fun_type {
            FunctionType::ClassMethod => "classmethod",
            FunctionType::Initializer => "initializer",
            FunctionType::Method => "method",
            FunctionType::PlainFunction => "plain",
        };
        let ps: Vec<&str> = m.fun_def.parameters.iter().map(|p| &*p.name).collect();
        let body = match m.fun_def.body.first() {
            Some(Stmt::Fun(f)) if f.fun_def.fun_type == FunctionType::PlainFunction && f.name == "init" => 0,
            Some(Stmt::Expression(Expr::Assign(n, _, v, _))) if n == "x" => match &**v {
                Expr::Function(f) if f.fun_type == FunctionType::PlainFunction => 1,
                _ => 8,
            },
            Some(Stmt::Return(Expr::LiteralNil, _)) => 2,
            Some(Stmt::Expression(Expr::Assign(n, ..))) if n == "y" => 3,
            _ => 9,
        };
        have.push_str(&format!("{} {kind} {} {};", m.name, ps.join(","), body));
    }
    if k.name != "C" || k.superclass.is_some() != sup || got.len() != 2 {
        return violation(&s, format!("class {:?}, superclass {}, {} statements", k.name, k.superclass.is_some(), got.len()));
    }
    same(&s, "methods", &want, &have)?;
    c.stats.add("classes compared", 1);
    c.stats.nontrivial(&s);
    program_tree(c, &s)
}

// ------------------------------------------------------------------------ C13

const KEYS: [(&str, &str); 14] = [
    ("a", "a"),
    ("b", "b"),
    ("\"a\"", "a"),
    ("\"b c\"", "b c"),
    ("\"\"", ""),
    ("é", "é"),
    ("\"é\"", "é"),
    ("init", "init"),
    ("\"if\"", "if"),
    ("\"1\"", "1"),
    ("_k", "_k"),
    ("\"x: 1\"", "x: 1"),
    ("k2", "k2"),
    ("\"//\"", "//"),
];

/// The same entries in every notation for maps.
fn map_forms(c: &mut Ctx, _: u64) -> Res {
    let r = &mut c.rng;
    let top = *r.pick(&[2, 4, 8]);
    let many = r.chance(2);
    let n = if many { dict::size(r, 400) } else { r.range(1, top) };
    let mut keys: Vec<(String, String)> = vec![];
    let twice = r.chance(15);
    if many {
        keys = (0..n).map(|i| (format!("w{i}"), format!("w{i}"))).collect();
        if n > 1 && r.chance(60) {
            let d = if r.chance(50) { n - 1 } else { r.range(1, n - 1) };
            keys[d] = keys[r.below(d)].clone();
        }
    }
    for _ in keys.len()..n {
        let k = r.pick(&KEYS);
        let k = (k.0.to_string(), k.1.to_string());
        if keys.iter().any(|o| o.1 == k.1) && !twice {
            let f = format!("u{}", keys.len());
            keys.push((f.clone(), f));
        } else {
            keys.push(k);
        }
    }
    // The first repeated key, in source order.
    let dup = (0..n).find(|i| keys[..*i].iter().any(|k| k.1 == keys[*i].1));
    const VALS: [&str; 12] = [
        "1", "\"v\"", "x", "a + b", "f(1, 2)", "[1, 2]", "{a: 1}", "(y)", "nil", "x.y", "-1", "z = 1",
    ];
    let vals: Vec<&str> = (0..n).map(|_| *r.pick(&VALS)).collect();
    let vals_tree: Vec<Expr> = vals
        .iter()
        .map(|v| api::expr(v).map_err(|e| Violation { source: v.to_string(), detail: format!("rejected: {}", api::errs(&e)) }))
        .collect::<Result<_, _>>()?;
    let eol = if r.chance(25) { "\r\n" } else { "\n" };
    let entry = |i: usize| format!("{}: {}", keys[i].0, vals[i]);
    let join = |sep: &str| (0..n).map(entry).collect::<Vec<_>>().join(sep);
    let ind = " ".repeat(r.range(1, 5));
    let forms: Vec<(&str, String)> = vec![
        ("braces", format!("var x = {{{}}}{eol}", join(", "))),
        ("braces, trailing comma", format!("var x = {{{},}}{eol}", join(", "))),
        ("braces over lines", format!("var x = {{{eol}{ind}{}{eol}}}{eol}", join(&format!(",{eol}{ind}")))),
        ("braces, line ends", format!("var x = {{{eol}{ind}{}{eol}}}{eol}", join(&format!("{eol}{}", "")))),
        ("bare", format!("var x = {}{eol}", join(", "))),
        ("bare after commas", format!("var x = {}{eol}", join(&format!(",{eol}{ind}")))),
        ("indented", format!("var x ={eol}{ind}{}{eol}", join(&format!("{eol}{ind}")))),
        ("indented, commas", format!("var x ={eol}{ind}{}{eol}", join(&format!(",{eol}{ind}")))),
        ("indented, trailing comma", format!("var x ={eol}{ind}{},{eol}", join(&format!(",{eol}{ind}")))),
        ("indented, mixed", {
            let mut s = format!("var x ={eol}{ind}");
            for i in 0..n {
                s.push_str(&entry(i));
                if i + 1 < n {
                    s.push_str(&match r.below(3) {
                        0 => format!(",{eol}{ind}"),
                        1 => format!("{eol}{ind}"),
                        _ => ", ".to_string(),
                    });
                }
            }
            s + eol
        }),
        ("argument", format!("var x = f {}{eol}", join(", "))),
        ("in parentheses", format!("var x = ({}){eol}", join(", "))),
    ];
    for (form, src) in forms {
        let got = api::parse(&src);
        if let Some(d) = dup {
            match got {
                Ok(_) => return violation(&src, format!("{form}: the key {:?} occurs twice", keys[d].1)),
                Err(e) => {
                    some_error(&src, form, &e)?;
                    c.stats.add("duplicate keys rejected", 1);
                }
            }
            continue;
        }
        let tree = match got {
            Ok(t) => t,
            Err(e) => return violation(&src, format!("{form}: rejected: {}", api::errs(&e))),
        };
        let [Stmt::Var(_, _, e, _)] = &tree[..] else {
            return violation(&src, format!("{form}: not one declaration"));
        };
        let e = match &**e {
            Expr::Call(_, a, _) if a.len() == 1 && form == "argument" => &a[0],
            Expr::Grouping(g) if form == "in parentheses" => g,
            e => e,
        };
        let Expr::LiteralMap(m) = e else {
            return violation(&src, format!("{form}: not one map but {}", walk::render_expr(e, false, false)));
        };
        let want: Vec<String> = (0..n)
            .map(|i| format!("{:?}: {}", keys[i].1, walk::render_expr(&vals_tree[i], false, false)))
            .collect();
        let have: Vec<String> =
            m.iter().map(|(k, v)| format!("{k:?}: {}", walk::render_expr(v, false, false))).collect();
        if want != have {
            return violation(&src, format!("{form}: entries {have:?}, written {want:?}"));
        }
        c.stats.add("map forms compared", 1);
        if n > 1 {
            c.stats.nontrivial(&src);
        }
    }
    // Equal keys in separate literals are fine.
    let k = &keys[0].0;
    for src in [
        format!("var x = {{{k}: {{{k}: 1}}, zz: {{{k}: 2}}}}\n"),
        format!("f({{{k}: 1}}, {{{k}: 2}})\n"),
        format!("[{{{k}: 1}}, {{{k}: 2}}]\n"),
        format!("var x =\n  {k}: {{{k}: 1}}\n  zz: 2\n"),
    ] {
        if let Err(e) = api::parse(&src) {
            return violation(&src, format!("the key is repeated in different literals only: {}", api::errs(&e)));
        }
        c.stats.add("equal keys in two literals", 1);
    }
    Ok(())
}

fn arrays(c: &mut Ctx, idx: u64) -> Res {
    const V: [&str; 11] =
        ["1", "\"s\"", "x", "a + b", "f(1, 2)", "[1, 2]", "[]", "{a: 1}", "(y)", "nil", "z = 1"];
    let n = if idx < 400 { idx as usize } else { c.rng.below(12) };
    let r = &mut c.rng;
    let items: Vec<&str> = (0..n).map(|_| *r.pick(&V)).collect();
    let sep = *r.pick(&[",", ", ", ",\n  ", " ,  ", ", // c\n"]);
    let trail = n > 0 && r.chance(40);
    let (a, b) = *r.pick(&[("", ""), (" ", " "), ("\n  ", "")]);
    let lit = format!("[{a}{}{}{b}]", items.join(sep), if trail { "," } else { "" });
    let src = format!("x = {lit}{}\n", r.pick(&["", "[0]", " + 1", ".y"]));
    program_tree(c, &src)?;
    let got = match api::expr(&lit) {
        Ok(Expr::LiteralArray(v)) => v,
        Ok(e) => return violation(&lit, format!("not an array: {}", walk::render_expr(&e, false, false))),
        Err(e) => return violation(&lit, format!("rejected: {}", api::errs(&e))),
    };
    let mut want = vec![];
    for i in &items {
        match api::expr(i) {
            Ok(e) => want.push(walk::render_expr(&e, false, false)),
            Err(e) => return violation(i, format!("rejected: {}", api::errs(&e))),
        }
    }
    let have: Vec<String> = got.iter().map(|e| walk::render_expr(e, false, false)).collect();
    if want != have {
        return violation(&lit, format!("elements {have:?}, written {want:?}"));
    }
    c.stats.add("arrays compared", 1);
    Ok(())
}

/// A literal of simple parts as a list of pieces.
fn literal(r: &mut Rng, depth: usize, v: &mut Vec<String>) {
    const KEY: [&str; 7] = ["a", "b", "c", "\"a\"", "\"k 1\"", "d", "e"];
    let array = r.chance(55);
    let n = r.below(5);
    v.push(if array { "[" } else { "{" }.into());
    for i in 0..n {
        if !array {
            v.push(if r.chance(85) { format!("k{i}") } else { r.pick(&KEY).to_string() });
            v.push(":".into());
        }
        if depth > 0 && r.chance(35) {
            literal(r, depth - 1, v);
        } else {
            v.push(r.pick(&["1", "x", "\"s\"", "nil", "(y)", "f(1)", "-2", "u w"]).to_string());
        }
        if i + 1 < n || r.chance(25) {
            v.push(if !array && r.chance(25) { "\n" } else { "," }.into());
        }
    }
    v.push(if array { "]" } else { "}" }.into());
}

/// Array and map literals with a separator, an entry or a bracket out of place.
fn perturbed_literals(c: &mut Ctx, _: u64) -> Res {
    const NEW: [&str; 16] = [
        ",", ",", ",", "[", "]", "{", "}", ":", "a", "a :", "1", "\n", "\n  ", ",\n", "\"a\" :", ", ,",
    ];
    let r = &mut c.rng;
    let mut v = vec![];
    let depth = r.below(3);
    literal(r, depth, &mut v);
    for _ in 0..r.below(3) {
        let i = r.below(v.len());
        match r.below(5) {
            0 => {
                let x = v[i].clone();
                v.insert(i, x);
            }
            1 if v.len() > 1 => {
                v.remove(i);
            }
            2 => {
                let j = r.below(v.len());
                v.swap(i, j);
            }
            _ => v.insert(i, r.pick(&NEW).to_string()),
        }
    }
    let lit = v.join(*r.pick(&[" ", ""]));
    let pre = *r.pick(&["x = ", "var x = ", "print ", "f ", "f(1, ", "var x =\n  ", "", "return ", "y["]);
    let post = match pre {
        "f(1, " => ")",
        "y[" => "]",
        _ => "",
    };
    tree_of(c, &format!("{pre}{lit}{post}\n"), Entry::Program, false)?;
    tree_of(c, &lit, Entry::Expression, false).map(|_| ())
}

/// Lines of entries with arbitrary separators and indentation.
fn map_skeletons(c: &mut Ctx, _: u64) -> Res {
    const P: [&str; 26] = [
        "a: 1", "b: 2", "\"c\": 3", "a:", ",", ",\n", "\n", "\n  ", "\n    ", "{", "}", "[", "]",
        "var x =", "var y = ", "f ", "f(", ")", "x", "print ", "d: {", "e: f 1", " ", "\n", "\n  ", "g: [",
    ];
    let r = &mut c.rng;
    let mut s = String::new();
    for _ in 0..r.range(2, 12) {
        s.push_str(r.pick(&P));
    }
    s.push('\n');
    tree_of(c, &s, Entry::Program, false)?;
    tree_of(c, s.trim_end(), Entry::Expression, false).map(|_| ())
}

// ------------------------------------------------------------------------ C14

#[derive(Debug, Clone, PartialEq)]
enum Item {
    Is(String),
    /// May or may not be written.
    Default(&'static str),
}

struct Flat {
    out: Vec<Item>,
    loops: usize,
}

impl Flat {
    fn is(&mut self, s: impl Into<String>) {
        self.out.push(Item::Is(s.into()));
    }
    fn fun(&mut self, f: &FunctionDefinition) {
        for p in &f.parameters {
            self.is(format!("name {}", p.name));
        }
        self.stmts(&f.body);
    }
    fn stmts(&mut self, v: &[Stmt]) {
        v.iter().for_each(|s| self.stmt(s));
    }
    fn stmt(&mut self, s: &Stmt) {
        match s {
            Stmt::Block(v) => self.stmts(v),
            Stmt::Break(_) => self.is("break"),
            Stmt::Continue(_) => self.is("continue"),
            Stmt::Class(c) => {
                self.is("class");
                self.is(format!("name {}", c.name));
                if let Some(e) = &c.superclass {
                    self.expr(e);
                }
                for m in &c.methods {
                    if m.fun_def.fun_type == FunctionType::ClassMethod {
                        self.is("class");
                    }
                    self.is(format!("name {}", m.name));
                    self.fun(&m.fun_def);
                }
            }
            Stmt::Expression(e) => self.expr(e),
            Stmt::Print(e) => {
                self.is("print");
                self.expr(e);
            }
            Stmt::Fun(f) => {
                self.is("fun");
                self.is(format!("name {}", f.name));
                self.fun(&f.fun_def);
            }
            Stmt::If(c, t, e) => {
                self.is("if");
                self.expr(c);
                self.stmt(t);
                if let Some(e) = e {
                    self.is("else");
                    self.stmt(e);
                }
            }
            Stmt::Return(e, _) => {
                self.is("return");
                self.or_default(e);
            }
            Stmt::Var(n, _, e, _) => {
                self.is("var");
                self.is(format!("name {n}"));
                self.or_default(e);
            }
            Stmt::While(c, b) => {
                self.loops += 1;
                self.or_default(c);
                self.stmt(b);
            }
            Stmt::WhileIncrement(c, b, i) => {
                self.loops += 1;
                self.or_default(c);
                self.expr(i);
                self.stmt(b);
            }
        }
    }
    fn or_default(&mut self, e: &Expr) {
        match e {
            Expr::LiteralNil => self.out.push(Item::Default("nil")),
            Expr::LiteralBool(true) => self.out.push(Item::Default("true")),
            e => self.expr(e),
        }
    }
    fn expr(&mut self, e: &Expr) {
        match e {
            Expr::LiteralBool(b) => self.is(b.to_string()),
            Expr::LiteralNil => self.is("nil"),
            Expr::LiteralNumber(x) => self.is(format!("number {:x}", x.to_bits())),
            Expr::LiteralString(s) => self.is(format!("string {s}")),
            Expr::Assign(n, _, v, _) => {
                self.is(format!("name {n}"));
                self.is("=");
                self.expr(v);
            }
            Expr::Call(f, a, _) => {
                self.expr(f);
                a.iter().for_each(|x| self.expr(x));
            }
            Expr::Binary(a, o, b, _) => {
                self.expr(a);
                self.is(match o {
                    BinaryOperator::Plus => "+",
                    BinaryOperator::Minus => "-",
                    BinaryOperator::Multiply => "*",
                    BinaryOperator::Divide => "/",
                    BinaryOperator::Equal => "==",
                    BinaryOperator::NotEqual => "!=",
                    BinaryOperator::Less => "<",
                    BinaryOperator::LessEqual => "<=",
                    BinaryOperator::Greater => ">",
                    BinaryOperator::GreaterEqual => ">=",
                });
                self.expr(b);
            }
            Expr::Function(f) => {
                self.is("fun");
                self.fun(f);
            }
            Expr::Get(o, n, _) => {
                self.expr(o);
                self.is(".");
                self.is(format!("name {n}"));
            }
            Expr::GetIndex(a, b, _) => {
                self.expr(a);
                self.is("[");
                self.expr(b);
            }
            Expr::Grouping(x) => {
                self.is("(");
                self.expr(x);
            }
            Expr::LiteralArray(v) => {
                self.is("[");
                v.iter().for_each(|x| self.expr(x));
            }
            Expr::LiteralMap(m) => {
                for (k, v) in m.iter() {
                    self.is(format!("key {k}"));
                    self.expr(v);
                }
            }
            Expr::Logical(a, o, b) => {
                self.expr(a);
                self.is(match o {
                    LogicalOperator::And => "and",
                    LogicalOperator::Or => "or",
                });
                self.expr(b);
            }
            Expr::Set(o, n, v, _) => {
                self.expr(o);
                self.is(".");
                self.is(format!("name {n}"));
                self.is("=");
                self.expr(v);
            }
            Expr::SetIndex(a, b, c, _) => {
                self.expr(a);
                self.is("[");
                self.expr(b);
                self.is("=");
                self.expr(c);
            }
            Expr::Super(_, n, _) => {
                self.is("super");
                self.is(".");
                self.is(format!("name {n}"));
            }
            Expr::Variable(n, _, _) => {
                self.is(if n == "this" { n.clone() } else { format!("name {n}") })
            }
            Expr::Unary(o, x, _) => {
                self.is(match o {
                    UnaryOperator::Minus => "-",
                    UnaryOperator::Not => "!",
                });
                self.expr(x);
            }
        }
    }
}

/// The same reading of the source: names, literals, operators, brackets. '('
/// is kept only where it groups, which the tokens alone do not tell, so '(' is
/// compared by leaving it out on both sides.
fn read_off(toks: &[RTok]) -> (Vec<String>, usize) {
    let mut out: Vec<String> = vec![];
    let mut loops = 0;
    for (i, t) in toks.iter().enumerate() {
        let prev = |n: usize| i.checked_sub(n).map(|k| toks[k].ty);
        let key = toks.get(i + 1).is_some_and(|n| n.ty == T::Colon);
        match t.ty {
            T::Identifier if key => out.push(format!("key {}", t.text)),
            T::String if key => out.push(format!("key {}", t.string.as_ref().unwrap())),
            T::Identifier => out.push(format!("name {}", t.text)),
            T::String => out.push(format!("string {}", t.string.as_ref().unwrap())),
            T::Number => out.push(format!("number {:x}", t.number.unwrap().to_bits())),
            T::For | T::While => loops += 1,
            // Part of the declaration, not operators.
            T::Equal if prev(2) == Some(T::Var) => (),
            T::Less if prev(2) == Some(T::Class) => (),
            T::Indent
            | T::Outdent
            | T::Terminator
            | T::Eof
            | T::LeftParen
            | T::LeftParenAbutting
            | T::RightParen
            | T::LeftBrace
            | T::RightBrace
            | T::RightBracket
            | T::Colon
            | T::Comma
            | T::Semicolon => (),
            _ => out.push(t.text.clone()),
        }
    }
    (out, loops)
}

fn conserved(c: &mut Ctx, src: &str) -> Res {
    let l = lex(src);
    if !l.errs.is_empty() {
        return Ok(());
    }
    let (words, loops) = read_off(&l.toks);
    let check = |what: &str, f: Flat| -> Result<usize, Violation> {
        let items: Vec<Item> =
            f.out.into_iter().filter(|i| *i != Item::Is("(".to_string())).collect();
        // Positions in the source's list that the items so far can reach.
        let mut at = vec![0usize];
        for (k, it) in items.iter().enumerate() {
            let mut next = vec![];
            for p in &at {
                match it {
                    Item::Is(s) => {
                        if words.get(*p) == Some(s) {
                            next.push(p + 1);
                        }
                    }
                    Item::Default(s) => {
                        next.push(*p);
                        if words.get(*p).is_some_and(|w| w == s) {
                            next.push(p + 1);
                        }
                    }
                }
            }
            next.dedup();
            if next.is_empty() {
                let p = at.iter().max().unwrap();
                return violation(
                    src,
                    format!(
                        "{what}: the tree has {:?} where the source has {:?}",
                        items[k..].iter().take(4).collect::<Vec<_>>(),
                        words[*p..].iter().take(4).collect::<Vec<_>>()
                    ),
                );
            }
            at = next;
        }
        if !at.contains(&words.len()) {
            let p = at.iter().max().unwrap();
            return violation(
                src,
                format!("{what}: not in the tree: {:?}", words[*p..].iter().take(6).collect::<Vec<_>>()),
            );
        }
        if f.loops != loops {
            return violation(src, format!("{what}: {} loops in the tree, {loops} in the source", f.loops));
        }
        Ok(items.len())
    };
    let mut n = None;
    for (what, r) in [("program", api::parse(src)), ("REPL line", api::repl(src))] {
        if let Ok(t) = r {
            let mut f = Flat { out: vec![], loops: 0 };
            f.stmts(&t);
            n = Some(check(what, f)?);
        }
    }
    if let Ok(e) = api::expr(src) {
        let mut f = Flat { out: vec![], loops: 0 };
        f.expr(&e);
        n = Some(check("expression", f)?);
    }
    if let Some(n) = n {
        c.stats.add("sources reconciled", 1);
        c.stats.add("items reconciled", n as u64);
        if n > 3 {
            c.stats.nontrivial(src);
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------ C15

/// Short token sequences: enumerated over small alphabets, then random.
pub fn sentences(c: &mut Ctx, idx: u64, f: fn(&mut Ctx, &str) -> Res) -> Res {
    const A: [&[&str]; 10] = [
        &["a", "=", "(", ")", "\n", ",", "1"],
        &["if (a)", "else", "{", "}", "\n", "x", "\n  y\n"],
        &["fun", "f", "(", ")", "{", "}", "\n", "a"],
        &["a", ":", "1", ",", "{", "}", "\n"],
        &["[", "]", ",", "a", "\n", ".", "-"],
        &["var", "x", "=", "\n", "\n  ", "1", "{}"],
        &["class", "A", "<", "{", "}", "m(){}", "\n  ", "\n"],
        &["for", "(", ";", ")", "x", "\n", "var i"],
        &["while (a)", "break", "\n", "{", "}", "fun f()", "\n  "],
        &["return", "super", "this", ".", "x", "=", "\n", "print"],
    ];
    let a = A[(idx / 8) as usize % A.len()];
    let n = a.len() as u64;
    let mut k = idx / (8 * A.len() as u64) * 8 + idx % 8;
    let max = if c.tier == Tier::Quick { 4 } else { 6 };
    let mut len = 1;
    let mut span = n;
    while len <= max && k >= span {
        k -= span;
        len += 1;
        span *= n;
    }
    let mut parts: Vec<&str> = vec![];
    if len <= max {
        for _ in 0..len {
            parts.push(a[(k % n) as usize]);
            k /= n;
        }
        c.stats.add("sequences enumerated", 1);
    } else {
        let m = c.rng.range(5, 12);
        for _ in 0..m {
            parts.push(*c.rng.pick(a));
        }
    }
    let s = parts.join(" ");
    f(c, &s)?;
    f(c, &format!("{s}\n"))
}

/// Lists around their limits, also within other lists and over lines.
fn limit_errors(c: &mut Ctx, _: u64) -> Res {
    let r = &mut c.rng;
    let n = if r.chance(70) { r.range(253, 260) } else { crate::dict::size(r, 700) };
    let mut list = String::new();
    let params = r.chance(35);
    let sep = *r.pick(&[", ", ",", ",\n  ", " ,  ", ", // c\n"]);
    for i in 0..n {
        if i > 0 {
            list.push_str(sep);
        }
        if params {
            list.push_str(&format!("p{i}"));
        } else {
            list.push_str(*r.pick(&["a", "1", "\"s\"", "-x", "a + b", "f(1, 2)", "[1, 2]", "(y)", "a.b"]));
        }
    }
    let src = if params {
        match r.below(4) {
            0 => format!("fun f({list})\n  return p0\n"),
            1 => format!("x = fun ({list}) {{ return 1\n}}\n"),
            2 => format!("class A\n  m({list})\n    1\n  class k(a, b)\n    2\n"),
            _ => format!("g(1, fun({list}) {{}}, 2)\n"),
        }
    } else {
        match r.below(6) {
            0 => format!("f({list})\n"),
            1 => format!("f {list}\n"),
            2 => format!("x = a.b({list}).c\n"),
            3 => format!("f(1, g({list}), 2)\n"),
            4 => format!("if (f({list})) x\n"),
            _ => format!("[f ({list}), 1]\n"),
        }
    };
    let pre = *r.pick(&["", "y\n", "\n\n", "print é\n", "var s = \"a\nb\"\n"]);
    let post = *r.pick(&["", "print )\n", "z\n", "var\n"]);
    diagnostics(c, &format!("{pre}{src}{post}"))
}

fn accepted(c: &mut Ctx, src: &str) -> Res {
    for e in [Entry::Program, Entry::Repl, Entry::Expression] {
        match grammar(src, e, false)? {
            Seen::Tree(_) => c.stats.add("accepted", 1),
            Seen::Rejected => c.stats.add("rejected", 1),
            Seen::Other => {
                c.stats.add("lexically wrong", 1);
                return Ok(());
            }
        }
    }
    c.stats.nontrivial(src);
    Ok(())
}

/// One token of a valid program removed, doubled, replaced or swapped.
fn near_text(c: &mut Ctx) -> String {
    let r = &mut c.rng;
    let style = Style::plain();
    let mut cfg = Cfg::normal(r);
    cfg.size = *r.pick(&[4, 8, 16]);
    cfg.stmts = r.range(1, 3);
    let m = make::made(r, style, cfg);
    let k = r.below(m.log.len().max(1));
    let Some(w) = m.log.get(k) else { return m.text };
    let (a, b) = (w.from, w.to);
    let t = &m.text[a..b];
    let new = match r.below(5) {
        0 => String::new(),
        1 => format!("{t} {t}"),
        2 => r.pick(&inputs::TOKENS).to_string(),
        3 => format!("{t} {}", r.pick(&inputs::TOKENS)),
        _ => match m.log.get(k + 1) {
            Some(x) => {
                return format!(
                    "{}{}{}{}{}",
                    &m.text[..a],
                    &m.text[x.from..x.to],
                    &m.text[b..x.from],
                    t,
                    &m.text[x.to..]
                );
            }
            None => String::new(),
        },
    };
    format!("{}{}{}", &m.text[..a], new, &m.text[b..])
}

fn near(c: &mut Ctx, _: u64) -> Res {
    let s = near_text(c);
    accepted(c, &s)
}

fn near_errors(c: &mut Ctx, _: u64) -> Res {
    let s = near_text(c);
    diagnostics(c, &s)
}

// ------------------------------------------------------------------------ C16

/// Positions of jumps outside loops, and the number of jumps.
fn stray(v: &[Stmt], in_loop: bool, out: &mut Vec<SourceLoc>, n: &mut u64) {
    for s in v {
        stray_in(s, in_loop, out, n);
    }
}

fn stray_fun(e: &Expr, out: &mut Vec<SourceLoc>, n: &mut u64) {
    // Function expressions anywhere inside start outside any loop.
    let mut bodies: Vec<&FunctionDefinition> = vec![];
    collect_funs(e, &mut bodies);
    for b in bodies {
        stray(&b.body, false, out, n);
    }
}

fn collect_funs<'a>(e: &'a Expr, out: &mut Vec<&'a FunctionDefinition>) {
    match e {
        Expr::Function(f) => out.push(f),
        Expr::Assign(_, _, v, _) => collect_funs(v, out),
        Expr::Call(f, a, _) => {
            collect_funs(f, out);
            a.iter().for_each(|x| collect_funs(x, out));
        }
        Expr::Binary(a, _, b, _) | Expr::Logical(a, _, b) | Expr::GetIndex(a, b, _) => {
            collect_funs(a, out);
            collect_funs(b, out);
        }
        Expr::Get(x, _, _) | Expr::Grouping(x) | Expr::Unary(_, x, _) => collect_funs(x, out),
        Expr::LiteralArray(v) => v.iter().for_each(|x| collect_funs(x, out)),
        Expr::LiteralMap(m) => m.iter().for_each(|(_, v)| collect_funs(v, out)),
        Expr::Set(a, _, b, _) => {
            collect_funs(a, out);
            collect_funs(b, out);
        }
        Expr::SetIndex(a, b, c, _) => {
            collect_funs(a, out);
            collect_funs(b, out);
            collect_funs(c, out);
        }
        _ => (),
    }
}

fn stray_in(s: &Stmt, in_loop: bool, out: &mut Vec<SourceLoc>, n: &mut u64) {
    match s {
        Stmt::Break(l) | Stmt::Continue(l) => {
            *n += 1;
            if !in_loop {
                out.push(*l);
            }
        }
        Stmt::Block(v) => stray(v, in_loop, out, n),
        Stmt::Class(c) => c.methods.iter().for_each(|m| stray(&m.fun_def.body, false, out, n)),
        Stmt::Fun(f) => stray(&f.fun_def.body, false, out, n),
        Stmt::Expression(e) | Stmt::Print(e) | Stmt::Return(e, _) => stray_fun(e, out, n),
        Stmt::Var(_, _, e, _) => stray_fun(e, out, n),
        Stmt::If(c, t, e) => {
            stray_fun(c, out, n);
            stray_in(t, in_loop, out, n);
            if let Some(e) = e {
                stray_in(e, in_loop, out, n);
            }
        }
        Stmt::While(c, b) => {
            stray_fun(c, out, n);
            stray_in(b, true, out, n);
        }
        Stmt::WhileIncrement(c, b, i) => {
            stray_fun(c, out, n);
            stray_fun(i, out, n);
            stray_in(b, true, out, n);
        }
    }
}

fn jumps(c: &mut Ctx, src: &str) -> Res {
    for r in [api::parse(src), api::repl(src)] {
        let Ok(t) = r else { continue };
        let (mut out, mut n) = (vec![], 0);
        stray(&t, false, &mut out, &mut n);
        if let Some(l) = out.first() {
            return violation(src, format!("accepted with a jump outside a loop at {}:{}", l.line, l.column));
        }
        c.stats.add("jumps seen in trees", n);
        if n > 0 {
            c.stats.nontrivial(src);
        }
    }
    Ok(())
}

/// Generated programs with jumps anywhere: rejected, at the first stray one,
/// exactly if there is one.
fn placed(c: &mut Ctx, _: u64) -> Res {
    let r = &mut c.rng;
    let style = if r.chance(60) { Style::plain() } else { Style::random(r) };
    let mut cfg = Cfg::normal(r);
    cfg.weights = *r.pick(&[[1, 2, 6, 1], [1, 1, 4, 3], [2, 4, 4, 0]]);
    let mut g = G::new(r, style, cfg);
    g.stray_loops = true;
    let tree = g.program();
    let src = g.w.out;
    let (mut out, mut n) = (vec![], 0);
    stray(&tree, false, &mut out, &mut n);
    // The tree of a for loop holds parts in another order than the source.
    let first = out.iter().min_by_key(|l| (l.line, l.column));
    match (first, api::parse(&src)) {
        (None, Ok(t)) => {
            same_tree(&src, "tree", &tree, &t, false)?;
            c.stats.add("all jumps in place", 1);
        }
        (None, Err(e)) => return violation(&src, format!("every jump is in a loop: {}", api::errs(&e))),
        (Some(l), Ok(_)) => {
            return violation(&src, format!("accepted with a jump outside a loop at {}:{}", l.line, l.column));
        }
        (Some(l), Err(e)) => {
            let f = some_error(&src, "program", &e)?;
            if f.source_loc != *l {
                return violation(
                    &src,
                    format!("the first stray jump is at {}:{}, reported: {}", l.line, l.column, api::errs(&e)),
                );
            }
            c.stats.add("stray jumps rejected", 1);
        }
    }
    if n > 0 {
        c.stats.nontrivial(&src);
    }
    jumps(c, &src)
}

/// Stray jumps after statements with errors of their own.
fn later(c: &mut Ctx, _: u64) -> Res {
    const BAD: [&str; 14] = [
        "while (a) b c )\n",
        "for (;;) x +* y\n",
        "while (a)\n  b ]\n",
        "for (;;)\n  while (b)\n    x = )\n",
        "while ) a\n",
        "for (i) x\n",
        "if (a) ) b\n",
        "1 = 2 3\n",
        "x ) y\n",
        "fun f( ) ) b\n",
        "class A < 1 b\n",
        "while (fun () { ) }) x\n",
        "break break\n",
        "for (;;)\n  fun f()\n    while (a)\n      ] x\n",
    ];
    const STRAY: [(&str, u32); 9] = [
        ("if (x)\n  break\n", 1),
        ("if (x) continue\n", 0),
        ("fun f()\n  break\n", 1),
        ("print 1\nif (a)\n  b\nelse\n  continue\n", 4),
        ("while (a) b\nif (c)\n  break\n", 2),
        ("class A\n  m()\n    continue\n", 2),
        ("for (;;)\n  fun g()\n    break\n", 2),
        ("var v = fun () { break\n}\n", 0),
        ("while (a)\n  b\nfun f()\n  if (c) break\n", 3),
    ];
    let r = &mut c.rng;
    let mut s = String::new();
    for _ in 0..r.range(1, 3) {
        s.push_str(r.pick(&BAD));
    }
    // A good statement in between, sometimes.
    if r.chance(40) {
        s.push_str(*r.pick(&["print 1\n", "while (a)\n  break\n", "var q = 1\n", "fun g()\n  return\n"]));
    }
    let base = s.matches('\n').count() as u32;
    let (t, dl) = *r.pick(&STRAY);
    s.push_str(t);
    let line = base + 1 + dl;
    if r.chance(50) {
        s.push_str("print 2\n");
    }
    match api::parse(&s) {
        Ok(_) => violation(&s, "accepted"),
        Err(e) => {
            let text = s.lines().nth(line as usize - 1).unwrap_or("");
            let col = text.find("break").or(text.find("continue")).map_or(0, |i| i + 1) as u32;
            if !e.causes.iter().any(|c| at(c.source_loc) == (line, col)) {
                return violation(&s, format!("the jump at {line}:{col} is not reported: {}", api::errs(&e)));
            }
            c.stats.add("stray jumps after other errors", 1);
            Ok(())
        }
    }
}

// ------------------------------------------------------------------------ C17

fn placed_tree(c: &mut Ctx, src: &str) -> Res {
    tree_of(c, src, Entry::Repl, true)?;
    if !src.contains('\n') {
        tree_of(c, src, Entry::Expression, true)?;
    }
    Ok(())
}

fn context(c: &mut Ctx, src: &str) -> Res {
    let Ok(t) = api::parse(src) else { return Ok(()) };
    let r = &mut c.rng;
    let pre = *r.pick(&["\n", "\r\n\n", "// c\n", "x = 1\n", "\"a\nb\"\n", "  \n// é\n\n", "if (a)\n  b\n"]);
    // After a block, a first line that begins with blanks or a continuation
    // may stand between two depths.
    let first = src.lines().find(|l| {
        let t = l.trim_start();
        !t.is_empty() && !t.starts_with("//")
    });
    if pre.starts_with("if") && first.is_some_and(|l| l.starts_with([' ', '\t', '\\'])) {
        return Ok(());
    }
    let k = pre.matches('\n').count() as u32;
    let before = api::parse(pre).map_or(0, |v| v.len());
    // An else would attach to what comes before.
    if !src.trim_start().starts_with("else") {
        let s = format!("{pre}{src}");
        match api::parse(&s) {
            Ok(u) if u.len() >= before => {
                let want = walk::map_locs(&t, |l| SourceLoc { line: l.line + k, column: l.column });
                same_tree(&s, "shifted positions", &want, &u[before..], true)?;
                c.stats.add("shifted", 1);
            }
            Ok(_) => return violation(&s, "statements are missing"),
            Err(e) => return violation(&s, format!("rejected after {pre:?} was put first: {}", api::errs(&e))),
        }
    }
    let post = *r.pick(&["y\n", "// c", "\n\n", "var z = 1\n", "print 1\n", "fun f()\n  g\n"]);
    let s = format!("{src}{post}");
    if src.ends_with('\n') {
        match api::parse(&s) {
            Ok(u) if u.len() >= t.len() => {
                same_tree(&s, "positions with more source after them", &t, &u[..t.len()], true)?;
                c.stats.add("extended", 1);
            }
            Ok(_) => return violation(&s, "statements are missing"),
            Err(e) => return violation(&s, format!("rejected after {post:?} was added: {}", api::errs(&e))),
        }
    }
    c.stats.nontrivial(src);
    Ok(())
}

// ------------------------------------------------------------------------ C18

struct Places<'a> {
    src: &'a str,
    /// Byte offset of each line and column.
    at: std::collections::HashMap<(u32, u32), usize>,
}

impl<'a> Places<'a> {
    fn new(src: &'a str) -> Places<'a> {
        let mut at = std::collections::HashMap::new();
        let (mut l, mut c) = (1, 1);
        for (i, g) in src.grapheme_indices(true) {
            at.insert((l, c), i);
            if is_newline(g) {
                l += 1;
                c = 1;
            } else {
                c += 1;
            }
        }
        at.insert((l, c), src.len());
        Places { src, at }
    }
}

/// What every error list must satisfy.
pub fn well_formed(c: &mut Ctx, src: &str, what: &str, e: &ParseError) -> Res {
    some_error(src, what, e)?;
    let p = Places::new(src);
    let mut last = (0, 0);
    for x in &e.causes {
        let l = at(x.source_loc);
        let Some(i) = p.at.get(&l) else {
            return violation(src, format!("{what}: an error lies outside the source: {}", api::errs(e)));
        };
        if l < last {
            return violation(src, format!("{what}: errors out of order: {}", api::errs(e)));
        }
        last = l;
        if let Some(t) = &x.token {
            let rest = &p.src[*i..];
            let quoted = rest.strip_prefix('"').is_some_and(|r| r.starts_with(&format!("{t}\"")));
            if !rest.starts_with(t.as_str()) && !quoted && !over_limit(src, x) {
                return violation(
                    src,
                    format!(
                        "{what}: {:?} is not at {}:{} but {:?}: {}",
                        t,
                        l.0,
                        l.1,
                        rest.chars().take(12).collect::<String>(),
                        x.message
                    ),
                );
            }
            if t.is_empty() && *i != src.len() && !rest.starts_with("\"\"") {
                return violation(src, format!("{what}: an error inside the source quotes nothing: {}", api::errs(e)));
            }
        }
        if x.message.trim().is_empty() {
            return violation(src, format!("{what}: an error without a message"));
        }
    }
    // The printed form has it all, in order.
    let text = api::call("Display", src, || e.to_string());
    let mut from = 0;
    for x in &e.causes {
        let mut need = vec![format!("{}:{}", x.source_loc.line, x.source_loc.column)];
        if let Some(t) = &x.token {
            need.push(format!("{t:?}"));
        }
        need.push(x.message.clone());
        for (k, n) in need.iter().enumerate() {
            let raw = n.trim_matches('"');
            match text[from..].find(n.as_str()).or_else(|| text[from..].find(raw)) {
                Some(i) => from += i + if k == 0 { n.len() } else { 0 },
                None => {
                    return violation(src, format!("{what}: {n:?} is missing from the printed form {text:?}"));
                }
            }
        }
        c.stats.add("errors printed", 1);
    }
    Ok(())
}

/// The 256th variable of a scope, created by an assignment: the error quotes
/// the variable at the position of the '='.
fn over_limit(src: &str, x: &whitespace::error::ParseErrorCause) -> bool {
    let p = Places::new(src);
    p.at.get(&at(x.source_loc)).is_some_and(|i| src[*i..].starts_with('='))
        && x.token.as_ref().is_some_and(|t| src.contains(t.as_str()))
        && lex(src).toks.iter().filter(|t| t.ty == T::Identifier).count() > 255
}

fn first_is(src: &str, what: &str, e: &ParseError, loc: SourceLoc, text: Option<&str>, why: &str) -> Res {
    let x = some_error(src, what, e)?;
    let wrong = x.source_loc != loc
        || matches!((text, &x.token), (Some(w), Some(t)) if w != t)
        || text.is_some() && x.token.is_none();
    if wrong {
        return violation(
            src,
            format!(
                "{what}: the first error should be at {}:{} {text:?} ({why}), reported: {}",
                loc.line,
                loc.column,
                api::errs(e)
            ),
        );
    }
    Ok(())
}

fn diagnostics(c: &mut Ctx, src: &str) -> Res {
    let l = lex(src);
    let mut tree = None;
    for entry in [Entry::Program, Entry::Repl, Entry::Expression] {
        match actual(src, entry) {
            Err(e) => {
                let what = format!("{entry:?}");
                well_formed(c, src, &what, &e)?;
                if !l.errs.is_empty() {
                    let w = &l.errs[0];
                    let loc = SourceLoc { line: w.line, column: w.col.min(65535) as u16 };
                    first_is(src, &what, &e, loc, None, "lexical")?;
                    c.stats.add("lexical", 1);
                } else if let Err(f) = refparse::parse(&l.toks, entry) {
                    // Block markers quote whatever follows them.
                    let marker = matches!(l.toks[f.at].ty, T::Indent | T::Outdent);
                    let text = if marker { None } else { Some(f.text.as_str()) };
                    first_is(src, &what, &e, f.loc, text, f.why)?;
                    c.stats.add("syntax", 1);
                }
                c.stats.nontrivial(src);
            }
            Ok(Parsed::Stmts(t)) => tree = Some(t),
            Ok(_) => (),
        }
    }
    let Some(t) = tree else { return Ok(()) };
    let want = crate::refres::Session::new().resolve(&t);
    if let Err(e) = api::resolve(src, t) {
        well_formed(c, src, "resolve", &e)?;
        if let Err(w) = want {
            if let Some(w) = w.first() {
                first_is(src, "resolve", &e, w.loc, Some(&w.text), "static rule")?;
            }
        }
        c.stats.add("rules", 1);
        c.stats.nontrivial(src);
    }
    Ok(())
}

// ------------------------------------------------------------------------ C20

fn statement_keyword(t: T) -> bool {
    matches!(t, T::Class | T::Fun | T::Var | T::For | T::If | T::While | T::Print | T::Return)
}

/// A line in which the grammar fails before the line's end, with no statement
/// keyword at or after the failure.
fn malformed_line(r: &mut Rng) -> Option<String> {
    let style = Style::plain();
    let mut cfg = Cfg::normal(r);
    cfg.size = *r.pick(&[3, 6, 10]);
    cfg.flat = true;
    cfg.stmts = 1;
    cfg.weights = [4, 2, 0, 0];
    let m = make::made(r, style, cfg);
    let mut s = m.text.replace('\n', " ").trim().to_string();
    for _ in 0..r.range(1, 3) {
        let mut v: Vec<String> = inputs::chunks(&s).into_iter().map(str::to_string).collect();
        if v.is_empty() {
            return None;
        }
        let i = r.below(v.len());
        match r.below(4) {
            0 => {
                v.remove(i);
            }
            1 => v[i] = format!(" {} ", r.pick(&[")", "]", "}", "=", "+", "else", "and", ":", ";", "*", ",", "a"])),
            2 => v.insert(i, format!(" {} ", r.pick(&[")", "]", "}", "=", "==", "or", ".", ";", ",", "1", "break"]))),
            _ => {
                let j = r.below(v.len());
                v.swap(i, j);
            }
        }
        s = v.concat();
    }
    if s.starts_with(' ') || s.contains('\n') {
        return None;
    }
    let line = format!("{s}\n");
    let l = lex(&line);
    if !l.errs.is_empty() || l.toks.iter().any(|t| matches!(t.ty, T::Indent | T::Outdent)) {
        return None;
    }
    let end = l.toks.iter().position(|t| t.ty == T::Terminator)?;
    if end + 2 != l.toks.len() {
        return None;
    }
    let f = refparse::parse(&l.toks, Entry::Program).err()?;
    // The reading itself may have got further than the position of the error.
    let reached = l.toks.iter().position(|t| refparse::loc_of(t) == f.loc)?.max(f.at);
    if reached + 1 >= end || l.toks[reached..].iter().any(|t| statement_keyword(t.ty)) {
        return None;
    }
    // An assignment target is judged only after its right-hand side.
    if f.why == "assignment target" || f.why == "duplicate key" {
        return None;
    }
    Some(line)
}

fn recovery(c: &mut Ctx, _: u64) -> Res {
    let mut bad = None;
    for _ in 0..40 {
        bad = malformed_line(&mut c.rng);
        if bad.is_some() {
            break;
        }
    }
    let Some(bad) = bad else { return Ok(()) };
    let r = &mut c.rng;
    let mut rest = String::new();
    for _ in 0..30 {
        let style = if r.chance(60) { Style::plain() } else { Style::random(r) };
        let mut cfg = Cfg::normal(r);
        cfg.size = *r.pick(&[6, 12, 25]);
        let mut t = make::made(r, style, cfg).text;
        if r.chance(50) {
            let n = r.range(1, 3);
            t = mutate(r, t, n);
        }
        let l = lex(&t);
        if l.errs.is_empty() && l.toks.first().is_some_and(|k| statement_keyword(k.ty)) {
            rest = t;
            break;
        }
    }
    if rest.is_empty() {
        rest = r.pick(&["print 1\n", "var x = )\n", "if (a)\n  b c )\nprint )\n"]).to_string();
    }
    let src = format!("{bad}{rest}");
    // A remainder that starts inside a continued line is another remainder.
    let whole = lex(&src);
    let line = bad.matches('\n').count() as u32;
    if !whole.errs.is_empty() {
        return Ok(());
    }
    let alone = api::parse(&rest);
    let first = match api::parse(&bad) {
        Err(e) => e,
        Ok(_) => return violation(&bad, "accepted, but the grammar fails in it"),
    };
    c.stats.add("lines malformed", 1);
    let mut want = vec![errors_of(&first, 0)[0].clone()];
    match &alone {
        Ok(_) => c.stats.add("remainders clean", 1),
        Err(e) => {
            c.stats.add("remainders malformed", 1);
            want.extend(errors_of(e, line));
        }
    }
    if first.causes.len() != 1 {
        return violation(&bad, format!("one mistake, but reported: {}", api::errs(&first)));
    }
    match api::parse(&src) {
        Ok(_) => violation(&src, "accepted in spite of its first line"),
        Err(e) => {
            let got = errors_of(&e, 0);
            if got != want {
                return violation(&src, format!("errors expected {want:?}, reported {got:?}"));
            }
            c.stats.nontrivial(&src);
            Ok(())
        }
    }
}

fn errors_of(e: &ParseError, lines: u32) -> Vec<String> {
    e.causes
        .iter()
        .map(|c| format!("{}:{} {:?} {}", c.source_loc.line + lines, c.source_loc.column, c.token, c.message))
        .collect()
}
