//! C38-C40: trees written as source, programs resolved in pieces, and scopes
//! that are moved.
use super::*;
use crate::api::Live;
use crate::inputs::Stream::*;
use crate::inputs;
use crate::rt::{Ctx, Rng};
use crate::write;
use std::cell::Cell;
use whitespace::ast::*;
use whitespace::environment::{SlotIndex, VarLoc};

pub fn all() -> Vec<Check> {
    vec![
        Check::new(
            "C38",
            "trees written as source by an independent printer and parsed again, as they come from texts and put together from parts of several; non-trivial: a tree of at least 8 nodes",
        )
        .text("streams", 24_000, 900_000, round_trip, &[Valid, Rules, Exprs, Seeds, Mutant, Guided, Layout])
        .cases("grafts", 16_000, 500_000, grafts)
        .text("edits", 40_000, 900_000, round_trip, &[Edits])
        .text("small", 24_000, 1_500_000, round_trip, &[Small])
        .needs(&["programs written", "expressions written", "expressions grafted", "statements grafted", "branches grafted"]),
        Check::new(
            "C39",
            "programs resolved in pieces in one session against the same programs resolved at once; non-trivial: at least 2 pieces and 3 bindings",
        )
        .text("streams", 24_000, 900_000, pieces, &[Valid, Rules, Seeds, Mutant, Guided])
        .cases("many", 400, 8_000, many)
        .text("edits", 40_000, 500_000, pieces, &[Edits])
        .text("small", 24_000, 1_500_000, pieces, &[Small])
        .needs(&["pieces", "bindings compared", "rejections compared"]),
        Check::new(
            "C40",
            "resolved programs against copies with statements put into a further block, with blocks that use nothing put in, and with unused declarations appended; non-trivial: at least 3 bindings",
        )
        .text("streams", 24_000, 900_000, scopes, &[Valid, Rules, Seeds, Mutant, Guided])
        .cases("composed", 8_000, 200_000, composed_scopes)
        .text("edits", 40_000, 500_000, scopes, &[Edits])
        .text("small", 24_000, 1_500_000, scopes, &[Small])
        .needs(&["statements wrapped", "bindings moved", "blocks put in", "declarations appended", "rejections compared"]),
    ]
}

// ------------------------------------------------------------------- walking

/// Every list of statements.
fn lists(v: &mut Vec<Stmt>, f: &mut dyn FnMut(&mut Vec<Stmt>)) {
    each(v, &mut |p| {
        if let Place::List(v) = p {
            f(v)
        }
    });
}

enum Place<'a> {
    List(&'a mut Vec<Stmt>),
    /// An expression, and the least level of what fits there as it is.
    Expr(&'a mut Expr, u8),
}

const UNARY: u8 = 7;
const CALL: u8 = 8;
/// What is there begins its statement.
const LEAD: u8 = 16;

/// How tightly an expression holds together.
fn level(e: &Expr) -> u8 {
    match e {
        Expr::Assign(..) | Expr::Set(..) | Expr::SetIndex(..) => 0,
        Expr::Logical(_, LogicalOperator::Or, _) => 1,
        Expr::Logical(_, LogicalOperator::And, _) => 2,
        Expr::Binary(_, o, ..) => match o {
            BinaryOperator::Equal | BinaryOperator::NotEqual => 3,
            BinaryOperator::Less | BinaryOperator::LessEqual | BinaryOperator::Greater | BinaryOperator::GreaterEqual => 4,
            BinaryOperator::Plus | BinaryOperator::Minus => 5,
            BinaryOperator::Multiply | BinaryOperator::Divide => 6,
        },
        Expr::Unary(..) => UNARY,
        _ => CALL,
    }
}

fn each(v: &mut Vec<Stmt>, f: &mut dyn FnMut(Place)) {
    f(Place::List(v));
    v.iter_mut().for_each(|s| each_stmt(s, f));
}

fn each_stmt(s: &mut Stmt, f: &mut dyn FnMut(Place)) {
    match s {
        Stmt::Block(v) => each(v, f),
        Stmt::Break(_) | Stmt::Continue(_) => (),
        Stmt::Class(c) => c.methods.iter_mut().for_each(|m| each(&mut m.fun_def.body, f)),
        Stmt::Expression(e) => each_expr(e, LEAD, f),
        Stmt::Print(e) | Stmt::Return(e, _) => each_expr(e, 0, f),
        Stmt::Var(_, _, e, _) => each_expr(e, 0, f),
        Stmt::Fun(d) => each(&mut d.fun_def.body, f),
        Stmt::If(c, t, e) => {
            each_expr(c, 0, f);
            each_stmt(t, f);
            if let Some(e) = e {
                each_stmt(e, f);
            }
        }
        Stmt::While(c, b) => {
            each_expr(c, 0, f);
            each_stmt(b, f);
        }
        Stmt::WhileIncrement(c, b, i) => {
            each_expr(c, 0, f);
            each_stmt(b, f);
            each_expr(i, 0, f);
        }
    }
}

fn each_expr(e: &mut Expr, least: u8, f: &mut dyn FnMut(Place)) {
    f(Place::Expr(e, least));
    let (at, lead) = (level(e), least & LEAD);
    match e {
        Expr::LiteralBool(_)
        | Expr::LiteralNil
        | Expr::LiteralNumber(_)
        | Expr::LiteralString(_)
        | Expr::Super(..)
        | Expr::Variable(..) => (),
        Expr::Assign(_, _, v, _) => each_expr(v, 0, f),
        Expr::Call(c, a, _) => {
            each_expr(c, CALL | lead, f);
            a.iter_mut().for_each(|x| each_expr(x, 0, f));
        }
        Expr::Binary(a, _, b, _) | Expr::Logical(a, _, b) => {
            each_expr(a, at | lead, f);
            each_expr(b, at + 1, f);
        }
        Expr::Function(d) => each(&mut d.body, f),
        Expr::Unary(_, o, _) => each_expr(o, UNARY, f),
        Expr::Get(o, _, _) => each_expr(o, CALL | lead, f),
        Expr::GetIndex(a, i, _) => {
            each_expr(a, CALL | lead, f);
            each_expr(i, 0, f);
        }
        Expr::Grouping(x) => each_expr(x, 0, f),
        Expr::LiteralArray(v) => v.iter_mut().for_each(|x| each_expr(x, 0, f)),
        Expr::LiteralMap(m) => m.iter_mut().for_each(|(_, x)| each_expr(x, 0, f)),
        Expr::Set(o, _, v, _) => {
            each_expr(o, CALL | lead, f);
            each_expr(v, 0, f);
        }
        Expr::SetIndex(a, i, v, _) => {
            each_expr(a, CALL | lead, f);
            each_expr(i, 0, f);
            each_expr(v, 0, f);
        }
    }
}

/// Every branch of an if and body of a loop, and whether an else follows it.
fn branches(v: &mut Vec<Stmt>, f: &mut dyn FnMut(&mut Stmt, bool)) {
    fn of(s: &mut Stmt, closed: bool, f: &mut dyn FnMut(&mut Stmt, bool)) {
        match s {
            Stmt::If(_, t, e) => {
                let c = closed || e.is_some();
                f(t, c);
                of(t, c, f);
                if let Some(e) = e {
                    f(e, closed);
                    of(e, closed, f);
                }
            }
            Stmt::While(_, b) | Stmt::WhileIncrement(_, b, _) => {
                f(b, closed);
                of(b, closed, f);
            }
            _ => (),
        }
    }
    lists(v, &mut |v| v.iter_mut().for_each(|s| of(s, false, f)));
}

/// Would an else that follows be its own?
fn takes_else(s: &Stmt) -> bool {
    match s {
        Stmt::If(_, _, None) => true,
        Stmt::If(_, _, Some(b)) | Stmt::While(_, b) | Stmt::WhileIncrement(_, b, _) => takes_else(b),
        _ => false,
    }
}

fn returns(s: &Stmt) -> bool {
    match s {
        Stmt::Return(..) => true,
        Stmt::Block(v) => v.iter().any(returns),
        Stmt::If(_, t, e) => returns(t) || e.as_ref().is_some_and(|e| returns(e)),
        Stmt::While(_, b) | Stmt::WhileIncrement(_, b, _) => returns(b),
        _ => false,
    }
}

/// Break or continue without their loop.
fn jumps(v: &[Stmt]) -> bool {
    v.iter().any(|s| match s {
        Stmt::Break(_) | Stmt::Continue(_) => true,
        Stmt::Block(v) => jumps(v),
        Stmt::If(_, t, e) => jumps(std::slice::from_ref(t)) || e.as_ref().is_some_and(|e| jumps(std::slice::from_ref(e))),
        // Those of a loop or function are its own.
        _ => false,
    })
}

// ------------------------------------------------------------------------ C38

/// The tree, written, must parse to itself.
fn written(c: &mut Ctx, src: &str, t: &[Stmt]) -> Res {
    let Some(text) = write::program(t) else {
        c.stats.add("not written", 1);
        return Ok(());
    };
    let both = format!("{src}\n---- written:\n{text}");
    let got = match api::parse(&text) {
        Err(e) => return violation(&both, format!("the source written for its tree is rejected: {}", api::errs(&e))),
        Ok(t) => t,
    };
    same_tree(&both, "tree of the source written for a tree", &walk::unplaced(t), &walk::unplaced(&got), true)?;
    // What it means is in the tree as well.
    match (api::resolve(src, t.to_vec()), api::resolve(&text, got)) {
        (Ok(a), Ok(b)) => same(
            &both,
            "bindings of the source written for a tree",
            &walk::render(&walk::unplaced(&a), true, true),
            &walk::render(&walk::unplaced(&b), true, true),
        )?,
        (Err(a), Err(b)) => {
            let tokens = |e: &ParseError| e.causes.iter().map(|c| (c.token.clone(), c.message.clone())).collect::<Vec<_>>();
            if tokens(&a) != tokens(&b) {
                return violation(&both, format!("errors {}, not {}", api::errs(&b), api::errs(&a)));
            }
        }
        (Ok(_), Err(e)) | (Err(e), Ok(_)) => {
            return violation(&both, format!("only one of a source and its copy resolves: {}", api::errs(&e)));
        }
    }
    c.stats.add("programs written", 1);
    if walk::size(t) >= 8 {
        c.stats.nontrivial(&both);
    }
    Ok(())
}

fn round_trip(c: &mut Ctx, src: &str) -> Res {
    if let Ok(e) = api::expr(src) {
        if let Some(text) = write::expression(&e) {
            let both = format!("{src}\n---- written:\n{text}");
            match api::expr(&text) {
                Err(x) => return violation(&both, format!("the expression written for its tree is rejected: {}", api::errs(&x))),
                Ok(g) => same_expr(
                    &both,
                    "tree of the expression written for a tree",
                    &walk::unplaced_expr(&e),
                    &walk::unplaced_expr(&g),
                    true,
                )?,
            }
            c.stats.add("expressions written", 1);
            if walk::size_expr(&e) >= 8 {
                c.stats.nontrivial(&both);
            }
        }
    }
    let Ok(t) = api::repl(src) else { return Ok(()) };
    written(c, src, &t)
}

fn some_program(c: &mut Ctx) -> (String, Vec<Stmt>) {
    loop {
        let s = *c.rng.pick(&[Valid, Valid, Rules, Seeds, Edits, Edits]);
        let text = inputs::produce(c, s);
        if text.len() < 6000 {
            if let Ok(t) = api::repl(&text) {
                return (text, t);
            }
        }
    }
}

fn some_expr(c: &mut Ctx) -> Expr {
    loop {
        let text = inputs::produce(c, Exprs);
        if text.len() < 3000 {
            if let Ok(e) = api::expr(&text) {
                return e;
            }
        }
    }
}

/// Trees put together from parts of others.
fn grafted(c: &mut Ctx) -> (String, Vec<Stmt>) {
    let (mut text, mut t) = some_program(c);
    if c.rng.chance(50) {
        for _ in 0..6 {
            let mut n = 0;
            branches(&mut t, &mut |_, _| n += 1);
            if n > 0 {
                break;
            }
            (text, t) = some_program(c);
        }
    }
    for _ in 0..c.rng.range(1, 4) {
        if c.rng.chance(60) {
            let mut n = 0;
            each(&mut t, &mut |p| n += matches!(p, Place::Expr(..)) as usize);
            if n == 0 {
                continue;
            }
            let at = c.rng.below(n);
            let e = some_expr(c);
            let group = c.rng.chance(40);
            // A name and its colon start another map there.
            let bare = matches!(write::first(&e), Expr::LiteralMap(_) | Expr::Function(_));
            let mut i = 0;
            each(&mut t, &mut |p| {
                if let Place::Expr(x, least) = p {
                    if i == at {
                        *x = if level(&e) >= least % LEAD && !(bare && least >= LEAD) && !group { e.clone() } else { Expr::Grouping(Box::new(e.clone())) };
                    }
                    // What is below has been replaced.
                    i += 1;
                }
            });
            c.stats.add("expressions grafted", 1);
        } else if c.rng.chance(50) {
            let mut n = 0;
            branches(&mut t, &mut |_, _| n += 1);
            let (_, mut d) = some_program(c);
            let mut fit = vec![];
            lists(&mut d, &mut |v| {
                fit.extend(v.iter().filter(|s| !returns(s) && !jumps(std::slice::from_ref(s)) && !matches!(s, Stmt::Var(..) | Stmt::Fun(_) | Stmt::Class(_))).cloned())
            });
            if n == 0 || fit.is_empty() {
                continue;
            }
            let new = c.rng.pick(&fit).clone();
            let (at, more) = (c.rng.below(n), c.rng.chance(30));
            let mut i = 0;
            let mut done = false;
            branches(&mut t, &mut |s, closed| {
                if i == at && !(closed && takes_else(&new)) {
                    done = true;
                    match s {
                        Stmt::If(_, t, e @ None) if more && !takes_else(t) => *e = Some(Box::new(new.clone())),
                        s => *s = new.clone(),
                    }
                }
                i += 1;
            });
            c.stats.add("branches grafted", done as u64);
        } else {
            let (_, d) = some_program(c);
            let mut n = 0;
            lists(&mut t, &mut |_| n += 1);
            let at = c.rng.below(n);
            if d.is_empty() || jumps(&d) {
                continue;
            }
            let (a, b) = (c.rng.below(d.len()), c.rng.u64());
            let b = a + 1 + (b as usize) % (d.len() - a).min(3);
            let mut i = 0;
            let r = &mut c.rng;
            lists(&mut t, &mut |v| {
                if i == at {
                    let k = r.below(v.len() + 1);
                    v.splice(k..k, d[a..b].iter().cloned());
                }
                i += 1;
            });
            c.stats.add("statements grafted", 1);
        }
    }
    (text, t)
}

fn grafts(c: &mut Ctx, _: u64) -> Res {
    let (text, t) = grafted(c);
    if walk::size(&t) > 3000 {
        return Ok(());
    }
    written(c, &text, &t)
}

// ------------------------------------------------------------------------ C39

fn pieces(c: &mut Ctx, src: &str) -> Res {
    let Ok(t) = api::repl(src) else { return Ok(()) };
    in_pieces(c, src, t)
}

fn many(c: &mut Ctx, _: u64) -> Res {
    let mut all = String::new();
    let mut t = vec![];
    for _ in 0..c.rng.range(10, 60) {
        let (s, v) = some_program(c);
        all.push_str(&s);
        all.push('\n');
        t.extend(v);
    }
    in_pieces(c, &all, t)
}

fn in_pieces(c: &mut Ctx, src: &str, t: Vec<Stmt>) -> Res {
    let whole = api::resolve(src, t.clone());
    let mut l = Live::new();
    let mut got = vec![];
    let mut at = 0;
    let mut n = 0;
    let big = c.rng.chance(50);
    while at < t.len() {
        let most = if big { t.len() - at } else { 2 };
        let k = at + c.rng.range(1, most.max(1)).min(t.len() - at);
        if c.rng.chance(5) {
            // Nothing at all is a piece, too.
            if let Err(e) = l.resolve(src, vec![]) {
                return violation(src, format!("no statements are rejected: {}", api::errs(&e)));
            }
        }
        match l.resolve(src, t[at..k].to_vec()) {
            Ok(v) => got.extend(v),
            Err(e) => {
                let first = |e: &ParseError| e.causes.first().map(|c| c.to_string());
                match &whole {
                    Ok(_) => {
                        return violation(
                            src,
                            format!("resolves at once, but statements {at}..{k} on their own, after the others, do not: {}", api::errs(&e)),
                        );
                    }
                    Err(w) if first(w) != first(&e) => {
                        return violation(src, format!("first error {:?} in pieces, {:?} at once", first(&e), first(w)));
                    }
                    Err(_) => {
                        c.stats.add("rejections compared", 1);
                        return Ok(());
                    }
                }
            }
        }
        at = k;
        n += 1;
    }
    c.stats.add("pieces", n);
    match whole {
        Err(e) => violation(src, format!("resolves in pieces, but not at once: {}", api::errs(&e))),
        Ok(w) => {
            same(src, "bindings in pieces", &walk::render(&w, true, true), &walk::render(&got, true, true))?;
            let b = walk::binds(&w).len();
            c.stats.add("bindings compared", b as u64);
            if n >= 2 && b >= 3 {
                c.stats.nontrivial(src);
            }
            Ok(())
        }
    }
}

// ------------------------------------------------------------------------ C40

/// Uses that leave the depth at which they are looked at reach one scope
/// further.
struct Deepen {
    moved: u64,
}

impl Deepen {
    fn one(&mut self, v: &Cell<VarLoc>, d: u32) {
        let (dist, slot) = walk::binding(v.get());
        let (dist, slot): (u16, u8) = (dist.parse().unwrap(), slot.parse().unwrap());
        if dist as u32 >= d {
            self.moved += 1;
            v.set(VarLoc::new(dist + 1, slot));
        }
    }
    fn stmts(&mut self, v: &[Stmt], d: u32) {
        v.iter().for_each(|s| self.stmt(s, d));
    }
    fn stmt(&mut self, s: &Stmt, d: u32) {
        match s {
            Stmt::Block(v) => self.stmts(v, d + 1),
            Stmt::Break(_) | Stmt::Continue(_) => (),
            Stmt::Class(c) => {
                if let Some(s) = &c.superclass {
                    self.expr(s, d);
                }
                let inner = d + 2 + c.superclass.is_some() as u32;
                c.methods.iter().for_each(|m| self.stmts(&m.fun_def.body, inner));
            }
            Stmt::Expression(e) | Stmt::Print(e) | Stmt::Return(e, _) => self.expr(e, d),
            Stmt::Var(_, _, e, _) => self.expr(e, d),
            Stmt::Fun(f) => self.stmts(&f.fun_def.body, d + 1),
            Stmt::If(c, t, e) => {
                self.expr(c, d);
                self.stmt(t, d);
                if let Some(e) = e {
                    self.stmt(e, d);
                }
            }
            Stmt::While(c, b) => {
                self.expr(c, d);
                self.stmt(b, d);
            }
            Stmt::WhileIncrement(c, b, i) => {
                self.expr(c, d);
                self.stmt(b, d);
                self.expr(i, d);
            }
        }
    }
    fn expr(&mut self, e: &Expr, d: u32) {
        match e {
            Expr::LiteralBool(_) | Expr::LiteralNil | Expr::LiteralNumber(_) | Expr::LiteralString(_) => (),
            Expr::Assign(_, v, x, _) => {
                self.one(v, d);
                self.expr(x, d);
            }
            Expr::Call(f, a, _) => {
                self.expr(f, d);
                a.iter().for_each(|x| self.expr(x, d));
            }
            Expr::Binary(a, _, b, _) | Expr::Logical(a, _, b) | Expr::GetIndex(a, b, _) => {
                self.expr(a, d);
                self.expr(b, d);
            }
            Expr::Function(f) => self.stmts(&f.body, d + 1),
            Expr::Get(o, _, _) | Expr::Unary(_, o, _) | Expr::Grouping(o) => self.expr(o, d),
            Expr::LiteralArray(v) => v.iter().for_each(|x| self.expr(x, d)),
            Expr::LiteralMap(m) => m.iter().for_each(|(_, x)| self.expr(x, d)),
            Expr::Set(o, _, v, _) => {
                self.expr(o, d);
                self.expr(v, d);
            }
            Expr::SetIndex(a, i, v, _) => {
                self.expr(a, d);
                self.expr(i, d);
                self.expr(v, d);
            }
            Expr::Super(v, _, _) | Expr::Variable(_, v, _) => self.one(v, d),
        }
    }
}

fn declares(s: &Stmt) -> bool {
    matches!(s, Stmt::Var(..) | Stmt::Fun(_) | Stmt::Class(_))
}

/// Statements that use and leave nothing.
fn neutral(r: &mut Rng) -> Stmt {
    let l = SourceLoc::new(1, 1);
    let var = |n: &str| Stmt::Var(n.into(), Cell::new(SlotIndex::placeholder()), Box::new(Expr::LiteralNil), l);
    let read = |n: &str| Expr::Variable(n.into(), Cell::new(VarLoc::placeholder()), l);
    let fun = |params: &[&str], body: Vec<Stmt>| {
        let p = params.iter().map(|p| Parameter::new(p.to_string(), l)).collect();
        FunctionDefinition::new(p, body, FunctionType::PlainFunction, l)
    };
    match r.below(7) {
        0 => Stmt::Expression(Expr::LiteralNil),
        1 => Stmt::Block(vec![]),
        2 => Stmt::Block(vec![var("a"), Stmt::Expression(read("a"))]),
        3 => Stmt::Block(vec![
            var("x"),
            Stmt::Block(vec![var("a"), var("b"), Stmt::Print(read("x"))]),
            Stmt::Expression(read("x")),
        ]),
        4 => Stmt::Expression(Expr::Function(Box::new(fun(
            &["a", "b"],
            vec![Stmt::Return(Expr::LiteralArray(vec![read("a"), read("b")]), l)],
        )))),
        5 => Stmt::While(Expr::LiteralBool(false), Box::new(Stmt::Block(vec![var("f"), Stmt::Print(read("f"))]))),
        _ => {
            let m = FunctionDefinition::new(vec![], vec![Stmt::Expression(read("this"))], FunctionType::Method, l);
            Stmt::Block(vec![Stmt::Class(ClassDefinition {
                name: "A".into(),
                superclass: None,
                methods: vec![NamedFunctionDefinition::new("m".into(), m)],
                source_loc: l,
            })])
        }
    }
}

fn scopes(c: &mut Ctx, src: &str) -> Res {
    let Ok(t) = api::repl(src) else { return Ok(()) };
    let n = if t.len() > 50 { 1 } else { 2 };
    for _ in 0..n {
        moved(c, src, &t)?;
    }
    Ok(())
}

fn composed_scopes(c: &mut Ctx, _: u64) -> Res {
    let (text, t) = grafted(c);
    if walk::size(&t) > 3000 {
        return Ok(());
    }
    for _ in 0..3 {
        moved(c, &text, &t)?;
    }
    Ok(())
}

fn on_list(t: &mut Vec<Stmt>, at: usize, f: &mut dyn FnMut(&mut Vec<Stmt>)) {
    let mut i = 0;
    lists(t, &mut |v| {
        if i == at {
            f(v);
        }
        i += 1;
    });
}

fn moved(c: &mut Ctx, src: &str, t: &[Stmt]) -> Res {
    let first = api::resolve(src, t.to_vec());
    let mut copy = t.to_vec();
    let mut n = 0;
    lists(&mut copy, &mut |_| n += 1);
    let at = c.rng.below(n);
    let mut len = 0;
    let mut free: Vec<bool> = vec![];
    on_list(&mut copy, at, &mut |v| {
        len = v.len();
        free = v.iter().map(|s| !declares(s)).collect();
    });
    let mut want = first.as_ref().ok().cloned();
    let (what, extra): (&str, u64);
    match c.rng.below(5) {
        0..=1 => {
            // A run of statements that declare nothing, into a block.
            let starts: Vec<usize> = (0..len).filter(|i| free[*i]).collect();
            if starts.is_empty() {
                return Ok(());
            }
            let a = *c.rng.pick(&starts);
            let longest = free[a..].iter().take_while(|f| **f).count();
            let b = a + c.rng.range(1, longest);
            let wrap = |v: &mut Vec<Stmt>| {
                let inner: Vec<Stmt> = v.drain(a..b).collect();
                v.insert(a, Stmt::Block(inner));
            };
            on_list(&mut copy, at, &mut |v| wrap(v));
            let mut d = Deepen { moved: 0 };
            if let Some(w) = &mut want {
                on_list(w, at, &mut |v| {
                    d.stmts(&v[a..b], 0);
                    wrap(v);
                });
            }
            c.stats.add("statements wrapped", (b - a) as u64);
            (what, extra) = ("statements in a further block", d.moved);
        }
        2..=3 => {
            let k = c.rng.below(len + 1);
            let s = neutral(&mut c.rng);
            let put = |v: &mut Vec<Stmt>| v.insert(k, s.clone());
            on_list(&mut copy, at, &mut |v| put(v));
            if let Some(w) = &mut want {
                let fresh = match api::resolve("", vec![s.clone()]) {
                    Ok(mut v) => v.pop(),
                    Err(e) => return violation(src, format!("a statement without names is rejected: {}", api::errs(&e))),
                };
                let Some(fresh) = fresh else {
                    return violation(src, "a statement was resolved to none");
                };
                on_list(w, at, &mut |v| v.insert(k, fresh.clone()));
            }
            c.stats.add("blocks put in", 1);
            (what, extra) = ("a block put in that uses nothing", 0);
        }
        _ => {
            let name = "not used anywhere";
            let s = || {
                let l = SourceLoc::new(1, 1);
                Stmt::Var(name.into(), Cell::new(SlotIndex::placeholder()), Box::new(Expr::LiteralNil), l)
            };
            on_list(&mut copy, at, &mut |v| v.push(s()));
            if let Some(w) = &mut want {
                on_list(w, at, &mut |v| v.push(s()));
            }
            c.stats.add("declarations appended", 1);
            (what, extra) = ("an unused declaration appended", 0);
        }
    }
    let got = api::resolve(src, copy.clone());
    let both = || format!("{src}\n---- with {what}:\n{}", write::program(&copy).unwrap_or_default());
    match (want, got) {
        (Some(w), Ok(g)) => {
            // The slot of the appended declaration is its own affair.
            let hide = |v: &[Stmt]| {
                let mut v = v.to_vec();
                walk::Edit {
                    loc: &mut |_| (),
                    var: &mut |_, _| (),
                    slot: &mut |s, n| {
                        if n == "not used anywhere" {
                            s.set(SlotIndex::new(0));
                        }
                    },
                }
                .stmts(&mut v);
                walk::render(&v, true, true)
            };
            let (w_text, g_text) = (hide(&w), hide(&g));
            if w_text != g_text {
                return violation(&both(), format!("bindings with {what}:{}", walk::diff(&w_text, &g_text)));
            }
            c.stats.add("bindings moved", extra);
            if walk::binds(&w).len() >= 3 {
                c.stats.nontrivial(src);
            }
        }
        (None, Err(e)) => {
            let first = first.err();
            let cause = |e: &ParseError| e.causes.first().map(|c| c.to_string());
            let (a, b) = (first.as_ref().and_then(cause), cause(&e));
            // The scope may have been full before its last error.
            if a != b && !b.as_ref().is_some_and(|b| b.contains("not used anywhere")) {
                return violation(&both(), format!("first error {b:?} with {what}, {a:?} without"));
            }
            c.stats.add("rejections compared", 1);
        }
        // No room for it.
        (Some(_), Err(e)) if e.causes.len() == 1 && e.causes[0].token.as_deref() == Some("not used anywhere") => {
            c.stats.add("scopes that were full", 1);
        }
        (Some(_), Err(e)) => return violation(&both(), format!("rejected with {what}: {}", api::errs(&e))),
        (None, Ok(_)) => return violation(&both(), format!("accepted with {what}, though rejected without")),
    }
    Ok(())
}
