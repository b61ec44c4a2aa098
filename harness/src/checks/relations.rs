//! C32-C37: relations between results: values, names, literals, notations,
//! repetition and prefixes.
use super::*;
use crate::dict;
use crate::api::Live;
use crate::inputs::Stream::*;
use crate::inputs;
use crate::make;
use crate::reflex::{KEYWORDS, Piece, RTok, lex, pieces};
use crate::rt::{Ctx, Rng};
use std::cell::Cell;
use std::collections::{HashMap, HashSet};
use unicode_segmentation::UnicodeSegmentation;
use whitespace::ast::*;
use whitespace::environment::{SlotIndex, VarLoc};
use whitespace::token::TokenType as T;

pub fn all() -> Vec<Check> {
    vec![
        Check::new(
            "C32",
            "histories of map operations against a list model, and trees against their copies and against copies changed in one part; non-trivial: a tree of at least 5 parts",
        )
        .cases("maps", 20_000, 400_000, maps)
        .text("trees", 24_000, 700_000, values, &[Valid, Rules, Exprs, Seeds, Mutant, Guided])
        .text("edits", 60_000, 1_000_000, values, &[Edits])
        .text("small", 24_000, 1_500_000, values, &[Small])
        .needs(&[
            "map operations",
            "keys inserted again",
            "copies compared",
            "parts changed",
            "changed names",
            "changed numbers",
            "changed strings",
            "changed positions",
            "changed bindings",
            "changed lists",
            "changed maps",
            "changed operators",
            "changed kinds",
        ]),
        Check::new(
            "C33",
            "a source and a copy with its names consistently replaced; non-trivial: accepted with at least 2 names replaced",
        )
        .text("streams", 20_000, 800_000, renamed, &[Valid, Rules, Mutant, Seeds, Soup, Layout, Guided])
        .text("edits", 40_000, 800_000, renamed, &[Edits])
        .text("small", 24_000, 1_500_000, renamed, &[Small])
        .needs(&["names replaced", "trees compared", "bindings compared", "rejections compared", "names permuted"]),
        Check::new(
            "C34",
            "a source and a copy with some of its indented blocks written with braces; non-trivial: accepted with a block rewritten",
        )
        .text("streams", 20_000, 800_000, notations, &[Valid, Rules, Seeds, Layout, Mutant, Guided])
        .text("edits", 60_000, 800_000, notations, &[Edits])
        .text("small", 24_000, 1_500_000, notations, &[Small])
        .needs(&["blocks rewritten", "trees compared", "blocks kept beside rewritten ones"]),
        Check::new(
            "C35",
            "resolved trees resolved again, trees with arbitrary old bindings, and copied sessions; non-trivial: at least 3 bindings compared",
        )
        .text("again", 30_000, 900_000, again, &[Valid, Rules, Mutant, Seeds, Guided])
        .cases("forks", 6_000, 150_000, forks)
        .text("edits", 60_000, 500_000, again, &[Edits])
        .text("small", 24_000, 1_500_000, again, &[Small])
        .needs(&["resolved again", "resolved over other bindings", "sessions copied", "answers after a copy"]),
        Check::new(
            "C36",
            "sources against their beginnings; non-trivial: the beginning has at least 3 tokens or an error",
        )
        .text("streams", 20_000, 800_000, beginnings, &[Valid, Layout, Mutant, Soup, Chars, Seeds, Rules, Guided])
        .cases("unrelated", 12_000, 400_000, unrelated)
        .text("edits", 40_000, 600_000, beginnings, &[Edits])
        .text("small", 24_000, 1_500_000, beginnings, &[Small])
        .needs(&["tokens kept", "lexical errors kept", "syntax errors kept", "statements kept"]),
        Check::new(
            "C37",
            "a source and a copy with the contents of its literals replaced; non-trivial: accepted with at least 2 literals replaced",
        )
        .text("streams", 20_000, 800_000, revalued, &[Valid, Rules, Exprs, Mutant, Seeds, Soup, Layout, Guided])
        .text("edits", 40_000, 800_000, revalued, &[Edits])
        .text("small", 24_000, 1_500_000, revalued, &[Small])
        .needs(&["numbers replaced", "strings replaced", "map keys replaced", "trees compared", "rejections compared", "line breaks moved"]),
    ]
}

// ------------------------------------------------------------ parts of a tree

/// A part of a tree that can be changed in place.
enum Part<'a> {
    Name(&'a mut String),
    Str(&'a mut String),
    Num(&'a mut f64),
    Bool(&'a mut bool),
    Binary(&'a mut BinaryOperator),
    Unary(&'a mut UnaryOperator),
    Logical(&'a mut LogicalOperator),
    Kind(&'a mut FunctionType),
    Loc(&'a mut SourceLoc),
    Var(&'a Cell<VarLoc>),
    Slot(&'a Cell<SlotIndex>),
    Params(&'a mut Vec<Parameter>),
    Stmts(&'a mut Vec<Stmt>),
    Methods(&'a mut Vec<NamedFunctionDefinition>),
    Exprs(&'a mut Vec<Expr>),
    Map(&'a mut Map<Expr>),
    Else(&'a mut Option<Box<Stmt>>),
    Super(&'a mut Option<Box<Expr>>),
}

struct Parts<'f>(&'f mut dyn FnMut(Part));

impl Parts<'_> {
    fn stmts(&mut self, v: &mut Vec<Stmt>) {
        (self.0)(Part::Stmts(v));
        for s in v {
            self.stmt(s);
        }
    }
    fn fun(&mut self, f: &mut FunctionDefinition) {
        (self.0)(Part::Kind(&mut f.fun_type));
        (self.0)(Part::Loc(&mut f.source_loc));
        (self.0)(Part::Params(&mut f.parameters));
        for p in &mut f.parameters {
            (self.0)(Part::Name(&mut p.name));
            (self.0)(Part::Loc(&mut p.source_loc));
        }
        self.stmts(&mut f.body);
    }
    fn stmt(&mut self, s: &mut Stmt) {
        match s {
            Stmt::Block(v) => self.stmts(v),
            Stmt::Break(l) | Stmt::Continue(l) => (self.0)(Part::Loc(l)),
            Stmt::Class(c) => {
                (self.0)(Part::Name(&mut c.name));
                (self.0)(Part::Loc(&mut c.source_loc));
                (self.0)(Part::Super(&mut c.superclass));
                if let Some(e) = &mut c.superclass {
                    self.expr(e);
                }
                (self.0)(Part::Methods(&mut c.methods));
                for m in &mut c.methods {
                    (self.0)(Part::Name(&mut m.name));
                    self.fun(&mut m.fun_def);
                }
            }
            Stmt::Expression(e) | Stmt::Print(e) => self.expr(e),
            Stmt::Fun(f) => {
                (self.0)(Part::Name(&mut f.name));
                self.fun(&mut f.fun_def);
            }
            Stmt::If(c, t, e) => {
                self.expr(c);
                self.stmt(t);
                (self.0)(Part::Else(e));
                if let Some(e) = e {
                    self.stmt(e);
                }
            }
            Stmt::Return(e, l) => {
                (self.0)(Part::Loc(l));
                self.expr(e);
            }
            Stmt::Var(n, c, e, l) => {
                (self.0)(Part::Name(n));
                (self.0)(Part::Slot(c));
                (self.0)(Part::Loc(l));
                self.expr(e);
            }
            Stmt::While(c, b) => {
                self.expr(c);
                self.stmt(b);
            }
            Stmt::WhileIncrement(c, b, i) => {
                self.expr(c);
                self.stmt(b);
                self.expr(i);
            }
        }
    }
    fn expr(&mut self, e: &mut Expr) {
        match e {
            Expr::LiteralBool(b) => (self.0)(Part::Bool(b)),
            Expr::LiteralNil => (),
            Expr::LiteralNumber(x) => (self.0)(Part::Num(x)),
            Expr::LiteralString(s) => (self.0)(Part::Str(s)),
            Expr::Assign(n, c, v, l) => {
                (self.0)(Part::Name(n));
                (self.0)(Part::Var(c));
                (self.0)(Part::Loc(l));
                self.expr(v);
            }
            Expr::Call(f, a, l) => {
                (self.0)(Part::Loc(l));
                self.expr(f);
                (self.0)(Part::Exprs(a));
                a.iter_mut().for_each(|x| self.expr(x));
            }
            Expr::Binary(a, o, b, l) => {
                (self.0)(Part::Binary(o));
                (self.0)(Part::Loc(l));
                self.expr(a);
                self.expr(b);
            }
            Expr::Function(f) => self.fun(f),
            Expr::Get(o, n, l) => {
                (self.0)(Part::Name(n));
                (self.0)(Part::Loc(l));
                self.expr(o);
            }
            Expr::GetIndex(a, b, l) => {
                (self.0)(Part::Loc(l));
                self.expr(a);
                self.expr(b);
            }
            Expr::Grouping(x) => self.expr(x),
            Expr::LiteralArray(v) => {
                (self.0)(Part::Exprs(v));
                v.iter_mut().for_each(|x| self.expr(x));
            }
            Expr::LiteralMap(m) => {
                (self.0)(Part::Map(m));
                m.iter_mut().for_each(|(_, x)| self.expr(x));
            }
            Expr::Logical(a, o, b) => {
                (self.0)(Part::Logical(o));
                self.expr(a);
                self.expr(b);
            }
            Expr::Set(o, n, v, l) => {
                (self.0)(Part::Name(n));
                (self.0)(Part::Loc(l));
                self.expr(o);
                self.expr(v);
            }
            Expr::SetIndex(a, b, c, l) => {
                (self.0)(Part::Loc(l));
                self.expr(a);
                self.expr(b);
                self.expr(c);
            }
            Expr::Super(c, n, l) => {
                (self.0)(Part::Name(n));
                (self.0)(Part::Var(c));
                (self.0)(Part::Loc(l));
            }
            Expr::Variable(n, c, l) => {
                (self.0)(Part::Name(n));
                (self.0)(Part::Var(c));
                (self.0)(Part::Loc(l));
            }
            Expr::Unary(o, x, l) => {
                (self.0)(Part::Unary(o));
                (self.0)(Part::Loc(l));
                self.expr(x);
            }
        }
    }
    fn parsed(&mut self, p: &mut Parsed) {
        match p {
            Parsed::Stmts(v) => self.stmts(v),
            Parsed::Expr(e) => self.expr(e),
        }
    }
}

fn copy(p: &Parsed) -> Parsed {
    match p {
        Parsed::Stmts(v) => Parsed::Stmts(v.clone()),
        Parsed::Expr(e) => Parsed::Expr(e.clone()),
    }
}

fn equal(a: &Parsed, b: &Parsed) -> bool {
    match (a, b) {
        (Parsed::Stmts(a), Parsed::Stmts(b)) => a == b,
        (Parsed::Expr(a), Parsed::Expr(b)) => a == b,
        _ => false,
    }
}

fn printed(p: &Parsed) -> String {
    match p {
        Parsed::Stmts(v) => format!("{v:?}"),
        Parsed::Expr(e) => format!("{e:?}"),
    }
}

/// A map with the same entries but for the keys.
fn rekeyed(m: &Map<Expr>, f: impl Fn(usize, &str) -> Option<String>) -> Map<Expr> {
    let mut n = Map::default();
    for (i, (k, v)) in m.iter().enumerate() {
        if let Some(k) = f(i, k) {
            n.insert(k, v.clone());
        }
    }
    n
}

// ------------------------------------------------------------------------ C32

/// Change the part; None if it cannot be changed.
fn change(p: Part, r: &mut Rng) -> Option<&'static str> {
    match p {
        Part::Name(s) | Part::Str(s) if r.chance(30) && !s.is_empty() => {
            let at = s.char_indices().last().unwrap().0;
            s.truncate(at);
            Some("names")
        }
        Part::Name(s) => {
            s.push('x');
            Some("names")
        }
        Part::Str(s) => {
            s.push(*r.pick(&['x', ' ', '\\', '\n', 'é']));
            Some("strings")
        }
        Part::Num(x) => {
            *x = if r.chance(50) && *x > 0.0 { f64::from_bits(x.to_bits() + 1) } else { *x + *x + 1.0 };
            x.is_finite().then_some("numbers")
        }
        Part::Bool(b) => {
            *b = !*b;
            Some("truths")
        }
        Part::Binary(o) => {
            use BinaryOperator::*;
            let all = [Plus, Minus, Multiply, Divide, Equal, NotEqual, Less, LessEqual, Greater, GreaterEqual];
            let new = *r.pick(&all);
            let old = std::mem::replace(o, new);
            (old != new).then_some("operators")
        }
        Part::Unary(o) => {
            *o = if *o == UnaryOperator::Minus { UnaryOperator::Not } else { UnaryOperator::Minus };
            Some("operators")
        }
        Part::Logical(o) => {
            *o = if *o == LogicalOperator::And { LogicalOperator::Or } else { LogicalOperator::And };
            Some("operators")
        }
        Part::Kind(k) => {
            use FunctionType::*;
            let new = *r.pick(&[PlainFunction, Method, Initializer, ClassMethod]);
            let old = std::mem::replace(k, new);
            (old != new).then_some("kinds")
        }
        Part::Loc(l) => {
            if r.chance(50) {
                l.line ^= 1 << r.below(32);
            } else {
                l.column ^= 1 << r.below(16);
            }
            Some("positions")
        }
        Part::Var(c) => {
            let (d, i) = walk::binding(c.get());
            let (d, i): (u16, u8) = (d.parse().ok()?, i.parse().ok()?);
            c.set(if r.chance(50) { VarLoc::new(d ^ 1 << r.below(16), i) } else { VarLoc::new(d, i ^ 1 << r.below(8)) });
            Some("bindings")
        }
        Part::Slot(c) => {
            c.set(SlotIndex::new(c.get().index() ^ 1 << r.below(8)));
            Some("bindings")
        }
        Part::Params(v) => {
            if v.is_empty() {
                v.push(Parameter::new("p".into(), SourceLoc::new(1, 1)));
            } else {
                v.pop();
            }
            Some("lists")
        }
        Part::Stmts(v) => {
            if v.is_empty() || r.chance(30) {
                v.push(Stmt::Expression(Expr::LiteralNil));
            } else {
                v.pop();
            }
            Some("lists")
        }
        Part::Methods(v) => v.pop().map(|_| "lists"),
        Part::Exprs(v) => {
            if v.is_empty() || r.chance(30) {
                v.push(Expr::LiteralNil);
            } else {
                v.pop();
            }
            Some("lists")
        }
        Part::Map(m) => {
            let at = if m.is_empty() { None } else { Some(r.below(m.len())) };
            match (r.below(3), at) {
                (0, Some(at)) => *m = rekeyed(m, |i, k| (i != at).then(|| k.to_string())),
                (1, Some(at)) => {
                    let n = m.len();
                    let new = rekeyed(m, |i, k| Some(if i == at { format!("{k}'") } else { k.to_string() }));
                    if new.len() != n {
                        return None;
                    }
                    *m = new;
                }
                _ => {
                    let mut k = "k".to_string();
                    while m.iter().any(|(x, _)| *x == k) {
                        k.push('k');
                    }
                    m.insert(k, Expr::LiteralNil);
                }
            }
            Some("maps")
        }
        Part::Else(e) => {
            *e = match e.take() {
                None => Some(Box::new(Stmt::Block(vec![]))),
                Some(_) => None,
            };
            Some("lists")
        }
        Part::Super(e) => {
            *e = match e.take() {
                None => Some(Box::new(Expr::LiteralNil)),
                Some(_) => None,
            };
            Some("lists")
        }
    }
}

/// A tree is a value: copies are equal and separate, and every part counts.
fn values(c: &mut Ctx, src: &str) -> Res {
    let mut t = match c.rng.below(4) {
        0 => match api::expr(src) {
            Ok(e) => Parsed::Expr(e),
            Err(_) => return Ok(()),
        },
        _ => match api::repl(src) {
            Ok(s) => Parsed::Stmts(s),
            Err(_) => return Ok(()),
        },
    };
    if let Parsed::Stmts(s) = &t {
        if let Ok(x) = api::resolve(src, s.clone()) {
            t = Parsed::Stmts(x);
        }
    }
    let shown = render(&t, true, true);
    let r = &mut c.rng;
    let stats = &mut c.stats;
    api::call("Clone, PartialEq and Debug", src, || {
        let mut n = 0;
        let mut u = copy(&t);
        same(src, "copy", &shown, &render(&u, true, true))?;
        if !equal(&t, &u) || !equal(&u, &t) {
            return violation(src, "a tree and its copy compare as different");
        }
        if printed(&t) != printed(&u) {
            return violation(src, "a tree and its copy print differently");
        }
        stats.add("copies compared", 1);
        Parts(&mut |_| n += 1).parsed(&mut u);
        if n >= 5 {
            stats.nontrivial(src);
        }
        let all = n <= 12;
        for k in 0..n.min(12) {
            let at = if all { k } else { r.below(n) };
            let mut u = copy(&t);
            let mut i = 0;
            let mut what = None;
            // The parts that come after the changed one may be others.
            Parts(&mut |p| {
                if i == at {
                    what = change(p, r);
                }
                i += 1;
            })
            .parsed(&mut u);
            let Some(what) = what else { continue };
            stats.add("parts changed", 1);
            stats.add(&format!("changed {what}"), 1);
            let now = render(&t, true, true);
            if now != shown {
                return violation(src, format!("changing {what} in a copy changed the tree itself:{}", walk::diff(&shown, &now)));
            }
            if equal(&t, &u) || equal(&u, &t) {
                return violation(
                    src,
                    format!("a copy with changed {what} compares as equal:{}", walk::diff(&shown, &render(&u, true, true))),
                );
            }
            if printed(&t) == printed(&u) {
                return violation(
                    src,
                    format!("a copy with changed {what} prints the same:{}", walk::diff(&shown, &render(&u, true, true))),
                );
            }
        }
        Ok(())
    })
}

/// The operations of `Map` against a list of pairs.
fn maps(c: &mut Ctx, idx: u64) -> Res {
    let r = &mut c.rng;
    let stats = &mut c.stats;
    let mut log = String::new();
    let few = r.chance(60);
    let n = if idx % 50 == 0 { r.range(200, 900) } else { r.range(1, 40) };
    let key = |r: &mut Rng| -> String {
        if few {
            r.pick(&["", "a", "b", "A", "ab", "a ", "\u{e9}", "e\u{301}", "1", "k"]).to_string()
        } else {
            format!("k{}", r.below(n))
        }
    };
    api::call("Map", "", || {
        let mut model: Vec<(String, u32)> = vec![];
        let mut m: Map<u32> = if r.chance(50) { Map::default() } else { Map::new(FnvIndexMap::default()) };
        if r.chance(30) {
            let mut raw = FnvIndexMap::default();
            for _ in 0..r.below(6) {
                let (k, v) = (key(r), r.below(1000) as u32);
                raw.insert(k.clone(), v);
                match model.iter_mut().find(|(x, _)| *x == k) {
                    Some(e) => e.1 = v,
                    None => model.push((k, v)),
                }
            }
            m = Map::new(raw);
        }
        for _ in 0..n {
            stats.add("map operations", 1);
            let at = |m: &[(String, u32)], k: &str| m.iter().position(|(x, _)| x == k);
            let v = r.below(1000) as u32;
            match r.below(6) {
                0..=2 => {
                    let k = key(r);
                    log.push_str(&format!("insert({k:?}, {v}) "));
                    let want = match at(&model, &k) {
                        Some(i) => {
                            stats.add("keys inserted again", 1);
                            Some(std::mem::replace(&mut model[i].1, v))
                        }
                        None => {
                            model.push((k.clone(), v));
                            None
                        }
                    };
                    let got = m.insert(k, v);
                    if got != want {
                        return violation(&log, format!("insert gave {got:?}, not {want:?}"));
                    }
                }
                3 => {
                    let k = key(r);
                    log.push_str(&format!("entry({k:?}).or_insert({v}) += 1 "));
                    let e = m.entry(k.clone());
                    if e.key() != &k {
                        return violation(&log, format!("entry of {k:?} has key {:?}", e.key()));
                    }
                    *e.or_insert(v) += 1;
                    match at(&model, &k) {
                        Some(i) => model[i].1 += 1,
                        None => model.push((k, v + 1)),
                    }
                }
                4 => {
                    log.push_str("iter_mut ");
                    for (i, (k, x)) in m.iter_mut().enumerate() {
                        if model.get(i).map(|e| &e.0) != Some(k) {
                            return violation(&log, format!("iter_mut: entry {i} is {k:?}"));
                        }
                        *x += i as u32;
                    }
                    for (i, e) in model.iter_mut().enumerate() {
                        e.1 += i as u32;
                    }
                }
                _ => {
                    log.push_str("clone ");
                    let mut k = m.clone();
                    if k != m {
                        return violation(&log, "a map differs from its copy");
                    }
                    k.insert("another".into(), 1);
                    if k == m {
                        return violation(&log, "a map equals its copy with another key");
                    }
                    if let Some((_, v)) = m.clone().iter_mut().next() {
                        *v += 1;
                    }
                    if r.chance(50) {
                        m = m.clone();
                    }
                }
            }
            let got: Vec<(String, u32)> = m.iter().map(|(k, v)| (k.clone(), *v)).collect();
            if got != model {
                return violation(&log, format!("entries {got:?}, not {model:?}"));
            }
            if m.len() != model.len() || m.is_empty() != model.is_empty() {
                return violation(&log, format!("{} entries, empty: {}", m.len(), m.is_empty()));
            }
        }
        stats.nontrivial(&log);
        Ok(())
    })
}

// -------------------------------------------------------------------- C33, C37

/// A copy of a source, and how to carry an answer over to it.
#[derive(Default)]
struct Copy {
    text: String,
    names: HashMap<String, String>,
    strings: HashMap<String, String>,
    numbers: HashMap<u64, f64>,
    /// What stood at a position of the source, and what stands there now.
    here: HashMap<(u32, u32), (String, String)>,
    at: HashMap<(u32, u32), (u32, u32)>,
    /// Where the source has markers of blocks; their text is another than that
    /// of the token they stand at.
    marked: HashSet<(u32, u32)>,
}

impl Copy {
    fn loc(&self, l: SourceLoc) -> SourceLoc {
        match self.at.get(&at(l)) {
            Some((line, col)) => SourceLoc::new(*line, *col as u16),
            // Nowhere: will differ.
            None => SourceLoc::new(0, 0),
        }
    }
    fn key(&self, k: &str) -> String {
        self.strings.get(k).or(self.names.get(k)).cloned().unwrap_or(k.to_string())
    }
    fn tree(&self, mut t: Parsed) -> Parsed {
        Parts(&mut |p| match p {
            Part::Name(s) => {
                if let Some(n) = self.names.get(s) {
                    *s = n.clone();
                }
            }
            Part::Str(s) => {
                if let Some(n) = self.strings.get(s) {
                    *s = n.clone();
                }
            }
            Part::Num(x) => {
                if let Some(n) = self.numbers.get(&x.to_bits()) {
                    *x = *n;
                }
            }
            Part::Map(m) => *m = rekeyed(m, |_, k| Some(self.key(k))),
            Part::Loc(l) => *l = self.loc(*l),
            _ => (),
        })
        .parsed(&mut t);
        t
    }
    fn errors(&self, e: &ParseError) -> Vec<String> {
        e.causes
            .iter()
            .map(|c| {
                let l = self.loc(c.source_loc);
                if self.marked.contains(&at(c.source_loc)) {
                    return format!("{}:{}", l.line, l.column);
                }
                // The token is quoted as written, or a key by its contents.
                let inner = |s: &'_ str| s.strip_prefix('"').and_then(|s| s.strip_suffix('"')).map(str::to_string);
                let t = c.token.as_ref().map(|t| match self.here.get(&at(c.source_loc)) {
                    Some((old, new)) if t == old => new.clone(),
                    Some((old, new)) if inner(old).as_ref() == Some(t) => inner(new).unwrap_or(t.clone()),
                    _ => t.clone(),
                });
                format!("{}:{} {t:?}", l.line, l.column)
            })
            .collect()
    }
    /// Replace the pieces for which there is another text.
    fn write(&mut self, src: &str, ps: &[(Piece, usize, usize)], mut new: impl FnMut(usize, &str) -> Option<String>) -> bool {
        fn step(p: &mut (u32, u32), s: &str) {
            for g in s.graphemes(true) {
                if crate::reflex::is_newline(g) {
                    p.0 += 1;
                    p.1 = 1;
                } else {
                    p.1 += 1;
                }
            }
        }
        let marker = |t: &&RTok| matches!(t.ty, T::Indent | T::Outdent);
        self.marked = lex(src).toks.iter().filter(marker).map(|t| (t.line, t.col)).collect();
        let (mut a, mut b) = ((1, 1), (1, 1));
        let mut ends = vec![];
        for (i, (_, s, e)) in ps.iter().enumerate() {
            self.at.insert(a, b);
            let a_start = a;
            let old = &src[*s..*e];
            step(&mut a, old);
            let now = new(i, old).unwrap_or(old.to_string());
            step(&mut b, &now);
            self.text.push_str(&now);
            ends.push(self.text.len());
            self.here.insert(a_start, (old.to_string(), now));
        }
        self.at.insert(a, b);
        // Was it put together of the same pieces?
        let qs = pieces(&self.text);
        b.1 < 60_000
            && qs.len() == ps.len()
            && qs.iter().zip(ps).all(|(q, p)| q.0 == p.0)
            && qs.iter().zip(&ends).all(|(q, e)| q.2 == *e)
    }
    /// The answer for the copy must be the answer for the source, carried over.
    fn compare(&self, c: &mut Ctx, src: &str, what: &str, entry: Entry) -> Result<bool, crate::rt::Violation> {
        let both = || format!("{src}\n---- with other {what}:\n{}", self.text);
        match (actual(src, entry), actual(&self.text, entry)) {
            (Ok(a), Ok(b)) => {
                let resolved = match (&a, &b) {
                    (Parsed::Stmts(x), Parsed::Stmts(y)) => {
                        Some((api::resolve(src, x.clone()), api::resolve(&self.text, y.clone())))
                    }
                    _ => None,
                };
                let a = self.tree(a);
                if render(&a, true, false) != render(&b, true, false) {
                    same(&both(), &format!("tree with other {what}"), &render(&a, true, false), &render(&b, true, false))?;
                }
                c.stats.add("trees compared", 1);
                match resolved {
                    Some((Ok(x), Ok(y))) => {
                        let x = self.tree(Parsed::Stmts(x));
                        let (x, y) = (render(&x, true, true), walk::render(&y, true, true));
                        if x != y {
                            same(&both(), &format!("bindings with other {what}"), &x, &y)?;
                        }
                        c.stats.add("bindings compared", 1);
                    }
                    Some((Err(x), Err(y))) => self.same_errors(&both, what, &x, &y)?,
                    Some((Ok(_), Err(e))) | Some((Err(e), Ok(_))) => {
                        return violation(&both(), format!("other {what} decide whether it resolves: {}", api::errs(&e)));
                    }
                    None => (),
                }
                Ok(true)
            }
            (Err(a), Err(b)) => {
                self.same_errors(&both, what, &a, &b)?;
                c.stats.add("rejections compared", 1);
                Ok(false)
            }
            (Ok(_), Err(e)) | (Err(e), Ok(_)) => {
                violation(&both(), format!("other {what} decide whether it is accepted: {}", api::errs(&e)))
            }
        }
    }
    fn same_errors(&self, both: &dyn Fn() -> String, what: &str, a: &ParseError, b: &ParseError) -> Res {
        let mut plain = Copy::default();
        plain.write(&self.text, &pieces(&self.text), |_, _| None);
        let (x, y) = (self.errors(a), plain.errors(b));
        if x != y {
            return violation(&both(), format!("errors with other {what}: {y:?}, not {x:?} (from {})", api::errs(a)));
        }
        Ok(())
    }
}

fn an_entry(r: &mut Rng, src: &str) -> Entry {
    if api::expr(src).is_ok() || r.chance(10) {
        *r.pick(&[Entry::Expression, Entry::Repl, Entry::Program])
    } else {
        *r.pick(&[Entry::Repl, Entry::Program])
    }
}

/// Names the language gives a meaning to.
fn fixed(n: &str) -> bool {
    matches!(n, "init" | "this" | "super")
}

fn other_name(r: &mut Rng) -> String {
    match r.below(18) {
        // Near a keyword, or what the code mentions.
        14 => {
            let mut s: Vec<char> = r.pick(&KEYWORDS).0.chars().collect();
            let c = *r.pick(&['a', 'e', 'r', 's', 'z', '_', 'S', '2']);
            let at = r.range(1, s.len());
            match r.below(3) {
                0 => s.insert(at, c),
                1 if at < s.len() => s[at] = c,
                _ => {
                    s.remove(at - 1);
                }
            }
            let s: String = s.into_iter().collect();
            if s.is_empty() || s.starts_with(|c: char| c.is_ascii_digit()) { format!("k{s}") } else { s }
        }
        15 => dict::name(r).unwrap_or("nm".to_string()),
        16 | 17 => dict::joined(r).unwrap_or("jn".to_string()),
        0 => format!("{}{}", r.pick(&KEYWORDS).0, r.pick(&["_", "x", "1", "s", "é"])),
        1 => {
            let k = r.pick(&KEYWORDS).0;
            format!("{}{}", k[..1].to_uppercase(), &k[1..])
        }
        2 => r.pick(&KEYWORDS).0.to_uppercase(),
        3 => {
            let k = r.pick(&KEYWORDS).0;
            k[..k.len() - 1].to_string()
        }
        4 => format!("_{}", r.pick(&KEYWORDS).0),
        5 => r.pick(&["init_", "Init", "ini", "init1", "clock", "Object", "print_", "_", "__", "self", "new", "in", "import", "not", "static", "let", "const", "switch", "case", "do", "elif", "elseif", "def", "func", "None", "null", "undefined", "NaN", "inf", "constructor", "__proto__", "toString", "length"]).to_string(),
        6 => r.pick(&["é", "ß", "λ", "Ж", "变量", "ñandú", "x\u{301}", "ﬀ", "ª", "𝑥", "𐐀", "ゐ"]).to_string(),
        7 => "n".repeat(*r.pick(&[1, 2, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 1000])),
        8 => format!("e{}", r.below(400)),
        9 => format!("x{}", r.below(20)),
        _ => {
            let mut s = String::new();
            for _ in 0..r.range(1, 6) {
                s.push(*r.pick(&['a', 'b', 'Z', '_', '0', '9', 'e', 'n', 'i', 'f', 't']));
            }
            if s.as_bytes()[0].is_ascii_digit() { format!("v{s}") } else { s }
        }
    }
}

/// The i-th of many names that are much alike.
fn alike(kind: usize, word: &str, long: usize, i: usize) -> String {
    match kind {
        // The same beginning, the same end, or both.
        0 => format!("{word}{i:03}"),
        1 => format!("{}{i:03}", word.repeat(1 + long / word.len())),
        2 => format!("v{i:03}{word}"),
        3 => format!("{word}{i:03}{word}"),
        4 => format!("{}{i:03}{}", word.repeat(1 + long / word.len()), word.repeat(1 + long / word.len())),
        // Beginnings of one another.
        5 => word.chars().cycle().take(i + 1).collect(),
        6 => format!("{word}{}", "_".repeat(i)),
        7 => format!("{}{word}", "_".repeat(i)),
        // Upper and lower case.
        8 => {
            let w = word.repeat(3);
            w.chars().enumerate().map(|(k, c)| if k < 20 && i >> k & 1 == 1 { c.to_ascii_uppercase() } else { c }).collect()
        }
        // The same letters in another order.
        9 => {
            let mut v: Vec<char> = "abcdefgh".chars().collect();
            let mut i = i;
            let mut s = String::new();
            while !v.is_empty() {
                let n = v.len();
                s.push(v.remove(i % n));
                i /= n;
            }
            s
        }
        // Looking the same.
        _ => {
            let forms = ["é", "e\u{301}", "ê", "e\u{302}", "e", "E", "е", "ｅ"];
            let mut i = i;
            let mut s = "x".to_string();
            loop {
                s.push_str(forms[i % 8]);
                i /= 8;
                if i == 0 {
                    break s;
                }
            }
        }
    }
}

fn renamed(c: &mut Ctx, src: &str) -> Res {
    if !lex(src).errs.is_empty() {
        return Ok(());
    }
    let ps = pieces(src);
    let mut old: Vec<String> = vec![];
    let mut strings: HashSet<String> = HashSet::new();
    for (p, s, e) in &ps {
        let t = &src[*s..*e];
        match p {
            Piece::Solid(T::Identifier) if !fixed(t) && !old.iter().any(|x| x == t) => old.push(t.to_string()),
            Piece::Solid(T::String) => {
                strings.insert(t[1..t.len() - 1].to_string());
            }
            _ => (),
        }
    }
    if old.is_empty() || old.len() > 400 {
        return Ok(());
    }
    let r = &mut c.rng;
    let mut copy = Copy::default();
    // Text keys may be the same as names.
    let keyed: HashSet<String> = ps
        .windows(1)
        .filter(|w| w[0].0 == Piece::Solid(T::String))
        .map(|w| src[w[0].1 + 1..w[0].2 - 1].to_string())
        .filter(|s| old.contains(s))
        .collect();
    let free: Vec<String> = old.iter().filter(|n| !keyed.contains(*n)).cloned().collect();
    let permute = r.chance(25) && free.len() > 1;
    let keep = *r.pick(&[0, 0, 0, 40, 90]);
    if permute {
        let mut to = free.clone();
        for i in (1..to.len()).rev() {
            to.swap(i, r.below(i + 1));
        }
        copy.names = free.iter().cloned().zip(to).collect();
        c.stats.add("names permuted", free.len() as u64);
    } else {
        let mut used: HashSet<String> = old.iter().cloned().collect();
        used.extend(strings);
        let kind = r.below(11);
        let word = *r.pick(&["a", "name", "left", "zz", "init", "this", "value", "x"]);
        let long = *r.pick(&[7, 8, 15, 16, 31, 32, 63, 64, 255]);
        let family = r.chance(30);
        for (i, n) in free.iter().enumerate() {
            if r.chance(keep) {
                continue;
            }
            let mut m = if family { alike(kind, word, long, i) } else { other_name(r) };
            while used.contains(&m) || fixed(&m) || KEYWORDS.iter().any(|k| k.0 == m) {
                m.push_str(&format!("{}", r.below(100)));
            }
            used.insert(m.clone());
            copy.names.insert(n.clone(), m);
        }
    }
    let names = std::mem::take(&mut copy.names);
    let sure = copy.write(src, &ps, |i, s| match ps[i].0 {
        Piece::Solid(T::Identifier) => names.get(s).cloned(),
        _ => None,
    });
    copy.names = names;
    if !sure || copy.text == src {
        return Ok(());
    }
    c.stats.add("names replaced", copy.names.len() as u64);
    let entry = an_entry(&mut c.rng, src);
    if copy.compare(c, src, "names", entry)? && copy.names.len() >= 2 {
        c.stats.nontrivial(src);
    }
    Ok(())
}

fn other_number(r: &mut Rng) -> String {
    match r.below(10) {
        0 => r.pick(&["0", "1", "00", "0.0", "1.0", "9", "10", "007"]).to_string(),
        1 => r
            .pick(&[
                "127", "128", "255", "256", "257", "32767", "32768", "65535", "65536", "2147483647", "2147483648", "4294967295",
                "4294967296", "9007199254740991", "9007199254740992", "9007199254740993", "9223372036854775807",
                "9223372036854775808", "18446744073709551615", "18446744073709551616", "99999999999999999999",
            ])
            .to_string(),
        2 => format!("{}.{}", r.below(1000), r.below(1000)),
        3 => {
            let n = *r.pick(&[1, 5, 30, 290, 310, 323]);
            format!("0.{}{}", "0".repeat(r.below(n)), r.range(1, 99))
        }
        4 => {
            let n = *r.pick(&[5, 20, 60, 300, 320]);
            format!("{}{}", r.range(1, 9), "0".repeat(r.below(n)))
        }
        5 => "7".repeat(r.range(1, 40)),
        6 => format!("{}.{}", r.below(3), "3".repeat(r.range(1, 40))),
        // The ends of the range.
        7 => r
            .pick(&[
                format!("0.{}1", "0".repeat(306)),
                format!("0.{}5", "0".repeat(323)),
                format!("0.{}1", "0".repeat(400)),
                "9".repeat(308),
                "9".repeat(309),
                format!("17976931348623157{}", "0".repeat(292)),
                format!("0.{}22250738585072014", "0".repeat(307)),
            ])
            .clone(),
        _ => r.below(100_000).to_string(),
    }
}

fn other_string(r: &mut Rng) -> String {
    match r.below(13) {
        0 => String::new(),
        1 => r.pick(&["\n", "\r\n", "\n\n", "a\nb", "  \n  ", "\n}", "{\n", "\r", "x\n\tif (a)\n", "a,\n\n\n", "\\\n"]).to_string(),
        2 => r.pick(&KEYWORDS).0.to_string(),
        3 => r.pick(&["//", "// a", "/", "\\", "\\n", "\\u{41}", "'", "`", "${a}", "#{a}", "{a}", "%s", "\t", " ", "  ", "/*"]).to_string(),
        4 => r.pick(&["init", "this", "super", "a", "b", "x", "clock", "nil", "0", "1.5", "__proto__"]).to_string(),
        5 => "s".repeat(*r.pick(&[15, 16, 23, 24, 31, 32, 63, 64, 127, 128, 255, 256, 257, 1023, 1024, 3000])),
        6 => r.pick(&["é", "e\u{301}", "日本", "🙂", "👨\u{200d}👩\u{200d}👧", "\u{feff}", "\u{0}", "ß", "\u{2028}", "🇫🇷", "ﬀ"]).to_string(),
        7 => format!("({})", r.below(9)),
        8 => r.pick(&["]", "[", "(", ")", "{", "}", ":", ",", ";", "=", "==", "<", ".", "+", "-", "!", "@"]).to_string(),
        9 => format!("{}\n{}", r.below(9), r.below(9)),
        _ => {
            let mut s = String::new();
            for _ in 0..r.range(1, 8) {
                s.push(*r.pick(&['a', 'b', ' ', '0', '_', 'Z', '.', '/', '=']));
            }
            s
        }
    }
}

fn revalued(c: &mut Ctx, src: &str) -> Res {
    if !lex(src).errs.is_empty() {
        return Ok(());
    }
    let ps = pieces(src);
    let mut names: HashSet<&str> = HashSet::new();
    let mut strings: Vec<&str> = vec![];
    let mut numbers: Vec<&str> = vec![];
    let mut keys = 0;
    for (i, (p, s, e)) in ps.iter().enumerate() {
        let t = &src[*s..*e];
        match p {
            Piece::Solid(T::Identifier) => {
                names.insert(t);
            }
            Piece::Solid(T::String) => {
                strings.push(&t[1..t.len() - 1]);
                let next = ps[i + 1..].iter().find(|p| !matches!(p.0, Piece::Blank | Piece::Cr));
                keys += matches!(next, Some((Piece::Solid(T::Colon), _, _))) as u64;
            }
            Piece::Solid(T::Number) => numbers.push(t),
            _ => (),
        }
    }
    if strings.len() + numbers.len() == 0 || strings.len() + numbers.len() > 2000 {
        return Ok(());
    }
    let r = &mut c.rng;
    let mut copy = Copy::default();
    let mut used: HashSet<String> = names.iter().chain(&strings).map(|s| s.to_string()).collect();
    for s in &strings {
        // A key that is also written as a name stays.
        if copy.strings.contains_key(*s) || names.contains(s) {
            continue;
        }
        let mut n = other_string(r);
        while used.contains(&n) {
            n.push_str(&format!("{}", r.below(1000)));
        }
        used.insert(n.clone());
        copy.strings.insert(s.to_string(), n);
    }
    // By text, not value: 1 and 1.0 may become different numbers in one place
    // only if the tree tells them apart, so tie them.
    let mut texts: HashMap<u64, String> = HashMap::new();
    for t in &numbers {
        let bits = crate::reflex::decimal(t).to_bits();
        let n = texts.entry(bits).or_insert_with(|| other_number(r));
        copy.numbers.insert(bits, crate::reflex::decimal(n));
    }
    let strings_to = copy.strings.clone();
    let sure = copy.write(src, &ps, |i, s| match ps[i].0 {
        Piece::Solid(T::String) => strings_to.get(&s[1..s.len() - 1]).map(|n| format!("\"{n}\"")),
        Piece::Solid(T::Number) => texts.get(&crate::reflex::decimal(s).to_bits()).cloned(),
        _ => None,
    });
    if !sure || copy.text == src {
        return Ok(());
    }
    c.stats.add("numbers replaced", copy.numbers.len() as u64);
    c.stats.add("strings replaced", copy.strings.len() as u64);
    c.stats.add("map keys replaced", keys);
    if copy.at.iter().any(|(a, b)| a.0 != b.0) {
        c.stats.add("line breaks moved", 1);
    }
    let total = copy.numbers.len() + copy.strings.len();
    let entry = an_entry(&mut c.rng, src);
    if copy.compare(c, src, "literals", entry)? && total >= 2 {
        c.stats.nontrivial(src);
    }
    Ok(())
}

// ------------------------------------------------------------------------ C34

/// The source of the tokens with the blocks of `brace` (indices of their
/// Indent) in braces and every other block indented.
fn written(toks: &[RTok], end_of: &HashMap<usize, usize>, brace: &HashSet<usize>) -> Option<String> {
    let closing: HashSet<usize> = brace.iter().map(|i| end_of[i]).collect();
    let mut out = String::new();
    let mut depth = 0;
    let mut fresh = true;
    for (i, t) in toks.iter().enumerate() {
        match t.ty {
            T::Eof => (),
            T::Terminator => {
                if toks.get(i + 1).is_some_and(|t| t.ty == T::Indent) && brace.contains(&(i + 1)) {
                    continue;
                }
                out.push('\n');
                fresh = true;
            }
            T::Indent if brace.contains(&i) => {
                out.push_str(" {");
                fresh = false;
            }
            T::Indent => {
                if !fresh {
                    return None;
                }
                depth += 1;
            }
            T::Outdent if closing.contains(&i) => {
                // On a line of its own it stands at the level of its block.
                out.push_str(&if fresh { "  ".repeat(depth) } else { " ".into() });
                out.push('}');
                fresh = false;
            }
            T::Outdent => {
                if !fresh {
                    return None;
                }
                depth -= 1;
            }
            _ => {
                if fresh {
                    out.push_str(&"  ".repeat(depth));
                } else if t.ty != T::LeftParenAbutting {
                    out.push(' ');
                }
                out.push_str(&t.text);
                fresh = false;
            }
        }
    }
    Some(out)
}

fn notations(c: &mut Ctx, src: &str) -> Res {
    // A brace may not be the last thing on its line: have something follow.
    let src = format!("{src}{}zz\n", if src.ends_with('\n') || src.is_empty() { "" } else { "\n" });
    let l = lex(&src);
    if !l.errs.is_empty() {
        return Ok(());
    }
    let Ok(a) = api::parse(&src) else { return Ok(()) };
    let toks = l.toks;
    let mut end_of = HashMap::new();
    let mut open = vec![];
    for (i, t) in toks.iter().enumerate() {
        match t.ty {
            T::Indent => open.push(i),
            T::Outdent => {
                let Some(o) = open.pop() else { return Ok(()) };
                end_of.insert(o, i);
            }
            _ => (),
        }
    }
    // Not the value of a variable, which is an indented map, nor an indented
    // target of an assignment (an expression of its own, after which only
    // `=` can stand).
    let blocks: Vec<usize> = end_of
        .iter()
        .filter(|(i, end)| {
            **i >= 2
                && toks[**i - 1].ty == T::Terminator
                && toks[**i - 2].ty != T::Equal
                && toks.get(**end + 1).is_none_or(|t| t.ty != T::Equal)
        })
        .map(|(i, _)| *i)
        .collect();
    if blocks.is_empty() || !open.is_empty() {
        return Ok(());
    }
    let mut blocks = blocks;
    blocks.sort();
    let r = &mut c.rng;
    let share = *r.pick(&[100, 100, 50, 20]);
    let mut brace: HashSet<usize> = blocks.iter().copied().filter(|_| r.chance(share)).collect();
    if brace.is_empty() {
        brace.insert(*r.pick(&blocks));
    }
    // A block that ends where an indented one ends stays indented itself.
    loop {
        let opener: HashMap<usize, usize> = end_of.iter().map(|(a, b)| (*b, *a)).collect();
        let stays = brace.iter().copied().find(|i| {
            let next = end_of[i] + 1;
            opener.get(&next).is_some_and(|o| !brace.contains(o))
        });
        match stays {
            Some(i) => brace.remove(&i),
            None => break,
        };
    }
    if brace.is_empty() {
        return Ok(());
    }
    let Some(text) = written(&toks, &end_of, &brace) else { return Ok(()) };
    // Is it what was meant?
    let want: Vec<T> = toks
        .iter()
        .enumerate()
        .filter_map(|(i, t)| match t.ty {
            T::Terminator if brace.contains(&(i + 1)) => None,
            T::Indent if brace.contains(&i) => Some(T::LeftBrace),
            T::Outdent if brace.iter().any(|b| end_of[b] == i) => Some(T::RightBrace),
            t => Some(t),
        })
        .collect();
    let again = lex(&text);
    if !again.errs.is_empty() || again.toks.iter().map(|t| t.ty).collect::<Vec<_>>() != want {
        c.stats.add("not written", 1);
        return Ok(());
    }
    c.stats.add("blocks rewritten", brace.len() as u64);
    c.stats.add("blocks kept beside rewritten ones", (end_of.len() - brace.len()) as u64);
    let both = format!("{src}---- with braces:\n{text}");
    match api::parse(&text) {
        Err(e) => return violation(&both, format!("rejected with braces: {}", api::errs(&e))),
        Ok(b) => same_tree(&both, "tree with braces", &walk::unplaced(&a), &walk::unplaced(&b), true)?,
    }
    c.stats.add("trees compared", 1);
    c.stats.nontrivial(&src);
    Ok(())
}

// ------------------------------------------------------------------------ C35

fn again(c: &mut Ctx, src: &str) -> Res {
    let Ok(t) = api::repl(src) else { return Ok(()) };
    let first = api::resolve(src, t.clone());
    // With other bindings in the tree to begin with.
    let r = &mut c.rng;
    let mut other = t.clone();
    Parts(&mut |p| match p {
        Part::Var(v) => v.set(VarLoc::new(r.below(65536) as u16, r.below(256) as u8)),
        Part::Slot(s) => s.set(SlotIndex::new(r.below(256) as u8)),
        _ => (),
    })
    .stmts(&mut other);
    let over = api::resolve(src, other);
    match (&first, &over) {
        (Ok(a), Ok(b)) => same(
            src,
            "bindings when the tree came with other bindings",
            &walk::render(a, true, true),
            &walk::render(b, true, true),
        )?,
        (Err(a), Err(b)) if api::errs(a) == api::errs(b) => (),
        _ => return violation(src, "the bindings a tree came with decide whether it resolves"),
    }
    c.stats.add("resolved over other bindings", 1);
    let Ok(a) = first else { return Ok(()) };
    match api::resolve(src, a.clone()) {
        Err(e) => return violation(src, format!("a resolved tree is rejected: {}", api::errs(&e))),
        Ok(b) => same(
            src,
            "bindings of a tree resolved again",
            &walk::render(&a, true, true),
            &walk::render(&b, true, true),
        )?,
    }
    c.stats.add("resolved again", 1);
    if walk::binds(&a).len() >= 3 {
        c.stats.nontrivial(src);
    }
    Ok(())
}

fn session_line(r: &mut Rng) -> (String, Vec<Stmt>) {
    loop {
        let s = match r.below(5) {
            0 => r
                .pick(&[
                    "var a = b\n",
                    "a = b + c\n",
                    "fun f(a)\n  return a + d\n",
                    "class A < B\n  init()\n    super.init()\n",
                    "return 1\n",
                    "var e = 1\nthis\n",
                    "{ var a = 1\nvar a = 2\n} a\n",
                    "f\n",
                    "class B\n  m()\n    this.f = g\n",
                ])
                .to_string(),
            1 => {
                let n = *r.pick(&[4, 40, 40, 200]);
                let i = r.below(n);
                let j = if r.chance(30) { i } else { r.below(n) };
                format!("var n{i} = n{j}\n")
            }
            2 => format!("n{} = {}\n", r.below(40), r.pick(&["a", "b", "f", "A", "this", "n7"])),
            3 => inputs::rules(r).text,
            _ => {
                let style = make::Style::random(r);
                let mut cfg = make::Cfg::normal(r);
                cfg.size = *r.pick(&[4, 8, 16]);
                make::made(r, style, cfg).text
            }
        };
        if let Ok(t) = api::repl(&s) {
            return (s, t);
        }
    }
}

fn answer(r: Result<Vec<Stmt>, ParseError>) -> String {
    match r {
        Ok(t) => walk::render(&t, true, true),
        Err(e) => format!("rejected: {}", api::errs(&e)),
    }
}

/// A session and its copy go separate ways, each as if it had been alone.
fn forks(c: &mut Ctx, _: u64) -> Res {
    let mut before: Vec<_> = (0..c.rng.below(6)).map(|_| session_line(&mut c.rng)).collect();
    if c.rng.chance(25) {
        // Many globals, some only used, some also defined.
        let n = dict::size(&mut c.rng, 200);
        let mut s = format!("[{}]\n", (0..n).map(|i| format!("n{i}")).collect::<Vec<_>>().join(", "));
        for i in 0..n {
            if c.rng.chance(20) {
                s.push_str(&format!("var n{i}\n"));
            }
        }
        if let Ok(t) = api::repl(&s) {
            let at = c.rng.below(before.len() + 1);
            before.insert(at, (s, t));
        }
    }
    let left: Vec<_> = (0..c.rng.range(1, 6)).map(|_| session_line(&mut c.rng)).collect();
    let right: Vec<_> = (0..c.rng.range(1, 6)).map(|_| session_line(&mut c.rng)).collect();
    let alone = |after: &[(String, Vec<Stmt>)]| {
        let mut l = Live::new();
        for (s, t) in &before {
            let _ = l.resolve(s, t.clone());
        }
        after.iter().map(|(s, t)| answer(l.resolve(s, t.clone()))).collect::<Vec<_>>()
    };
    let (want_left, want_right) = (alone(&left), alone(&right));
    let mut one = Live::new();
    for (s, t) in &before {
        let _ = one.resolve(s, t.clone());
    }
    let mut two = one.copy();
    c.stats.add("sessions copied", 1);
    // In any order.
    let (mut i, mut j) = (0, 0);
    let mut all = String::new();
    for (s, _) in &before {
        all.push_str(s);
        all.push_str("----\n");
    }
    all.push_str("---- copied\n");
    while i < left.len() || j < right.len() {
        let go_left = j == right.len() || i < left.len() && c.rng.chance(50);
        let (k, l, v, want) = if go_left {
            (&mut i, &mut one, &left, &want_left)
        } else {
            (&mut j, &mut two, &right, &want_right)
        };
        let (s, t) = &v[*k];
        all.push_str(if go_left { "---- original: " } else { "---- copy: " });
        all.push_str(s);
        let got = answer(l.resolve(s, t.clone()));
        same(&all, "answer of a session that was copied", &want[*k], &got)?;
        c.stats.add("answers after a copy", 1);
        *k += 1;
        if c.rng.chance(10) && go_left {
            one = one.copy();
        }
    }
    c.stats.nontrivial(&all);
    Ok(())
}

// ------------------------------------------------------------------------ C36

fn solid(t: &RTok) -> bool {
    !matches!(t.ty, T::Terminator | T::Indent | T::Outdent | T::Eof)
}

fn beginnings(c: &mut Ctx, src: &str) -> Res {
    let ends: Vec<usize> = pieces(src).iter().filter(|p| p.0 == Piece::Newline).map(|p| p.2).collect();
    if ends.is_empty() || src.len() > 30_000 {
        return Ok(());
    }
    for _ in 0..2 {
        let at = *c.rng.pick(&ends);
        beginning(c, &src[..at], src)?;
    }
    Ok(())
}

/// Two texts that have nothing to do with each other, one after the other.
fn unrelated(c: &mut Ctx, _: u64) -> Res {
    const S: [inputs::Stream; 8] = [Valid, Rules, Mutant, Soup, Layout, Chars, Seeds, Guided];
    let (a, b) = (*c.rng.pick(&S), *c.rng.pick(&S));
    let mut x = inputs::produce(c, a);
    let y = inputs::produce(c, b);
    if x.len() + y.len() > 30_000 {
        return Ok(());
    }
    if !x.ends_with('\n') {
        x.push('\n');
    }
    // A newline inside a string or after a backslash ends no line.
    let whole = format!("{x}{y}");
    if !pieces(&whole).iter().any(|p| p.0 == Piece::Newline && p.2 == x.len()) {
        return Ok(());
    }
    beginning(c, &x, &whole)
}

/// What follows a complete line changes nothing found up to there.
fn beginning(c: &mut Ctx, a: &str, whole: &str) -> Res {
    let report = |d: String| violation(whole, format!("{d}\n   with only its first {} bytes", a.len()));
    let mut quiet = false;
    match (api::scan(a), api::scan(whole)) {
        (Ok(x), Ok(y)) => {
            let n = x.iter().rposition(solid).map_or(0, |i| i + 1);
            if y.len() < n || x[..n] != y[..n] {
                let i = x[..n].iter().zip(&y).position(|(p, q)| p != q).unwrap_or(y.len().min(n));
                return report(format!("token {i} is {:?}, but {:?}", y.get(i), x.get(i)));
            }
            c.stats.add("tokens kept", n as u64);
            if n >= 3 {
                c.stats.nontrivial(whole);
            }
            quiet = true;
        }
        (Err(e), Ok(_)) => return report(format!("it scans, but {}", api::errs(&e))),
        (Err(e), Err(f)) => {
            let (e, f) = (&e.causes, &f.causes);
            if f.len() < e.len() || e[..] != f[..e.len()] {
                return report(format!(
                    "errors {:?}, but {:?}",
                    f.iter().map(|c| c.to_string()).collect::<Vec<_>>(),
                    e.iter().map(|c| c.to_string()).collect::<Vec<_>>()
                ));
            }
            c.stats.add("lexical errors kept", e.len() as u64);
            c.stats.nontrivial(whole);
        }
        (Ok(_), Err(_)) => (),
    }
    if !quiet {
        return Ok(());
    }
    // The last place at which the beginning says something of its own.
    let toks = lex(a).toks;
    let Some(last) = toks.iter().rposition(solid) else { return Ok(()) };
    match (api::parse(a), api::parse(whole)) {
        (Err(e), got) => {
            let Some(first) = e.causes.first() else { return Ok(()) };
            // An assignment is judged after its right side.
            if first.token.as_deref() == Some("=") {
                return Ok(());
            }
            // Found before the end came into sight?
            let seen = toks[..last].iter().any(|t| solid(t) && (t.line, t.col) == at(first.source_loc));
            if !seen {
                return Ok(());
            }
            match got {
                Ok(_) => return report(format!("it is accepted, but {first}")),
                Err(f) => {
                    let got = f.causes.first();
                    if got != Some(first) {
                        return report(format!("first error {:?}, but {first}", got.map(|c| c.to_string())));
                    }
                }
            }
            c.stats.add("syntax errors kept", 1);
            c.stats.nontrivial(whole);
        }
        (Ok(x), Ok(y)) => {
            // The last statement may go on.
            let n = x.len().saturating_sub(1);
            if y.len() < n {
                return report(format!("{} statements, but {}", y.len(), x.len()));
            }
            let (p, q) = (walk::render(&x[..n], true, false), walk::render(&y[..n], true, false));
            if p != q {
                return report(format!("statements:{}", walk::diff(&p, &q)));
            }
            c.stats.add("statements kept", n as u64);
        }
        (Ok(_), Err(_)) => (),
    }
    Ok(())
}
