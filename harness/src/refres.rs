//! Reference resolver: lexical scopes, slots and the static rules, as an
//! executable model over syntax trees. Fills a copy of the tree with the
//! bindings the language calls for.
use std::collections::HashSet;
use whitespace::ast::*;
use whitespace::environment::{SlotIndex, VarLoc};
use whitespace::source_loc::SourceLoc;

#[derive(Clone, Debug, PartialEq)]
pub struct RuleErr {
    pub loc: SourceLoc,
    pub text: String,
    pub rule: Rule,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Rule {
    TopReturn,
    InitReturn,
    ThisOutside,
    SuperOutside,
    SuperNone,
    SelfInherit,
    Twice,
    OwnInit,
    TooMany,
}

#[derive(Clone, Debug, Default)]
struct Scope {
    /// Names in order of first appearance: the position is the slot.
    names: Vec<String>,
    defined: HashSet<String>,
    pending: HashSet<String>,
}

impl Scope {
    fn slot(&self, n: &str) -> Option<usize> {
        self.names.iter().rposition(|x| x == n)
    }
}

#[derive(Clone, Debug, Default)]
pub struct Counts {
    pub uses: u64,
    pub max_distance: usize,
    pub decls: u64,
    pub forward: u64,
    pub shadow: u64,
    pub max_slot: usize,
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum Fun {
    None,
    Init,
    Other,
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum Class {
    None,
    Base,
    Derived,
}

#[derive(Clone)]
pub struct Session {
    globals: Scope,
    pub counts: Counts,
}

struct W<'a> {
    scopes: Vec<Scope>,
    fun: Fun,
    class: Class,
    counts: &'a mut Counts,
}

type R<X> = Result<X, RuleErr>;

pub const SLOTS: usize = 255;

impl Session {
    pub fn new() -> Session {
        Session { globals: Scope::default(), counts: Counts::default() }
    }

    pub fn globals(&self) -> &[String] {
        &self.globals.names
    }

    /// Resolve one source: its tree with bindings, or the errors (at most one
    /// per top-level statement). The session's globals are updated.
    pub fn resolve(&mut self, stmts: &[Stmt]) -> Result<Vec<Stmt>, Vec<RuleErr>> {
        let before = self.globals.clone();
        let mut errs = vec![];
        let mut out = stmts.to_vec();
        for s in out.iter_mut() {
            let mut w = W {
                scopes: vec![std::mem::take(&mut self.globals)],
                fun: Fun::None,
                class: Class::None,
                counts: &mut self.counts,
            };
            if let Err(e) = w.stmt(s) {
                errs.push(e);
            }
            w.scopes.truncate(1);
            let mut g = w.scopes.pop().unwrap();
            // A failed initializer leaves no global half-declared.
            g.pending.clear();
            self.globals = g;
        }
        if errs.is_empty() {
            Ok(out)
        } else {
            // Rejected code leaves no trace.
            self.globals = before;
            Err(errs)
        }
    }
}

fn err<X>(loc: SourceLoc, text: &str, rule: Rule) -> R<X> {
    Err(RuleErr { loc, text: text.to_string(), rule })
}

impl W<'_> {
    fn here(&mut self) -> &mut Scope {
        self.scopes.last_mut().unwrap()
    }

    fn at_top(&self) -> bool {
        self.scopes.len() == 1
    }

    /// The slot for a name in the current scope; a new one if needed.
    fn place(&mut self, n: &str, l: SourceLoc) -> R<usize> {
        let outer = self.scopes[..self.scopes.len() - 1].iter().any(|s| s.slot(n).is_some());
        if outer {
            self.counts.shadow += 1;
        }
        let s = self.here();
        if let Some(i) = s.slot(n) {
            return Ok(i);
        }
        if s.names.len() >= SLOTS {
            return err(l, n, Rule::TooMany);
        }
        s.names.push(n.to_string());
        let i = s.names.len() - 1;
        self.counts.max_slot = self.counts.max_slot.max(i);
        Ok(i)
    }

    fn taken(&mut self, n: &str) -> bool {
        let top = self.at_top();
        let s = self.here();
        !top && (s.defined.contains(n) || s.pending.contains(n))
    }

    fn define(&mut self, n: &str, l: SourceLoc) -> R<usize> {
        self.counts.decls += 1;
        if self.taken(n) {
            return err(l, n, Rule::Twice);
        }
        let i = self.place(n, l)?;
        let s = self.here();
        s.pending.remove(n);
        s.defined.insert(n.to_string());
        Ok(i)
    }

    fn lookup(&mut self, n: &str, l: SourceLoc) -> R<VarLoc> {
        self.counts.uses += 1;
        let len = self.scopes.len();
        for (d, s) in self.scopes.iter().rev().enumerate() {
            if let Some(i) = s.slot(n) {
                self.counts.max_distance = self.counts.max_distance.max(d);
                return Ok(VarLoc::new(d as u16, i as u8));
            }
        }
        self.counts.forward += 1;
        let g = &mut self.scopes[0];
        if g.names.len() >= SLOTS {
            return err(l, n, Rule::TooMany);
        }
        g.names.push(n.to_string());
        let i = g.names.len() - 1;
        self.counts.max_slot = self.counts.max_slot.max(i);
        Ok(VarLoc::new(len as u16 - 1, i as u8))
    }

    fn block(&mut self, b: &mut [Stmt]) -> R<()> {
        self.scopes.push(Scope::default());
        for s in b.iter_mut() {
            self.stmt(s)?;
        }
        self.scopes.pop();
        Ok(())
    }

    fn stmt(&mut self, s: &mut Stmt) -> R<()> {
        match s {
            Stmt::Break(_) | Stmt::Continue(_) => Ok(()),
            Stmt::Block(b) => self.block(b),
            Stmt::Expression(e) | Stmt::Print(e) => self.expr(e),
            Stmt::If(c, t, e) => {
                self.expr(c)?;
                self.stmt(t)?;
                match e {
                    Some(e) => self.stmt(e),
                    None => Ok(()),
                }
            }
            Stmt::While(c, b) => {
                self.expr(c)?;
                self.stmt(b)
            }
            Stmt::WhileIncrement(c, b, i) => {
                self.expr(c)?;
                self.stmt(b)?;
                self.expr(i)
            }
            Stmt::Return(e, l) => {
                if self.fun == Fun::None {
                    return err(*l, "return", Rule::TopReturn);
                }
                if self.fun == Fun::Init && !matches!(e, Expr::LiteralNil) {
                    return err(*l, "return", Rule::InitReturn);
                }
                self.expr(e)
            }
            Stmt::Var(n, cell, e, l) => {
                self.counts.decls += 1;
                // A scope that is full refuses a new name; a name it holds is
                // one declaration too many, except at top level.
                if self.taken(n) {
                    return err(*l, n, Rule::Twice);
                }
                let i = self.place(n, *l)?;
                let sc = self.here();
                if !sc.defined.contains(n.as_str()) {
                    sc.pending.insert(n.clone());
                }
                cell.set(SlotIndex::new(i as u8));
                self.expr(e)?;
                let sc = self.here();
                sc.pending.remove(n.as_str());
                sc.defined.insert(n.clone());
                Ok(())
            }
            Stmt::Fun(f) => {
                self.define(&f.name, f.fun_def.source_loc)?;
                self.function(&mut f.fun_def, Fun::Other)
            }
            Stmt::Class(c) => self.class(c),
        }
    }

    fn class(&mut self, c: &mut ClassDefinition) -> R<()> {
        self.define(&c.name, c.source_loc)?;
        let outer = self.class;
        self.class = if c.superclass.is_some() { Class::Derived } else { Class::Base };
        if let Some(s) = &mut c.superclass {
            if let Expr::Variable(n, _, l) = &**s {
                if *n == c.name {
                    return err(*l, n, Rule::SelfInherit);
                }
            }
            self.expr(s)?;
            self.scopes.push(Scope::default());
            self.define("super", c.source_loc)?;
        }
        self.scopes.push(Scope::default());
        self.define("this", c.source_loc)?;
        for m in c.methods.iter_mut() {
            let kind = match m.fun_def.fun_type {
                FunctionType::Initializer => Fun::Init,
                _ => Fun::Other,
            };
            self.function(&mut m.fun_def, kind)?;
        }
        self.scopes.pop();
        if c.superclass.is_some() {
            self.scopes.pop();
        }
        self.class = outer;
        Ok(())
    }

    fn function(&mut self, f: &mut FunctionDefinition, kind: Fun) -> R<()> {
        let outer = std::mem::replace(&mut self.fun, kind);
        self.scopes.push(Scope::default());
        for p in &f.parameters {
            self.define(&p.name, p.source_loc)?;
        }
        for s in f.body.iter_mut() {
            self.stmt(s)?;
        }
        self.scopes.pop();
        self.fun = outer;
        Ok(())
    }

    fn exprs<'b>(&mut self, es: impl IntoIterator<Item = &'b mut Expr>) -> R<()> {
        for e in es {
            self.expr(e)?;
        }
        Ok(())
    }

    fn expr(&mut self, e: &mut Expr) -> R<()> {
        match e {
            Expr::LiteralBool(_)
            | Expr::LiteralNil
            | Expr::LiteralNumber(_)
            | Expr::LiteralString(_) => Ok(()),
            Expr::Grouping(x) | Expr::Unary(_, x, _) | Expr::Get(x, _, _) => self.expr(x),
            Expr::Binary(a, _, b, _) | Expr::Logical(a, _, b) | Expr::GetIndex(a, b, _) => {
                self.expr(a)?;
                self.expr(b)
            }
            Expr::Set(a, _, b, _) => {
                self.expr(a)?;
                self.expr(b)
            }
            Expr::SetIndex(a, b, c, _) => {
                self.expr(a)?;
                self.expr(b)?;
                self.expr(c)
            }
            Expr::Call(f, args, _) => {
                self.expr(f)?;
                self.exprs(args)
            }
            Expr::LiteralArray(v) => self.exprs(v),
            Expr::LiteralMap(m) => self.exprs(m.iter_mut().map(|(_, v)| v)),
            Expr::Function(f) => self.function(f, Fun::Other),
            Expr::Super(cell, _, l) => {
                match self.class {
                    Class::None => return err(*l, "super", Rule::SuperOutside),
                    Class::Base => return err(*l, "super", Rule::SuperNone),
                    Class::Derived => (),
                }
                cell.set(self.lookup("super", *l)?);
                Ok(())
            }
            Expr::Assign(n, cell, v, l) => {
                self.expr(v)?;
                cell.set(self.lookup(n, *l)?);
                Ok(())
            }
            Expr::Variable(n, cell, l) => {
                if n == "this" && self.class == Class::None {
                    return err(*l, n, Rule::ThisOutside);
                }
                if self.here().pending.contains(n.as_str()) {
                    return err(*l, n, Rule::OwnInit);
                }
                cell.set(self.lookup(n, *l)?);
                Ok(())
            }
        }
    }
}
