//! Views of syntax trees used by several oracles.
use std::cell::Cell;
use whitespace::ast::*;
use whitespace::environment::{SlotIndex, VarLoc};
use whitespace::source_loc::SourceLoc;

/// Apply functions to every position, distance cell and slot cell.
pub struct Edit<'a> {
    pub loc: &'a mut dyn FnMut(&mut SourceLoc),
    pub var: &'a mut dyn FnMut(&Cell<VarLoc>, &str),
    pub slot: &'a mut dyn FnMut(&Cell<SlotIndex>, &str),
}

impl Edit<'_> {
    pub fn stmts(&mut self, v: &mut [Stmt]) {
        for s in v {
            self.stmt(s);
        }
    }
    fn fun(&mut self, f: &mut FunctionDefinition) {
        (self.loc)(&mut f.source_loc);
        for p in f.parameters.iter_mut() {
            (self.loc)(&mut p.source_loc);
        }
        self.stmts(&mut f.body);
    }
    pub fn stmt(&mut self, s: &mut Stmt) {
        match s {
            Stmt::Block(v) => self.stmts(v),
            Stmt::Break(l) | Stmt::Continue(l) => (self.loc)(l),
            Stmt::Class(c) => {
                (self.loc)(&mut c.source_loc);
                if let Some(e) = &mut c.superclass {
                    self.expr(e);
                }
                for m in c.methods.iter_mut() {
                    self.fun(&mut m.fun_def);
                }
            }
            Stmt::Expression(e) | Stmt::Print(e) => self.expr(e),
            Stmt::Fun(f) => self.fun(&mut f.fun_def),
            Stmt::If(c, t, e) => {
                self.expr(c);
                self.stmt(t);
                if let Some(e) = e {
                    self.stmt(e);
                }
            }
            Stmt::Return(e, l) => {
                (self.loc)(l);
                self.expr(e);
            }
            Stmt::Var(n, c, e, l) => {
                (self.loc)(l);
                (self.slot)(c, n);
                self.expr(e);
            }
            Stmt::While(c, b) => {
                self.expr(c);
                self.stmt(b);
            }
            Stmt::WhileIncrement(c, b, i) => {
                self.expr(c);
                self.stmt(b);
                self.expr(i);
            }
        }
    }
    pub fn expr(&mut self, e: &mut Expr) {
        match e {
            Expr::LiteralBool(_)
            | Expr::LiteralNil
            | Expr::LiteralNumber(_)
            | Expr::LiteralString(_) => (),
            Expr::Assign(n, c, v, l) => {
                (self.loc)(l);
                (self.var)(c, n);
                self.expr(v);
            }
            Expr::Call(f, a, l) => {
                (self.loc)(l);
                self.expr(f);
                a.iter_mut().for_each(|x| self.expr(x));
            }
            Expr::Binary(a, _, b, l) => {
                (self.loc)(l);
                self.expr(a);
                self.expr(b);
            }
            Expr::Function(f) => self.fun(f),
            Expr::Get(o, _, l) => {
                (self.loc)(l);
                self.expr(o);
            }
            Expr::GetIndex(a, b, l) => {
                (self.loc)(l);
                self.expr(a);
                self.expr(b);
            }
            Expr::Grouping(x) => self.expr(x),
            Expr::LiteralArray(v) => v.iter_mut().for_each(|x| self.expr(x)),
            Expr::LiteralMap(m) => m.iter_mut().for_each(|(_, x)| self.expr(x)),
            Expr::Logical(a, _, b) => {
                self.expr(a);
                self.expr(b);
            }
            Expr::Set(o, _, v, l) => {
                (self.loc)(l);
                self.expr(o);
                self.expr(v);
            }
            Expr::SetIndex(a, b, c, l) => {
                (self.loc)(l);
                self.expr(a);
                self.expr(b);
                self.expr(c);
            }
            Expr::Super(c, _, l) => {
                (self.loc)(l);
                (self.var)(c, "super");
            }
            Expr::Variable(n, c, l) => {
                (self.loc)(l);
                (self.var)(c, n);
            }
            Expr::Unary(_, x, l) => {
                (self.loc)(l);
                self.expr(x);
            }
        }
    }
}

const ZERO: SourceLoc = SourceLoc { line: 0, column: 0 };

/// The tree without positions.
pub fn unplaced(v: &[Stmt]) -> Vec<Stmt> {
    map_locs(v, |_| ZERO)
}

pub fn unplaced_expr(e: &Expr) -> Expr {
    let mut e = e.clone();
    Edit { loc: &mut |l| *l = ZERO, var: &mut |_, _| (), slot: &mut |_, _| () }.expr(&mut e);
    e
}

pub fn map_locs(v: &[Stmt], f: impl Fn(SourceLoc) -> SourceLoc) -> Vec<Stmt> {
    let mut v = v.to_vec();
    Edit { loc: &mut |l| *l = f(*l), var: &mut |_, _| (), slot: &mut |_, _| () }.stmts(&mut v);
    v
}

pub fn map_locs_expr(e: &Expr, f: impl Fn(SourceLoc) -> SourceLoc) -> Expr {
    let mut e = e.clone();
    Edit { loc: &mut |l| *l = f(*l), var: &mut |_, _| (), slot: &mut |_, _| () }.expr(&mut e);
    e
}

/// The tree without bindings.
pub fn unbound(v: &[Stmt]) -> Vec<Stmt> {
    let mut v = v.to_vec();
    Edit {
        loc: &mut |_| (),
        var: &mut |c, _| c.set(VarLoc::placeholder()),
        slot: &mut |c, _| c.set(SlotIndex::placeholder()),
    }
    .stmts(&mut v);
    v
}

/// Bindings in traversal order: (name, Some(slot declared) or use).
#[derive(Debug, Clone, PartialEq)]
pub enum Bind {
    Use(String, VarLoc),
    Decl(String, u8),
}

pub fn binds(v: &[Stmt]) -> Vec<Bind> {
    let mut v = v.to_vec();
    let out = std::cell::RefCell::new(vec![]);
    Edit {
        loc: &mut |_| (),
        var: &mut |c, n| out.borrow_mut().push(Bind::Use(n.to_string(), c.get())),
        slot: &mut |c, n| out.borrow_mut().push(Bind::Decl(n.to_string(), c.get().index())),
    }
    .stmts(&mut v);
    out.into_inner()
}

/// Number of nodes.
pub fn size(v: &[Stmt]) -> usize {
    let mut n = 0;
    for s in v {
        n += size_stmt(s);
    }
    n
}

fn size_fun(f: &FunctionDefinition) -> usize {
    1 + f.parameters.len() + size(&f.body)
}

fn size_stmt(s: &Stmt) -> usize {
    1 + match s {
        Stmt::Block(v) => size(v),
        Stmt::Break(_) | Stmt::Continue(_) => 0,
        Stmt::Class(c) => {
            c.superclass.as_ref().map_or(0, |_| 1)
                + c.methods.iter().map(|m| size_fun(&m.fun_def)).sum::<usize>()
        }
        Stmt::Expression(e) | Stmt::Print(e) | Stmt::Return(e, _) => size_expr(e),
        Stmt::Var(_, _, e, _) => size_expr(e),
        Stmt::Fun(f) => size_fun(&f.fun_def),
        Stmt::If(c, t, e) => {
            size_expr(c) + size_stmt(t) + e.as_ref().map_or(0, |e| size_stmt(e))
        }
        Stmt::While(c, b) => size_expr(c) + size_stmt(b),
        Stmt::WhileIncrement(c, b, i) => size_expr(c) + size_stmt(b) + size_expr(i),
    }
}

pub fn size_expr(e: &Expr) -> usize {
    1 + match e {
        Expr::LiteralBool(_)
        | Expr::LiteralNil
        | Expr::LiteralNumber(_)
        | Expr::LiteralString(_)
        | Expr::Super(..)
        | Expr::Variable(..) => 0,
        Expr::Assign(_, _, v, _) => size_expr(v),
        Expr::Call(f, a, _) => size_expr(f) + a.iter().map(size_expr).sum::<usize>(),
        Expr::Binary(a, _, b, _) | Expr::Logical(a, _, b) | Expr::GetIndex(a, b, _) => {
            size_expr(a) + size_expr(b)
        }
        Expr::Function(f) => size_fun(f),
        Expr::Get(x, _, _) | Expr::Grouping(x) | Expr::Unary(_, x, _) => size_expr(x),
        Expr::LiteralArray(v) => v.iter().map(size_expr).sum(),
        Expr::LiteralMap(m) => m.iter().map(|(_, v)| 1 + size_expr(v)).sum(),
        Expr::Set(a, _, b, _) => size_expr(a) + size_expr(b),
        Expr::SetIndex(a, b, c, _) => size_expr(a) + size_expr(b) + size_expr(c),
    }
}

/// First difference between two renderings, for reports.
pub fn diff(a: &str, b: &str) -> String {
    let i = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
    let cut = |s: &str| {
        let f = crate::inputs::floor_char(s, i.saturating_sub(60));
        let t = crate::inputs::floor_char(s, (i + 140).min(s.len()));
        s[f..t].to_string()
    };
    format!("\n   expected ...{}\n   actual   ...{}", cut(a), cut(b))
}


/// A canonical rendering of trees, the basis of every comparison. (The derived
/// equality ignores the order of map entries.)
pub struct Render {
    pub out: String,
    locs: bool,
    binds: bool,
}

pub fn render(v: &[Stmt], locs: bool, binds: bool) -> String {
    let mut r = Render { out: String::new(), locs, binds };
    for s in v {
        r.stmt(s);
        r.out.push('\n');
    }
    r.out
}

pub fn render_expr(e: &Expr, locs: bool, binds: bool) -> String {
    let mut r = Render { out: String::new(), locs, binds };
    r.expr(e);
    r.out
}

impl Render {
    fn p(&mut self, s: &str) {
        self.out.push_str(s);
    }
    fn q(&mut self, s: &str) {
        use std::fmt::Write;
        let _ = write!(self.out, "{s:?}");
    }
    fn loc(&mut self, l: &SourceLoc) {
        use std::fmt::Write;
        if self.locs {
            let _ = write!(self.out, "@{}:{}", l.line, l.column);
        }
    }
    fn var(&mut self, c: &Cell<VarLoc>) {
        use std::fmt::Write;
        if self.binds {
            let (d, i) = binding(c.get());
            let _ = write!(self.out, "^{d}#{i}");
        }
    }
    fn slot(&mut self, c: &Cell<SlotIndex>) {
        use std::fmt::Write;
        if self.binds {
            let _ = write!(self.out, "#{}", c.get().index());
        }
    }
    fn fun(&mut self, f: &FunctionDefinition) {
        self.p(match f.fun_type {
            FunctionType::PlainFunction => "plain",
            FunctionType::Method => "method",
            FunctionType::Initializer => "initializer",
            FunctionType::ClassMethod => "classmethod",
        });
        self.loc(&f.source_loc);
        self.p("(");
        for p in &f.parameters {
            self.p(&p.name);
            self.loc(&p.source_loc);
            self.p(",");
        }
        self.p(")");
        self.block(&f.body);
    }
    fn block(&mut self, v: &[Stmt]) {
        self.p("{");
        for s in v {
            self.stmt(s);
            self.p(";");
        }
        self.p("}");
    }
    pub fn stmt(&mut self, s: &Stmt) {
        match s {
            Stmt::Block(v) => {
                self.p("block");
                self.block(v);
            }
            Stmt::Break(l) => {
                self.p("break");
                self.loc(l);
            }
            Stmt::Continue(l) => {
                self.p("continue");
                self.loc(l);
            }
            Stmt::Class(c) => {
                self.p("class ");
                self.p(&c.name);
                self.loc(&c.source_loc);
                if let Some(s) = &c.superclass {
                    self.p("<");
                    self.expr(s);
                }
                self.p("{");
                for m in &c.methods {
                    self.p(&m.name);
                    self.p(" ");
                    self.fun(&m.fun_def);
                    self.p(";");
                }
                self.p("}");
            }
            Stmt::Expression(e) => {
                self.p("expr ");
                self.expr(e);
            }
            Stmt::Print(e) => {
                self.p("print ");
                self.expr(e);
            }
            Stmt::Fun(f) => {
                self.p("fun ");
                self.p(&f.name);
                self.p(" ");
                self.fun(&f.fun_def);
            }
            Stmt::If(c, t, e) => {
                self.p("if(");
                self.expr(c);
                self.p(")");
                self.stmt(t);
                if let Some(e) = e {
                    self.p(" else ");
                    self.stmt(e);
                }
            }
            Stmt::Return(e, l) => {
                self.p("return");
                self.loc(l);
                self.p(" ");
                self.expr(e);
            }
            Stmt::Var(n, c, e, l) => {
                self.p("var ");
                self.p(n);
                self.loc(l);
                self.slot(c);
                self.p("=");
                self.expr(e);
            }
            Stmt::While(c, b) => {
                self.p("while(");
                self.expr(c);
                self.p(")");
                self.stmt(b);
            }
            Stmt::WhileIncrement(c, b, i) => {
                self.p("while(");
                self.expr(c);
                self.p(")");
                self.stmt(b);
                self.p(" next ");
                self.expr(i);
            }
        }
    }
    pub fn expr(&mut self, e: &Expr) {
        match e {
            Expr::LiteralBool(b) => self.p(if *b { "true" } else { "false" }),
            Expr::LiteralNil => self.p("nil"),
            Expr::LiteralNumber(x) => {
                use std::fmt::Write;
                let _ = write!(self.out, "{x:?}");
            }
            Expr::LiteralString(s) => self.q(s),
            Expr::Assign(n, c, v, l) => {
                self.p("(");
                self.p(n);
                self.var(c);
                self.p("=");
                self.loc(l);
                self.expr(v);
                self.p(")");
            }
            Expr::Call(f, a, l) => {
                self.p("call");
                self.loc(l);
                self.p("<");
                self.expr(f);
                self.p(">(");
                for x in a {
                    self.expr(x);
                    self.p(",");
                }
                self.p(")");
            }
            Expr::Binary(a, o, b, l) => {
                self.p("(");
                self.expr(a);
                self.p(match o {
                    BinaryOperator::Plus => "+",
                    BinaryOperator::Minus => "-",
                    BinaryOperator::Multiply => "*",
                    BinaryOperator::Divide => "/",
                    BinaryOperator::Equal => "==",
                    BinaryOperator::NotEqual => "!=",
                    BinaryOperator::Less => "<",
                    BinaryOperator::LessEqual => "<=",
                    BinaryOperator::Greater => ">",
                    BinaryOperator::GreaterEqual => ">=",
                });
                self.loc(l);
                self.expr(b);
                self.p(")");
            }
            Expr::Function(f) => {
                self.p("fun ");
                self.fun(f);
            }
            Expr::Get(o, n, l) => {
                self.expr(o);
                self.p(".");
                self.loc(l);
                self.p(n);
            }
            Expr::GetIndex(a, b, l) => {
                self.expr(a);
                self.p("[");
                self.loc(l);
                self.expr(b);
                self.p("]");
            }
            Expr::Grouping(x) => {
                self.p("group<");
                self.expr(x);
                self.p(">");
            }
            Expr::LiteralArray(v) => {
                self.p("[|");
                for x in v {
                    self.expr(x);
                    self.p(",");
                }
                self.p("|]");
            }
            Expr::LiteralMap(m) => {
                self.p("{|");
                for (k, v) in m.iter() {
                    self.q(k);
                    self.p(":");
                    self.expr(v);
                    self.p(",");
                }
                self.p("|}");
            }
            Expr::Logical(a, o, b) => {
                self.p("(");
                self.expr(a);
                self.p(match o {
                    LogicalOperator::And => " and ",
                    LogicalOperator::Or => " or ",
                });
                self.expr(b);
                self.p(")");
            }
            Expr::Set(o, n, v, l) => {
                self.p("(");
                self.expr(o);
                self.p(".");
                self.p(n);
                self.p(" =");
                self.loc(l);
                self.expr(v);
                self.p(")");
            }
            Expr::SetIndex(a, b, c, l) => {
                self.p("(");
                self.expr(a);
                self.p("[");
                self.expr(b);
                self.p("] =");
                self.loc(l);
                self.expr(c);
                self.p(")");
            }
            Expr::Super(c, n, l) => {
                self.p("super");
                self.loc(l);
                self.var(c);
                self.p(".");
                self.p(n);
            }
            Expr::Variable(n, c, l) => {
                self.p(n);
                self.loc(l);
                self.var(c);
            }
            Expr::Unary(o, x, l) => {
                self.p(match o {
                    UnaryOperator::Minus => "(-",
                    UnaryOperator::Not => "(!",
                });
                self.loc(l);
                self.expr(x);
                self.p(")");
            }
        }
    }
}

/// Visit every expression, outermost first, in tree order.
pub fn each_expr(v: &[Stmt], f: &mut dyn FnMut(&Expr)) {
    for s in v {
        each_in(s, f);
    }
}

fn each_in(s: &Stmt, f: &mut dyn FnMut(&Expr)) {
    match s {
        Stmt::Block(v) => each_expr(v, f),
        Stmt::Break(_) | Stmt::Continue(_) => (),
        Stmt::Class(c) => {
            if let Some(e) = &c.superclass {
                each_sub(e, f);
            }
            for m in &c.methods {
                each_expr(&m.fun_def.body, f);
            }
        }
        Stmt::Expression(e) | Stmt::Print(e) | Stmt::Return(e, _) => each_sub(e, f),
        Stmt::Var(_, _, e, _) => each_sub(e, f),
        Stmt::Fun(d) => each_expr(&d.fun_def.body, f),
        Stmt::If(c, t, e) => {
            each_sub(c, f);
            each_in(t, f);
            if let Some(e) = e {
                each_in(e, f);
            }
        }
        Stmt::While(c, b) => {
            each_sub(c, f);
            each_in(b, f);
        }
        Stmt::WhileIncrement(c, b, i) => {
            each_sub(c, f);
            each_in(b, f);
            each_sub(i, f);
        }
    }
}

pub fn each_sub(e: &Expr, f: &mut dyn FnMut(&Expr)) {
    f(e);
    match e {
        Expr::LiteralBool(_)
        | Expr::LiteralNil
        | Expr::LiteralNumber(_)
        | Expr::LiteralString(_)
        | Expr::Super(..)
        | Expr::Variable(..) => (),
        Expr::Assign(_, _, v, _) => each_sub(v, f),
        Expr::Call(g, a, _) => {
            each_sub(g, f);
            a.iter().for_each(|x| each_sub(x, f));
        }
        Expr::Binary(a, _, b, _) | Expr::Logical(a, _, b) | Expr::GetIndex(a, b, _) => {
            each_sub(a, f);
            each_sub(b, f);
        }
        Expr::Function(d) => each_expr(&d.body, f),
        Expr::Get(x, _, _) | Expr::Grouping(x) | Expr::Unary(_, x, _) => each_sub(x, f),
        Expr::LiteralArray(v) => v.iter().for_each(|x| each_sub(x, f)),
        Expr::LiteralMap(m) => m.iter().for_each(|(_, v)| each_sub(v, f)),
        Expr::Set(a, _, b, _) => {
            each_sub(a, f);
            each_sub(b, f);
        }
        Expr::SetIndex(a, b, c, _) => {
            each_sub(a, f);
            each_sub(b, f);
            each_sub(c, f);
        }
    }
}

/// Deepest nesting of scopes.
pub fn scope_depth(v: &[Stmt]) -> usize {
    v.iter().map(stmt_depth).max().unwrap_or(0)
}

fn fun_depth(f: &FunctionDefinition) -> usize {
    1 + scope_depth(&f.body)
}

fn in_expr(e: &Expr) -> usize {
    if let Expr::Function(f) = e {
        return fun_depth(f);
    }
    children(e).into_iter().map(in_expr).max().unwrap_or(0)
}

fn children(e: &Expr) -> Vec<&Expr> {
    match e {
        Expr::LiteralBool(_)
        | Expr::LiteralNil
        | Expr::LiteralNumber(_)
        | Expr::LiteralString(_)
        | Expr::Super(..)
        | Expr::Function(_)
        | Expr::Variable(..) => vec![],
        Expr::Assign(_, _, v, _) => vec![v],
        Expr::Call(g, a, _) => {
            let mut v: Vec<&Expr> = vec![g];
            v.extend(a.iter());
            v
        }
        Expr::Binary(a, _, b, _) | Expr::Logical(a, _, b) | Expr::GetIndex(a, b, _) => vec![a, b],
        Expr::Get(x, _, _) | Expr::Grouping(x) | Expr::Unary(_, x, _) => vec![x],
        Expr::LiteralArray(v) => v.iter().collect(),
        Expr::LiteralMap(m) => m.iter().map(|(_, v)| v).collect(),
        Expr::Set(a, _, b, _) => vec![a, b],
        Expr::SetIndex(a, b, c, _) => vec![a, b, c],
    }
}

fn stmt_depth(s: &Stmt) -> usize {
    match s {
        Stmt::Block(v) => 1 + scope_depth(v),
        Stmt::Break(_) | Stmt::Continue(_) => 0,
        Stmt::Class(c) => {
            2 + c.methods.iter().map(|m| fun_depth(&m.fun_def)).max().unwrap_or(0)
        }
        Stmt::Expression(e) | Stmt::Print(e) | Stmt::Return(e, _) => in_expr(e),
        Stmt::Var(_, _, e, _) => in_expr(e),
        Stmt::Fun(f) => fun_depth(&f.fun_def),
        Stmt::If(c, t, e) => {
            in_expr(c).max(stmt_depth(t)).max(e.as_ref().map_or(0, |e| stmt_depth(e)))
        }
        Stmt::While(c, b) => in_expr(c).max(stmt_depth(b)),
        Stmt::WhileIncrement(c, b, i) => in_expr(c).max(stmt_depth(b)).max(in_expr(i)),
    }
}

/// Distance and slot. They are private: taken from the printed form.
pub fn binding(v: VarLoc) -> (String, String) {
    let t = format!("{v:?}");
    let mut n = t.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).map(str::to_string);
    (n.next().unwrap_or("?".into()), n.next().unwrap_or("?".into()))
}
