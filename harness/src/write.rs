//! A tree as source: braces around every block, parentheses around the
//! arguments of every call, and none that the tree does not have.
use whitespace::ast::*;

pub struct Writer {
    pub out: String,
    /// Something the notation has no place for.
    pub unfit: bool,
}

pub fn program(v: &[Stmt]) -> Option<String> {
    let mut w = Writer { out: String::new(), unfit: false };
    w.stmts(v);
    (!w.unfit).then_some(w.out)
}

pub fn expression(e: &Expr) -> Option<String> {
    let mut w = Writer { out: String::new(), unfit: false };
    w.expr(e, false, false);
    (!w.unfit).then_some(w.out)
}

/// The expression a statement or expression begins with.
pub fn first(e: &Expr) -> &Expr {
    match e {
        Expr::Binary(a, ..) | Expr::Logical(a, ..) | Expr::Call(a, ..) | Expr::Get(a, ..) => first(a),
        Expr::GetIndex(a, ..) | Expr::Set(a, ..) | Expr::SetIndex(a, ..) => first(a),
        e => e,
    }
}

fn opens_with_map(s: &Stmt) -> bool {
    matches!(s, Stmt::Expression(e) if matches!(first(e), Expr::LiteralMap(_)))
}

/// Is the last thing the statement says a map without braces?
fn ends_with_map(s: &Stmt) -> bool {
    match s {
        Stmt::Expression(e) => matches!(e, Expr::LiteralMap(_)),
        Stmt::If(_, t, None) => ends_with_map(t),
        Stmt::If(_, _, Some(e)) => ends_with_map(e),
        Stmt::While(_, b) | Stmt::WhileIncrement(_, b, _) => ends_with_map(b),
        _ => false,
    }
}

impl Writer {
    fn add(&mut self, s: &str) {
        self.out.push_str(s);
    }
    pub fn stmts(&mut self, v: &[Stmt]) {
        for (i, s) in v.iter().enumerate() {
            // They would become one.
            if i > 0 && ends_with_map(&v[i - 1]) && opens_with_map(s) {
                self.unfit = true;
            }
            self.stmt(s);
        }
    }
    fn block(&mut self, v: &[Stmt]) {
        self.add("{");
        self.stmts(v);
        self.add("} ");
    }
    fn fun(&mut self, f: &FunctionDefinition) {
        self.add("(");
        for (i, p) in f.parameters.iter().enumerate() {
            self.add(if i > 0 { ", " } else { "" });
            self.add(&p.name);
        }
        self.add(") {");
        self.stmts(&f.body);
        self.add("}");
    }
    fn stmt(&mut self, s: &Stmt) {
        match s {
            Stmt::Block(v) => self.block(v),
            Stmt::Break(_) => self.add("break\n"),
            Stmt::Continue(_) => self.add("continue\n"),
            Stmt::Class(c) => {
                self.add("class ");
                self.add(&c.name);
                if let Some(s) = &c.superclass {
                    self.add(" < ");
                    self.expr(s, false, false);
                }
                self.add(" {");
                for m in &c.methods {
                    if m.fun_def.fun_type == FunctionType::ClassMethod {
                        self.add("class ");
                    }
                    self.add(&m.name);
                    self.fun(&m.fun_def);
                    self.add(" ");
                }
                self.add("} ");
            }
            Stmt::Expression(e) => {
                self.expr(e, true, false);
                self.add("\n");
            }
            Stmt::Fun(f) => {
                self.add("fun ");
                self.add(&f.name);
                self.fun(&f.fun_def);
                self.add(" ");
            }
            Stmt::If(c, t, e) => {
                self.add("if (");
                self.expr(c, false, false);
                self.add(") ");
                self.stmt(t);
                if let Some(e) = e {
                    self.add("else ");
                    self.stmt(e);
                }
            }
            Stmt::Print(e) => {
                self.add("print ");
                self.expr(e, false, false);
                self.add("\n");
            }
            Stmt::Return(e, _) => {
                self.add("return ");
                self.expr(e, false, false);
                self.add("\n");
            }
            Stmt::Var(n, _, e, _) => {
                self.add("var ");
                self.add(n);
                self.add(" = ");
                self.expr(e, false, false);
                self.add("\n");
            }
            Stmt::While(c, b) => {
                self.add("while (");
                self.expr(c, false, false);
                self.add(") ");
                self.stmt(b);
            }
            Stmt::WhileIncrement(c, b, i) => {
                self.add("for (; ");
                self.expr(c, false, false);
                self.add("; ");
                self.expr(i, false, false);
                self.add(") ");
                self.stmt(b);
            }
        }
    }
    fn list(&mut self, v: &[Expr]) {
        for (i, e) in v.iter().enumerate() {
            self.add(if i > 0 { ", " } else { "" });
            self.expr(e, false, false);
        }
    }
    fn entries(&mut self, m: &Map<Expr>) {
        for (i, (k, v)) in m.iter().enumerate() {
            self.add(if i > 0 { ", " } else { "" });
            self.add("\"");
            self.add(k);
            self.add("\": ");
            self.expr(v, false, false);
        }
    }
    /// lead: at the start of a statement, where a brace would open a block.
    /// on: something of the same expression follows.
    pub fn expr(&mut self, e: &Expr, lead: bool, on: bool) {
        match e {
            Expr::Assign(n, _, v, _) => {
                self.add(n);
                self.add(" = ");
                self.expr(v, false, on);
            }
            Expr::Call(f, a, _) => {
                self.expr(f, lead, true);
                // Abutting even after a map that ends with a comma.
                if lead && matches!(**f, Expr::LiteralMap(_)) {
                    self.out.pop();
                }
                self.add("(");
                self.list(a);
                self.add(")");
            }
            Expr::Binary(a, o, b, _) => {
                self.expr(a, lead, true);
                use BinaryOperator::*;
                self.add(match o {
                    Plus => " + ",
                    Minus => " - ",
                    Multiply => " * ",
                    Divide => " / ",
                    Equal => " == ",
                    NotEqual => " != ",
                    Less => " < ",
                    LessEqual => " <= ",
                    Greater => " > ",
                    GreaterEqual => " >= ",
                });
                self.expr(b, false, on);
            }
            Expr::Function(f) => {
                self.add("fun ");
                self.fun(f);
            }
            Expr::Get(o, n, _) => {
                self.expr(o, lead, true);
                self.add(" .");
                self.add(n);
            }
            Expr::GetIndex(a, i, _) => {
                self.expr(a, lead, true);
                self.add("[");
                self.expr(i, false, false);
                self.add("]");
            }
            Expr::Grouping(x) => {
                self.add("(");
                self.expr(x, false, false);
                self.add(")");
            }
            Expr::LiteralArray(v) => {
                self.add("[");
                self.list(v);
                self.add("]");
            }
            Expr::LiteralBool(b) => self.add(if *b { "true" } else { "false" }),
            Expr::LiteralMap(m) if lead => {
                if m.is_empty() {
                    self.unfit = true;
                }
                self.entries(m);
                if on {
                    self.add(", ");
                }
            }
            Expr::LiteralMap(m) => {
                self.add("{");
                self.entries(m);
                self.add("}");
            }
            Expr::LiteralNil => self.add("nil"),
            Expr::LiteralNumber(x) => {
                if x.is_nan() || x.is_sign_negative() {
                    self.unfit = true;
                }
                if x.is_infinite() {
                    self.add(&"9".repeat(400));
                } else {
                    self.add(&format!("{x}"));
                }
            }
            Expr::LiteralString(s) => {
                self.add("\"");
                self.add(s);
                self.add("\"");
            }
            Expr::Logical(a, o, b) => {
                self.expr(a, lead, true);
                self.add(match o {
                    LogicalOperator::And => " and ",
                    LogicalOperator::Or => " or ",
                });
                self.expr(b, false, on);
            }
            Expr::Set(o, n, v, _) => {
                self.expr(o, lead, true);
                self.add(" .");
                self.add(n);
                self.add(" = ");
                self.expr(v, false, on);
            }
            Expr::SetIndex(a, i, v, _) => {
                self.expr(a, lead, true);
                self.add("[");
                self.expr(i, false, false);
                self.add("] = ");
                self.expr(v, false, on);
            }
            Expr::Super(_, n, _) => {
                self.add("super.");
                self.add(n);
            }
            Expr::Variable(n, _, _) => self.add(n),
            Expr::Unary(o, x, _) => {
                self.add(match o {
                    UnaryOperator::Minus => "-",
                    UnaryOperator::Not => "!",
                });
                self.expr(x, false, on);
            }
        }
    }
}
