//! Reference parser: an independent precedence-climbing recogniser of the
//! language's grammar, from reference tokens to the crate's tree types. It
//! stops at the first place where the input leaves the grammar.
use crate::reflex::RTok;
use std::cell::Cell;
use whitespace::ast::*;
use whitespace::environment::{SlotIndex, VarLoc};
use whitespace::source_loc::SourceLoc;
use whitespace::token::TokenType as T;

#[derive(Clone, Debug, PartialEq)]
pub struct Fail {
    pub loc: SourceLoc,
    /// The text the error is about.
    pub text: String,
    pub why: &'static str,
    /// Index of the token the reading had reached.
    pub at: usize,
}

type R<X> = Result<X, Fail>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Entry {
    Program,
    Repl,
    Expression,
}

#[derive(Debug, Clone, PartialEq)]
pub enum Parsed {
    Stmts(Vec<Stmt>),
    Expr(Expr),
}

pub fn parse(toks: &[RTok], entry: Entry) -> R<Parsed> {
    let mut p = P { t: toks, i: 0, loops: vec![0], repl: entry == Entry::Repl };
    if entry == Entry::Expression {
        let e = p.expr()?;
        p.want(T::Eof, "end")?;
        return Ok(Parsed::Expr(e));
    }
    let mut out = vec![];
    while p.ty() != T::Eof {
        out.push(p.declaration()?);
    }
    Ok(Parsed::Stmts(out))
}

/// Parse one top-level statement from token `i`; the index after it.
pub fn statement_at(toks: &[RTok], i: usize) -> R<(Stmt, usize)> {
    let mut p = P { t: toks, i, loops: vec![0], repl: false };
    let s = p.declaration()?;
    Ok((s, p.i))
}

struct P<'a> {
    t: &'a [RTok],
    i: usize,
    /// Number of loop bodies open in each function being read.
    loops: Vec<usize>,
    repl: bool,
}

pub fn loc_of(t: &RTok) -> SourceLoc {
    SourceLoc::new(t.line, t.col.min(u16::MAX as u32) as u16)
}

fn unbound() -> Cell<VarLoc> {
    Cell::new(VarLoc::placeholder())
}

const BINARY: [(&[(T, Op)], ()); 6] = [
    (&[(T::Or, Op::L(LogicalOperator::Or))], ()),
    (&[(T::And, Op::L(LogicalOperator::And))], ()),
    (
        &[
            (T::BangEqual, Op::B(BinaryOperator::NotEqual)),
            (T::EqualEqual, Op::B(BinaryOperator::Equal)),
        ],
        (),
    ),
    (
        &[
            (T::Less, Op::B(BinaryOperator::Less)),
            (T::Greater, Op::B(BinaryOperator::Greater)),
            (T::LessEqual, Op::B(BinaryOperator::LessEqual)),
            (T::GreaterEqual, Op::B(BinaryOperator::GreaterEqual)),
        ],
        (),
    ),
    (&[(T::Minus, Op::B(BinaryOperator::Minus)), (T::Plus, Op::B(BinaryOperator::Plus))], ()),
    (&[(T::Slash, Op::B(BinaryOperator::Divide)), (T::Star, Op::B(BinaryOperator::Multiply))], ()),
];

#[derive(Clone, Copy)]
enum Op {
    B(BinaryOperator),
    L(LogicalOperator),
}

fn level_of(ty: T) -> Option<(usize, Op)> {
    for (lvl, (ops, _)) in BINARY.iter().enumerate() {
        for (t, op) in ops.iter() {
            if *t == ty {
                return Some((lvl, *op));
            }
        }
    }
    None
}

fn starts_argument(ty: T) -> bool {
    matches!(
        ty,
        T::False
            | T::True
            | T::Nil
            | T::Number
            | T::String
            | T::Identifier
            | T::Fun
            | T::LeftParen
            | T::LeftBrace
            | T::Super
    )
}

impl P<'_> {
    fn tok(&self) -> &RTok {
        &self.t[self.i]
    }
    fn ty(&self) -> T {
        self.t[self.i].ty
    }
    fn ahead(&self, n: usize) -> Option<T> {
        // Nothing lies beyond the end of the file.
        if self.ty() == T::Eof {
            return None;
        }
        self.t.get(self.i + n).map(|t| t.ty)
    }
    fn next(&mut self) -> SourceLoc {
        let l = loc_of(self.tok());
        if self.ty() != T::Eof {
            self.i += 1;
        }
        l
    }
    fn fail<X>(&self, why: &'static str) -> R<X> {
        Err(Fail { loc: loc_of(self.tok()), text: self.tok().text.clone(), why, at: self.i })
    }
    fn want(&mut self, ty: T, why: &'static str) -> R<SourceLoc> {
        if self.ty() == ty { Ok(self.next()) } else { self.fail(why) }
    }
    fn take(&mut self, ty: T) -> bool {
        let y = self.ty() == ty;
        if y {
            self.next();
        }
        y
    }
    fn name(&mut self) -> R<(String, SourceLoc)> {
        if self.ty() == T::Identifier {
            let s = self.tok().text.clone();
            Ok((s, self.next()))
        } else {
            self.fail("name")
        }
    }
    fn open_paren(&mut self) -> R<()> {
        if self.take(T::LeftParen) || self.take(T::LeftParenAbutting) {
            Ok(())
        } else {
            self.fail("(")
        }
    }

    // A block opener; the matching closer.
    fn open_block(&mut self) -> R<T> {
        if self.take(T::LeftBrace) {
            return Ok(T::RightBrace);
        }
        self.want(T::Terminator, "block")?;
        self.want(T::Indent, "indent")?;
        Ok(T::Outdent)
    }

    fn rest_of_block(&mut self, close: T) -> R<Vec<Stmt>> {
        let mut out = vec![];
        while self.ty() != close {
            if self.ty() == T::Eof {
                return self.fail("close block");
            }
            out.push(self.declaration()?);
        }
        self.next();
        Ok(out)
    }

    fn declaration(&mut self) -> R<Stmt> {
        match self.ty() {
            T::Class => {
                self.next();
                self.class()
            }
            T::Fun if self.ahead(1) == Some(T::Identifier) => {
                self.next();
                Ok(Stmt::Fun(self.named_function(FunctionType::PlainFunction)?))
            }
            T::Var => {
                self.next();
                self.var(false)
            }
            _ => self.statement(),
        }
    }

    fn class(&mut self) -> R<Stmt> {
        let (name, source_loc) = self.name()?;
        let superclass = if self.take(T::Less) {
            let (s, l) = self.name()?;
            Some(Box::new(Expr::Variable(s, unbound(), l)))
        } else {
            None
        };
        let close = self.open_block()?;
        let mut methods = vec![];
        while self.ty() != close && self.ty() != T::Eof {
            let kind = if self.take(T::Class) {
                FunctionType::ClassMethod
            } else if self.ty() == T::Identifier && self.tok().text == "init" {
                FunctionType::Initializer
            } else {
                FunctionType::Method
            };
            methods.push(self.named_function(kind)?);
        }
        self.want(close, "close class")?;
        Ok(Stmt::Class(ClassDefinition { name, superclass, methods, source_loc }))
    }

    fn named_function(&mut self, kind: FunctionType) -> R<NamedFunctionDefinition> {
        let (name, loc) = self.name()?;
        let fun_def = self.function(kind, loc)?;
        Ok(NamedFunctionDefinition { name, fun_def })
    }

    fn function(&mut self, fun_type: FunctionType, source_loc: SourceLoc) -> R<FunctionDefinition> {
        self.open_paren()?;
        let mut parameters = vec![];
        if self.ty() != T::RightParen {
            loop {
                let at = self.i;
                let (name, l) = self.name()?;
                if parameters.len() == 255 {
                    self.i = at;
                    return self.fail("255 parameters");
                }
                parameters.push(Parameter { name, source_loc: l });
                if !self.take(T::Comma) {
                    break;
                }
            }
        }
        self.want(T::RightParen, ")")?;
        let close = self.open_block()?;
        self.loops.push(0);
        let body = self.rest_of_block(close)?;
        self.loops.pop();
        Ok(FunctionDefinition { parameters, body, fun_type, source_loc })
    }

    fn var(&mut self, in_for: bool) -> R<Stmt> {
        let (name, loc) = self.name()?;
        let mut must_end = true;
        let mut init = Expr::LiteralNil;
        if self.take(T::Equal) {
            self.take(T::Terminator);
            must_end = !matches!(self.ty(), T::Indent | T::LeftBrace);
            init = self.expr()?;
        }
        if in_for {
            self.want(T::Semicolon, ";")?;
        } else if must_end {
            self.want(T::Terminator, "newline")?;
        } else {
            self.take(T::Terminator);
        }
        Ok(Stmt::Var(name, Cell::new(SlotIndex::placeholder()), Box::new(init), loc))
    }

    fn statement(&mut self) -> R<Stmt> {
        match self.ty() {
            T::Break | T::Continue => {
                let ty = self.ty();
                if *self.loops.last().unwrap() == 0 {
                    return self.fail("not in a loop");
                }
                let l = self.next();
                self.want(T::Terminator, "newline")?;
                Ok(if ty == T::Break { Stmt::Break(l) } else { Stmt::Continue(l) })
            }
            T::For => {
                self.next();
                self.open_paren()?;
                let init = if self.take(T::Semicolon) {
                    None
                } else if self.take(T::Var) {
                    Some(self.var(true)?)
                } else {
                    let e = self.expr()?;
                    self.want(T::Semicolon, ";")?;
                    Some(Stmt::Expression(e))
                };
                let cond = if self.ty() == T::Semicolon {
                    Expr::LiteralBool(true)
                } else {
                    self.expr()?
                };
                self.want(T::Semicolon, ";")?;
                let inc = if self.ty() == T::RightParen { None } else { Some(self.expr()?) };
                self.want(T::RightParen, ")")?;
                let body = Box::new(self.loop_body()?);
                let looped = match inc {
                    None => Stmt::While(cond, body),
                    Some(i) => Stmt::WhileIncrement(cond, body, Box::new(i)),
                };
                Ok(match init {
                    None => looped,
                    Some(i) => Stmt::Block(vec![i, looped]),
                })
            }
            T::If => {
                self.next();
                self.open_paren()?;
                let cond = self.expr()?;
                self.want(T::RightParen, ")")?;
                let then = Box::new(self.body()?);
                let other =
                    if self.take(T::Else) { Some(Box::new(self.body()?)) } else { None };
                Ok(Stmt::If(cond, then, other))
            }
            T::LeftBrace => {
                self.next();
                Ok(Stmt::Block(self.rest_of_block(T::RightBrace)?))
            }
            T::Print => {
                self.next();
                let e = self.expr()?;
                self.want(T::Terminator, "newline")?;
                Ok(Stmt::Print(e))
            }
            T::Return => {
                let l = self.next();
                let e =
                    if self.ty() == T::Terminator { Expr::LiteralNil } else { self.expr()? };
                self.want(T::Terminator, "newline")?;
                Ok(Stmt::Return(e, l))
            }
            T::While => {
                self.next();
                self.open_paren()?;
                let cond = self.expr()?;
                self.want(T::RightParen, ")")?;
                Ok(Stmt::While(cond, Box::new(self.loop_body()?)))
            }
            _ => {
                let e = self.expr()?;
                if !(self.repl && self.ty() == T::Eof) {
                    self.want(T::Terminator, "newline")?;
                }
                Ok(Stmt::Expression(e))
            }
        }
    }

    // A block, or one statement on the same line.
    fn body(&mut self) -> R<Stmt> {
        if matches!(self.ty(), T::Terminator | T::LeftBrace) {
            let close = self.open_block()?;
            Ok(Stmt::Block(self.rest_of_block(close)?))
        } else {
            self.statement()
        }
    }

    fn loop_body(&mut self) -> R<Stmt> {
        *self.loops.last_mut().unwrap() += 1;
        let b = self.body()?;
        *self.loops.last_mut().unwrap() -= 1;
        Ok(b)
    }

    fn expr(&mut self) -> R<Expr> {
        let left = if self.take(T::Indent) {
            let e = self.climb(0)?;
            self.take(T::Terminator);
            self.want(T::Outdent, "outdent")?;
            e
        } else {
            self.climb(0)?
        };
        if self.ty() != T::Equal {
            return Ok(left);
        }
        let eq = self.i;
        let l = self.next();
        let right = Box::new(self.expr()?);
        match left {
            Expr::Variable(n, _, _) if n != "this" => Ok(Expr::Assign(n, unbound(), right, l)),
            Expr::Get(o, n, _) => Ok(Expr::Set(o, n, right, l)),
            Expr::GetIndex(o, x, _) => Ok(Expr::SetIndex(o, x, right, l)),
            _ => {
                self.i = eq;
                self.fail("assignment target")
            }
        }
    }

    fn climb(&mut self, min: usize) -> R<Expr> {
        let mut left = self.prefix()?;
        while let Some((lvl, op)) = level_of(self.ty()) {
            if lvl < min {
                break;
            }
            let l = self.next();
            let right = Box::new(self.climb(lvl + 1)?);
            left = match op {
                Op::B(b) => Expr::Binary(Box::new(left), b, right, l),
                Op::L(b) => Expr::Logical(Box::new(left), b, right),
            };
        }
        Ok(left)
    }

    fn prefix(&mut self) -> R<Expr> {
        let op = match self.ty() {
            T::Bang => UnaryOperator::Not,
            T::Minus => UnaryOperator::Minus,
            _ => return self.postfix(),
        };
        let l = self.next();
        Ok(Expr::Unary(op, Box::new(self.prefix()?), l))
    }

    fn postfix(&mut self) -> R<Expr> {
        let mut e = self.operand()?;
        loop {
            e = match self.ty() {
                T::Dot => {
                    let l = self.next();
                    let (n, _) = self.name()?;
                    Expr::Get(Box::new(e), n, l)
                }
                T::LeftBracket => {
                    let l = self.next();
                    let x = self.expr()?;
                    self.want(T::RightBracket, "]")?;
                    Expr::GetIndex(Box::new(e), Box::new(x), l)
                }
                T::LeftParenAbutting => {
                    let l = self.next();
                    let args = if self.ty() == T::RightParen { vec![] } else { self.args()? };
                    self.want(T::RightParen, ")")?;
                    Expr::Call(Box::new(e), args, l)
                }
                ty if starts_argument(ty) => {
                    let l = loc_of(self.tok());
                    Expr::Call(Box::new(e), self.args()?, l)
                }
                _ => return Ok(e),
            }
        }
    }

    fn args(&mut self) -> R<Vec<Expr>> {
        let mut out = vec![];
        loop {
            if out.len() == 255 {
                return self.fail("255 arguments");
            }
            out.push(self.expr()?);
            if !self.take(T::Comma) {
                return Ok(out);
            }
        }
    }

    fn key_ahead(&self) -> bool {
        matches!(self.ty(), T::Identifier | T::String) && self.ahead(1) == Some(T::Colon)
    }

    fn operand(&mut self) -> R<Expr> {
        if self.key_ahead() {
            return Ok(Expr::LiteralMap(self.entries(false)?));
        }
        let t = self.tok().clone();
        let l = loc_of(&t);
        match t.ty {
            T::False | T::True => {
                self.next();
                Ok(Expr::LiteralBool(t.ty == T::True))
            }
            T::Nil => {
                self.next();
                Ok(Expr::LiteralNil)
            }
            T::Number => {
                self.next();
                Ok(Expr::LiteralNumber(t.number.unwrap()))
            }
            T::String => {
                self.next();
                Ok(Expr::LiteralString(t.string.unwrap()))
            }
            // `this` is no key: a map without entries, after which `this` is
            // out of place wherever it is.
            T::This if self.ahead(1) == Some(T::Colon) => {
                Ok(Expr::LiteralMap(Default::default()))
            }
            T::Identifier | T::This => {
                self.next();
                Ok(Expr::Variable(t.text, unbound(), l))
            }
            T::Fun => {
                self.next();
                if self.ty() == T::Identifier {
                    return self.fail("function expression with a name");
                }
                Ok(Expr::Function(Box::new(self.function(FunctionType::PlainFunction, l)?)))
            }
            T::LeftParen | T::LeftParenAbutting => {
                self.next();
                let e = self.expr()?;
                self.want(T::RightParen, ")")?;
                Ok(Expr::Grouping(Box::new(e)))
            }
            T::LeftBrace => {
                self.next();
                let m = self.entries(true)?;
                self.want(T::RightBrace, "}")?;
                Ok(Expr::LiteralMap(m))
            }
            T::LeftBracket => {
                self.next();
                let mut out = vec![];
                while self.ty() != T::RightBracket {
                    out.push(self.expr()?);
                    if !self.take(T::Comma) {
                        break;
                    }
                }
                self.want(T::RightBracket, "]")?;
                Ok(Expr::LiteralArray(out))
            }
            T::Super => {
                self.next();
                self.want(T::Dot, ".")?;
                let (n, _) = self.name()?;
                Ok(Expr::Super(unbound(), n, l))
            }
            _ => self.fail("expression"),
        }
    }

    fn entries(&mut self, braces: bool) -> R<Map<Expr>> {
        let mut map: Map<Expr> = Map::default();
        let mut keys = std::collections::HashSet::new();
        while self.key_ahead() {
            let at = self.i;
            let t = self.tok().clone();
            let key = t.string.unwrap_or(t.text);
            self.next();
            self.next();
            let v = self.expr()?;
            if !keys.insert(key.clone()) {
                return Err(Fail {
                    loc: loc_of(&self.t[at]),
                    text: key,
                    why: "duplicate key",
                    at,
                });
            }
            map.insert(key, v);
            // The separator: a comma, or a line end before another entry or the
            // map's own '}'.
            let line_join = self.ty() == T::Terminator
                && (braces && self.ahead(1) == Some(T::RightBrace)
                    || matches!(self.ahead(1), Some(T::Identifier | T::String))
                        && self.ahead(2) == Some(T::Colon));
            if self.ty() == T::Comma || line_join {
                self.next();
            } else {
                break;
            }
        }
        Ok(map)
    }
}
