//! Program generator: builds source text and, at the same time, the syntax
//! tree (positions included) that the language assigns to it. The tree is
//! decided by the construction, not by parsing.
use crate::dict;
use crate::reflex::{continues, is_newline};
use crate::rt::Rng;
use std::cell::Cell;
use std::collections::HashSet;
use unicode_segmentation::UnicodeSegmentation;
use whitespace::ast::*;
use whitespace::environment::{SlotIndex, VarLoc};
use whitespace::source_loc::SourceLoc;
use whitespace::token::TokenType as T;

#[derive(Clone, Debug)]
pub struct Style {
    pub crlf: bool,
    /// Percentages.
    pub tight: usize,
    pub wide: usize,
    pub comments: usize,
    pub blanks: usize,
    pub wraps: usize,
    pub joins: usize,
    pub trail: usize,
    pub unicode: bool,
    /// Multi-line string literals allowed.
    pub long_strings: bool,
    pub max_indent: usize,
    /// One stretch of this many blank lines, blanks or comment characters.
    pub big: Option<(Stretch, usize)>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Stretch {
    Lines,
    Gap,
    Comment,
    Trail,
    Joins,
}

/// What a program has an unusual amount of.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Big {
    Args,
    BareArgs,
    Array,
    Map,
    BareMap,
    Chain,
    Operands,
    Prefixes,
    Groups,
    Arrays,
    Assigns,
    Name,
    Text,
    Digits,
    Params,
    Stmts,
    Methods,
    ElseIfs,
    Nest,
}

const BIGS: [Big; 19] = [
    Big::Args,
    Big::BareArgs,
    Big::Array,
    Big::Map,
    Big::BareMap,
    Big::Chain,
    Big::Operands,
    Big::Prefixes,
    Big::Groups,
    Big::Arrays,
    Big::Assigns,
    Big::Name,
    Big::Text,
    Big::Digits,
    Big::Params,
    Big::Stmts,
    Big::Methods,
    Big::ElseIfs,
    Big::Nest,
];

impl Style {
    pub fn plain() -> Style {
        Style {
            crlf: false,
            tight: 20,
            wide: 0,
            comments: 0,
            blanks: 0,
            wraps: 0,
            joins: 0,
            trail: 0,
            unicode: false,
            long_strings: false,
            max_indent: 4,
            big: None,
        }
    }
    pub fn random(r: &mut Rng) -> Style {
        if r.chance(15) {
            return Style::plain();
        }
        let big = if r.chance(2) {
            let k = *r.pick(&[
                Stretch::Lines,
                Stretch::Gap,
                Stretch::Comment,
                Stretch::Trail,
                Stretch::Joins,
            ]);
            let many = match k {
                Stretch::Joins => 300,
                Stretch::Lines if r.chance(8) => 70_000,
                _ => 4200,
            };
            Some((k, dict::size(r, many)))
        } else {
            None
        };
        let indent = if r.chance(3) { dict::size(r, 600) } else { *r.pick(&[1, 2, 4, 8, 13]) };
        let mut p = |max: usize| if r.chance(50) { r.below(max + 1) } else { 0 };
        Style {
            tight: 20 + p(60),
            wide: p(30),
            comments: p(30),
            blanks: p(30),
            wraps: p(25),
            joins: p(12),
            trail: p(30),
            crlf: r.chance(25),
            unicode: r.chance(30),
            long_strings: r.chance(40),
            max_indent: indent,
            big,
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum Gap {
    Free,
    /// No gap.
    None,
    /// Some white space.
    Some,
    /// Only blanks on the same line.
    Line,
}

/// Writes tokens with random layout, tracking positions.
pub struct W {
    pub out: String,
    pub line: u32,
    pub col: u32,
    bol: bool,
    pub stack: Vec<usize>,
    pub style: Style,
    last: Option<T>,
    last_char: char,
    /// Every token written: type, byte range, position.
    pub log: Vec<Written>,
}

#[derive(Clone, Debug)]
pub struct Written {
    pub ty: T,
    pub from: usize,
    pub to: usize,
    pub loc: SourceLoc,
}

const COMMENTS: [&str; 9] = [
    "//",
    "// note",
    "//x = (",
    "// \"quote",
    "/// \\",
    "// tab\there",
    "// fun if { [ : + - //",
    "// ünïcödé 変数 é",
    "//\\",
];

impl W {
    pub fn new(style: Style) -> W {
        W {
            out: String::new(),
            line: 1,
            col: 1,
            bol: true,
            stack: vec![0],
            style,
            last: None,
            last_char: '\n',
            log: vec![],
        }
    }

    pub fn top(&self) -> usize {
        *self.stack.last().unwrap()
    }

    fn raw(&mut self, s: &str) {
        self.out.push_str(s);
        for g in s.graphemes(true) {
            if is_newline(g) {
                self.line += 1;
                self.col = 1;
            } else {
                self.col += 1;
            }
        }
        if let Some(c) = s.chars().last() {
            self.last_char = c;
        }
    }

    fn blanks(&mut self, n: usize) {
        let s = " ".repeat(n);
        self.raw(&s);
    }

    fn eol(&mut self) {
        let s = if self.style.crlf { "\r\n" } else { "\n" };
        self.raw(s);
    }

    /// Lines that mean nothing.
    fn noise(&mut self, r: &mut Rng) {
        match self.style.big {
            Some((Stretch::Lines, n)) if r.chance(30) => {
                self.style.big = None;
                let indent = r.chance(30);
                for k in 0..n {
                    if indent {
                        self.blanks(k % 7);
                    }
                    self.eol();
                }
            }
            Some((Stretch::Comment, n)) if r.chance(30) => {
                self.style.big = None;
                let odd = r.below(3);
                let fill = *r.pick(&["x", "é", "//", " (", "変"]);
                self.raw(&format!("//{}{}", " ".repeat(odd), fill.repeat(n)));
                self.eol();
            }
            _ => (),
        }
        while r.chance(self.style.blanks) {
            if r.chance(40) {
                let n = r.below(12);
                self.blanks(n);
            }
            self.eol();
        }
        while r.chance(self.style.comments) {
            let n = r.below(14);
            self.blanks(n);
            self.raw(r.pick(&COMMENTS));
            self.eol();
        }
    }

    fn line_tail(&mut self, r: &mut Rng) {
        if let Some((Stretch::Trail, n)) = self.style.big {
            if r.chance(30) {
                self.style.big = None;
                self.blanks(n);
            }
        }
        if r.chance(self.style.trail) {
            let n = r.range(1, 3);
            self.blanks(n);
        }
        if r.chance(self.style.comments) {
            self.blanks(1);
            self.raw(r.pick(&COMMENTS));
        }
    }

    /// End the line (and so the statement).
    pub fn newline(&mut self, r: &mut Rng) {
        assert!(!self.bol && !self.last.is_some_and(continues));
        self.line_tail(r);
        self.eol();
        self.bol = true;
    }

    /// End the line after a token that makes the next one continue it.
    fn wrap(&mut self, r: &mut Rng) {
        self.line_tail(r);
        self.eol();
        self.noise(r);
        let n = self.top() + if r.chance(30) { 0 } else { r.below(10) };
        self.blanks(n);
    }

    fn join(&mut self, r: &mut Rng) {
        if r.chance(70) || self.last_char == '\\' {
            self.blanks(1);
        }
        self.raw("\\");
        if r.chance(30) {
            let n = r.range(1, 3);
            self.blanks(n);
        }
        self.eol();
        if r.chance(10) {
            let n = r.below(6);
            self.blanks(n);
            self.eol();
        }
        let n = self.top() + if r.chance(30) { 0 } else { r.below(10) };
        self.blanks(n);
    }

    fn tok(&mut self, r: &mut Rng, ty: T, text: &str, gap: Gap) -> SourceLoc {
        if self.bol {
            self.noise(r);
            let n = self.top();
            self.blanks(n);
            self.bol = false;
        } else if gap != Gap::None && self.last.is_some() {
            let first = text.chars().next().unwrap();
            let a = self.last_char;
            let word = |c: char| c == '_' || c.is_alphanumeric();
            let must = gap == Gap::Some
                || word(a) && word(first) && self.last != Some(T::String)
                || "<>=!".contains(a) && first == '='
                || a == '/' && first == '/'
                || a == '\\';
            let lines = gap != Gap::Line;
            if lines && self.last.is_some_and(continues) && r.chance(self.style.wraps) {
                self.wrap(r);
            } else if lines && self.style.big.is_some_and(|b| b.0 == Stretch::Joins) && r.chance(20) {
                let n = self.style.big.take().unwrap().1;
                for _ in 0..n {
                    self.join(r);
                }
            } else if self.style.big.is_some_and(|b| b.0 == Stretch::Gap) && r.chance(20) {
                let n = self.style.big.take().unwrap().1;
                self.blanks(n);
            } else if lines && r.chance(self.style.joins) {
                self.join(r);
            } else if !must && r.chance(self.style.tight) {
            } else if r.chance(self.style.wide) {
                let n = r.range(2, 5);
                self.blanks(n);
            } else {
                self.blanks(1);
            }
        }
        let loc = SourceLoc::new(self.line, self.col.min(65535) as u16);
        let from = self.out.len();
        self.raw(text);
        self.last = Some(ty);
        self.log.push(Written { ty, from, to: self.out.len(), loc });
        loc
    }
}

#[derive(Clone, Debug)]
pub struct Cfg {
    /// Approximate number of nodes.
    pub size: i32,
    pub stmts: usize,
    /// Names to draw from (small: much shadowing and reuse).
    pub names: usize,
    /// Keep the static rules (no double local declarations, no stray return).
    pub legal: bool,
    /// Percentage of rule-breaking choices when not legal.
    pub illegal: usize,
    pub depth: usize,
    /// Weights: expressions, declarations, control flow, classes.
    pub weights: [usize; 4],
    pub final_newline: bool,
    /// Allow braced bodies and blocks.
    pub braces: bool,
    pub exotic_names: bool,
    /// Names, texts and numbers that the code under test mentions.
    pub dict: bool,
    /// Expressions on a single line.
    pub flat: bool,
    pub params: usize,
    pub big: Option<Big>,
}

impl Cfg {
    pub fn normal(r: &mut Rng) -> Cfg {
        Cfg {
            size: *r.pick(&[6, 12, 25, 60, 120]),
            stmts: r.range(1, 6),
            names: *r.pick(&[3, 6, 12]),
            legal: true,
            illegal: 0,
            depth: r.range(2, 7),
            weights: *r.pick(&[[4, 3, 4, 2], [6, 1, 1, 1], [1, 1, 6, 1], [2, 6, 2, 3], [1, 2, 2, 6]]),
            final_newline: true,
            braces: true,
            exotic_names: r.chance(20),
            dict: r.chance(12),
            flat: false,
            params: 3,
            big: if r.chance(3) { Some(*r.pick(&BIGS)) } else { None },
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum Start {
    Any,
    /// Beginning of a statement.
    Stmt,
    /// First argument of a call without parentheses.
    Arg,
}

#[derive(Clone, Copy)]
struct Pos {
    /// Lowest level allowed: 0 assignment, 1 or .. 6 '*', 7 prefix, 8 postfix.
    prec: usize,
    /// A call without parentheses may end here.
    call: bool,
    /// A map without braces may end here.
    map: bool,
    /// A closing delimiter follows.
    delim: bool,
    start: Start,
}

impl Pos {
    fn inner(self) -> Pos {
        Pos { call: false, map: false, delim: false, ..self }
    }
}

/// A full expression before a closing delimiter.
const CLOSED: Pos = Pos { prec: 0, call: true, map: true, delim: true, start: Start::Any };
/// A full expression before a comma.
const ITEM: Pos = Pos { prec: 0, call: false, map: false, delim: false, start: Start::Any };

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum End {
    /// The line has ended; the next token starts a line.
    Line,
    /// After '}': the statement has ended within the line.
    Brace,
    /// As Brace, but only a statement keyword may follow.
    Expr,
}

#[derive(Clone, Copy)]
struct Want {
    decl: bool,
    /// May end with '}' in the middle of a line.
    brace_end: bool,
    /// An else may follow: do not leave an if open for it.
    no_open_if: bool,
    /// Must begin with a statement keyword.
    keyword: bool,
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum FunK {
    Top,
    Plain,
    Init,
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum ClassK {
    None,
    Base,
    Derived,
}

pub struct G<'a> {
    pub r: &'a mut Rng,
    pub w: W,
    pub cfg: Cfg,
    left: i32,
    loops: Vec<usize>,
    fun: Vec<FunK>,
    class: Vec<ClassK>,
    scopes: Vec<HashSet<String>>,
    /// The last statement ended with a map without braces.
    bare_end: bool,
    depth: usize,
    /// Names whose initializer is being written, with their scope.
    pending: Vec<(usize, String)>,
    /// Token index at which each top-level statement starts.
    pub starts: Vec<usize>,
    /// Rule-breaking choices made.
    pub broken: usize,
    /// Break and continue may be generated anywhere.
    pub stray_loops: bool,
    pub fresh: usize,
    /// The number of statements wanted in the next block.
    many: Option<usize>,
    /// Use all of cfg.params.
    many_params: bool,
}

const POOL: [&str; 12] = ["a", "b", "c", "x", "y", "f", "g", "n", "init", "obj", "i", "z"];
const EXOTIC: [&str; 16] = [
    "größe",
    "naïve_1",
    "变量",
    "_",
    "__x",
    "whiles",
    "classy",
    "iff",
    "nil2",
    "тест",
    "e5",
    "Fun",
    "été2",
    "x\u{301}y",
    "ñandú",
    "this1",
];
const STRINGS: [&str; 14] = [
    "",
    "s",
    "two words",
    "// not a comment",
    "back\\slash",
    "tab\there",
    "a: 1, b",
    "(}[",
    "if while",
    "1.5",
    "  ",
    "@#$",
    "'single'",
    "n",
];
const USTRINGS: [&str; 7] =
    ["héllo", "日本語", "e\u{301}clair", "👩‍👩‍👧", "🇫🇷x", "a\u{200d}b", "ß→∞"];

fn unbound() -> Cell<VarLoc> {
    Cell::new(VarLoc::placeholder())
}

impl<'a> G<'a> {
    pub fn new(r: &'a mut Rng, style: Style, cfg: Cfg) -> G<'a> {
        let left = cfg.size;
        G {
            r,
            w: W::new(style),
            cfg,
            left,
            loops: vec![0],
            fun: vec![FunK::Top],
            class: vec![ClassK::None],
            scopes: vec![HashSet::new()],
            bare_end: false,
            depth: 0,
            pending: vec![],
            starts: vec![],
            broken: 0,
            stray_loops: false,
            fresh: 0,
            many: None,
            many_params: false,
        }
    }

    fn t(&mut self, ty: T, text: &str) -> SourceLoc {
        self.w.tok(self.r, ty, text, Gap::Free)
    }

    fn tg(&mut self, ty: T, text: &str, gap: Gap) -> SourceLoc {
        self.w.tok(self.r, ty, text, gap)
    }

    fn paren(&mut self) {
        // '(' after a keyword or name in a header: abutting or not.
        self.t(T::LeftParen, "(");
    }

    fn name(&mut self) -> String {
        if self.cfg.exotic_names && self.r.chance(40) {
            let i = self.r.below(EXOTIC.len());
            return EXOTIC[i].to_string();
        }
        if self.cfg.dict && self.r.chance(20) {
            let n = if self.r.chance(75) { dict::name(self.r) } else { dict::joined(self.r) };
            if let Some(n) = n {
                return n;
            }
        }
        let i = self.r.below(self.cfg.names);
        if i < POOL.len() { POOL[i].to_string() } else { format!("v{i}") }
    }

    fn breaks_rule(&mut self) -> bool {
        let y = !self.cfg.legal && self.r.chance(self.cfg.illegal);
        if y {
            self.broken += 1;
        }
        y
    }

    /// A name to declare in the current scope.
    fn new_name(&mut self) -> String {
        let mut n = self.name();
        let local = self.scopes.len() > 1;
        if local && self.scopes.last().unwrap().contains(&n) && !self.breaks_rule() {
            let mut k = 0;
            while self.scopes.last().unwrap().contains(&n) {
                n = if k < 4 {
                    self.name()
                } else {
                    self.fresh += 1;
                    format!("w{}", self.fresh)
                };
                k += 1;
            }
        }
        self.scopes.last_mut().unwrap().insert(n.clone());
        n
    }

    fn ident(&mut self, n: &str) -> SourceLoc {
        self.t(T::Identifier, n)
    }

    // ------------------------------------------------------------ expressions

    fn expr(&mut self, p: Pos) -> Expr {
        self.left -= 1;
        self.depth += 1;
        let e = self.expr0(p);
        self.depth -= 1;
        e
    }

    /// Take the turn of what there is to be much of.
    fn turn(&mut self, d: Big, cap: usize) -> usize {
        self.cfg.big = None;
        self.left = self.left.min(if d == Big::Nest { 40 } else { 2 });
        dict::size(self.r, cap)
    }

    fn text_of(&mut self, n: usize) -> String {
        // Characters of several bytes at odd offsets.
        let fill = *self.r.pick(&["a", "é", "変", "ab", "👩‍👩‍👧", "e\u{301}"]);
        let mut s = "x".repeat(self.r.below(4));
        for _ in 0..n {
            s.push_str(fill);
        }
        if self.r.chance(30) {
            s.push_str(&"y".repeat(n.min(50)));
        }
        s
    }

    fn big_expr(&mut self, d: Big, p: Pos) -> Option<Expr> {
        let inner = |lvl| Pos { prec: lvl, ..p.inner() };
        let after = |lvl| Pos { prec: lvl, start: Start::Any, ..p.inner() };
        match d {
            Big::Args if p.prec <= 8 => {
                let n = self.turn(d, 255);
                let b = self.expr(inner(8));
                let l = self.tg(T::LeftParenAbutting, "(", Gap::None);
                let args = self.list(n, CLOSED);
                self.t(T::RightParen, ")");
                Some(Expr::Call(Box::new(b), args, l))
            }
            Big::BareArgs if p.prec <= 8 && p.call => {
                let n = self.turn(d, 255);
                let b = self.expr(inner(8));
                Some(self.call_bare(b, n, p))
            }
            Big::Array if p.start != Start::Arg => {
                let n = self.turn(d, 1100);
                Some(self.array(n))
            }
            Big::Map if p.start != Start::Stmt => {
                let n = self.turn(d, 520);
                Some(self.braced_map(n))
            }
            Big::BareMap if p.map => {
                let n = self.turn(d, 300);
                Some(self.bare_map(n, p))
            }
            Big::Chain if p.prec <= 8 => {
                let n = self.turn(d, 300);
                let mut e = self.expr(inner(8));
                let only = self.r.below(5);
                for _ in 0..n {
                    let k = if only < 3 { only } else { self.r.below(3) };
                    e = match k {
                        0 => self.get(e),
                        1 => self.index(e),
                        _ => {
                            let l = self.tg(T::LeftParenAbutting, "(", Gap::None);
                            let c = self.r.below(2);
                            let args = self.list(c, CLOSED);
                            self.t(T::RightParen, ")");
                            Expr::Call(Box::new(e), args, l)
                        }
                    };
                }
                Some(e)
            }
            Big::Operands if p.prec <= 6 => {
                let n = self.turn(d, 300);
                let lvl = self.r.range(p.prec.max(1), 6);
                let mut e = self.expr(inner(lvl));
                for _ in 0..n {
                    e = self.binary_rest(e, after(lvl), lvl);
                }
                Some(e)
            }
            Big::Prefixes if p.prec <= 7 && p.start != Start::Arg => {
                let n = self.turn(d, 200);
                let same = self.r.below(3);
                let mut ops = vec![];
                for _ in 0..n {
                    ops.push(if same == 0 || same == 1 && self.r.chance(50) {
                        (UnaryOperator::Minus, self.t(T::Minus, "-"))
                    } else {
                        (UnaryOperator::Not, self.t(T::Bang, "!"))
                    });
                }
                let mut e = self.expr(Pos { prec: 7, start: Start::Any, ..p });
                while let Some((op, l)) = ops.pop() {
                    e = Expr::Unary(op, Box::new(e), l);
                }
                Some(e)
            }
            Big::Groups => {
                let n = self.turn(d, 130);
                for k in 0..n {
                    let gap = if k == 0 && p.start == Start::Arg { Gap::Some } else { Gap::Free };
                    self.tg(T::LeftParen, "(", gap);
                }
                let mut e = self.expr(CLOSED);
                for _ in 0..n {
                    self.t(T::RightParen, ")");
                    e = Expr::Grouping(Box::new(e));
                }
                Some(e)
            }
            Big::Arrays if p.start != Start::Arg => {
                let n = self.turn(d, 130);
                let mut before = vec![];
                for _ in 0..n {
                    self.t(T::LeftBracket, "[");
                    let mut v = vec![];
                    if self.r.chance(20) {
                        v.push(self.expr(ITEM));
                        self.t(T::Comma, ",");
                    }
                    before.push(v);
                }
                let mut e = self.expr(CLOSED);
                while let Some(mut v) = before.pop() {
                    v.push(e);
                    self.t(T::RightBracket, "]");
                    e = Expr::LiteralArray(v);
                }
                Some(e)
            }
            Big::Assigns if p.prec == 0 => {
                let n = self.turn(d, 150);
                let mut targets = vec![];
                for k in 0..n {
                    let name = self.name();
                    let start = if k == 0 { p.start } else { Start::Any };
                    let t = match self.r.below(3) {
                        0 => {
                            let b = self.leaf(Pos { start, ..inner(8) });
                            self.get(b)
                        }
                        _ => {
                            let l = self.ident(&name);
                            Expr::Variable(name, unbound(), l)
                        }
                    };
                    let l = self.t(T::Equal, "=");
                    targets.push((t, l));
                }
                let mut e = self.expr(Pos { start: Start::Any, ..p });
                while let Some((t, l)) = targets.pop() {
                    e = match t {
                        Expr::Variable(n, _, _) => Expr::Assign(n, unbound(), Box::new(e), l),
                        Expr::Get(o, n, _) => Expr::Set(o, n, Box::new(e), l),
                        _ => unreachable!(),
                    };
                }
                Some(e)
            }
            Big::Name => {
                let n = self.turn(d, 4200);
                let fill = *self.r.pick(&["a", "é", "変", "_", "a1"]);
                let s = format!("{}{}", &"xyz"[..self.r.range(1, 3)], fill.repeat(n));
                let l = self.ident(&s);
                Some(Expr::Variable(s, unbound(), l))
            }
            Big::Text => {
                let n = self.turn(d, 4200);
                let s = self.text_of(n);
                self.t(T::String, &format!("\"{s}\""));
                Some(Expr::LiteralString(s))
            }
            Big::Digits => {
                let n = self.turn(d, 300);
                let mut s: String =
                    (0..n).map(|_| char::from(b'0' + self.r.below(10) as u8)).collect();
                if self.r.chance(40) {
                    let at = self.r.range(1, n);
                    s.insert(at, '.');
                    s.push('7');
                }
                self.t(T::Number, &s);
                Some(Expr::LiteralNumber(s.parse().unwrap()))
            }
            _ => None,
        }
    }

    fn big_stmt(&mut self, d: Big, w: Want) -> Option<(Stmt, End)> {
        match d {
            Big::Params if w.decl && !w.keyword => {
                let n = self.turn(d, 255);
                self.cfg.params = n;
                self.many_params = true;
                let r = self.fun_decl(w);
                self.cfg.params = 3;
                Some(r)
            }
            Big::Stmts if w.decl && !w.keyword => {
                let n = self.turn(d, 520);
                self.many = Some(n);
                Some(self.fun_decl(w))
            }
            Big::Methods if w.decl && !w.keyword => {
                let n = self.turn(d, 260);
                self.many = Some(n);
                Some(self.class_decl(w))
            }
            Big::ElseIfs => {
                let n = self.turn(d, 130);
                let mut v = vec![];
                for _ in 0..n {
                    self.t(T::If, "if");
                    self.paren();
                    let c = self.expr(CLOSED);
                    self.t(T::RightParen, ")");
                    let (then, _) = self.body(Want { no_open_if: true, brace_end: true, ..w });
                    self.t(T::Else, "else");
                    v.push((c, then));
                }
                let (mut s, end) = self.body(w);
                while let Some((c, then)) = v.pop() {
                    s = Stmt::If(c, Box::new(then), Some(Box::new(s)));
                }
                Some((s, end))
            }
            Big::Nest if w.decl && !w.keyword => {
                let n = self.turn(d, 200);
                let only = if self.r.chance(60) { Some(self.r.below(6)) } else { None };
                let braces = w.brace_end && self.cfg.braces && self.r.chance(60);
                let (s, end) = self.nest(n, only, braces);
                Some((s, end))
            }
            _ => None,
        }
    }

    /// n scopes, each in the one before; with declarations and uses on the way.
    fn nest(&mut self, n: usize, only: Option<usize>, braces: bool) -> (Stmt, End) {
        let kind = only.unwrap_or_else(|| self.r.below(6));
        let unbraced_block = kind == 0 && !braces;
        match kind {
            1 => {
                self.t(T::While, "while");
                self.paren();
                let c = self.leaf(CLOSED);
                self.t(T::RightParen, ")");
                *self.loops.last_mut().unwrap() += 1;
                let (b, end) = self.nest_body(n, only, braces);
                *self.loops.last_mut().unwrap() -= 1;
                (Stmt::While(c, Box::new(Stmt::Block(b))), end)
            }
            2 | 3 => {
                self.t(T::Fun, "fun");
                let name = self.new_name();
                let l = self.ident(&name);
                self.loops.push(0);
                self.scopes.push(HashSet::new());
                self.fun.push(FunK::Plain);
                let parameters = self.params();
                let (body, end) = self.nest_body(n, only, braces);
                self.fun.pop();
                self.scopes.pop();
                self.loops.pop();
                let fun_def = FunctionDefinition {
                    parameters,
                    body,
                    fun_type: FunctionType::PlainFunction,
                    source_loc: l,
                };
                (Stmt::Fun(NamedFunctionDefinition { name, fun_def }), end)
            }
            4 => {
                self.t(T::For, "for");
                self.paren();
                self.scopes.push(HashSet::new());
                self.t(T::Var, "var");
                let name = self.new_name();
                let l = self.ident(&name);
                self.t(T::Equal, "=");
                let v = self.number();
                self.t(T::Semicolon, ";");
                let c = self.leaf(CLOSED);
                self.t(T::Semicolon, ";");
                self.t(T::RightParen, ")");
                *self.loops.last_mut().unwrap() += 1;
                let (b, end) = self.nest_body(n, only, braces);
                *self.loops.last_mut().unwrap() -= 1;
                self.scopes.pop();
                let init =
                    Stmt::Var(name, Cell::new(SlotIndex::placeholder()), Box::new(v), l);
                (
                    Stmt::Block(vec![init, Stmt::While(c, Box::new(Stmt::Block(b)))]),
                    end,
                )
            }
            _ if kind == 5 || unbraced_block => {
                self.t(T::If, "if");
                self.paren();
                let c = self.leaf(CLOSED);
                self.t(T::RightParen, ")");
                let (b, end) = self.nest_body(n, only, braces);
                (Stmt::If(c, Box::new(Stmt::Block(b)), None), end)
            }
            _ => {
                let (b, end) = self.nest_body(n, only, braces);
                (Stmt::Block(b), end)
            }
        }
    }

    fn nest_body(&mut self, n: usize, only: Option<usize>, braces: bool) -> (Vec<Stmt>, End) {
        self.scopes.push(HashSet::new());
        let mut v = vec![];
        if braces {
            self.t(T::LeftBrace, "{");
        } else {
            self.w.newline(self.r);
            let by = self.r.range(1, self.w.style.max_indent.min(4));
            let ind = self.w.top() + by;
            self.w.stack.push(ind);
        }
        self.depth += 1000;
        self.left = self.left.min(0);
        if self.r.chance(40) {
            v.push(self.var_line());
        }
        if n > 0 {
            v.push(self.nest(n - 1, only, braces).0);
        }
        if n == 0 || self.r.chance(20) {
            self.t(T::Print, "print");
            let e = self.leaf(CLOSED);
            self.w.newline(self.r);
            v.push(Stmt::Print(e));
        }
        self.depth -= 1000;
        let end = if braces {
            self.t(T::RightBrace, "}");
            End::Brace
        } else {
            self.w.stack.pop();
            End::Line
        };
        self.scopes.pop();
        (v, end)
    }

    /// 'var name = leaf'.
    fn var_line(&mut self) -> Stmt {
        self.t(T::Var, "var");
        let n = self.new_name();
        let l = self.ident(&n);
        self.t(T::Equal, "=");
        self.pending.push((self.scopes.len(), n.clone()));
        let e = self.leaf(CLOSED);
        self.pending.pop();
        self.w.newline(self.r);
        Stmt::Var(n, Cell::new(SlotIndex::placeholder()), Box::new(e), l)
    }

    fn expr0(&mut self, p: Pos) -> Expr {
        if let Some(d) = self.cfg.big {
            if self.r.chance(35) {
                if let Some(e) = self.big_expr(d, p) {
                    return e;
                }
            }
        }
        if self.left <= 0 || self.depth > self.cfg.depth * 3 {
            return self.leaf(p);
        }
        let k = self.r.below(100);
        match k {
            0..=6 if p.prec == 0 => self.assignment(p),
            7..=36 if p.prec <= 6 => {
                let lvl = self.r.range(p.prec.max(1), 6);
                self.binary(p, lvl)
            }
            37..=43 if p.prec <= 7 && p.start != Start::Arg => {
                let (op, ty, s) = if self.r.chance(50) {
                    (UnaryOperator::Minus, T::Minus, "-")
                } else {
                    (UnaryOperator::Not, T::Bang, "!")
                };
                let l = self.t(ty, s);
                let e = self.expr(Pos { prec: 7, start: Start::Any, ..p });
                Expr::Unary(op, Box::new(e), l)
            }
            44..=68 if p.prec <= 8 => self.postfix(p),
            _ => self.primary(p),
        }
    }

    fn assignment(&mut self, p: Pos) -> Expr {
        let target = match self.r.below(3) {
            0 => {
                let n = self.name();
                let l = self.ident(&n);
                Expr::Variable(n, unbound(), l)
            }
            1 => {
                let b = self.expr(Pos { prec: 8, ..p.inner() });
                self.get(b)
            }
            _ => {
                let b = self.expr(Pos { prec: 8, ..p.inner() });
                self.index(b)
            }
        };
        let l = self.t(T::Equal, "=");
        let v = Box::new(self.expr(Pos { start: Start::Any, ..p }));
        match target {
            Expr::Variable(n, _, _) => Expr::Assign(n, unbound(), v, l),
            Expr::Get(o, n, _) => Expr::Set(o, n, v, l),
            Expr::GetIndex(o, i, _) => Expr::SetIndex(o, i, v, l),
            _ => unreachable!(),
        }
    }

    fn binary(&mut self, p: Pos, lvl: usize) -> Expr {
        let a = self.expr(Pos { prec: lvl, ..p.inner() });
        self.binary_rest(a, p, lvl)
    }

    fn binary_rest(&mut self, a: Expr, p: Pos, lvl: usize) -> Expr {
        use BinaryOperator as B;
        let (ty, s, op) = match lvl {
            1 => (T::Or, "or", None),
            2 => (T::And, "and", None),
            3 => *self.r.pick(&[
                (T::EqualEqual, "==", Some(B::Equal)),
                (T::BangEqual, "!=", Some(B::NotEqual)),
            ]),
            4 => *self.r.pick(&[
                (T::Less, "<", Some(B::Less)),
                (T::LessEqual, "<=", Some(B::LessEqual)),
                (T::Greater, ">", Some(B::Greater)),
                (T::GreaterEqual, ">=", Some(B::GreaterEqual)),
            ]),
            5 => *self.r.pick(&[(T::Plus, "+", Some(B::Plus)), (T::Minus, "-", Some(B::Minus))]),
            _ => *self
                .r
                .pick(&[(T::Star, "*", Some(B::Multiply)), (T::Slash, "/", Some(B::Divide))]),
        };
        let l = self.t(ty, s);
        let b = self.expr(Pos { prec: lvl + 1, start: Start::Any, ..p });
        match op {
            Some(op) => Expr::Binary(Box::new(a), op, Box::new(b), l),
            None => Expr::Logical(
                Box::new(a),
                if lvl == 1 { LogicalOperator::Or } else { LogicalOperator::And },
                Box::new(b),
            ),
        }
    }

    fn get(&mut self, b: Expr) -> Expr {
        let l = self.t(T::Dot, ".");
        let n = self.name();
        self.ident(&n);
        Expr::Get(Box::new(b), n, l)
    }

    fn index(&mut self, b: Expr) -> Expr {
        let l = self.t(T::LeftBracket, "[");
        let i = self.expr(CLOSED);
        self.t(T::RightBracket, "]");
        Expr::GetIndex(Box::new(b), Box::new(i), l)
    }

    fn postfix(&mut self, p: Pos) -> Expr {
        let b = self.expr(Pos { prec: 8, ..p.inner() });
        match self.r.below(if p.call { 8 } else { 6 }) {
            0 | 1 => self.get(b),
            2 => self.index(b),
            3..=5 => {
                let l = self.tg(T::LeftParenAbutting, "(", Gap::None);
                let n = *self.r.pick(&[0, 0, 1, 1, 1, 2, 2, 3, 5]);
                let args = self.list(n, CLOSED);
                self.t(T::RightParen, ")");
                Expr::Call(Box::new(b), args, l)
            }
            _ => {
                let n = *self.r.pick(&[1, 1, 1, 1, 2, 2, 3]);
                self.call_bare(b, n, p)
            }
        }
    }

    /// A call without parentheses with n arguments.
    fn call_bare(&mut self, b: Expr, n: usize, p: Pos) -> Expr {
        let mut args = vec![];
        // The position of such a call is that of its first argument.
        let before = self.w.log.len();
        for i in 0..n {
            let start = if i == 0 { Start::Arg } else { Start::Any };
            if i > 0 {
                self.t(T::Comma, ",");
            }
            let q = if i + 1 == n { Pos { prec: 0, start, ..p } } else { Pos { start, ..ITEM } };
            args.push(self.expr(q));
        }
        let loc = self.w.log[before].loc;
        Expr::Call(Box::new(b), args, loc)
    }

    fn list(&mut self, n: usize, last: Pos) -> Vec<Expr> {
        let mut v = vec![];
        for i in 0..n {
            if i > 0 {
                self.t(T::Comma, ",");
            }
            v.push(self.expr(if i + 1 == n { last } else { ITEM }));
        }
        v
    }

    fn leaf(&mut self, p: Pos) -> Expr {
        let k = self.r.below(if p.start == Start::Arg { 9 } else { 10 });
        match k {
            0..=4 => {
                let mut n = self.name();
                let here = self.scopes.len();
                if self.pending.iter().any(|(s, p)| *s == here && *p == n) && !self.breaks_rule() {
                    n = "q".to_string();
                }
                let l = self.ident(&n);
                Expr::Variable(n, unbound(), l)
            }
            5 | 6 => self.number(),
            7 => self.string(),
            8 => {
                let (ty, s, e) = match self.r.below(3) {
                    0 => (T::True, "true", Expr::LiteralBool(true)),
                    1 => (T::False, "false", Expr::LiteralBool(false)),
                    _ => (T::Nil, "nil", Expr::LiteralNil),
                };
                self.t(ty, s);
                e
            }
            _ => {
                if *self.class.last().unwrap() == ClassK::None && !self.breaks_rule() {
                    return self.number();
                }
                let l = self.t(T::This, "this");
                Expr::Variable("this".into(), unbound(), l)
            }
        }
    }

    fn number(&mut self) -> Expr {
        let text = match self.r.below(8) {
            _ if self.cfg.dict && self.r.chance(20) => {
                format!("{}", dict::number(self.r).unwrap_or(0))
            }
            0 => "0".to_string(),
            1 => format!("{}", self.r.below(10)),
            2 => format!("{}.{}", self.r.below(1000), self.r.below(1000)),
            3 => format!("00{}", self.r.below(50)),
            4 => {
                let n = self.r.range(15, 40);
                (0..n).map(|_| char::from(b'0' + self.r.below(10) as u8)).collect()
            }
            5 => {
                let n = self.r.range(10, 30);
                let d: String = (0..n).map(|_| char::from(b'0' + self.r.below(10) as u8)).collect();
                format!("0.{d}")
            }
            _ => format!("{}", self.r.below(100)),
        };
        self.t(T::Number, &text);
        Expr::LiteralNumber(text.parse().unwrap())
    }

    fn string_text(&mut self) -> String {
        let mut s = String::new();
        if self.cfg.dict && self.r.chance(40) {
            if let Some(t) = dict::words(self.r) {
                if t.is_ascii() && (self.w.style.long_strings || !t.contains(['\n', '\r'])) {
                    s.push_str(&t);
                    return s;
                }
            }
        }
        for _ in 0..self.r.range(1, 2) {
            if self.w.style.unicode && self.r.chance(10) {
                s.push_str(&self.odd_text());
            } else if self.w.style.unicode && self.r.chance(40) {
                s.push_str(self.r.pick(&USTRINGS));
            } else {
                s.push_str(self.r.pick(&STRINGS));
            }
            if self.w.style.long_strings && self.r.chance(25) {
                s.push_str(self.r.pick(&["\n", "\r\n", "\n\n  ", "\n\tx", "\r", " \n"]));
            }
        }
        s
    }

    /// Any characters that leave the quotes around them alone.
    fn odd_text(&mut self) -> String {
        let mut s = String::new();
        for _ in 0..self.r.range(1, 3) {
            match self.r.below(4) {
                0 => s.push_str(&dict::piece(self.r).unwrap_or_default()),
                1 => s.extend(char::from_u32(self.r.below(0x3000) as u32)),
                _ => s.push_str(self.r.pick(&crate::inputs::CHARS)),
            }
        }
        let quoted = format!("\"{s}\"");
        let mut g = quoted.graphemes(true);
        let whole = g.next() == Some("\"") && g.next_back() == Some("\"");
        if !whole || s.contains('"') || !self.w.style.long_strings && s.contains(['\n', '\r']) {
            return String::new();
        }
        s
    }

    fn string(&mut self) -> Expr {
        let s = self.string_text();
        self.t(T::String, &format!("\"{s}\""));
        Expr::LiteralString(s)
    }

    fn primary(&mut self, p: Pos) -> Expr {
        let k = self.r.below(100);
        match k {
            0..=39 => self.leaf(p),
            40..=54 => {
                let gap = if p.start == Start::Arg { Gap::Some } else { Gap::Free };
                self.tg(T::LeftParen, "(", gap);
                let e = self.expr(CLOSED);
                self.t(T::RightParen, ")");
                Expr::Grouping(Box::new(e))
            }
            55..=66 if p.start != Start::Arg => {
                let n = *self.r.pick(&[0, 1, 2, 3, 4]);
                self.array(n)
            }
            67..=76 if p.start != Start::Stmt => {
                let n = *self.r.pick(&[0, 1, 2, 3]);
                self.braced_map(n)
            }
            77..=84 if p.map => {
                let n = *self.r.pick(&[1, 1, 2, 3]);
                self.bare_map(n, p)
            }
            85..=94 => {
                let l = self.t(T::Fun, "fun");
                let indented = p.delim && p.call && p.map && !self.cfg.flat && self.r.chance(40);
                let f = self.function(FunctionType::PlainFunction, l, indented);
                Expr::Function(Box::new(f))
            }
            95..=97
                if *self.class.last().unwrap() == ClassK::Derived || self.breaks_rule() =>
            {
                let l = self.t(T::Super, "super");
                self.t(T::Dot, ".");
                let n = self.name();
                self.ident(&n);
                Expr::Super(unbound(), n, l)
            }
            _ => self.leaf(p),
        }
    }

    fn array(&mut self, n: usize) -> Expr {
        self.t(T::LeftBracket, "[");
        let trailing = n > 0 && self.r.chance(25);
        let v = self.list(n, if trailing { ITEM } else { CLOSED });
        if trailing {
            self.t(T::Comma, ",");
        }
        self.t(T::RightBracket, "]");
        Expr::LiteralArray(v)
    }

    fn key(&mut self, used: &mut HashSet<String>) -> (String, SourceLoc) {
        loop {
            let quoted = self.r.chance(35);
            let k = if quoted { self.string_text() } else { self.name() };
            let k = if used.contains(&k) {
                self.fresh += 1;
                format!("k{}", self.fresh)
            } else {
                k
            };
            if !used.insert(k.clone()) {
                continue;
            }
            let l = if quoted {
                self.t(T::String, &format!("\"{k}\""))
            } else {
                self.t(T::Identifier, &k)
            };
            self.t(T::Colon, ":");
            return (k, l);
        }
    }

    fn braced_map(&mut self, n: usize) -> Expr {
        self.t(T::LeftBrace, "{");
        let mut m: Map<Expr> = Map::default();
        let mut used = HashSet::new();
        for i in 0..n {
            let (k, _) = self.key(&mut used);
            // How the entry ends: ',' or a line end, or nothing at the last.
            let mut end = self.r.below(if i + 1 == n { 4 } else { 2 });
            if self.cfg.flat && end == 1 {
                end = 0;
            }
            let v = match end {
                0 => self.expr(ITEM),
                1 => self.expr(Pos { call: true, ..ITEM }),
                _ => self.expr(CLOSED),
            };
            m.insert(k, v);
            match end {
                0 => {
                    self.t(T::Comma, ",");
                }
                1 => self.line_end_in_map(),
                _ => (),
            }
        }
        self.t(T::RightBrace, "}");
        Expr::LiteralMap(m)
    }

    fn line_end_in_map(&mut self) {
        self.w.newline(self.r);
    }

    fn bare_map(&mut self, n: usize, p: Pos) -> Expr {
        let mut m: Map<Expr> = Map::default();
        let mut used = HashSet::new();
        for i in 0..n {
            let (k, _) = self.key(&mut used);
            let last = i + 1 == n;
            let line = !last && !self.cfg.flat && self.r.chance(25);
            let trailing = last && p.delim && self.r.chance(20);
            let v = self.expr(if last && !trailing {
                Pos { prec: 0, start: Start::Any, ..p }
            } else if line {
                Pos { call: true, ..ITEM }
            } else {
                ITEM
            });
            m.insert(k, v);
            if line {
                self.line_end_in_map();
            } else if !last || trailing {
                self.t(T::Comma, ",");
            }
        }
        if !p.delim {
            self.bare_end = true;
        }
        Expr::LiteralMap(m)
    }

    fn params(&mut self) -> Vec<Parameter> {
        self.paren();
        let n = if std::mem::take(&mut self.many_params) {
            self.cfg.params
        } else {
            self.r.below(self.cfg.params.min(6) + 1)
        };
        let mut v = vec![];
        for i in 0..n {
            if i > 0 {
                self.t(T::Comma, ",");
            }
            let n = self.new_name();
            let l = self.ident(&n);
            v.push(Parameter { name: n, source_loc: l });
        }
        self.t(T::RightParen, ")");
        v
    }

    fn function(&mut self, kind: FunctionType, loc: SourceLoc, indented: bool) -> FunctionDefinition {
        self.loops.push(0);
        self.scopes.push(HashSet::new());
        self.fun.push(if kind == FunctionType::Initializer { FunK::Init } else { FunK::Plain });
        let parameters = self.params();
        let bare = self.bare_end;
        let (body, _) = self.block(indented);
        self.bare_end = bare;
        self.fun.pop();
        self.scopes.pop();
        self.loops.pop();
        FunctionDefinition { parameters, body, fun_type: kind, source_loc: loc }
    }

    // ------------------------------------------------------------- statements

    /// '{ ... }' or an indented block; true if it ended with '}'.
    fn block(&mut self, indented: bool) -> (Vec<Stmt>, End) {
        if indented {
            self.w.newline(self.r);
            let by = self.r.range(1, self.w.style.max_indent);
            let n = self.w.top() + by;
            self.w.stack.push(n);
            let k = self.many.take().unwrap_or(self.r.range(1, 3));
            let v = self.stmts(k, false);
            self.w.stack.pop();
            (v, End::Line)
        } else {
            self.t(T::LeftBrace, "{");
            let k = if self.cfg.flat { 0 } else { self.many.take().unwrap_or(self.r.below(3)) };
            let v = self.stmts(k, true);
            self.t(T::RightBrace, "}");
            (v, End::Brace)
        }
    }

    fn stmts(&mut self, n: usize, brace_end: bool) -> Vec<Stmt> {
        let mut v = vec![];
        let mut keyword = false;
        self.bare_end = false;
        let top = self.depth == 0;
        for i in 0..n {
            let last = i + 1 == n;
            if top {
                let at = self.w.log.len();
                self.starts.push(at);
            }
            let (s, end) = self.stmt(Want {
                decl: true,
                brace_end: brace_end || !last,
                no_open_if: false,
                keyword,
            });
            keyword = end == End::Expr;
            v.push(s);
        }
        v
    }

    fn stmt(&mut self, w: Want) -> (Stmt, End) {
        self.left -= 1;
        self.depth += 1;
        let after_bare = std::mem::take(&mut self.bare_end);
        let r = self.stmt0(w, after_bare);
        self.depth -= 1;
        r
    }

    fn stmt0(&mut self, w: Want, after_bare: bool) -> (Stmt, End) {
        if let Some(d) = self.cfg.big {
            if self.r.chance(50) {
                if let Some(r) = self.big_stmt(d, w) {
                    return r;
                }
            }
        }
        let deep = self.left <= 0 || self.depth > self.cfg.depth;
        let ws = self.cfg.weights;
        let total: usize = ws.iter().sum();
        let mut k = self.r.below(total);
        let mut class = 0;
        while k >= ws[class] {
            k -= ws[class];
            class += 1;
        }
        if self.stray_loops && self.r.chance(8) {
            return self.jump();
        }
        match class {
            0 => self.simple(w, after_bare),
            1 if w.decl => {
                if !deep && !w.keyword && self.r.chance(40) {
                    self.fun_decl(w)
                } else {
                    self.var_decl(w)
                }
            }
            2 if !deep => self.control(w),
            3 if w.decl && !deep => self.class_decl(w),
            _ => self.simple(w, after_bare),
        }
    }

    fn jump(&mut self) -> (Stmt, End) {
        let b = self.r.chance(50);
        let l = if b { self.t(T::Break, "break") } else { self.t(T::Continue, "continue") };
        self.w.newline(self.r);
        (if b { Stmt::Break(l) } else { Stmt::Continue(l) }, End::Line)
    }

    fn simple(&mut self, w: Want, after_bare: bool) -> (Stmt, End) {
        let k = self.r.below(10);
        if k < 2 && *self.loops.last().unwrap() > 0 {
            return self.jump();
        }
        let full = Pos {
            prec: 0,
            call: true,
            map: !after_bare || k < 6,
            delim: false,
            start: Start::Any,
        };
        let top = *self.fun.last().unwrap();
        if k < 4 && (top != FunK::Top || self.breaks_rule()) {
            let l = self.t(T::Return, "return");
            let e = if self.r.chance(30) || top == FunK::Init && !self.breaks_rule() {
                Expr::LiteralNil
            } else {
                self.expr(full)
            };
            self.w.newline(self.r);
            return (Stmt::Return(e, l), End::Line);
        }
        if k < 6 || w.keyword {
            self.t(T::Print, "print");
            let e = self.expr(full);
            self.w.newline(self.r);
            return (Stmt::Print(e), End::Line);
        }
        // A statement after a map without braces must not begin with an entry:
        // give it no map at all.
        let e = self.expr(Pos { start: Start::Stmt, map: !after_bare, ..full });
        self.w.newline(self.r);
        (Stmt::Expression(e), End::Line)
    }

    fn var_decl(&mut self, w: Want) -> (Stmt, End) {
        self.t(T::Var, "var");
        let n = self.new_name();
        let l = self.ident(&n);
        let mk = |n: String, e: Expr, l| {
            Stmt::Var(n, Cell::new(SlotIndex::placeholder()), Box::new(e), l)
        };
        if self.r.chance(15) {
            self.w.newline(self.r);
            return (mk(n, Expr::LiteralNil, l), End::Line);
        }
        self.t(T::Equal, "=");
        self.pending.push((self.scopes.len(), n.clone()));
        let r = self.var_value(w);
        self.pending.pop();
        (mk(n, r.0, l), r.1)
    }

    fn var_value(&mut self, w: Want) -> (Expr, End) {
        let full = Pos { prec: 0, call: true, map: true, delim: false, start: Start::Any };
        match self.r.below(10) {
            // Value indented on the following lines.
            0 | 1 => {
                self.w.newline(self.r);
                let by = self.r.range(1, self.w.style.max_indent);
                let ind = self.w.top() + by;
                self.w.stack.push(ind);
                let e = if self.r.chance(60) {
                    self.indented_map()
                } else {
                    let e = self.expr(Pos { prec: 1, ..full });
                    self.w.newline(self.r);
                    e
                };
                self.bare_end = false;
                self.w.stack.pop();
                (e, End::Line)
            }
            // Value on the next line.
            2 => {
                self.w.newline(self.r);
                let e = self.expr(full);
                self.w.newline(self.r);
                (e, End::Line)
            }
            3 => {
                let k = self.r.below(3);
                let e = self.braced_map(k);
                if w.brace_end && self.cfg.braces && self.r.chance(50) {
                    (e, End::Expr)
                } else {
                    self.w.newline(self.r);
                    (e, End::Line)
                }
            }
            _ => {
                let e = self.expr(full);
                self.w.newline(self.r);
                (e, End::Line)
            }
        }
    }

    /// Entries on lines of their own; the last line is ended too.
    fn indented_map(&mut self) -> Expr {
        let n = self.r.range(1, 4);
        let mut m: Map<Expr> = Map::default();
        let mut used = HashSet::new();
        for i in 0..n {
            let (k, _) = self.key(&mut used);
            let last = i + 1 == n;
            let how = self.r.below(4);
            let v = match how {
                0 | 1 if last => {
                    self.expr(Pos { prec: 0, call: true, map: true, delim: false, start: Start::Any })
                }
                0 | 1 => self.expr(Pos { call: true, ..ITEM }),
                _ => self.expr(ITEM),
            };
            m.insert(k, v);
            if how <= 1 {
                self.w.newline(self.r);
            } else {
                self.t(T::Comma, ",");
                // The entry after a comma may be on the next line.
                if last || self.r.chance(60) {
                    self.w.line_tail(self.r);
                    self.w.eol();
                    self.w.bol = true;
                }
            }
        }
        Expr::LiteralMap(m)
    }

    fn fun_decl(&mut self, w: Want) -> (Stmt, End) {
        self.t(T::Fun, "fun");
        let n = self.new_name();
        let l = self.tg(T::Identifier, &n, Gap::Free);
        let (f, end) = self.fun_rest(FunctionType::PlainFunction, l, w.brace_end);
        (Stmt::Fun(NamedFunctionDefinition { name: n, fun_def: f }), end)
    }

    fn fun_rest(&mut self, kind: FunctionType, l: SourceLoc, brace_end: bool) -> (FunctionDefinition, End) {
        let indented = !(brace_end && self.cfg.braces && self.r.chance(40));
        let f = self.function(kind, l, indented);
        (f, if indented { End::Line } else { End::Brace })
    }

    fn class_decl(&mut self, w: Want) -> (Stmt, End) {
        self.t(T::Class, "class");
        let n = self.new_name();
        let l = self.ident(&n);
        let mut superclass = None;
        if self.r.chance(40) {
            self.t(T::Less, "<");
            let mut s = self.name();
            if s == n && !self.breaks_rule() {
                s = format!("{n}0");
            }
            let sl = self.ident(&s);
            superclass = Some(Box::new(Expr::Variable(s, unbound(), sl)));
        }
        self.class.push(if superclass.is_some() { ClassK::Derived } else { ClassK::Base });
        let indented = !(w.brace_end && self.cfg.braces && self.r.chance(35));
        let mut methods = vec![];
        let k;
        let many = self.many.take();
        if indented {
            k = many.unwrap_or(self.r.range(1, 3));
            self.w.newline(self.r);
            let by = self.r.range(1, self.w.style.max_indent);
            let ind = self.w.top() + by;
            self.w.stack.push(ind);
        } else {
            k = many.unwrap_or(self.r.below(3));
            self.t(T::LeftBrace, "{");
        }
        for i in 0..k {
            let cm = self.r.chance(25);
            if cm {
                self.t(T::Class, "class");
            }
            let m = if self.r.chance(30) { "init".to_string() } else { self.name() };
            let ml = self.ident(&m);
            let kind = if cm {
                FunctionType::ClassMethod
            } else if m == "init" {
                FunctionType::Initializer
            } else {
                FunctionType::Method
            };
            let last = i + 1 == k;
            let (f, _) = self.fun_rest(kind, ml, !last || !indented);
            methods.push(NamedFunctionDefinition { name: m, fun_def: f });
        }
        let end = if indented {
            self.w.stack.pop();
            End::Line
        } else {
            self.t(T::RightBrace, "}");
            End::Brace
        };
        self.class.pop();
        (Stmt::Class(ClassDefinition { name: n, superclass, methods, source_loc: l }), end)
    }

    fn control(&mut self, w: Want) -> (Stmt, End) {
        match self.r.below(10) {
            0..=3 => self.if_stmt(w),
            4 | 5 => {
                self.t(T::While, "while");
                self.paren();
                let c = self.expr(CLOSED);
                self.t(T::RightParen, ")");
                let (b, end) = self.loop_body(w);
                (Stmt::While(c, Box::new(b)), end)
            }
            6..=8 => self.for_stmt(w),
            _ => {
                if w.brace_end && self.cfg.braces && !w.keyword {
                    self.scopes.push(HashSet::new());
                    let (v, end) = self.block(false);
                    self.scopes.pop();
                    (Stmt::Block(v), end)
                } else {
                    self.if_stmt(w)
                }
            }
        }
    }

    fn loop_body(&mut self, w: Want) -> (Stmt, End) {
        *self.loops.last_mut().unwrap() += 1;
        let r = self.body(w);
        *self.loops.last_mut().unwrap() -= 1;
        r
    }

    /// A body: indented, braced, or one statement on the line.
    fn body(&mut self, w: Want) -> (Stmt, End) {
        let k = self.r.below(10);
        if k < 5 || !self.cfg.braces && k < 8 {
            self.scopes.push(HashSet::new());
            let (v, end) = self.block(true);
            self.scopes.pop();
            (Stmt::Block(v), end)
        } else if k < 8 && w.brace_end {
            self.scopes.push(HashSet::new());
            let (v, end) = self.block(false);
            self.scopes.pop();
            (Stmt::Block(v), end)
        } else {
            self.single(w)
        }
    }

    fn single(&mut self, w: Want) -> (Stmt, End) {
        self.left -= 1;
        self.depth += 1;
        let after_bare = false;
        let w = Want { decl: false, keyword: false, ..w };
        let deep = self.left <= 0 || self.depth > self.cfg.depth;
        let r = if !deep && self.r.chance(35) {
            match self.r.below(3) {
                0 => self.if_stmt(w),
                1 => self.for_stmt(w),
                _ => {
                    self.t(T::While, "while");
                    self.paren();
                    let c = self.expr(CLOSED);
                    self.t(T::RightParen, ")");
                    let (b, end) = self.loop_body(w);
                    (Stmt::While(c, Box::new(b)), end)
                }
            }
        } else {
            self.simple(w, after_bare)
        };
        self.depth -= 1;
        r
    }

    fn if_stmt(&mut self, w: Want) -> (Stmt, End) {
        self.t(T::If, "if");
        self.paren();
        let c = self.expr(CLOSED);
        self.t(T::RightParen, ")");
        let with_else = w.no_open_if || self.r.chance(40);
        let (then, end) = self.body(Want {
            no_open_if: with_else,
            brace_end: w.brace_end || with_else,
            ..w
        });
        if !with_else {
            return (Stmt::If(c, Box::new(then), None), end);
        }
        self.t(T::Else, "else");
        let (e, end) = self.body(w);
        (Stmt::If(c, Box::new(then), Some(Box::new(e))), end)
    }

    fn for_stmt(&mut self, w: Want) -> (Stmt, End) {
        self.t(T::For, "for");
        self.paren();
        self.scopes.push(HashSet::new());
        let init = match self.r.below(3) {
            0 => {
                self.t(T::Semicolon, ";");
                None
            }
            1 => {
                self.t(T::Var, "var");
                let n = self.new_name();
                let l = self.ident(&n);
                let e = if self.r.chance(80) {
                    self.t(T::Equal, "=");
                    self.pending.push((self.scopes.len(), n.clone()));
                    let e = self.expr(CLOSED);
                    self.pending.pop();
                    e
                } else {
                    Expr::LiteralNil
                };
                self.t(T::Semicolon, ";");
                Some(Stmt::Var(n, Cell::new(SlotIndex::placeholder()), Box::new(e), l))
            }
            _ => {
                let e = self.expr(CLOSED);
                self.t(T::Semicolon, ";");
                Some(Stmt::Expression(e))
            }
        };
        let cond = if self.r.chance(25) { Expr::LiteralBool(true) } else { self.expr(CLOSED) };
        self.t(T::Semicolon, ";");
        let inc = if self.r.chance(35) { None } else { Some(self.expr(CLOSED)) };
        self.t(T::RightParen, ")");
        let (b, end) = self.loop_body(w);
        self.scopes.pop();
        let b = Box::new(b);
        let l = match inc {
            None => Stmt::While(cond, b),
            Some(i) => Stmt::WhileIncrement(cond, b, Box::new(i)),
        };
        (
            match init {
                None => l,
                Some(i) => Stmt::Block(vec![i, l]),
            },
            end,
        )
    }

    // ------------------------------------------------------------ entry points

    /// A whole program.
    pub fn program(&mut self) -> Vec<Stmt> {
        let mut n = self.cfg.stmts;
        if self.cfg.big == Some(Big::Stmts) && self.r.chance(40) {
            n = self.turn(Big::Stmts, 1100);
        }
        let brace_end = !self.cfg.final_newline;
        let v = self.stmts(n, brace_end);
        if self.w.bol {
            self.w.noise(self.r);
        }
        v
    }

    /// An expression on its own (no line end), as `parse_expression` takes it.
    pub fn expression(&mut self, statement: bool) -> Expr {
        let start = if statement { Start::Stmt } else { Start::Any };
        self.expr(Pos { prec: 0, call: true, map: true, delim: false, start })
    }
}

/// A random program: text, tree, token log.
pub struct Made {
    pub text: String,
    pub tree: Vec<Stmt>,
    pub log: Vec<Written>,
    pub starts: Vec<usize>,
}

pub fn made(r: &mut Rng, style: Style, cfg: Cfg) -> Made {
    let mut g = G::new(r, style, cfg);
    let tree = g.program();
    Made { text: g.w.out, tree, log: g.w.log, starts: g.starts }
}

pub fn any(r: &mut Rng) -> Made {
    let style = Style::random(r);
    let cfg = Cfg::normal(r);
    made(r, style, cfg)
}
