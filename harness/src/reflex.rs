//! Reference lexer, written from the language description: a character pass
//! that classifies the source into items, then a layout pass over physical
//! lines. It shares no code with the scanner under test.
use unicode_segmentation::UnicodeSegmentation;
use whitespace::token::TokenType as T;

#[derive(Clone, Debug, PartialEq)]
pub struct RTok {
    pub ty: T,
    pub text: String,
    pub string: Option<String>,
    pub number: Option<f64>,
    pub line: u32,
    pub col: u32,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum LexKind {
    Tab,
    BadChar,
    Backslash,
    Dedent,
    Unterminated,
}

#[derive(Clone, Debug, PartialEq)]
pub struct LexErr {
    pub kind: LexKind,
    pub line: u32,
    pub col: u32,
    pub text: String,
}

#[derive(Clone, Debug)]
enum Item {
    Blank,
    /// A lone carriage return.
    Cr,
    Tab,
    Comment,
    /// Backslash, blanks and the newline.
    Join,
    Stray,
    Newline(String),
    Solid { ty: T, text: String, string: Option<String>, number: Option<f64> },
    Bad(String),
    Open,
}

pub const KEYWORDS: [(&str, T); 18] = [
    ("and", T::And),
    ("break", T::Break),
    ("class", T::Class),
    ("continue", T::Continue),
    ("else", T::Else),
    ("false", T::False),
    ("for", T::For),
    ("fun", T::Fun),
    ("if", T::If),
    ("nil", T::Nil),
    ("or", T::Or),
    ("print", T::Print),
    ("return", T::Return),
    ("super", T::Super),
    ("this", T::This),
    ("true", T::True),
    ("var", T::Var),
    ("while", T::While),
];

/// Tokens after which a line continues.
pub fn continues(ty: T) -> bool {
    matches!(
        ty,
        T::LeftParen
            | T::LeftParenAbutting
            | T::LeftBrace
            | T::LeftBracket
            | T::Colon
            | T::Comma
            | T::Dot
            | T::Minus
            | T::Plus
            | T::Star
            | T::Slash
            | T::Less
            | T::LessEqual
            | T::Greater
            | T::GreaterEqual
    )
}

pub fn is_newline(g: &str) -> bool {
    g == "\n" || g == "\r\n"
}

fn digit(g: &str) -> bool {
    g.len() == 1 && g.as_bytes()[0].is_ascii_digit()
}

fn word_start(g: &str) -> bool {
    let c = g.chars().next().unwrap();
    c == '_' || c.is_alphabetic()
}

fn word_part(g: &str) -> bool {
    let c = g.chars().next().unwrap();
    c == '_' || c.is_alphanumeric()
}

pub struct Lexed {
    pub toks: Vec<RTok>,
    pub errs: Vec<LexErr>,
}

pub fn lex(src: &str) -> Lexed {
    let gs: Vec<&str> = src.graphemes(true).collect();
    // Position of every grapheme, and of the end.
    let mut pos = Vec::with_capacity(gs.len() + 1);
    let (mut l, mut c) = (1u32, 1u32);
    for g in &gs {
        pos.push((l, c));
        if is_newline(g) {
            l += 1;
            c = 1;
        } else {
            c += 1;
        }
    }
    pos.push((l, c));

    let items = classify(&gs);
    layout(&items, &pos)
}

/// What a stretch of source is, for edits that keep or break the layout.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Piece {
    Blank,
    Cr,
    Tab,
    Comment,
    Join,
    Stray,
    Newline,
    Solid(T),
    Bad,
    Open,
}

/// The source cut into classified pieces (byte ranges).
pub fn pieces(src: &str) -> Vec<(Piece, usize, usize)> {
    let gs: Vec<&str> = src.graphemes(true).collect();
    let mut off = Vec::with_capacity(gs.len() + 1);
    let mut n = 0;
    for g in &gs {
        off.push(n);
        n += g.len();
    }
    off.push(n);
    let items = classify(&gs);
    let mut out = Vec::with_capacity(items.len());
    for (k, (it, at)) in items.iter().enumerate() {
        let end = items.get(k + 1).map_or(gs.len(), |(_, e)| *e);
        let p = match it {
            Item::Blank => Piece::Blank,
            Item::Cr => Piece::Cr,
            Item::Tab => Piece::Tab,
            Item::Comment => Piece::Comment,
            Item::Join => Piece::Join,
            Item::Stray => Piece::Stray,
            Item::Newline(_) => Piece::Newline,
            Item::Solid { ty, .. } => Piece::Solid(*ty),
            Item::Bad(_) => Piece::Bad,
            Item::Open => Piece::Open,
        };
        out.push((p, off[*at], off[end]));
    }
    out
}

fn classify(gs: &[&str]) -> Vec<(Item, usize)> {
    // Character pass.
    let mut items: Vec<(Item, usize)> = Vec::new();
    let mut i = 0;
    let mut abut = false;
    while i < gs.len() {
        let s = i;
        let g = gs[i];
        i += 1;
        let mut white = false;
        let item = match g {
            " " => {
                white = true;
                Item::Blank
            }
            "\r" => {
                white = true;
                Item::Cr
            }
            "\t" => {
                white = true;
                Item::Tab
            }
            "\n" | "\r\n" => {
                white = true;
                Item::Newline(g.to_string())
            }
            "\\" => {
                while i < gs.len() && gs[i] == " " {
                    i += 1;
                }
                if i < gs.len() && gs[i] == "\r" {
                    i += 1;
                }
                if i < gs.len() && is_newline(gs[i]) {
                    i += 1;
                    white = true;
                    Item::Join
                } else {
                    Item::Stray
                }
            }
            "\"" => {
                let from = i;
                while i < gs.len() && gs[i] != "\"" {
                    i += 1;
                }
                if i == gs.len() {
                    Item::Open
                } else {
                    let body = gs[from..i].concat();
                    i += 1;
                    Item::Solid {
                        ty: T::String,
                        text: gs[s..i].concat(),
                        string: Some(body),
                        number: None,
                    }
                }
            }
            "/" if i < gs.len() && gs[i] == "/" => {
                while i < gs.len() && !is_newline(gs[i]) {
                    i += 1;
                }
                Item::Comment
            }
            _ => {
                let eq = i < gs.len() && gs[i] == "=";
                let ty = match g {
                    "(" if abut => Some(T::LeftParenAbutting),
                    "(" => Some(T::LeftParen),
                    ")" => Some(T::RightParen),
                    "{" => Some(T::LeftBrace),
                    "}" => Some(T::RightBrace),
                    "[" => Some(T::LeftBracket),
                    "]" => Some(T::RightBracket),
                    ":" => Some(T::Colon),
                    "," => Some(T::Comma),
                    "." => Some(T::Dot),
                    "-" => Some(T::Minus),
                    "+" => Some(T::Plus),
                    ";" => Some(T::Semicolon),
                    "/" => Some(T::Slash),
                    "*" => Some(T::Star),
                    "!" if eq => Some(T::BangEqual),
                    "!" => Some(T::Bang),
                    "=" if eq => Some(T::EqualEqual),
                    "=" => Some(T::Equal),
                    "<" if eq => Some(T::LessEqual),
                    "<" => Some(T::Less),
                    ">" if eq => Some(T::GreaterEqual),
                    ">" => Some(T::Greater),
                    _ => None,
                };
                if let Some(ty) = ty {
                    if matches!(ty, T::BangEqual | T::EqualEqual | T::LessEqual | T::GreaterEqual) {
                        i += 1;
                    }
                    Item::Solid { ty, text: gs[s..i].concat(), string: None, number: None }
                } else if digit(g) {
                    while i < gs.len() && digit(gs[i]) {
                        i += 1;
                    }
                    if i + 1 < gs.len() && gs[i] == "." && digit(gs[i + 1]) {
                        i += 1;
                        while i < gs.len() && digit(gs[i]) {
                            i += 1;
                        }
                    }
                    let text = gs[s..i].concat();
                    let number = decimal(&text);
                    Item::Solid { ty: T::Number, text, string: None, number: Some(number) }
                } else if word_start(g) {
                    while i < gs.len() && word_part(gs[i]) {
                        i += 1;
                    }
                    let text = gs[s..i].concat();
                    let ty = KEYWORDS
                        .iter()
                        .find(|(k, _)| *k == text)
                        .map_or(T::Identifier, |(_, t)| *t);
                    Item::Solid { ty, text, string: None, number: None }
                } else {
                    Item::Bad(g.to_string())
                }
            }
        };
        abut = !white;
        items.push((item, s));
    }

    items
}

/// Decimal conversion; C07 checks the values with `exact_decimal` as well.
pub fn decimal(text: &str) -> f64 {
    text.parse().unwrap()
}

/// Is `x` a double nearest to the decimal `text` (ties to even)? Decided with
/// big-integer arithmetic, independently of the standard library's parser.
pub fn exact_decimal(text: &str, x: f64) -> bool {
    if !x.is_finite() || x < 0.0 {
        return text.len() > 300;
    }
    let (int, frac) = text.split_once('.').unwrap_or((text, ""));
    // value = digits / 10^k
    let digits: Vec<u8> = int.bytes().chain(frac.bytes()).map(|b| b - b'0').collect();
    let k = frac.len();
    let bits = x.to_bits();
    // Compare 2*value with (prev + x) and (x + next).
    let lo = if bits == 0 { None } else { Some(f64::from_bits(bits - 1)) };
    let hi = f64::from_bits(bits + 1);
    let even = bits & 1 == 0;
    let v2 = Big::from_digits(&digits).mul(2);
    let ok_lo = match lo {
        None => true,
        Some(p) => match cmp_scaled(&v2, k, p, x) {
            std::cmp::Ordering::Greater => true,
            std::cmp::Ordering::Equal => even,
            std::cmp::Ordering::Less => false,
        },
    };
    let ok_hi = match cmp_scaled(&v2, k, x, hi) {
        std::cmp::Ordering::Less => true,
        std::cmp::Ordering::Equal => even,
        std::cmp::Ordering::Greater => false,
    };
    ok_lo && ok_hi
}

fn parts(x: f64) -> (u64, i32) {
    let b = x.to_bits();
    let e = (b >> 52 & 0x7ff) as i32;
    let m = b & ((1 << 52) - 1);
    if e == 0 { (m, -1074) } else { (m | 1 << 52, e - 1075) }
}

/// Compare v2 / 10^k with a + b (adjacent doubles).
fn cmp_scaled(v2: &Big, k: usize, a: f64, b: f64) -> std::cmp::Ordering {
    let (ma, ea) = parts(a);
    let (mb, eb) = parts(b);
    let e = ea.min(eb);
    let sum = ((ma as u128) << (ea - e)) + ((mb as u128) << (eb - e));
    let mut right = Big::from_u128(sum);
    let mut left = v2.clone();
    for _ in 0..k {
        right = right.mul(10);
    }
    for _ in 0..e.max(0) {
        right = right.mul(2);
    }
    for _ in 0..(-e).max(0) {
        left = left.mul(2);
    }
    left.cmp(&right)
}

#[derive(Clone)]
struct Big(Vec<u32>);

impl Big {
    fn from_u128(mut x: u128) -> Big {
        let mut v = vec![];
        while x > 0 {
            v.push(x as u32);
            x >>= 32;
        }
        Big(v)
    }
    fn from_digits(d: &[u8]) -> Big {
        let mut b = Big(vec![]);
        for x in d {
            b = b.mul(10);
            let mut carry = *x as u64;
            for w in b.0.iter_mut() {
                let s = *w as u64 + carry;
                *w = s as u32;
                carry = s >> 32;
            }
            if carry > 0 {
                b.0.push(carry as u32);
            }
        }
        b
    }
    fn mul(&self, m: u64) -> Big {
        let mut out = Vec::with_capacity(self.0.len() + 1);
        let mut carry = 0u64;
        for w in &self.0 {
            let p = *w as u64 * m + carry;
            out.push(p as u32);
            carry = p >> 32;
        }
        if carry > 0 {
            out.push(carry as u32);
        }
        Big(out)
    }
    fn cmp(&self, o: &Big) -> std::cmp::Ordering {
        self.0.len().cmp(&o.0.len()).then_with(|| self.0.iter().rev().cmp(o.0.iter().rev()))
    }
}

/// Layout pass: physical lines to Terminator, Indent and Outdent tokens.
fn layout(items: &[(Item, usize)], pos: &[(u32, u32)]) -> Lexed {
    let mut toks: Vec<RTok> = Vec::new();
    let mut errs: Vec<LexErr> = Vec::new();
    let mut open: Vec<usize> = Vec::new();
    let mut continued = false;
    let mut k = 0;
    let mark = |ty: T, text: &str, at: usize| RTok {
        ty,
        text: text.to_string(),
        string: None,
        number: None,
        line: pos[at].0,
        col: pos[at].1,
    };
    while k < items.len() {
        // One physical line: items k..end, the terminating item included.
        let mut end = k;
        while end < items.len() && !matches!(items[end].0, Item::Newline(_) | Item::Join) {
            end += 1;
        }
        let line = &items[k..end];
        let mut lead = 0;
        let mut first = None;
        for (j, (it, _)) in line.iter().enumerate() {
            match it {
                Item::Blank => lead += 1,
                Item::Cr | Item::Tab | Item::Comment | Item::Stray => (),
                Item::Solid { .. } | Item::Bad(_) | Item::Open => {
                    first = Some(j);
                    break;
                }
                Item::Newline(_) | Item::Join => unreachable!(),
            }
        }
        // Does the line ask for the next one to continue it?
        let mut wants = false;
        for (j, (it, at)) in line.iter().enumerate() {
            if Some(j) == first {
                let top = open.last().copied().unwrap_or(0);
                if lead > top {
                    if !continued {
                        toks.push(mark(T::Indent, "", *at));
                        open.push(lead);
                    }
                } else if lead < top {
                    while open.last().is_some_and(|o| *o > lead) {
                        open.pop();
                        toks.push(mark(T::Outdent, "", *at));
                    }
                    if lead != open.last().copied().unwrap_or(0) {
                        errs.push(LexErr {
                            kind: LexKind::Dedent,
                            line: pos[*at].0,
                            col: pos[*at].1,
                            text: String::new(),
                        });
                    }
                }
            }
            let mut err = |kind, at: usize, text: &str| {
                errs.push(LexErr { kind, line: pos[at].0, col: pos[at].1, text: text.to_string() })
            };
            match it {
                Item::Solid { ty, text, string, number, .. } => {
                    wants = continues(*ty);
                    let mut t = mark(*ty, text, *at);
                    t.string = string.clone();
                    t.number = *number;
                    toks.push(t);
                }
                Item::Bad(text) => {
                    wants = false;
                    err(LexKind::BadChar, *at, text)
                }
                Item::Stray => {
                    wants = false;
                    err(LexKind::Backslash, *at, "\\")
                }
                Item::Tab => err(LexKind::Tab, *at, "\t"),
                Item::Open => err(LexKind::Unterminated, pos.len() - 1, ""),
                _ => (),
            }
        }
        if end == items.len() {
            break;
        }
        match &items[end].0 {
            Item::Join => continued = true,
            Item::Newline(text) => {
                if first.is_some() {
                    if !wants {
                        toks.push(mark(T::Terminator, text, items[end].1));
                    }
                    continued = wants;
                }
            }
            _ => unreachable!(),
        }
        k = end + 1;
    }
    let last = pos.len() - 1;
    for _ in &open {
        toks.push(mark(T::Outdent, "", last));
    }
    toks.push(mark(T::Eof, "", last));
    Lexed { toks, errs }
}
