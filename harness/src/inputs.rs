//! Shared input streams: generated programs, mutants, soups and a
//! coverage-guided corpus.
use crate::clock;
use crate::dict;
use crate::make;
use crate::rt::{Ctx, Res, Rng, TextFn};
use std::collections::HashSet;
use std::sync::Mutex;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Stream {
    /// Generated valid programs.
    Valid,
    /// Mutations of valid programs.
    Mutant,
    /// Random tokens with random line breaks and indentation.
    Soup,
    /// Random characters.
    Chars,
    /// Short lines with arbitrary indentation, comments, continuations.
    Layout,
    /// Mutations of inputs that reached new coverage.
    Guided,
    /// Generated programs that break static rules.
    Rules,
    /// Hand-written programs, and mutations of them.
    Seeds,
    /// One generated expression on a line.
    Exprs,
    /// One token or line changed in a short program: each of them once, then
    /// further changed.
    Edits,
    /// Every small composition of the forms of the language.
    Small,
}

pub struct Store {
    seen: HashSet<u32>,
    corpus: Vec<String>,
    feats: Vec<u32>,
    pub rng: Rng,
}

static ALL: Mutex<Vec<bool>> = Mutex::new(Vec::new());

fn note_edges() {
    let mut a = ALL.lock().unwrap();
    if a.len() < clock::MAP {
        a.resize(clock::MAP, false);
    }
    for e in clock::edges_hit() {
        a[e as usize] = true;
    }
}

/// Every edge of the code under test hit in this process.
pub fn all_edges() -> Vec<usize> {
    note_edges();
    ALL.lock().unwrap().iter().enumerate().filter(|(_, h)| **h).map(|(i, _)| i).collect()
}

impl Store {
    pub fn new(seed: u64) -> Store {
        Store { seen: HashSet::new(), corpus: vec![], feats: vec![], rng: Rng::new(seed) }
    }
}

/// Run a text oracle on the next input of one of the streams.
pub fn drive(ctx: &mut Ctx, f: TextFn, streams: &[Stream], idx: u64) -> Res {
    // Shards take every 8th index: rotate with the index div 8.
    let s = streams[(idx / 8) as usize % streams.len()];
    let text = match s {
        Stream::Edits => {
            let n = edits();
            // A prime step: every edit once, in mixed order.
            let k = (idx % n * 1_000_003 + ctx.seed) % n;
            let once = idx < n;
            let s = edit(k);
            let r = &mut ctx.rng;
            if once {
                s
            } else {
                let k = r.range(1, 3);
                mutate(r, s, k)
            }
        }
        Stream::Small => crate::small::nth(idx, ctx.seed),
        _ => produce(ctx, s),
    };
    ctx.stats.add(&format!("inputs {s:?}"), 1);
    clock::reset_hits();
    ctx.rng = Rng::new(crate::rt::mix(ctx.seed) ^ crate::rt::hash(text.as_bytes()));
    let r = f(ctx, &text);
    let mut feats = std::mem::take(&mut ctx.store.feats);
    clock::features(&mut feats);
    let mut new = false;
    for x in &feats {
        new |= ctx.store.seen.insert(*x);
    }
    ctx.store.feats = feats;
    if new && text.len() < 4000 {
        note_edges();
        ctx.store.corpus.push(text);
        ctx.stats.add("inputs with new coverage", 1);
    }
    r
}

pub fn produce(ctx: &mut Ctx, s: Stream) -> String {
    let r = &mut ctx.rng;
    match s {
        Stream::Valid => make::any(r).text,
        Stream::Exprs => {
            let style = make::Style::random(r);
            let cfg = make::Cfg::normal(r);
            let mut g = make::G::new(r, style, cfg);
            g.expression(false);
            g.w.out
        }
        Stream::Rules if r.chance(8) => crowd(r),
        Stream::Rules if r.chance(10) => quoted(r),
        Stream::Rules => rules(r).text,
        Stream::Mutant => {
            let a = if r.chance(25) { rules(r).text } else { make::any(r).text };
            let n = *r.pick(&[1, 1, 1, 2, 2, 3, 5]);
            mutate(r, a, n)
        }
        Stream::Soup => soup(r),
        Stream::Chars => chars(r),
        Stream::Layout => layout(r),
        Stream::Edits => {
            let i = r.u64();
            edit(i % edits())
        }
        Stream::Small => {
            let i = r.u64();
            crate::small::text(i % crate::small::all())
        }
        Stream::Seeds => {
            let a = r.pick(&SEEDS).to_string();
            let n = r.below(4);
            mutate(r, a, n)
        }
        Stream::Guided => {
            if ctx.store.corpus.is_empty() {
                return make::any(r).text;
            }
            let i = r.below(ctx.store.corpus.len());
            let mut a = ctx.store.corpus[i].clone();
            if r.chance(25) {
                let j = r.below(ctx.store.corpus.len());
                let b = &ctx.store.corpus[j];
                a = splice(r, &a, b);
            }
            let n = r.range(1, 6);
            mutate(r, a, n)
        }
    }
}

/// A program that is grammatical and may break static rules.
pub fn rules(r: &mut Rng) -> make::Made {
    let style = make::Style::random(r);
    let mut cfg = make::Cfg::normal(r);
    cfg.legal = false;
    cfg.illegal = *r.pick(&[2, 5, 15, 40]);
    cfg.names = *r.pick(&[2, 3, 5]);
    make::made(r, style, cfg)
}

pub fn floor_char(s: &str, mut i: usize) -> usize {
    i = i.min(s.len());
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    i
}

pub fn splice(r: &mut Rng, a: &str, b: &str) -> String {
    if r.chance(50) {
        let la: Vec<&str> = a.split_inclusive('\n').collect();
        let lb: Vec<&str> = b.split_inclusive('\n').collect();
        let i = r.below(la.len() + 1);
        let j = r.below(lb.len() + 1);
        la[..i].concat() + &lb[j..].concat()
    } else {
        let i = floor_char(a, r.below(a.len() + 1));
        let j = floor_char(b, r.below(b.len() + 1));
        format!("{}{}", &a[..i], &b[j..])
    }
}

pub const TOKENS: [&str; 56] = [
    "(", ")", "{", "}", "[", "]", ":", ",", ".", "-", "+", ";", "/", "*", "!", "!=", "=", "==", "<",
    "<=", ">", ">=", "a", "b", "x", "f", "init", "1", "2.5", "\"s\"", "\"k\"", "and", "break",
    "class", "continue", "else", "false", "for", "fun", "if", "nil", "or", "print", "return",
    "super", "this", "true", "var", "while", "// c\n", "\\\n", "\n", "\n", "\n  ", "\n    ", " ",
];

const SNIPS: [&str; 30] = [
    "f(a, b)",
    "f a, b",
    "if (x)\n  ",
    "else\n  ",
    "while (x) ",
    "for (;;)\n  ",
    "fun f(a)\n  ",
    "fun (a) {}",
    "class A\n  ",
    "class A < B\n  ",
    "init()\n    ",
    "return\n",
    "break\n",
    "continue\n",
    "var x = \n",
    "a: 1, ",
    "\"k\": 2\n",
    "super.m()",
    "this.x = 1\n",
    "[1, 2,]",
    "{a: 1}",
    "x[0]",
    "-1",
    "!x",
    "\r\n",
    "\t",
    "\\",
    "\"",
    "\\  \n",
    "print 1\n",
];

fn soup(r: &mut Rng) -> String {
    let mut s = String::new();
    let n = *r.pick(&[2, 4, 8, 16, 40]);
    let sub: Vec<&str> = if r.chance(50) {
        (0..r.range(3, 9)).map(|_| *r.pick(&TOKENS)).collect()
    } else {
        TOKENS.to_vec()
    };
    let depth = r.range(0, 3);
    for _ in 0..n {
        if r.chance(10) {
            s.push_str(r.pick(&SNIPS));
            continue;
        }
        if r.chance(2) {
            s.push_str(&dict::words(r).unwrap_or_default());
        }
        s.push_str(r.pick(&sub));
        match r.below(10) {
            0 | 1 => (),
            2 => {
                s.push('\n');
                s.push_str(&" ".repeat(2 * r.range(0, depth)));
            }
            _ => s.push(' '),
        }
    }
    if r.chance(70) {
        s.push('\n');
    }
    s
}

pub const CHARS: [&str; 64] = [
    "a", "b", "_", "1", "0", "9", ".", "\"", "\"", "\\", "/", "/", "//", " ", " ", "  ", "\n", "\n",
    "\n", "\r", "\r\n", "\t", "(", ")", "{", "}", "[", "]", ":", ",", ";", "=", "!", "<", ">", "+",
    "-", "*", "é", "e\u{301}", "\u{301}", "\u{200d}", "👩‍👩‍👧", "🇫🇷", "變", "ß", "٣", "²", "½",
    "Ⅳ", "@", "#", "$", "'", "`", "\u{0}", "\u{feff}", "\u{2028}", "\u{a0}", "\u{85}", "\u{600}",
    "ab", "if", "\u{1f1eb}",
];

fn chars(r: &mut Rng) -> String {
    let n = *r.pick(&[1, 2, 3, 5, 8, 13, 30, 80]);
    let sub: Vec<&str> = if r.chance(60) {
        (0..r.range(2, 8)).map(|_| *r.pick(&CHARS)).collect()
    } else {
        CHARS.to_vec()
    };
    let mut s = String::new();
    for _ in 0..n {
        if r.chance(2) {
            if let Some(c) = char::from_u32(r.below(0x11_0000) as u32) {
                s.push(c);
            }
        }
        if r.chance(3) {
            s.push_str(&dict::piece(r).unwrap_or_default());
        }
        s.push_str(r.pick(&sub));
        if r.chance(1) {
            // One character of many.
            let n = dict::size(r, 300);
            s.push_str(&r.pick(&["\u{301}", "\u{200d}👧", "\u{345}\u{301}"]).repeat(n));
        }
    }
    s
}

/// Mistakes whose errors quote odd texts.
fn quoted(r: &mut Rng) -> String {
    const ODD: [&str; 24] = [
        "", " ", "a ", " a", "a\n", "\n", "\ta", "a\t", "'", "a'b", "\\", "\\n", "{}", "{0}", "%s", "é", "e\u{301}", "\u{301}", "\u{0}", "\u{1b}[1m", "a\r\n b",
        "👩‍👩‍👧", "]: ", "//",
    ];
    let words = dict::words(r).filter(|w| !w.contains('"'));
    let k = match words {
        Some(w) if r.chance(30) => w,
        _ => {
            let mut k = r.pick(&ODD).to_string();
            while r.chance(30) {
                k.push_str(r.pick(&ODD));
            }
            k
        }
    };
    const FORMS: [&str; 11] = [
        "x = {\"@\": 1, \"@\": 2}\n", "\"@\": 1, \"@\": 2\n", "x = {\"@\": 1, \"@\": 2}\n", "x = {a: 1, \"@\": 1, b: 2, \"@\": 2} c\n", "\"@\": 1, \"@\": 2\n", "class \"@\"\n", "fun \"@\"()\n  a\n", "for (\"@\")\n",
        "x = [1 \"@\"]\n", "var a = 1 \"@\"\n", "x. \"@\"\n",
    ];
    let mut s = String::new();
    for _ in 0..r.range(1, 3) {
        s.push_str(&r.pick(&FORMS).replace('@', &k));
    }
    s
}

/// Many mistakes on few lines.
pub fn crowd(r: &mut Rng) -> String {
    const RULES: [&str; 10] = [
        "class A < A {}", "class B < B { m() {} }", "fun f(a, a) {}", "fun f(b, a, b) { return\n}", "{ class C < C {} }", "{ return a\n}",
        "if (this) {}", "while (super.m) {}", "{ var a = a\n}", "fun g() { class D < D {} }",
    ];
    const SYNTAX: [&str; 8] = ["var )", "print )", "class 1", "fun f(", "if b", "while }", "return )", "for (a"];
    const LEXICAL: [&str; 5] = ["@", "$ ", "\t", "a # b", "\\ x"];
    let kind = r.below(4);
    let sub = r.range(1, 6);
    let mut s = String::new();
    for _ in 0..*r.pick(&[2, 3, 3, 4, 5, 8, 12]) {
        match if kind == 3 { r.below(3) } else { kind } {
            0 => s.push_str(RULES[r.below(RULES.len()) % sub.max(3)]),
            1 => s.push_str(r.pick(&SYNTAX)),
            _ => s.push_str(r.pick(&LEXICAL)),
        }
        s.push_str(r.pick(&[" ", " ", " ", "; ", "\n"]));
        if r.chance(15) {
            s.push_str("x = 1\n");
        }
    }
    s.push('\n');
    s
}

const LINES: [&str; 26] = [
    "a", "a +", "f(", ")", "x = {", "}", "a: 1,", "a: 1", "if (x)", "else", "while (x)", "b \\",
    "\\", "[1,", "2]", "print 1", "class A", "m()", "fun f()", "return 1", "\"s\n  t\"", "a <", "x.",
    "var y =", "", "a // c",
];

fn layout(r: &mut Rng) -> String {
    let mut s = String::new();
    let n = *r.pick(&[2, 3, 5, 8, 15, 30]);
    let widths: Vec<usize> = match r.below(3) {
        0 => vec![0, 2, 4, 6],
        1 => vec![0, 1, 2, 3, 4, 5],
        _ => vec![0, 4, 8, 12, 3],
    };
    let crlf = r.chance(25);
    let simple = r.chance(30);
    for k in 0..n {
        let eol = if crlf && r.chance(90) { "\r\n" } else { "\n" };
        match r.below(12) {
            0 => s.push_str(&" ".repeat(r.below(8))),
            1 => {
                s.push_str(&" ".repeat(r.below(8)));
                s.push_str("// c");
            }
            _ => {
                s.push_str(&" ".repeat(*r.pick(&widths)));
                s.push_str(if simple { "a" } else { r.pick(&LINES) });
                if r.chance(15) {
                    s.push_str(r.pick(&[" ", "   ", " // c", "//", " \r", "\\", " \\ ", "\t"]));
                }
            }
        }
        if k + 1 < n || r.chance(80) {
            s.push_str(eol);
        }
    }
    s
}

/// Split into words, numbers, strings, operators, blanks and line ends.
pub fn chunks(s: &str) -> Vec<&str> {
    let b = s.as_bytes();
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        let st = i;
        let c = b[i];
        if c.is_ascii_alphanumeric() || c == b'_' || c >= 0x80 {
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_' || b[i] >= 0x80) {
                i += 1;
            }
        } else if c == b' ' {
            while i < b.len() && b[i] == b' ' {
                i += 1;
            }
        } else if c == b'"' {
            i += 1;
            while i < b.len() && b[i] != b'"' {
                i += 1;
            }
            i = (i + 1).min(b.len());
        } else if c == b'\r' && b.get(i + 1) == Some(&b'\n') {
            i += 2;
        } else if (b"=!<>".contains(&c) && b.get(i + 1) == Some(&b'='))
            || (c == b'/' && b.get(i + 1) == Some(&b'/'))
        {
            i += 2;
        } else {
            i += 1;
        }
        v.push(&s[st..i]);
    }
    v
}

pub fn mutate(r: &mut Rng, mut s: String, n: usize) -> String {
    for _ in 0..n {
        s = mutate_once(r, &s);
    }
    if s.len() > 20_000 {
        let k = floor_char(&s, 20_000);
        s.truncate(k);
    }
    s
}

fn mutate_once(r: &mut Rng, s: &str) -> String {
    match r.below(10) {
        0..=4 => {
            let mut v: Vec<String> = chunks(s).into_iter().map(str::to_string).collect();
            if v.is_empty() {
                return r.pick(&SNIPS).to_string();
            }
            // Mostly work on what is not blank.
            let mut i = r.below(v.len());
            for _ in 0..3 {
                if v[i].trim_matches(' ').is_empty() {
                    i = r.below(v.len());
                }
            }
            match r.below(9) {
                0 | 1 => {
                    v.remove(i);
                }
                2 => {
                    let c = v[i].clone();
                    v.insert(i, c);
                }
                3 => {
                    let j = r.below(v.len());
                    v.swap(i, j);
                }
                4 if r.chance(15) => {
                    if let Some(w) = dict::words(r) {
                        v[i] = w;
                    }
                }
                4 | 5 => v[i] = r.pick(&TOKENS).to_string(),
                6 => {
                    let t = format!(" {} ", r.pick(&TOKENS));
                    v.insert(i, t);
                }
                7 => v.insert(i, r.pick(&SNIPS).to_string()),
                _ => {
                    let j = (i + 1 + r.below(6)).min(v.len());
                    v.drain(i..j);
                }
            }
            v.concat()
        }
        5..=7 => {
            let mut v: Vec<String> = s.split_inclusive('\n').map(str::to_string).collect();
            if v.is_empty() {
                return "\n".into();
            }
            let i = r.below(v.len());
            match r.below(9) {
                0 => {
                    v.remove(i);
                }
                1 => {
                    let c = v[i].clone();
                    v.insert(i, c);
                }
                2 => {
                    let j = r.below(v.len());
                    v.swap(i, j);
                }
                3 => v[i] = format!("{}{}", " ".repeat(r.range(1, 4)), v[i]),
                4 => {
                    let k = r.range(1, 4);
                    let mut l = v[i].clone();
                    for _ in 0..k {
                        if l.starts_with(' ') {
                            l.remove(0);
                        }
                    }
                    v[i] = l;
                }
                5 => v[i] = v[i].trim_end_matches(['\n', '\r']).to_string(),
                6 => v.insert(i, r.pick(&LINES).to_string() + "\n"),
                7 => {
                    let j = r.below(v.len());
                    let l = v.remove(i);
                    let j = j.min(v.len());
                    v.insert(j, l);
                }
                _ => {
                    let by = " ".repeat(r.range(1, 4));
                    for l in v.iter_mut().skip(i) {
                        *l = format!("{by}{l}");
                    }
                }
            }
            v.concat()
        }
        8 => {
            let i = floor_char(s, r.below(s.len() + 1));
            let mut j = i;
            if r.chance(50) {
                j = floor_char(s, (i + r.range(1, 3)).min(s.len()));
            }
            let ins = if r.chance(15) {
                dict::piece(r).unwrap_or_default()
            } else if r.chance(60) {
                r.pick(&CHARS).to_string()
            } else {
                String::new()
            };
            format!("{}{}{}", &s[..i], ins, &s[j.max(i)..])
        }
        _ => match r.below(4) {
            0 => s[..floor_char(s, r.below(s.len() + 1))].to_string(),
            1 => s.replace("\r\n", "\n").replace('\n', "\r\n"),
            2 => {
                // Duplicate a stretch.
                let i = floor_char(s, r.below(s.len() + 1));
                let j = floor_char(s, (i + r.below(40)).min(s.len()));
                format!("{}{}{}", &s[..j], &s[i..j], &s[j..])
            }
            _ => s.trim_end_matches(['\n', '\r', ' ']).to_string(),
        },
    }
}

pub const SEEDS: [&str; 22] = [
    "print \"Hello, world!\"\n",
    "var a = 1\nvar b = a + 2 * 3\nprint a / b - -1\n",
    "fun fib(n)\n  if (n < 2) return n\n  return fib(n - 1) + fib(n - 2)\n\nprint fib(20)\n",
    "class A\n  init(x)\n    this.x = x\n  get()\n    return this.x\n  class make()\n    return A 1\nclass B < A\n  get()\n    return super.get() + 1\n",
    "for (var i = 0; i < 10; i = i + 1)\n  if (i == 5) continue\n  else if (i > 7)\n    break\n  print i\n",
    "var m =\n  a: 1\n  \"b c\": [1, 2,\n     3]\n  d: fun (x) { return x\n  }\nprint m[\"a\"]\n",
    "f fun(x) { return x\n}, 1\n",
    "f(fun(x)\n    return x + 1\n)\n",
    "x = a or b and c == d < e + f * -g.h[1](2)(3) i, j\n",
    "while (true) { break\n} print 1\n",
    "var x = {a: 1, \"b\": {c: []}} print x\n",
    "a.b.c = d[e] = f = nil\n",
    "if (a)\n  if (b)\n    c\n  else\n    d\nelse\n  e\n",
    "fun outer()\n  var x = 1\n  fun inner()\n    x = x + 1\n    return x\n  return inner\n",
    "var s = \"multi\nline // string\"\nprint s // comment\n",
    "a +\n   b \\\n  + c\n  \n  // note\nd\n",
    "g: 1,\n  h: 2\n",
    "var x =\n  g: 1,\n  h: 2,\nprint x\n",
    "class A {init() { } m() { this.x = 1\n} } A().m()\n",
    "{ var a = 1\n{ var a = 2\nprint a\n} print a\n} b\n",
    "f a, b: 1, c: 2\n",
    "return 1\nthis\nsuper.x\nclass A < A\n  m()\n    super.m()\n",
];

/// A program far down or far to the right, within the columns there are.
pub fn far(r: &mut Rng) -> String {
    use unicode_segmentation::UnicodeSegmentation;
    loop {
        let s = farther(r);
        if s.split('\n').all(|l| l.len() < 65_000 || l.graphemes(true).count() < 65_533) {
            return s;
        }
    }
}

fn farther(r: &mut Rng) -> String {
    let n = *r.pick(&[65_534, 65_535, 65_536, 65_537, 70_000, 131_071, 131_073]);
    let n = n - r.below(4);
    let mut s = match r.below(7) {
        0 => "\n".repeat(n),
        1 => "//\r\n".repeat(n),
        2 => "a\n".repeat(n),
        3 => format!("a = \"{}\"\n", "\n".repeat(n)),
        4 => format!("a = {}b\n", "\\\n".repeat(n)),
        5 => format!("a = {}b\n", " ".repeat(n - 8)),
        _ => {
            // A line that ends about there.
            let s = format!("f(\"{}\", ", "x".repeat(65_520));
            let k = r.below(40);
            format!("{s}{}1)\n", " ".repeat(k))
        }
    };
    let mut t = match r.below(4) {
        0 => chars(r),
        1 => BASES[r.below(BASES.len())].to_string(),
        _ => make::any(r).text,
    };
    if r.chance(40) {
        t = mutate(r, t, 1);
    }
    if r.chance(20) {
        // On the last line itself.
        s.pop();
        if s.ends_with('\r') {
            s.pop();
        }
        s.push(' ');
    }
    s.push_str(&t);
    s
}

/// Short programs that use each construct, in each of its notations.
pub const BASES: [&str; 92] = [
    "a\n",
    "a = 1\n",
    "a.b = 1\n",
    "a[0] = b = 2\n",
    "x or y and z\n",
    "a == b != c\n",
    "a < b <= c > d >= e\n",
    "a + b - c * d / e\n",
    "-a + !b\n",
    "!-a.b\n",
    "(a)\n",
    "a.b.c\n",
    "a[b][c]\n",
    "f()\n",
    "f(a)(b)\n",
    "f(a, 1, \"s\")\n",
    "f(a,\n  b)\n",
    "f a\n",
    "f a, b\n",
    "f (a), b\n",
    "f g h\n",
    "f nil, true\n",
    "f {a: 1}\n",
    "f a: 1, b: 2\n",
    "f fun(x) { x\n}\n",
    "f(fun(x)\n    x\n)\n",
    "f super.m\n",
    "[]\n",
    "[1, a]\n",
    "[1, a,]\n",
    "[a\n, b]\n",
    "x = {}\n",
    "x = {a: 1}\n",
    "x = {a: 1, \"b\": 2}\n",
    "x = {a: 1, b: 2,}\n",
    "x = {a: 1\nb: 2\n}\n",
    "x = a: 1, b: 2\n",
    "a: 1\nb: 2\n",
    "var x\n",
    "var x = 1\n",
    "var x =\n1\n",
    "var x =\n  1\n",
    "var x =\n  a: 1\n  b: 2\n",
    "var x =\n  a: 1,\n  b: 2,\ny\n",
    "var x = {a: 1} print x\n",
    "print 1\n",
    "print f a\n",
    "if (a) b\n",
    "if (a) b\nelse c\n",
    "if (a)\n  b\n",
    "if (a)\n  b\nelse\n  c\n",
    "if (a) { b\n} else c\n",
    "if (a) b\nelse if (c) d\nelse e\n",
    "while (a) b\n",
    "while (a)\n  b\n  c\n",
    "while (a) { b\n} c\n",
    "while (a) break\n",
    "while (a)\n  continue\n",
    "for (;;) a\n",
    "for (a; b; c) d\n",
    "for (var i = 0; i < 9; i = i + 1)\n  print i\n",
    "for (var i;;) { break\n} x\n",
    "fun f()\n  1\n",
    "fun f(a, b)\n  return a\n",
    "fun f() {} x\n",
    "fun f() { return\n} x\n",
    "g = fun() {}\n",
    "g = fun (a, b) { return a\n}\n",
    "class A\n  m()\n    1\n",
    "class A < B\n  init(a)\n    this.a = a\n  class k()\n    super.k()\n",
    "class A { m() {} class k() {} } x\n",
    "class A < B {} x\n",
    "{ a\n} b\n",
    "{ var a = 1\n{ a\n} } b\n",
    "a \\\n  + b\n",
    "a +\n  b\n// c\nprint \"x\ny\"\n",
    "var a = 1\n{ var a = 2 print a } print a\n",
    "var a = a\n",
    "{ var a = a } a\n",
    "{ var a fun f() { return a } } f\n",
    "fun f(a)\n  var b = a\n  g = fun(c) { return a + b + c }\n",
    "fun f()\n  fun g()\n    f(g)\n  g()\n",
    "fun f(a)\n  if (a)\n    var a = 1\n    print a\n  a = 2\n",
    "for (var i = 0; i < 3; i = i + 1)\n  fun f() { return i } f()\n",
    "while (a)\n  var b = a\n  a = b\nb\n",
    "class A\n  m(a)\n    this.b = a\n    f = fun() { return this.b }\n",
    "class A\n  init()\n    return\n  m()\n    return A\n",
    "class A < B\n  m()\n    super.m()\n    fun f() { super.m(this) } f()\n",
    "{ class A { m() { return A } } A } A\n",
    "class A {} class B < A {} x\n",
    "class A\n  class m()\n    this.n()\n  m()\n    class B\n      m()\n        this\n",
    "{ var x = fun() { return y } var y = x } y\n",
];

/// Tokens to put in.
const PUT: [&str; 50] = [
    "(", ")", "{", "}", "[", "]", ":", ",", ".", "-", "+", ";", "/", "*", "!", "!=", "=", "==", "<",
    "<=", ">", ">=", "a", "1", "\"s\"", "and", "break", "class", "continue", "else", "false", "for",
    "fun", "if", "nil", "or", "print", "return", "super", "this", "true", "var", "while", "\n", "\n  ",
    "\\\n", "a:", "()", "{}", "super.m",
];

/// Ways to change one place: put each token there (with or without blanks),
/// put it instead of the one there, remove, double and swap.
const WAYS: u64 = 3 * 50 + 3;
/// Ways to change one line.
const LINE_WAYS: u64 = 9;

fn places() -> &'static Vec<(u64, usize, usize, bool)> {
    use std::sync::OnceLock;
    static V: OnceLock<Vec<(u64, usize, usize, bool)>> = OnceLock::new();
    V.get_or_init(|| {
        let mut v = vec![];
        let mut at = 0;
        for (b, s) in BASES.iter().enumerate() {
            for k in 0..chunks(s).len() {
                v.push((at, b, k, false));
                at += WAYS;
            }
            for k in 0..s.split_inclusive('\n').count() {
                v.push((at, b, k, true));
                at += LINE_WAYS;
            }
        }
        v.push((at, 0, 0, false));
        v
    })
}

/// The number of edits.
pub fn edits() -> u64 {
    places().last().unwrap().0
}

/// The i-th edit of the short programs.
pub fn edit(i: u64) -> String {
    let v = places();
    let k = v.partition_point(|p| p.0 <= i) - 1;
    let (at, b, k, line) = v[k];
    let way = i - at;
    if line {
        let mut l: Vec<String> = BASES[b].split_inclusive('\n').map(str::to_string).collect();
        match way {
            0 => {
                l.remove(k);
            }
            1 => {
                let c = l[k].clone();
                l.insert(k, c);
            }
            2..=4 => l[k] = format!("{}{}", &"   "[..way as usize - 1], l[k]),
            5 => l[k] = l[k].trim_start_matches(' ').to_string(),
            6 => l[k] = l[k].strip_prefix(' ').unwrap_or(&l[k]).to_string(),
            7 => l.insert(k, "\n".into()),
            _ => {
                let c = l.remove(k);
                l.push(c);
            }
        }
        return l.concat();
    }
    let c = chunks(BASES[b]);
    let before = c[..k].concat();
    let after = c[k + 1..].concat();
    let this = c[k];
    match way {
        0..50 => format!("{before} {} {this}{after}", PUT[way as usize]),
        50..100 => format!("{before}{}{this}{after}", PUT[way as usize - 50]),
        100..150 => format!("{before}{}{after}", PUT[way as usize - 100]),
        150 => format!("{before}{after}"),
        151 => format!("{before}{this} {this}{after}"),
        _ => match c.get(k + 1) {
            Some(n) => format!("{before}{n}{this}{}", c[k + 2..].concat()),
            None => format!("{before}{this}"),
        },
    }
}
