//! Every small composition of the language's forms: expressions in expressions
//! in statements, statements in statements, and short strings of tokens.
use crate::inputs::TOKENS;

const LEAVES: [&str; 18] = [
    "a", "1", "2.5", "\"s\"", "nil", "true", "this", "[]", "[1]", "{}", "{k: 1}", "k: 1", "super.m", "f()", "a.b", "a[0]", "fun() {}",
    "f a",
];

/// `@` is where the inner expression goes.
const AROUND: [&str; 58] = [
    "(@)", "-@", "!@", "@.b", "@[0]", "a[@]", "@()", "@(a)", "@ (a)", "@ b", "@ 1, 2", "f(@)", "f(@, b)", "f(b, @)", "f @", "f @, b",
    "f b, @", "[@]", "[@,]", "[@, b]", "[b, @]", "{k: @}", "{k: @, l: 1}", "{k: 1\nl: @\n}", "k: @", "k: 1, l: @", "x = @", "x.y = @",
    "x[0] = @", "@ = 1", "@ = x = 1", "x = @ = 1", "@ or b", "b or @", "@ and b", "b and @", "@ == b", "b == @", "@ != b", "b != @",
    "@ < b", "b < @", "@ >= b", "b <= @", "@ > b", "@ + b", "b + @", "@ - b", "b - @", "@ * b", "b * @", "@ / b", "b / @",
    "fun() { return @\n}", "fun(a) {@\n}", "fun(a)\n    @\n", "@ +\n  b", "(@ \\\n)",
];

const IN_STATEMENT: [&str; 22] = [
    "@\n", "@", "print @\n", "var x = @\n", "var x =\n  @\n", "var x =\n@\ny\n", "fun f()\n  return @\n", "fun f() { return @\n} x\n", "if (@) a\nelse b\n",
    "if (a) @\nelse b\n", "if (a) b\nelse @\nc\n", "if (a)\n  @\nb\n", "if (a) { @\n} b\n", "while (@) a\n", "while (a)\n  @\n",
    "for (@;;) a\n", "for (; @;) a\n", "for (;; @) a\n", "for (var x = @; b; c) d\n", "class A\n  init(x)\n    this.x = @\n", "{ @\n} x\n",
    "class A < B\n  class m() { @\n}\n  n() { @\n}\n",
];

const STATEMENTS: [&str; 20] = [
    "a", "print a", "var a", "var a = 1", "var a = a", "return", "return a", "break", "continue", "{}", "{ a\n}", "f a", "k: 1", "fun g() {}",
    "fun g()\n  a", "class A {}", "class A\n  m()\n    a", "class A < B\n  init()\n    super.m()", "$ a", "fun(a) {}",
];

/// Statement in statement: `@` inline, `#` indented on its own lines.
const STMT_AROUND: [&str; 44] = [
    "if (a) @", "if (a)\n#", "if (a) { @\n}", "if (a) {@}", "if (a) b\nelse @", "if (a) b\nelse\n#", "if (a) b\nelse { @\n}", "if (a) @\nelse b",
    "if (a)\n#\nelse\n  b", "if (a) { @\n} else b", "if (a) b\nelse if (c) @\nelse d", "while (a) @", "while (a)\n#", "while (a) { @\n}",
    "while (a) {@} b", "for (;;) @", "for (;;)\n#", "for (var i = 0; i; i = i) @", "for (var a;;)\n#", "for (;; a = 1) { @\n} b", "fun f()\n#", "fun f(a)\n#",
    "fun f(a) { @\n}", "fun f() {@} b", "f = fun()\n#", "f = fun(b) { @\n}", "f(fun()\n#\n)", "class A\n  m()\n##", "class A\n  init(b)\n##", "class A < B\n  class m()\n##",
    "class A { m() { @\n} }", "class A {m() {@} n() {@}} b", "{ @\n}", "{@} b", "{ a\n@\n} b", "@\nb", "b\n@", "@ b", "@ // c", "@\n\n", "var a\n@", "var a = 1\n#",
    "@\n@", "@; b",
];

fn indent(s: &str, by: &str) -> String {
    s.split('\n').map(|l| if l.is_empty() { String::new() } else { format!("{by}{l}") }).collect::<Vec<_>>().join("\n")
}

fn put(form: &str, s: &str) -> String {
    form.replace("##", &indent(s, "    ")).replace('#', &indent(s, "  ")).replace('@', s)
}

const L: u64 = LEAVES.len() as u64;
const E: u64 = AROUND.len() as u64;
const S: u64 = IN_STATEMENT.len() as u64;
const ST: u64 = STATEMENTS.len() as u64;
const SA: u64 = STMT_AROUND.len() as u64;
const T: u64 = TOKENS.len() as u64;

/// Statements that stand for the others in every pair of forms.
const FEW: [&str; 3] = ["a", "break", "var a"];
const F: u64 = FEW.len() as u64;
/// Leaves that stand for the others there.
const SOME: [&str; 6] = ["a", "a.b", "a[0]", "f()", "1", "k: 1"];
const O: u64 = SOME.len() as u64;

/// How many parts come in full before the others begin.
const EARLY: usize = 6;
const PARTS: [u64; 10] = [
    L * S,
    L * E * S,
    ST * SA,
    T * T,
    // Every pair of forms.
    O * E * E,
    F * SA * SA,
    // The larger ones.
    L * E * E * S,
    ST * SA * SA,
    ST * SA * SA * SA,
    T * T * T,
];

pub fn first() -> u64 {
    PARTS[..EARLY].iter().sum()
}

pub fn all() -> u64 {
    PARTS.iter().sum()
}

fn take(i: &mut u64, n: u64) -> usize {
    let k = *i % n;
    *i /= n;
    k as usize
}

pub fn text(i: u64) -> String {
    let mut i = i;
    let mut part = 0;
    while i >= PARTS[part] {
        i -= PARTS[part];
        part += 1;
    }
    let i = &mut i;
    match part {
        4 => {
            let s = SOME[take(i, O)];
            put(AROUND[take(i, E)], &put(AROUND[take(i, E)], s)) + "\n"
        }
        5 => {
            let s = FEW[take(i, F)];
            put(STMT_AROUND[take(i, SA)], &put(STMT_AROUND[take(i, SA)], s)) + "\n"
        }
        0 | 1 | 6 => {
            let mut s = LEAVES[take(i, L)].to_string();
            for _ in 0..[0, 1, 0, 0, 0, 0, 2][part] {
                s = put(AROUND[take(i, E)], &s);
            }
            IN_STATEMENT[take(i, S)].replace('@', &s)
        }
        2 | 7 | 8 => {
            let mut s = STATEMENTS[take(i, ST)].to_string();
            for _ in 0..[1, 2, 3][part.saturating_sub(6)] {
                s = put(STMT_AROUND[take(i, SA)], &s);
            }
            s + "\n"
        }
        _ => {
            let mut s = String::new();
            for _ in 0..if part == 3 { 2 } else { 3 } {
                s.push_str(TOKENS[take(i, T)]);
                s.push(' ');
            }
            s.pop();
            s.push('\n');
            s
        }
    }
}

/// The k-th of a run: the small ones once, then the others in mixed order, of
/// each kind as many.
pub fn nth(k: u64, seed: u64) -> String {
    let f = first();
    if k < f {
        return text((k * 1_000_003 + seed) % f);
    }
    let k = k - f;
    let part = EARLY + (k % 4) as usize;
    let at: u64 = PARTS[..part].iter().sum();
    let n = PARTS[part];
    // A prime step, from elsewhere with every seed.
    let start = crate::rt::mix(seed) % n;
    text(at + (start + (k / 4) % n * 1_000_003) % n)
}
