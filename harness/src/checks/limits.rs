//! C01 and C02: an answer for every input, in bounded work.
use super::*;
use crate::api::Live;
use crate::clock;
use crate::inputs::Stream::*;
use crate::inputs::{self, TOKENS, mutate};
use crate::rt::{Ctx, End, Parent, Rng, Tier};
use std::sync::atomic::Ordering::Relaxed;
use std::time::Duration;

pub fn all() -> Vec<Check> {
    vec![
        Check::new(
            "C01",
            "every kind of input through every entry point, panics, overflows and deaths of the process caught; non-trivial: any text of at least 2 characters",
        )
        .text("streams", 110_000, 3_500_000, doors, &[Chars, Soup, Layout, Mutant, Guided, Valid, Seeds, Rules, Exprs])
        .cases("sentences", 30_000, 600_000, |c, i| super::syntax::sentences(c, i, doors))
        .cases("pairs", 4_096, 40_000, pairs)
        .cases("long", 320, 2_600, long)
        .cases("counts", listed_number() + 150, 12_000, counts)
        .cases("lone", 2_000, 40_000, lone)
        .cases("sessions", 4_000, 100_000, sessions)
        .text("edits", 200_000, 1_000_000, doors, &[Edits])
        .text("small", 24_000, 1_500_000, doors, &[Small])
        .cases("far", 80, 960, |c, _| { let s = inputs::far(&mut c.rng); doors(c, &s) })
        .needs(&["trees", "rejections", "resolved", "refused by the resolver", "deep programs answered"])
        .parent(deep),
        Check::new(
            "C02",
            "executed edges of the code under test as a step clock: growth of the work when an input is repeated, its ratio to the input's size, and the size of the output; non-trivial: a family measured at three sizes",
        )
        .cases("families", 1_600, 40_000, families)
        .cases("listed", listed_number(), listed_number(), listed)
        .cases("depths", 1_200, 40_000, depths)
        .text("streams", 40_000, 1_200_000, proportional, &[Layout, Chars, Soup, Mutant, Guided, Valid, Rules, Seeds])
        .cases("big", 64, 400, big)
        .needs(&["families measured", "families accepted", "families rejected", "families resolved", "outputs bounded", "big inputs timed", "nests measured", "nests resolved"]),
    ]
}

// ------------------------------------------------------------------------ C01

/// Every entry point on one text.
fn doors(c: &mut Ctx, src: &str) -> Res {
    let small = src.len() < 3_000;
    match api::scan(src) {
        Ok(_) => (),
        Err(e) => {
            some_error(src, "scan", &e)?;
            api::call("Display", src, || e.to_string());
        }
    }
    for repl in [false, true] {
        let r = if repl { api::repl(src) } else { api::parse(src) };
        match r {
            Ok(t) => {
                c.stats.add("trees", 1);
                if small && !repl {
                    api::show(src, &t);
                }
                match api::resolve(src, t) {
                    Ok(t) => {
                        c.stats.add("resolved", 1);
                        if small && repl {
                            api::call("Debug", src, || format!("{t:#?}"));
                        }
                    }
                    Err(e) => {
                        c.stats.add("refused by the resolver", 1);
                        some_error(src, "resolve", &e)?;
                        api::call("Display", src, || e.to_string());
                    }
                }
            }
            Err(e) => {
                c.stats.add("rejections", 1);
                some_error(src, "parse", &e)?;
                api::call("Display", src, || e.to_string());
            }
        }
    }
    match api::expr(src) {
        Ok(e) => {
            if small {
                api::show(src, &e);
            }
        }
        Err(e) => {
            some_error(src, "parse_expression", &e)?;
            api::call("Display", src, || e.to_string());
        }
    }
    // Token lists of any kind handed straight to the parser.
    let _ = api::parse_in_steps(src, true);
    if src.chars().count() > 1 {
        c.stats.nontrivial(src);
    }
    Ok(())
}

/// Every pair of tokens, with and without blanks and line ends.
fn pairs(c: &mut Ctx, idx: u64) -> Res {
    let n = TOKENS.len() as u64;
    let (a, b) = (TOKENS[(idx / n % n) as usize], TOKENS[(idx % n) as usize]);
    for s in ["", " ", "\n", "\n  "] {
        for e in ["", "\n"] {
            doors(c, &format!("{a}{s}{b}{e}"))?;
        }
    }
    if idx < 1024 {
        doors(c, a)?;
    }
    let t = *c.rng.pick(&TOKENS);
    doors(c, &format!("{a} {b} {t}"))
}

/// Single characters of all kinds in several surroundings.
fn lone(c: &mut Ctx, idx: u64) -> Res {
    let cp = if idx < 1_000 { idx as u32 } else { c.rng.below(0x11_0000) as u32 };
    let Some(ch) = char::from_u32(cp) else { return Ok(()) };
    for s in [
        format!("{ch}"),
        format!("a{ch}b\n"),
        format!("1{ch}2\n"),
        format!("{ch}\n  {ch}\n"),
        format!("\"{ch}\"\n"),
        format!("//{ch}\nx"),
        format!("x = {ch}\n"),
        format!("\\{ch}\na"),
    ] {
        doors(c, &s)?;
    }
    Ok(())
}

/// Very long lines, tokens, files, indentations, lists.
fn long(c: &mut Ctx, idx: u64) -> Res {
    let r = &mut c.rng;
    let n = *r.pick(&[300, 65_530, 65_534, 65_535, 65_536, 65_537, 70_000]);
    let sep = *r.pick(&["", "", " ", "\n"]);
    let t = *r.pick(&TOKENS);
    let s = match idx % 20 {
        0 => t.repeat(n.min(20_000)),
        1 => format!("{}{t}\n", " ".repeat(n)),
        2 => format!("{}{t}{t}\n{}{t}\n", "x".repeat(n), " ".repeat(n)),
        3 => format!("\"{}\" {t} b\n", "é".repeat(n)),
        4 => format!("\"{}\" {t} b", "\n".repeat(n)),
        5 => format!("{}{t}", "\n".repeat(n)),
        6 => format!("{} {t}\n", "9".repeat(n)),
        7 => format!("{}.{} {t}\n", "1".repeat(n), "0".repeat(n)),
        8 => format!("//{}\n{t}", "c".repeat(n)),
        9 => format!("f({})\n", vec![t; n.min(3_000)].join(", ")),
        10 => format!("x = [{}]\n", vec!["1"; n.min(30_000)].join(", ")),
        11 => {
            let k: Vec<String> = (0..n.min(3_000)).map(|i| format!("k{i}: {i}")).collect();
            format!("x = {{{}}}\n", k.join(", "))
        }
        12 => {
            let k: Vec<String> = (0..n.min(3_000)).map(|i| format!("k{i}")).collect();
            format!("fun f({}) {{}} {t}\n", k.join(", "))
        }
        13 => format!("{t}{}", format!("{sep}a = 1\n").repeat(n.min(20_000))),
        14 => (0..n.min(2_000)).map(|i| format!("var v{i} = v{}\n", i / 2)).collect(),
        15 => (0..300).map(|i| format!("{}if (x)\n", " ".repeat(i * (1 + n % 3)))).collect::<String>() + t,
        16 => {
            // Down and up again in odd steps.
            let mut s = String::new();
            for _ in 0..n.min(3_000) {
                s.push_str(&" ".repeat(r.below(40)));
                s.push_str("a\n");
            }
            s
        }
        17 => format!("class A\n{}", "  m()\n    this.x = 1\n".repeat(n.min(2_000))),
        18 => format!("{t} \\\n").repeat(n.min(5_000)),
        _ => format!("{}{t}\r\n", " ".repeat(n)).repeat(3),
    };
    let s = if r.chance(25) { mutate_lightly(r, &s) } else { s };
    c.stats.max("bytes", s.len() as u64);
    doors(c, &s)
}

/// As many of one thing as a small counter cannot hold.
fn counts(c: &mut Ctx, idx: u64) -> Res {
    let r = &mut c.rng;
    let listed = idx < listed_number();
    let f = if listed { FRAGS[idx as usize % FRAGS.len()] } else { *r.pick(&FRAGS) };
    let (h, t) = if listed { HEADS[idx as usize / FRAGS.len() % HEADS.len()] } else { *r.pick(&HEADS) };
    let n = match if listed { 3 } else { r.below(12) } {
        0..=2 => 256,
        3..=4 => 257,
        5 => 255,
        6 => 128,
        7 => r.range(120, 600),
        8 => 1_025,
        9 | 10 => 300,
        _ => *r.pick(&[4_097, 32_769, 65_537]),
    };
    // Deep nesting is another matter.
    let nesting = ["(", "[", "{"].iter().any(|b| f.matches(b).count() > f.matches([')', ']', '}']).count());
    let nests = nesting || ["! ", "a = ", "f a, b\n", "  a\nb\n", "a ", "a", "1 ", "1", "1.5 ", "\"s\" ", "a \\\n  ", "else ", ".a", "f() ", "f()", "[0]", " + a", "+ ", "- "].contains(&f);
    let n = if nests { n.min(300) } else { n };
    let n = n.min(150_000 / f.len());
    let s = repeat(h, f, t, n);
    c.stats.max("repetitions", n as u64);
    // Long enough not to be printed, which takes its time for what nests.
    doors(c, &format!("//{}\n{s}", "-".repeat(3_000)))
}

fn mutate_lightly(r: &mut Rng, s: &str) -> String {
    let i = inputs::floor_char(s, r.below(s.len() + 1));
    format!("{}{}{}", &s[..i], r.pick(&TOKENS), &s[i..])
}

/// One resolver over many sources, accepted or not.
fn sessions(c: &mut Ctx, _: u64) -> Res {
    let mut live = Live::new();
    for _ in 0..c.rng.range(2, 10) {
        let s = *c.rng.clone().pick(&[Valid, Rules, Mutant, Soup, Seeds]);
        let text = inputs::produce(c, s);
        let _ = live.feed(&text);
    }
    Ok(())
}

// -------------------------------------------------------- nesting and the stack

/// Nested forms, by depth.
fn nested(form: &str, n: usize) -> String {
    let wrap = |a: &str, x: &str, b: &str| format!("{}{x}{}\n", a.repeat(n), b.repeat(n));
    let lines = |h: &str, x: &str| {
        let mut s = String::new();
        for i in 0..n {
            s.push_str(&" ".repeat(i));
            s.push_str(h);
            s.push('\n');
        }
        s.push_str(&" ".repeat(n));
        s.push_str(x);
        s.push('\n');
        s
    };
    match form {
        "parentheses" => wrap("(", "1", ")"),
        "arrays" => wrap("[", "1", "]"),
        "maps" => format!("x = {}", wrap("{a: ", "1", "}")),
        "minus" => wrap("-", "1", ""),
        "not" => wrap("!", "x", ""),
        "calls" => wrap("f(", "x", ")"),
        "bare calls" => wrap("f ", "x", ""),
        "indices" => wrap("a[", "x", "]"),
        "assignments" => wrap("a = ", "1", ""),
        "sum" => wrap("1 + ", "1", ""),
        "or" => wrap("a or ", "b", ""),
        "accesses" => wrap("", "a", ".b"),
        "empty calls" => wrap("", "f", "()"),
        "ifs" => wrap("if (a) ", "b", ""),
        "whiles" => wrap("while (a) ", "b", ""),
        "fors" => wrap("for (;;) ", "b", ""),
        "braces" => format!("{}x\n{} y\n", "{ ".repeat(n), "} ".repeat(n)),
        "functions" => format!("x = {}1\n{} y\n", "fun () { return ".repeat(n), "\n}".repeat(n)),
        "else ifs" => format!("if (a) b\n{}", "else if (a) b\n".repeat(n)),
        "indented ifs" => lines("if (a)", "b"),
        "indented functions" => lines("fun f()", "b"),
        "open parentheses" => "(".repeat(n),
        "open arrays" => "[".repeat(n),
        "open braces" => "{ ".repeat(n),
        _ => unreachable!(),
    }
}

const FORMS: [&str; 24] = [
    "parentheses",
    "arrays",
    "maps",
    "minus",
    "not",
    "calls",
    "bare calls",
    "indices",
    "assignments",
    "sum",
    "or",
    "accesses",
    "empty calls",
    "ifs",
    "whiles",
    "fors",
    "braces",
    "functions",
    "else ifs",
    "indented ifs",
    "indented functions",
    "open parentheses",
    "open arrays",
    "open braces",
];

/// Nesting any program may have; anything up to here must be answered.
const USUAL: usize = 200;
/// Nesting at which the unbounded recursion shows (see known-findings).
const EXTREME: usize = 20_000;
const EXTREME_LINES: usize = 3_000;

pub fn deep_helper(a: &[String]) -> i32 {
    print!("{}", nested(&a[0], a[1].parse().unwrap()));
    0
}

fn deep(p: &mut Parent) -> Result<(), String> {
    let bin = super::system::cli(p)?;
    let known = known(p, "C01");
    let mut jobs = vec![];
    for f in FORMS {
        jobs.push((f, USUAL));
        jobs.push((f, if f.starts_with("indented") { EXTREME_LINES } else { EXTREME }));
        if p.tier == Tier::Thorough {
            for d in [1, 2, 10, 50, 100, 150] {
                jobs.push((f, d));
            }
        }
    }
    let run = |i: usize, f: &str, d: usize| -> Result<End, String> {
        let path = p.dir.join(format!("deep{i}.ws"));
        std::fs::write(&path, nested(f, d)).map_err(|e| e.to_string())?;
        let mut child = std::process::Command::new("sh")
            .args(["-c", "ulimit -c 0; ulimit -s 8192; exec \"$0\" \"$1\""])
            .arg(&bin)
            .arg(&path)
            .stdin(std::process::Stdio::null())
            .stdout(std::process::Stdio::null())
            .stderr(std::process::Stdio::null())
            .spawn()
            .map_err(|e| e.to_string())?;
        let end = crate::rt::wait(&mut child, Duration::from_secs(120));
        let _ = std::fs::remove_file(&path);
        Ok(end)
    };
    let next = std::sync::atomic::AtomicUsize::new(0);
    let ends = std::sync::Mutex::new(vec![]);
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| {
                loop {
                    let i = next.fetch_add(1, Relaxed);
                    let Some((f, d)) = jobs.get(i) else { return };
                    let e = run(i, f, *d);
                    ends.lock().unwrap().push((i, e));
                }
            });
        }
    });
    let mut ends = ends.into_inner().unwrap();
    ends.sort_by_key(|x| x.0);
    for (i, end) in ends {
        let (f, d) = jobs[i];
        p.stats.cases += 1;
        let key = format!("nesting {f} x{d}");
        let text: String = nested(f, d).chars().take(4000).collect();
        match end? {
            End::Code(0) | End::Code(65) => p.stats.add("deep programs answered", 1),
            End::Signal(s @ (4 | 6 | 7 | 8 | 11)) => {
                p.stats.add("deep programs that ended the process", 1);
                if known.iter().any(|k| *k == key) {
                    p.known.push(format!("KNOWN-FINDING: property=C01 {key}: the stack overflows (signal {s})"));
                } else {
                    p.violate("deep", &key, &text, format!("the program died of signal {s} on {key}"));
                }
            }
            End::Code(x) => p.violate("deep", &key, &text, format!("exit status {x} on {key}")),
            End::Signal(s) => p.inconclusive.push(format!("{key}: signal {s}")),
            End::Timeout => p.inconclusive.push(format!("{key}: no answer in 120 s")),
        }
    }
    Ok(())
}

/// The inputs listed for a property in the known-findings file.
pub fn known(p: &Parent, id: &str) -> Vec<String> {
    let t = std::fs::read_to_string(p.verif.join("known-findings.txt")).unwrap_or_default();
    let head = format!("finding: property={id} ");
    t.lines()
        .filter_map(|l| l.strip_prefix(&head))
        .map(|l| l.split(" :: ").next().unwrap_or(l).trim().to_string())
        .collect()
}

// ------------------------------------------------------------------------ C02

#[derive(Clone, Copy, Debug, Default)]
struct Work {
    bytes: u64,
    scan: u64,
    parse: u64,
    resolve: u64,
    memory: u64,
    /// Deepest nesting of scopes of the tree.
    depth: usize,
    accepted: bool,
    resolved: bool,
}

fn metered<R>(f: impl FnOnce() -> R) -> (R, u64, u64) {
    let (s, b) = (clock::STEPS.load(Relaxed), clock::ALLOC_BYTES.load(Relaxed));
    clock::METER.store(true, Relaxed);
    let r = f();
    (r, clock::STEPS.load(Relaxed) - s, clock::ALLOC_BYTES.load(Relaxed) - b)
}

fn outputs(c: &mut Ctx, src: &str, what: &str, n: usize) -> Res {
    if n > 4 * src.len() + 8 {
        return violation(src, format!("{n} {what} from {} bytes", src.len()));
    }
    c.stats.add("outputs bounded", 1);
    Ok(())
}

fn work(c: &mut Ctx, src: &str) -> Result<Work, crate::rt::Violation> {
    let mut w = Work { bytes: src.len() as u64, ..Default::default() };
    let (r, s, m) = metered(|| {
        api::call("scan_tokens", src, || {
            let mut x = whitespace::scanner::Scanner::new(src);
            x.scan_tokens().map(|v| v.len()).map_err(|e| e.causes.len())
        })
    });
    w.scan = s;
    w.memory += m;
    match r {
        Ok(n) => outputs(c, src, "tokens", n)?,
        Err(n) => outputs(c, src, "lexical errors", n)?,
    }
    let (r, s, m) = metered(|| api::repl(src));
    w.parse = s;
    w.memory += m;
    match r {
        Ok(t) => {
            w.accepted = true;
            outputs(c, src, "tree nodes", walk::size(&t))?;
            w.depth = walk::scope_depth(&t);
            let (r, s, m) = metered(|| api::resolve(src, t));
            w.resolve = s;
            w.memory += m;
            match r {
                Ok(_) => w.resolved = true,
                Err(e) => outputs(c, src, "static errors", e.causes.len())?,
            }
        }
        Err(e) => outputs(c, src, "syntax errors", e.causes.len())?,
    }
    Ok(w)
}

const STEPS_PER_BYTE: u64 = 600;

/// Work in proportion to the size, with room for constant factors.
fn proportional(c: &mut Ctx, src: &str) -> Res {
    let w = work(c, src)?;
    let total = w.scan + w.parse + w.resolve;
    if w.bytes >= 64 {
        c.stats.max("steps per byte", total / w.bytes);
    }
    let limit = 40_000 + STEPS_PER_BYTE * w.bytes;
    if total > limit {
        return violation(src, format!("{total} steps on {} bytes: {w:?}", w.bytes));
    }
    if src.len() > 20 {
        c.stats.nontrivial(src);
    }
    Ok(())
}

/// The same thing over and over; `{i}` numbers the repetitions.
fn repeat(head: &str, frag: &str, tail: &str, k: usize) -> String {
    let mut s = head.to_string();
    for i in 0..k {
        if frag.contains("{i}") {
            s.push_str(&frag.replace("{i}", &i.to_string()));
        } else {
            s.push_str(frag);
        }
    }
    s.push_str(tail);
    s
}

fn growth(c: &mut Ctx, head: &str, frag: &str, tail: &str) -> Res {
    if frag.is_empty() {
        return Ok(());
    }
    let k = (3_000 / frag.len()).clamp(24, 3_000);
    let a = work(c, &repeat(head, frag, tail, k))?;
    let b = work(c, &repeat(head, frag, tail, 2 * k))?;
    let big = repeat(head, frag, tail, 4 * k);
    let d = work(c, &big)?;
    // Twice the input, twice the work; half as much again for rehashing and
    // the like. (A quadratic part shows as a ratio of up to 4.)
    let test = |name: &str, x: u64, y: u64, z: u64, slack: u64| -> Res {
        let first = y.saturating_sub(x).max(slack);
        let second = z.saturating_sub(y);
        // Going from 2k to 4k should cost twice what going from k to 2k did.
        if second > 3 * first {
            return violation(
                &repeat(head, frag, tail, 40),
                format!("{name} grows faster than the source: {x}, {y}, {z} at {k}, {}, {} repetitions of {frag:?} after {head:?}", 2 * k, 4 * k),
            );
        }
        Ok(())
    };
    test("scanning (steps)", a.scan, b.scan, d.scan, 4_000)?;
    // How an input that stops being accepted on the way is treated changes.
    if a.accepted == d.accepted && a.accepted == b.accepted {
        test("parsing (steps)", a.parse, b.parse, d.parse, 4_000)?;
        // The allocator hands out powers of two.
        test("memory (bytes)", a.memory, b.memory, d.memory, 400_000)?;
    }
    if a.resolved == d.resolved && d.depth <= a.depth + 4 {
        test("resolving (steps)", a.resolve, b.resolve, d.resolve, 4_000)?;
        if d.accepted {
            c.stats.add("families resolved", 1);
        }
    }
    c.stats.add("families measured", 1);
    c.stats.add(if d.accepted { "families accepted" } else { "families rejected" }, 1);
    c.stats.max("bytes", d.bytes);
    c.stats.nontrivial(&format!("{head}|{frag}|{tail}"));
    Ok(())
}

const FRAGS: [&str; 78] = [
    "a\n", "a ", "a", "1 ", "1", "1.5 ", "\"s\" ", "\"s\"\n", "\n", "\r\n", " ", "  \n", "\t", "\t\n", "//\n", "// c\n", "/",
    "é", "👩‍👩‍👧 ", "\u{301}", "@", "@\n", "\\\n", "\\", "\\ \n", "a \\\n  ", "+ ", "a +\n", "( ", ") ", "[ ", "] ", "{ ", "} ",
    ", ", "a, ", ": ", "a: 1, ", "k{i}: 1, ", "k{i}: 1\n", "; ", "= ", "a = ", "== ", "! ", ". ", ".a", "f() ", "f()", "[0]",
    "f(a, b)\n", "f a, b\n", "if (a)\n  b\n", "if (a) b\nelse c\n", "  a\nb\n", "  a\n b\nc\n", "a\n  b\n", "while (a)\n  break\n",
    "for (;;)\n  x\n", "fun f(a)\n  return a\n", "fun f(a) {} ", "class A\n  m()\n    1\n", "var v = 1\n", "var v{i} = 1\n",
    "m() {} ", "method{i}() {} ", "class m(a) {} ", "aaaaaaaaaaaaaaaa() {} ", "init(a, b) {} ", "p{i}, ", "class C{i} {} ", " + a",
    "v{i} = v\n", "return 1\n", "this\n", "print a\n", "break\n", "else ",
];

const HEADS: [(&str, &str); 17] = [
    ("", ""),
    ("", "\n"),
    ("x = [", "1]\n"),
    ("x = {", "z: 1}\n"),
    ("f(", "1)\n"),
    ("var x =\n  y: 1,\n  ", "z: 1\n"),
    ("\"", "\"\n"),
    ("//", "\n"),
    ("x = ", "1\n"),
    ("if (x)\n  ", "\n"),
    ("class A { ", "} var z\n"),
    ("class A < B { init() {} ", "} var z\n"),
    ("{ ", "} var z\n"),
    ("fun f(", "z) {} var z\n"),
    ("fun f() { ", "} var z\n"),
    ("x = fun () { ", "\n}\n"),
    ("x = y", "\n"),
];

fn listed_number() -> u64 {
    (FRAGS.len() * HEADS.len()) as u64
}

/// Every listed fragment after every head.
fn listed(c: &mut Ctx, idx: u64) -> Res {
    let f = FRAGS[idx as usize % FRAGS.len()];
    let (h, t) = HEADS[idx as usize / FRAGS.len() % HEADS.len()];
    growth(c, h, f, t)
}

/// Fragments cut from inputs of all kinds.
fn families(c: &mut Ctx, idx: u64) -> Res {
    let s = *c.rng.clone().pick(&[Valid, Rules, Mutant, Layout, Soup, Chars, Seeds]);
    let text = inputs::produce(c, s);
    let r = &mut c.rng;
    let n = *r.pick(&[2, 5, 12, 30, 80, 200]);
    let mut frag = if r.chance(60) {
        // Whole lines.
        let l: Vec<&str> = text.split_inclusive('\n').collect();
        let i = r.below(l.len().max(1)).min(l.len());
        let k = r.range(1, 6);
        l[i..(i + k).min(l.len())].concat()
    } else {
        let i = inputs::floor_char(&text, r.below(text.len() + 1));
        let j = inputs::floor_char(&text, (i + n).min(text.len()));
        text[i..j].to_string()
    };
    if frag.len() > 300 {
        let k = inputs::floor_char(&frag, 300);
        frag.truncate(k);
    }
    if r.chance(20) {
        frag = mutate(r, frag, 1);
    }
    if r.chance(30) && !frag.ends_with('\n') {
        frag.push('\n');
    }
    let (h, t) = if r.chance(60) { HEADS[r.below(2)] } else { *r.pick(&HEADS) };
    let _ = idx;
    growth(c, h, &frag, t)
}

const AROUND: [(&str, &str); 24] = [
    ("(", ")"),
    ("[", "]"),
    ("{a: ", "}"),
    ("-", ""),
    ("!", ""),
    ("f(", ")"),
    ("f ", ""),
    ("a[", "]"),
    ("a = ", ""),
    ("a.b = ", ""),
    ("a[0] = ", ""),
    ("1 + ", ""),
    ("2 * ", ""),
    ("a == ", ""),
    ("a < ", ""),
    ("a or ", ""),
    ("a and ", ""),
    ("", ".b"),
    ("", "()"),
    ("", "[0]"),
    ("[1, ", ", 2]"),
    ("{k: 1, a: ", ", l: 2}"),
    ("f(1, ", ", 2)"),
    ("fun(x) { return ", "\n}"),
];

const ABOVE: [&str; 14] = [
    "if (a)",
    "while (a)",
    "for (;;)",
    "for (;;a = a + 1)",
    "for (var i = 0; i < 1; i = i + 1)",
    "for (i = 0; i < 1;)",
    "fun f(x)",
    "class A < B\n m()",
    "class A\n init()",
    "class A\n class m(x)",
    "if (a)\n b\nelse",
    "if (a) while (b)",
    "while (a) while (b) if (c)",
    "while (a) for (;;)",
];

/// A pattern of nested forms to a given depth.
fn nest(r: &mut Rng, n: usize) -> String {
    let one = |p: Vec<(&str, &str)>, x: &str, head: &str, tail: &str| {
        let f: Vec<_> = (0..n).map(|i| p[i % p.len()]).collect();
        let a: String = f.iter().map(|f| f.0).collect();
        let b: String = f.iter().rev().map(|f| f.1).collect();
        format!("{head}{a}{x}{b}{tail}\n")
    };
    let k = *r.pick(&[1, 1, 1, 2, 3, 4]);
    match r.below(8) {
        0..=2 => {
            let p = (0..k).map(|_| *r.pick(&AROUND)).collect();
            let (h, t) = *r.pick(&[("", ""), ("x = ", ""), ("print ", ""), ("var x = ", ""), ("f(", ")"), ("", ")"), ("x = [", "")]);
            one(p, "x", h, t)
        }
        3 => {
            let p = (0..k).map(|_| (*r.pick(&["if (a) ", "while (a) ", "for (;;) ", "for (;;a = 1) ", "for (var i = 0;;) ", "if (a) b\nelse "]), "")).collect();
            let x = *r.pick(&["x", "break", "return", "x = y", "print x", ")", "{ }"]);
            one(p, x, "", "")
        }
        _ => {
            let p: Vec<&str> = (0..k).map(|_| *r.pick(&ABOVE)).collect();
            let w = r.range(1, 3);
            let after = r.chance(30);
            let last = *r.pick(&["x", "x = y", "var x = x", "return x", "fun() { x }", "a: x", ")"]);
            let mut s = String::new();
            let mut at = 0;
            let mut lefts = vec![];
            for i in 0..n {
                let h = p[i % p.len()];
                for l in h.split('\n') {
                    let extra = l.len() - l.trim_start().len();
                    s.push_str(&" ".repeat(at + extra));
                    s.push_str(l.trim_start());
                    s.push('\n');
                }
                let l = h.split('\n').next_back().unwrap();
                lefts.push(at);
                at += w + l.len() - l.trim_start().len();
            }
            s.push_str(&" ".repeat(at));
            s.push_str(last);
            s.push('\n');
            if after {
                let mut max = at;
                for (i, l) in lefts.iter().enumerate().rev() {
                    if *l < max && !p[i % p.len()].starts_with("class") && (i == 0 || !p[(i - 1) % p.len()].starts_with("class")) {
                        s.push_str(&" ".repeat(*l));
                        s.push_str("y\n");
                        max = *l;
                    }
                }
            }
            s
        }
    }
}

/// Nesting may cost a little more per byte the deeper it is (looking up a name
/// passes the scopes between), but no multiple per level.
fn depths(c: &mut Ctx, _: u64) -> Res {
    let seed = c.rng.clone();
    let mut before: Option<[u64; 3]> = None;
    for n in [6, 12, 24, 48] {
        let src = nest(&mut seed.clone(), n);
        let w = work(c, &src)?;
        let now = [w.scan * 100 / w.bytes, w.parse * 100 / w.bytes, w.resolve * 100 / w.bytes];
        if let Some(b) = before {
            for (i, name) in ["scanning", "parsing", "resolving"].iter().enumerate() {
                if now[i] > 3 * b[i] + 20_000 {
                    return violation(&src, format!("{name} takes {} steps per byte {} deep, {} at half that depth", now[i] / 100, n, b[i] / 100));
                }
            }
        }
        before = Some(now);
        c.stats.max("nest steps per byte", now.iter().sum::<u64>() / 100);
        if w.resolved && n == 48 {
            c.stats.add("nests resolved", 1);
        }
        if n == 48 {
            c.stats.nontrivial(&src);
        }
    }
    c.rng.below(2);
    c.stats.add("nests measured", 1);
    Ok(())
}

fn seconds(f: impl FnOnce()) -> f64 {
    let t = cpu();
    f();
    cpu() - t
}

unsafe extern "C" {
    fn clock_gettime(id: i32, t: *mut [i64; 2]) -> i32;
}

/// Processor time of this thread.
fn cpu() -> f64 {
    let mut t = [0i64; 2];
    unsafe { clock_gettime(3, &mut t) };
    t[0] as f64 + t[1] as f64 * 1e-9
}

/// Work that the step clock does not see (moving memory about) shows in the
/// processor time of large inputs. Only gross excess counts.
fn big(c: &mut Ctx, idx: u64) -> Res {
    let f = if idx < FRAGS.len() as u64 { FRAGS[idx as usize] } else { *c.rng.pick(&FRAGS) };
    // Keep clear of nesting, where depth is what costs.
    if f.contains(['(', '[', '{']) && !f.contains([')', ']', '}']) || matches!(f, "a = " | "! " | "  a\nb\n") {
        return Ok(());
    }
    let (h, t) = if idx % 2 == 0 { HEADS[1] } else { HEADS[2] };
    let make = |bytes: usize| repeat(h, f, t, bytes / f.len());
    let run = |s: &str| {
        seconds(|| {
            if let Ok(t) = api::repl(s) {
                let _ = api::resolve(s, t);
            }
        })
    };
    let (small, large) = (make(40_000), make(320_000));
    let x = run(&small);
    let y = run(&large);
    c.stats.add("big inputs timed", 1);
    c.stats.max("milliseconds for 320 kB", (y * 1e3) as u64);
    if y > 2.0 && y > 24.0 * x.max(0.002) {
        // Once more, to be sure.
        let x2 = run(&small).max(x);
        let y2 = run(&large).min(y);
        if y2 > 2.0 && y2 > 24.0 * x2.max(0.002) {
            return violation(&repeat(h, f, t, 40), format!("{x2:.3} s for 40 kB, {y2:.3} s for 320 kB of {f:?} after {h:?}"));
        }
    }
    c.stats.nontrivial(&format!("{h}|{f}|{t}"));
    Ok(())
}
