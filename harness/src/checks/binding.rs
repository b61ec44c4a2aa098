//! C21-C25: the resolver.
use super::*;
use crate::api::Live;
use crate::inputs::Stream::*;
use crate::inputs::mutate;
use crate::make::{self, Cfg, Style};
use crate::refres::{RuleErr, Session};
use crate::rt::{Ctx, Rng, Violation};
use std::collections::{HashMap, HashSet};
use whitespace::environment::{SlotIndex, VarLoc};

pub fn all() -> Vec<Check> {
    vec![
        Check::new(
            "C21",
            "resolved programs against an independent scope model; non-trivial: resolved with at least one use in a nested scope",
        )
        .text("programs", 20_000, 600_000, bound, &[Valid, Rules, Mutant, Seeds, Guided])
        .cases("scopes", 20_000, 500_000, scopes)
        .cases("built", 8_000, 200_000, binders)
        .cases("marks", 64, 4_096, marks)
        .text("edits", 200_000, 1_000_000, bound, &[Edits])
        .text("small", 24_000, 1_500_000, bound, &[Small])
        .needs(&["uses compared", "distance", "uses of names declared nowhere", "shadowing declarations"]),
        Check::new(
            "C22",
            "scopes of every kind with up to 400 variables, and sessions, against an independent slot model; non-trivial: resolved with at least 3 variables in a scope",
        )
        .cases("sizes", 900, 9_000, sizes)
        .text("programs", 20_000, 600_000, slots, &[Valid, Rules, Seeds, Mutant])
        .cases("sessions", 6_000, 150_000, sessions)
        .cases("long sessions", 160, 2_000, long_sessions)
        .cases("many sources", 64, 640, many_sources)
        .text("edits", 60_000, 300_000, slots, &[Edits])
        .text("small", 24_000, 1_500_000, slots, &[Small])
        .needs(&["scopes checked", "slot", "scopes over the limit rejected", "session lines accepted"]),
        Check::new(
            "C23",
            "programs that break and keep the static rules against an independent rule checker; non-trivial: at least one rule is broken",
        )
        .text("programs", 24_000, 700_000, ruled, &[Rules, Rules, Valid, Mutant, Seeds, Guided])
        .cases("placed", 40_000, 1_000_000, placed)
        .cases("several", 8_000, 200_000, several)
        .cases("sizes", 900, 9_000, sizes)
        .text("edits", 200_000, 1_000_000, ruled, &[Edits])
        .text("small", 24_000, 1_500_000, ruled, &[Small])
        .needs(&["accepted", "rejected", "rule TopReturn", "rule InitReturn", "rule ThisOutside", "rule SuperOutside", "rule SuperNone", "rule SelfInherit", "rule Twice", "rule OwnInit", "rule TooMany"]),
        Check::new(
            "C24",
            "resolved trees against the parsed tree with bindings erased; non-trivial: resolved with at least 4 bindings",
        )
        .text("programs", 50_000, 1_500_000, untouched, &[Valid, Rules, Mutant, Seeds, Guided])
        .cases("sessions", 6_000, 150_000, sessions_untouched)
        .text("edits", 200_000, 1_000_000, untouched, &[Edits])
        .text("small", 24_000, 1_500_000, untouched, &[Small])
        .needs(&["trees compared", "bindings seen"]),
        Check::new(
            "C25",
            "sessions with rejected sources against sessions without them; non-trivial: an accepted source after a rejected one",
        )
        .cases("sessions", 12_000, 300_000, undisturbed)
        .cases("shaped", 12_000, 300_000, shaped_failures)
        .cases("full", 120, 2_000, nearly_full)
        .cases("many rejections", 48, 480, many_rejections)
        .needs(&["accepted after a rejection", "rejected after a rejection", "global bindings followed"]),
    ]
}

/// The model's answer for one source of a session.
fn model(s: &mut Session, t: &[Stmt]) -> Result<String, Vec<RuleErr>> {
    s.resolve(t).map(|t| walk::render(&t, true, true))
}

fn shown(r: &Result<Vec<Stmt>, ParseError>) -> Result<String, String> {
    match r {
        Ok(t) => Ok(walk::render(t, true, true)),
        Err(e) => Err(api::errs(e)),
    }
}

/// Compare trees with bindings when both resolve.
fn agree(src: &str, want: &Result<String, Vec<RuleErr>>, got: &Result<Vec<Stmt>, ParseError>) -> Res {
    if let (Ok(w), Ok(g)) = (want, got) {
        same(src, "bindings (^distance#slot)", w, &walk::render(g, true, true))?;
    }
    Ok(())
}

fn bound(c: &mut Ctx, src: &str) -> Res {
    let Ok(t) = api::repl(src) else { return Ok(()) };
    let mut s = Session::new();
    let want = model(&mut s, &t);
    let got = api::resolve(src, t);
    agree(src, &want, &got)?;
    if want.is_ok() && got.is_ok() {
        c.stats.add("uses compared", s.counts.uses);
        c.stats.add("uses of names declared nowhere", s.counts.forward);
        c.stats.add("shadowing declarations", s.counts.shadow);
        c.stats.max("distance", s.counts.max_distance as u64);
        if s.counts.max_distance > 0 {
            c.stats.nontrivial(src);
        }
    }
    Ok(())
}

/// The printed form of a binding shows what it was made with, so that
/// comparing printed forms compares bindings.
fn marks(_: &mut Ctx, idx: u64) -> Res {
    for i in 0..=255u8 {
        let d = (idx * 31 % 65536) as u16;
        let t = format!("{:?}", VarLoc::new(d, i));
        let n: Vec<u64> =
            t.split(|c: char| !c.is_ascii_digit()).filter_map(|x| x.parse().ok()).collect();
        if n != [d as u64, i as u64] || VarLoc::new(d, i).index() != i {
            return violation("", format!("VarLoc::new({d}, {i}) is {t}"));
        }
        if SlotIndex::new(i).index() != i {
            return violation("", format!("SlotIndex::new({i}) is {:?}", SlotIndex::new(i)));
        }
    }
    Ok(())
}

fn binders(c: &mut Ctx, _: u64) -> Res {
    let r = &mut c.rng;
    let style = Style::plain();
    let mut cfg = Cfg::normal(r);
    cfg.names = *r.pick(&[2, 3, 4]);
    cfg.weights = *r.pick(&[[2, 6, 3, 4], [1, 5, 5, 1], [3, 3, 0, 6]]);
    cfg.depth = r.range(4, 9);
    cfg.size = *r.pick(&[60, 120, 200]);
    let m = make::made(r, style, cfg);
    bound(c, &m.text)
}

// ----------------------------------------------------------- hand-shaped scopes

/// Lines written at increasing depth, with few names.
struct Lines {
    out: String,
    depth: usize,
}

impl Lines {
    fn put(&mut self, s: &str) {
        for l in s.lines() {
            for _ in 0..self.depth {
                self.out.push_str("  ");
            }
            self.out.push_str(l);
            self.out.push('\n');
        }
    }
}

const FEW: [&str; 5] = ["a", "b", "c", "f", "g"];

/// Programs that are mostly scopes, declarations and uses.
fn scopes(c: &mut Ctx, _: u64) -> Res {
    let r = &mut c.rng;
    let mut l = Lines { out: String::new(), depth: 0 };
    let names = &FEW[..r.range(2, 5)];
    let n = r.range(3, 16);
    let legal = r.chance(85);
    let mut taken = vec![HashSet::new()];
    scope_lines(r, &mut l, names, n, &mut vec![], &mut taken, legal);
    l.put("a");
    bound(c, &l.out)
}

fn free<'a>(r: &mut Rng, names: &[&'a str], taken: &mut [HashSet<&'a str>], legal: bool) -> Option<&'a str> {
    let n = *r.pick(names);
    let top = taken.len() == 1;
    let s = taken.last_mut().unwrap();
    if s.insert(n) || top || !legal { Some(n) } else { None }
}

/// `class`: for each enclosing class, whether it has a superclass.
fn scope_lines<'a>(
    r: &mut Rng,
    l: &mut Lines,
    names: &[&'a str],
    n: usize,
    class: &mut Vec<bool>,
    taken: &mut Vec<HashSet<&'a str>>,
    legal: bool,
) {
    let deep = l.depth > 12;
    for _ in 0..n.max(1) {
        let a = *r.pick(names);
        let b = *r.pick(names);
        match r.below(if deep { 6 } else { 14 }) {
            0 => l.put(&format!("{a} + {b}")),
            1 => l.put(&format!("{a} = {b}")),
            2 => l.put(&format!("print {a}({b}, [{a}, -{b}], k: {a})")),
            3 | 4 => {
                if let Some(d) = free(r, names, taken, legal) {
                    // Not its own initializer.
                    if a == d && legal {
                        l.put(&format!("var {d} = 1"));
                    } else {
                        l.put(&format!("var {d} = {a}"));
                    }
                }
            }
            5 => match class.last() {
                Some(true) => l.put(r.pick(&["super.m", "this.x", "x = super.f(this)"])),
                Some(false) => l.put(r.pick(&["this", "this.x = a"])),
                None => l.put(&format!("{a}.{b} = {a}[{b}]")),
            },
            6 | 7 => {
                if let Some(d) = free(r, names, taken, legal) {
                    let mut ps: Vec<&str> = vec![];
                    for _ in 0..r.below(3) {
                        let p = *r.pick(names);
                        if !ps.contains(&p) || !legal {
                            ps.push(p);
                        }
                    }
                    l.put(&format!("fun {d}({})", ps.join(", ")));
                    taken.push(ps.into_iter().collect());
                    deeper(r, l, names, n, class, taken, legal);
                    taken.pop();
                }
            }
            8 => {
                let mut hs: HashSet<&str> = HashSet::new();
                let p = *r.pick(names);
                hs.insert(p);
                l.put(&format!("{a}(fun ({p})"));
                l.depth += 1;
                taken.push(hs);
                deeper(r, l, names, n, class, taken, legal);
                taken.pop();
                l.depth -= 1;
                l.put(")");
            }
            9 => {
                if let Some(d) = free(r, names, taken, legal) {
                    let sup = *r.pick(names);
                    let sub = r.chance(50) && (sup != d || !legal);
                    l.put(&if sub { format!("class {d} < {sup}") } else { format!("class {d}") });
                    class.push(sub);
                    l.depth += 1;
                    for _ in 0..r.range(1, 3) {
                        let m = *r.pick(&["init", "m", "class s", "class init", "get"]);
                        let p = *r.pick(names);
                        l.put(&format!("{m}({p})"));
                        taken.push(HashSet::from([p]));
                        deeper(r, l, names, n, class, taken, legal);
                        taken.pop();
                    }
                    l.depth -= 1;
                    class.pop();
                }
            }
            10 => {
                l.put(&format!("if ({a})"));
                taken.push(HashSet::new());
                deeper(r, l, names, n, class, taken, legal);
                taken.pop();
                if r.chance(50) {
                    l.put("else");
                    taken.push(HashSet::new());
                    deeper(r, l, names, n, class, taken, legal);
                    taken.pop();
                }
            }
            11 => {
                l.put(&format!("while ({a})"));
                taken.push(HashSet::new());
                deeper(r, l, names, n, class, taken, legal);
                taken.pop();
            }
            12 => {
                let v = *r.pick(names);
                l.put(&format!("for (var {v} = 0; {v} < {a}; {b} = {v} + 1)"));
                taken.push(HashSet::from([v]));
                taken.push(HashSet::new());
                deeper(r, l, names, n, class, taken, legal);
                taken.pop();
                taken.pop();
            }
            _ => {
                l.put(&format!("for ({a} = 0; {b}; )"));
                taken.push(HashSet::new());
                deeper(r, l, names, n, class, taken, legal);
                taken.pop();
            }
        }
    }
}

fn deeper<'a>(
    r: &mut Rng,
    l: &mut Lines,
    names: &[&'a str],
    n: usize,
    class: &mut Vec<bool>,
    taken: &mut Vec<HashSet<&'a str>>,
    legal: bool,
) {
    l.depth += 1;
    let n = r.below(n / 2 + 1);
    if n == 0 {
        let a = *r.pick(names);
        l.put(a);
    } else {
        scope_lines(r, l, names, n, class, taken, legal);
    }
    l.depth -= 1;
}

// ------------------------------------------------------------------------ C22

fn slots(c: &mut Ctx, src: &str) -> Res {
    let Ok(t) = api::repl(src) else { return Ok(()) };
    let mut s = Session::new();
    let want = model(&mut s, &t);
    let got = api::resolve(src, t);
    agree(src, &want, &got)?;
    if want.is_ok() && got.is_ok() {
        c.stats.add("scopes checked", 1);
        c.stats.max("slot", s.counts.max_slot as u64);
        if s.counts.max_slot >= 2 {
            c.stats.nontrivial(src);
        }
    }
    Ok(())
}

/// One scope with n variables, of one kind or of several.
fn sizes(c: &mut Ctx, idx: u64) -> Res {
    const N: [usize; 15] = [1, 2, 17, 100, 127, 128, 129, 200, 252, 253, 254, 255, 256, 257, 300];
    const KINDS: u64 = 20;
    let kind = idx % KINDS;
    let r = &mut c.rng;
    let n = if idx / KINDS < N.len() as u64 {
        N[(idx / KINDS) as usize]
    } else {
        *r.pick(&[r.clone().range(1, 400), r.clone().range(250, 260), r.clone().range(253, 257)])
    };
    let mut s = String::new();
    let mut l = Lines { out: String::new(), depth: 0 };
    let decl = |l: &mut Lines, r: &mut Rng, i: usize, k: usize| {
        let x = format!("v{i}");
        match k {
            0 => l.put(&format!("var {x}")),
            1 => l.put(&format!("fun {x}()\n  {x}")),
            2 => l.put(&format!("class {x}\n  m()\n    {x}")),
            3 => l.put(&x),
            4 => l.put(&format!("{x} = 1")),
            _ => {
                let j = r.below(i + 1);
                l.put(&format!("var {x} = v{j}0"));
            }
        }
    };
    match kind {
        0..=4 => (0..n).for_each(|i| decl(&mut l, r, i, kind as usize)),
        5 => (0..n).for_each(|i| {
            let k = r.below(5);
            decl(&mut l, r, i, k)
        }),
        // Names used but declared nowhere, from a function.
        6 | 7 => {
            l.put(if kind == 6 { "fun f()" } else { "class K\n  m()" });
            l.depth += 1 + (kind == 7) as usize;
            (0..n).for_each(|i| decl(&mut l, r, i, 3));
        }
        // Locals of a function, block, loop body, method.
        8..=13 => {
            l.put(
                ["fun f()", "if (x)", "for (var i = 0; i < 1; )", "class K\n  m()", "g(fun ()", "while (x)"]
                    [kind as usize - 8],
            );
            l.depth += if matches!(kind, 11 | 12) { 2 } else { 1 };
            (0..n).for_each(|i| {
                let k = r.below(3);
                decl(&mut l, r, i, k)
            });
            for _ in 0..5 {
                let i = r.below(n);
                l.put(&format!("print v{i}"));
            }
            if kind == 12 {
                l.depth = 0;
                l.put(")");
            }
        }
        // Parameters, then locals.
        14 | 15 => {
            let k = r.below(n + 1).min(255);
            let ps: Vec<String> = (0..k).map(|i| format!("v{i}")).collect();
            if kind == 14 {
                l.put(&format!("fun f({})", ps.join(",")));
                l.depth += 1;
            } else {
                l.put(&format!("class A < B\n  init({})", ps.join(",")));
                l.depth += 2;
            }
            l.put("p0");
            (k..n).for_each(|i| decl(&mut l, r, i, 0));
            l.put("v0");
        }
        // Redeclarations at top level take no slots.
        16 => {
            (0..n).for_each(|i| decl(&mut l, r, i, 0));
            (0..n).for_each(|i| {
                let k = r.below(5);
                decl(&mut l, r, i, k)
            });
        }
        // Several errors: every further name is over the limit.
        17 => {
            (0..n).for_each(|i| decl(&mut l, r, i, 0));
            (0..6).for_each(|i| {
                let k = r.below(5);
                decl(&mut l, r, n / 2 + 60 * i, k)
            });
        }
        // Many scopes with many variables each.
        18 => {
            for f in 0..3 {
                l.put(&format!("fun w{f}()"));
                l.depth += 1;
                (0..n).for_each(|i| decl(&mut l, r, i, 0));
            }
            l.put("v0 + w0 + u");
        }
        _ => (0..n).for_each(|i| decl(&mut l, r, i, 5)),
    }
    s.push_str(&l.out);
    let t = match api::parse(&s) {
        Ok(t) => t,
        Err(e) => return violation(&s, format!("rejected: {}", api::errs(&e))),
    };
    let mut m = Session::new();
    let want = model(&mut m, &t);
    let got = api::resolve(&s, t);
    if let (Err(e), Err(_)) = (&want, &got) {
        if e.iter().any(|e| e.rule == crate::refres::Rule::TooMany) {
            c.stats.add("scopes over the limit rejected", 1);
        }
    }
    c.stats.max("variables in a scope", n as u64);
    exactly(c, &s, &want, &got)?;
    slots(c, &s)
}

/// Sources for a session: small, over few names.
fn line(r: &mut Rng) -> String {
    if r.chance(50) {
        let mut l = Lines { out: String::new(), depth: 0 };
        let names = &FEW[..r.range(2, 5)];
        let n = r.range(1, 5);
        let legal = r.chance(60);
        scope_lines(r, &mut l, names, n, &mut vec![], &mut vec![HashSet::new()], legal);
        return l.out;
    }
    let style = Style::plain();
    let mut cfg = Cfg::normal(r);
    cfg.size = *r.pick(&[4, 10, 25]);
    cfg.stmts = r.range(1, 3);
    cfg.names = 4;
    cfg.legal = r.chance(50);
    cfg.illegal = *r.pick(&[5, 20, 50]);
    let t = make::made(r, style, cfg).text;
    if r.chance(20) { mutate(r, t, 1) } else { t }
}

fn parsed_line(r: &mut Rng) -> Option<(String, Vec<Stmt>)> {
    for _ in 0..10 {
        let s = line(r);
        if let Ok(t) = api::repl(&s) {
            return Some((s, t));
        }
    }
    None
}

fn sessions(c: &mut Ctx, _: u64) -> Res {
    let mut live = Live::new();
    let mut s = Session::new();
    let mut all = String::new();
    for _ in 0..c.rng.range(2, 9) {
        let Some((src, t)) = parsed_line(&mut c.rng) else { continue };
        all.push_str(&src);
        all.push_str("----\n");
        let want = model(&mut s, &t);
        let got = live.resolve(&src, t);
        if want.is_ok() != got.is_ok() {
            // Whose names the session has now is no longer known.
            return violation(&all, format!("model: {:?}; resolver: {:?}", want.map(|_| "accepted"), shown(&got).map(|_| "accepted")));
        }
        agree(&all, &want, &got)?;
        if got.is_ok() {
            c.stats.add("session lines accepted", 1);
            c.stats.nontrivial(&all);
        }
    }
    Ok(())
}

/// How many times is often.
fn often(r: &mut Rng, idx: u64) -> usize {
    if idx % 8 == 0 { r.range(65_530, 65_545) } else { *r.pick(&[250, 254, 300, 513, 1025]) + r.below(6) }
}

/// Sessions of very many sources over few names.
fn many_sources(c: &mut Ctx, idx: u64) -> Res {
    let n = often(&mut c.rng, idx);
    let pool: Vec<_> = (0..12)
        .filter_map(|_| parsed_line(&mut c.rng))
        .filter(|(s, _)| s.len() < 300)
        .chain(sources(vec!["a = b\n".into(), "fun a()\n  a\n".into(), "return 1\n".into()])?)
        .collect();
    let mut live = Live::new();
    let mut s = Session::new();
    for i in 0..n {
        let (src, t) = c.rng.pick(&pool);
        let (want, got) = (model(&mut s, t), live.resolve(src, t.clone()));
        if want.is_ok() != got.is_ok() {
            return violation(
                src,
                format!(
                    "as source {i} of a session: model: {:?}; resolver: {:?}",
                    want.map(|_| "accepted"),
                    shown(&got).map(|_| "accepted")
                ),
            );
        }
        agree(src, &want, &got)?;
        if got.is_ok() {
            c.stats.add("session lines accepted", 1);
        }
    }
    c.stats.max("sources in a session", n as u64);
    Ok(())
}

/// Very many rejected sources in a session, then others.
fn many_rejections(c: &mut Ctx, idx: u64) -> Res {
    let n = often(&mut c.rng, idx);
    let before = sources(vec!["var a = 1\nfun f(x)\n  x\n".into()])?;
    let bad = sources(vec![
        "return 1\n".into(),
        "var q = r\nclass A\n  m()\n    super.m()\n".into(),
        "fun f()\n  while (a)\n    var a\n    var a\n".into(),
        "w = this\n".into(),
    ])?;
    let after = sources(vec![
        "var b = a\nf(b, c)\n".into(),
        "fun k(v)\n  var w = v\n  return w + q + A\n".into(),
        "class B < A\n  init()\n    super.m(this)\n".into(),
    ])?;
    let (mut one, mut two) = (Live::new(), Live::new());
    for (s, t) in &before {
        let _ = one.resolve(s, t.clone());
        let _ = two.resolve(s, t.clone());
    }
    for i in 0..n {
        let k = if idx % 3 == 0 { i % bad.len() } else { (idx / 3) as usize % bad.len() };
        let (s, t) = &bad[k];
        if one.resolve(s, t.clone()).is_ok() {
            return violation(s, format!("accepted as source {i} of a session"));
        }
    }
    c.stats.max("rejections in a session", n as u64);
    for (s, t) in &after {
        let (x, y) = (shown(&two.resolve(s, t.clone())), shown(&one.resolve(s, t.clone())));
        if x != y {
            return violation(s, format!("after {n} rejected sources:\n{y:?}\nwithout them:\n{x:?}"));
        }
        c.stats.add("accepted after a rejection", 1);
    }
    Ok(())
}

/// Sessions that fill the global scope.
fn long_sessions(c: &mut Ctx, _: u64) -> Res {
    let mut live = Live::new();
    let mut s = Session::new();
    let total = c.rng.range(150, 330);
    let mut i = 0;
    let mut last = String::new();
    while i < total {
        let mut src = String::new();
        for _ in 0..c.rng.range(1, 12) {
            let x = format!("v{i}");
            i += 1;
            match c.rng.below(7) {
                0 => src.push_str(&format!("var {x} = 1\n")),
                1 => src.push_str(&format!("fun {x}()\n  w{x} = {x}\n")),
                2 => src.push_str(&format!("class {x}\n")),
                3 => src.push_str(&format!("{x}\n")),
                4 => src.push_str(&format!("fun g()\n  return {x}\n")),
                5 => src.push_str(&format!("{x} = v{}\n", c.rng.below(i))),
                _ => src.push_str(&format!("var {x} = 2\n{x}\nreturn {x}\n")),
            }
        }
        let src = src
            .lines()
            .map(|l| if l.starts_with("class ") { format!("{l}\n  m()\n    1\n") } else { format!("{l}\n") })
            .collect::<String>();
        let t = match api::repl(&src) {
            Ok(t) => t,
            Err(e) => return violation(&src, format!("rejected: {}", api::errs(&e))),
        };
        let want = model(&mut s, &t);
        let got = live.resolve(&src, t);
        if want.is_ok() != got.is_ok() {
            return violation(
                &src,
                format!("with {i} names seen: model: {:?}; resolver: {:?}", want.map(|_| "accepted"), shown(&got).map(|_| "accepted")),
            );
        }
        agree(&src, &want, &got)?;
        if got.is_ok() {
            c.stats.add("session lines accepted", 1);
        }
        last = src;
    }
    c.stats.max("globals in a session", s.globals().len() as u64);
    c.stats.nontrivial(&last);
    Ok(())
}

// ------------------------------------------------------------------------ C23

/// Acceptance and the list of errors.
fn exactly(
    c: &mut Ctx,
    src: &str,
    want: &Result<String, Vec<RuleErr>>,
    got: &Result<Vec<Stmt>, ParseError>,
) -> Res {
    match (want, got) {
        (Ok(_), Ok(_)) => {
            c.stats.add("accepted", 1);
            Ok(())
        }
        (Ok(_), Err(e)) => {
            violation(src, format!("rejected by the resolver: {}; no rule is broken", api::errs(e)))
        }
        (Err(w), Ok(_)) => violation(src, format!("accepted, but it breaks {w:?}")),
        (Err(w), Err(e)) => {
            c.stats.add("rejected", 1);
            for x in w {
                c.stats.add(&format!("rule {:?}", x.rule), 1);
            }
            c.stats.nontrivial(src);
            let a: Vec<_> = w.iter().map(|x| (at(x.loc), Some(x.text.clone()))).collect();
            let b: Vec<_> = e
                .causes
                .iter()
                .map(|x| (at(x.source_loc), x.token.clone()))
                .collect();
            let differ = a.len() != b.len()
                || a.iter().zip(&b).any(|(p, q)| p.0 != q.0 || q.1.is_some() && p.1 != q.1);
            if differ {
                return violation(src, format!("rules broken: {w:?}; reported: {}", api::errs(e)));
            }
            Ok(())
        }
    }
}

fn ruled(c: &mut Ctx, src: &str) -> Res {
    let Ok(t) = api::repl(src) else { return Ok(()) };
    let want = model(&mut Session::new(), &t);
    let got = api::resolve(src, t);
    exactly(c, src, &want, &got)
}

const CONTEXTS: [&[&str]; 18] = [
    &["fun f()"],
    &["fun f(p, v)"],
    &["if (c)"],
    &["while (c)"],
    &["for (var i = 0; i < 1; i = i + 1)"],
    &["for (;;)"],
    &["class A", "m()"],
    &["class A", "init(v)"],
    &["class A < B", "m()"],
    &["class A < B", "init()"],
    &["class A", "class s()"],
    &["class A < B", "class init()"],
    &["class v", "m(v)"],
    &["g(fun ()"],
    &["g(fun (v)"],
    &["if (c)", "while (d)"],
    &["class A", "m()", "fun init()"],
    &["class A < B", "init()", "fun f()"],
];

const OFFENCES: [&str; 44] = [
    "return",
    "return 1",
    "return nil",
    "return (nil)",
    "return this",
    "return fun () { return 1\nPAD}",
    "this",
    "this.x = 1",
    "x = this",
    "f(this)",
    "super.m()",
    "super.m",
    "x = [super.m]",
    "x = super.m",
    "if (super.x) y",
    "var v = v",
    "var v = 1",
    "var v = 1\nvar v = 2",
    "var v = (v)",
    "var v = w = v",
    "var v = v.x",
    "var v = [1, v]",
    "var v = {k: v}",
    "var v = f(v)",
    "var v = v = 1",
    "var v = fun () { return v\nPAD}",
    "var v = fun (v) { return v\nPAD}",
    "var v = x\nv = v",
    "fun v()\n  v",
    "fun v()\n  1\nfun v()\n  2",
    "var v\nfun v()\n  2",
    "fun q(a, a)\n  1",
    "fun q(a, b, a)\n  1",
    "fun q(a)\n  var a",
    "fun q(a)\n  if (a)\n    var a",
    "fun q(q)\n  var z = q",
    "class K < K\n  m()\n    1",
    "class K < L\n  K()\n    1",
    "class v\n  m()\n    v",
    "class K\n  init()\n    return 1",
    "class K\n  init()\n    return",
    "class K\n  m()\n    super.m()",
    "class K < L\n  m()\n    var this1 = super.m()\n    return this",
    "v\nvar v",
];

/// One statement at some place in a nest of contexts.
fn placed(c: &mut Ctx, idx: u64) -> Res {
    let r = &mut c.rng;
    let n = CONTEXTS.len() as u64;
    let o = OFFENCES.len() as u64;
    // All nests of depth 0, 1 and 2 first, then random deeper ones.
    let off = (idx % o) as usize;
    let mut k = idx / o;
    let mut nest: Vec<usize> = vec![];
    if k == 0 {
    } else if k <= n {
        nest.push(k as usize - 1);
    } else if k <= n + n * n {
        k -= n + 1;
        nest.push((k / n) as usize);
        nest.push((k % n) as usize);
    } else {
        for _ in 0..r.range(3, 5) {
            nest.push(r.below(CONTEXTS.len()));
        }
    }
    let mut l = Lines { out: String::new(), depth: 0 };
    let mut closers: Vec<usize> = vec![];
    for k in nest {
        for h in CONTEXTS[k] {
            if r.chance(15) && !h.ends_with(')') {
                l.put("x = 1");
            }
            l.put(h);
            l.depth += 1;
            if h.starts_with("g(") {
                closers.push(l.depth - 1);
                l.depth += 1;
            }
        }
    }
    if r.chance(30) {
        l.put(*r.pick(&["var w = 1", "x", "print p"]));
    }
    // A closing brace on a line of its own sits at the statement's depth.
    l.put(&OFFENCES[off].replace("PAD}", "}"));
    if r.chance(30) {
        l.put(*r.pick(&["var w2 = 1", "y", "return", "this"]));
    }
    for d in closers.into_iter().rev() {
        l.depth = d;
        l.put(")");
    }
    l.depth = 0;
    if r.chance(50) {
        l.put(*r.pick(&["v", "this", "fun z()\n  return 1", "return 2", "class E\n  m()\n    super.x", "var v = v"]));
    }
    let src = l.out;
    match api::parse(&src) {
        Ok(t) => {
            let want = model(&mut Session::new(), &t);
            let got = api::resolve(&src, t);
            exactly(c, &src, &want, &got)
        }
        Err(e) => violation(&src, format!("does not parse: {}", api::errs(&e))),
    }
}

/// Several top-level statements, some of which break a rule.
fn several(c: &mut Ctx, _: u64) -> Res {
    let r = &mut c.rng;
    let mut l = Lines { out: String::new(), depth: 0 };
    for _ in 0..r.range(2, 8) {
        let o = OFFENCES[r.below(OFFENCES.len())].replace("PAD}", "}");
        for _ in 0..r.below(3) {
            for h in CONTEXTS[r.below(13)] {
                l.put(h);
                l.depth += 1;
            }
        }
        l.put(&o);
        l.depth = 0;
    }
    let src = l.out;
    match api::parse(&src) {
        Ok(t) => {
            let want = model(&mut Session::new(), &t);
            let got = api::resolve(&src, t);
            exactly(c, &src, &want, &got)
        }
        Err(e) => violation(&src, format!("does not parse: {}", api::errs(&e))),
    }
}

// ------------------------------------------------------------------------ C24

fn pure(c: &mut Ctx, src: &str, before: &[Stmt], after: &[Stmt]) -> Res {
    let w = walk::render(before, true, false);
    same(src, "resolution changed the tree", &w, &walk::render(after, true, false))?;
    // Every binding is filled in.
    let binds = walk::binds(after);
    for b in &binds {
        if let walk::Bind::Decl(n, i) = b {
            if *i == SlotIndex::placeholder().index() {
                return violation(src, format!("the declaration of {n} has no slot"));
            }
        }
    }
    c.stats.add("bindings seen", binds.len() as u64);
    c.stats.add("trees compared", 1);
    if binds.len() >= 4 {
        c.stats.nontrivial(src);
    }
    Ok(())
}

/// Bindings are filled in: compare with a tree whose cells hold a mark that
/// resolution has to overwrite.
fn untouched(c: &mut Ctx, src: &str) -> Res {
    let Ok(t) = api::repl(src) else { return Ok(()) };
    let mut marked = t.clone();
    walk::Edit {
        loc: &mut |_| (),
        var: &mut |v, _| v.set(VarLoc::new(u16::MAX, 255)),
        slot: &mut |s, _| s.set(SlotIndex::new(255)),
    }
    .stmts(&mut marked);
    if let Ok(g) = api::resolve(src, marked) {
        let mark = format!("{:?}", VarLoc::new(u16::MAX, 255));
        for b in walk::binds(&g) {
            let left = match &b {
                walk::Bind::Use(_, v) => format!("{v:?}") == mark,
                walk::Bind::Decl(_, i) => *i == 255,
            };
            if left {
                return violation(src, format!("resolution left a binding unset: {b:?}"));
            }
        }
        pure(c, src, &t, &g)?;
    }
    if let Ok(g) = api::resolve(src, t.clone()) {
        pure(c, src, &t, &g)?;
    }
    Ok(())
}

fn sessions_untouched(c: &mut Ctx, _: u64) -> Res {
    let mut live = Live::new();
    for _ in 0..c.rng.range(2, 8) {
        let Some((src, t)) = parsed_line(&mut c.rng) else { continue };
        if let Ok(g) = live.resolve(&src, t.clone()) {
            pure(c, &src, &t, &g)?;
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------ C25

/// Where the globals of accepted sources live, as seen from top level.
#[derive(Default)]
struct Globals(HashMap<String, String>);

impl Globals {
    fn follow(&mut self, c: &mut Ctx, all: &str, t: &[Stmt]) -> Res {
        fn top(e: &Expr, out: &mut Vec<(String, VarLoc)>) {
            match e {
                Expr::Variable(n, cell, _) => out.push((n.clone(), cell.get())),
                Expr::Assign(n, cell, v, _) => {
                    top(v, out);
                    out.push((n.clone(), cell.get()));
                }
                Expr::Grouping(x) | Expr::Unary(_, x, _) | Expr::Get(x, _, _) => top(x, out),
                Expr::Binary(a, _, b, _) | Expr::Logical(a, _, b) | Expr::GetIndex(a, b, _) => {
                    top(a, out);
                    top(b, out);
                }
                Expr::Call(f, a, _) => {
                    top(f, out);
                    a.iter().for_each(|x| top(x, out));
                }
                _ => (),
            }
        }
        let mut seen: Vec<(String, VarLoc)> = vec![];
        for s in t {
            match s {
                Stmt::Expression(e) | Stmt::Print(e) => top(e, &mut seen),
                Stmt::Var(n, cell, e, _) => {
                    top(e, &mut seen);
                    seen.push((n.clone(), VarLoc::new(0, cell.get().index())));
                }
                Stmt::If(x, _, _) | Stmt::While(x, _) => top(x, &mut seen),
                _ => (),
            }
        }
        for (n, v) in seen {
            let v = format!("{v:?}");
            let old = self.0.entry(n.clone()).or_insert_with(|| v.clone());
            c.stats.add("global bindings followed", 1);
            if *old != v {
                return violation(all, format!("the global {n} moved from {old} to {v}"));
            }
        }
        let mut by: HashMap<&String, &String> = HashMap::new();
        for (n, v) in &self.0 {
            if let Some(o) = by.insert(v, n) {
                return violation(all, format!("the globals {o} and {n} are both {v}"));
            }
        }
        Ok(())
    }
}

/// Feed the sources to one session, and each of them to a session that has
/// only seen the accepted ones.
fn compare_sessions(c: &mut Ctx, sources: &[(String, Vec<Stmt>)]) -> Res {
    let mut live = Live::new();
    let mut good: Vec<&(String, Vec<Stmt>)> = vec![];
    let mut rejected = 0;
    let mut all = String::new();
    let mut globals = Globals::default();
    for s in sources {
        all.push_str(&s.0);
        all.push_str("----\n");
        let a = live.resolve(&s.0, s.1.clone());
        if rejected > 0 {
            let mut other = Live::new();
            for g in &good {
                if let Err(e) = other.resolve(&g.0, g.1.clone()) {
                    return violation(&all, format!("accepted only after a rejected source: {:?}: {}", g.0, api::errs(&e)));
                }
            }
            let b = other.resolve(&s.0, s.1.clone());
            let (x, y) = (shown(&b), shown(&a));
            if x != y {
                let t = |r: &Result<String, String>| match r {
                    Ok(s) => s.clone(),
                    Err(e) => format!("rejected: {e}"),
                };
                return violation(
                    &all,
                    format!("after rejected sources the last source gives something else:{}", walk::diff(&t(&x), &t(&y))),
                );
            }
            c.stats.add(if a.is_ok() { "accepted after a rejection" } else { "rejected after a rejection" }, 1);
            if a.is_ok() {
                c.stats.nontrivial(&all);
            }
        }
        match a {
            Ok(t) => {
                globals.follow(c, &all, &t)?;
                good.push(s);
            }
            Err(_) => rejected += 1,
        }
    }
    Ok(())
}

fn undisturbed(c: &mut Ctx, _: u64) -> Res {
    let n = c.rng.range(3, 10);
    let v: Vec<_> = (0..n).filter_map(|_| parsed_line(&mut c.rng)).collect();
    compare_sessions(c, &v)
}

fn sources(v: Vec<String>) -> Result<Vec<(String, Vec<Stmt>)>, Violation> {
    v.into_iter()
        .map(|s| match api::repl(&s) {
            Ok(t) => Ok((s, t)),
            Err(e) => violation(&s, format!("does not parse: {}", api::errs(&e))),
        })
        .collect()
}

/// Each kind of failure at each kind of place, followed by probes.
fn shaped_failures(c: &mut Ctx, idx: u64) -> Res {
    const PROBES: [&str; 22] = [
        "var v = 1\n",
        "v\n",
        "w = v\n",
        "return 1\n",
        "this\n",
        "super.m\n",
        "fun v()\n  v\n",
        "fun k(v)\n  var w = v\n  return w\n",
        "class A\n  init()\n    return\n  m()\n    return this\n",
        "class A < B\n  m()\n    super.m()\n",
        "class A\n  m()\n    super.m()\n",
        "class A\n  init()\n    return 1\n",
        "if (c)\n  var v = w\n  v\n",
        "for (var i = 0; i < v; i = i + 1)\n  i\n",
        "v + w + x + A + B + f + i + new1\n",
        "var fresh = 1\nfresh\n",
        "var a1\nvar a2\na1 = a2\n",
        "g(fun (v) { return v + w\n})\n",
        "{ var v = 1\nw = v\n} x\n",
        "class v < w\n  v(w)\n    super.v(v, w)\n",
        "break1\n",
        "fun f()\n  fun g()\n    return f + g + v + w\n",
    ];
    let r = &mut c.rng;
    let mut v: Vec<String> = vec![];
    for _ in 0..r.below(3) {
        v.push(r.pick(&PROBES).to_string());
    }
    for k in 0..r.range(1, 3) {
        let mut l = Lines { out: String::new(), depth: 0 };
        if r.chance(30) {
            l.put(*r.pick(&["var new1 = 1", "var w = v", "fun f(x)\n  x", "z9"]));
        }
        let depth = if k == 0 { (idx % 4) as usize } else { r.below(4) };
        for _ in 0..depth {
            for h in CONTEXTS[r.below(13)] {
                l.put(h);
                l.depth += 1;
                if r.chance(30) && !h.starts_with("class") {
                    l.put(*r.pick(&["var w1 = y8", "x", "f = w"]));
                }
            }
        }
        l.put(&OFFENCES[(idx / 4) as usize % OFFENCES.len()].replace("PAD}", "}"));
        l.depth = 0;
        if r.chance(30) {
            l.put(*r.pick(&["var new2 = 1", "u7", "return 1"]));
        }
        v.push(l.out);
        for _ in 0..r.range(1, 3) {
            v.push(r.pick(&PROBES).to_string());
        }
    }
    let v = sources(v)?;
    compare_sessions(c, &v)
}

/// Failures when there is hardly room for another global.
fn nearly_full(c: &mut Ctx, _: u64) -> Res {
    let r = &mut c.rng;
    let n = r.range(245, 255);
    let mut v = vec![(0..n).map(|i| format!("var v{i}\n")).collect::<String>()];
    for k in 0..r.range(2, 8) {
        v.push(match r.below(6) {
            0 => format!("n{k}\nreturn 1\n"),
            1 => format!("var v1 = n{k}\nthis\n"),
            2 => format!("fun f{k}()\n  var a\n  n{k}\n  var a\n"),
            3 => (0..r.range(1, 12)).map(|i| format!("x{k}_{i}\n")).collect(),
            4 => format!("var n{k} = 1\nn{k}\n"),
            _ => format!("v1 = v{}\n", n - 1),
        });
    }
    let v = sources(v)?;
    compare_sessions(c, &v)
}
