//! C42: memory taken for a source is given back with its results.
use super::system::{prepare_cli, program, session, spawn};
use super::wasm::{ask, build, held};
use super::*;
use crate::api::Live;
use crate::clock::live;
use crate::inputs::Stream::*;
use crate::inputs::{self, Stream};
use crate::rt::{Ctx, Parent};
use std::io::{BufRead, BufReader, Write};
use std::process::{Command, Stdio};
use whitespace::parser::Parser;
use whitespace::scanner::Scanner;

pub fn all() -> Vec<Check> {
    vec![
        Check::new(
            "C42",
            "a metering allocator over rounds of the same work on texts that differ in their names: bytes not given back when everything is dropped; the memory of one session over repeated and over rejected lines, of a REPL process, of a WebAssembly instance and the objects it holds; non-trivial: a source or session of at least eight rounds",
        )
        .prepare(prepare)
        // First, so that nothing has grown yet.
        .cases("long runs", 8, 160, long_runs)
        .text("streams", 2_400, 120_000, sources, &[Valid, Rules, Mutant, Exprs, Seeds, Soup, Layout, Chars])
        .cases("sessions", 1_600, 60_000, sessions)
        .cases("processes", 8, 64, processes)
        .cases("instances", 48, 1_200, instances)
        .needs(&["rounds", "accepted", "rejected", "session rounds", "rejected lines repeated", "rounds of other local names", "processes", "instances"]),
    ]
}

fn prepare(p: &Parent) -> Result<(), String> {
    prepare_cli(p)?;
    build(p)
}

const ROUNDS: usize = 12;
/// The rounds that are judged: what is kept once and for all is in place.
const LAST: usize = 8;

const WORDS: [&str; 20] = [
    "and", "break", "class", "continue", "else", "false", "for", "fun", "if", "nil", "or", "print", "return", "super", "this", "true", "var",
    "while", "init", "clock",
];

/// The source with other names and texts, of the same length in every round.
fn other(src: &str, round: usize) -> String {
    let tag = format!("q{}", char::from(b'a' + (round % 26) as u8)) + &format!("{:03}", round / 26);
    let mut out = String::with_capacity(src.len() * 2);
    let mut word = String::new();
    for ch in src.chars().chain(['\0']) {
        if ch.is_ascii_alphabetic() || (!word.is_empty() && (ch.is_ascii_alphanumeric() || ch == '_')) {
            word.push(ch);
            continue;
        }
        if !word.is_empty() {
            out.push_str(&word);
            if !WORDS.contains(&word.as_str()) {
                out.push_str(&tag);
            }
            word.clear();
        }
        out.push(ch);
    }
    out.pop();
    out
}

/// All that can be done with a source; what it leaves behind.
fn everything(src: &str) -> (i64, bool) {
    let mut ok = false;
    let kept = api::call("all entry points", src, || {
        let before = live();
        {
            let mut s = Scanner::new(src);
            if let Ok(t) = s.scan_tokens() {
                let mut p = Parser::new(t);
                let _ = p.parse();
            }
        }
        if let Ok(t) = whitespace::parser::parse(src) {
            let copy = t.clone();
            match whitespace::resolver::resolve(t) {
                Ok(r) => ok = r.statements.len() == copy.len(),
                Err(e) => drop(e.to_string()),
            }
        }
        match whitespace::parser::parse_repl_line(src) {
            Ok(t) => {
                let mut r = whitespace::resolver::Resolver::new();
                let mut other = r.clone();
                let _ = r.resolve(t.clone());
                let _ = other.resolve(t);
            }
            Err(e) => drop(e.to_string()),
        }
        let _ = whitespace::parser::parse_expression(src);
        live() - before
    });
    (kept, ok)
}

/// More in each of the last rounds.
fn grows(v: &[i64]) -> bool {
    v.len() >= ROUNDS && v[v.len() - LAST..].iter().all(|n| *n > 0)
}

fn sources(c: &mut Ctx, src: &str) -> Res {
    if src.len() > 6_000 {
        return Ok(());
    }
    let mut kept = vec![];
    let mut ok = false;
    for i in 0..ROUNDS {
        let t = other(src, i);
        let (n, o) = everything(&t);
        kept.push(n);
        ok = o;
        // Nothing kept when all was seen once: nothing to follow.
        if i == 3 && kept[2] == 0 && kept[3] == 0 {
            break;
        }
    }
    c.stats.add("rounds", kept.len() as u64);
    c.stats.add(if ok { "accepted" } else { "rejected" }, 1);
    c.stats.max("bytes kept by a round", *kept[1..].iter().max().unwrap() as u64);
    if grows(&kept) {
        return violation(src, format!("memory not given back, by round, with other names each time: {kept:?} bytes"));
    }
    if src.len() > 20 {
        c.stats.nontrivial(src);
    }
    Ok(())
}

/// Thousands of calls on small sources.
fn long_runs(c: &mut Ctx, _: u64) -> Res {
    let streams: [Stream; 4] = [Valid, Rules, Mutant, Seeds];
    let mut v: Vec<String> = vec![];
    while v.len() < 6 {
        let s = *c.rng.clone().pick(&streams);
        let t = inputs::produce(c, s);
        if t.len() < 400 {
            v.push(t);
        }
    }
    let mut total = 0;
    let mut marks = vec![];
    for i in 0..=4_000 {
        if [250, 1_000, 4_000].contains(&i) {
            marks.push(total);
        }
        let t = other(&v[i % v.len()], i);
        total += everything(&t).0;
    }
    c.stats.add("rounds", 4_000);
    if marks[0] < marks[1] && marks[1] < marks[2] {
        return violation(&v.concat(), format!("memory grows with the number of calls: {marks:?} bytes kept after 250, 1000 and 4000 calls on these"));
    }
    c.stats.nontrivial(&v.concat());
    Ok(())
}

/// One session, the same lines again and again; lines that are rejected under
/// other names.
fn sessions(c: &mut Ctx, _: u64) -> Res {
    let mut lines: Vec<String> = vec![];
    let n = c.rng.range(1, 8);
    while lines.len() < n {
        if c.rng.chance(40) {
            lines.extend(session(c).into_iter().take(4));
        } else {
            let s = *c.rng.clone().pick(&[Valid, Rules, Rules, Mutant, Seeds]);
            let t = inputs::produce(c, s);
            if t.len() < 3_000 {
                lines.push(t);
            }
        }
    }
    lines.truncate(n);
    let all = lines.join("----\n");
    let mut s = Live::new();
    let mut kept = vec![];
    for _ in 0..ROUNDS {
        let before = live();
        for l in &lines {
            let _ = s.feed(l);
        }
        kept.push(live() - before);
        if kept.len() == 4 && kept[1..].iter().all(|n| *n == 0) {
            break;
        }
    }
    c.stats.add("session rounds", kept.len() as u64);
    if grows(&kept) {
        return violation(&all, format!("a session grows with every repetition of its lines: {kept:?} bytes"));
    }
    for l in &lines {
        let mut kept = vec![];
        for i in 0..ROUNDS {
            let t = other(l, i);
            let before = live();
            if s.feed(&t).is_ok() {
                break;
            }
            kept.push(live() - before);
            if kept.len() == 4 && kept[1..].iter().all(|n| *n == 0) {
                break;
            }
        }
        if kept.len() >= 4 {
            c.stats.add("rejected lines repeated", 1);
        }
        if grows(&kept) {
            return violation(&all, format!("a session grows with every rejected line: {kept:?} bytes for variants of {l:?}"));
        }
    }
    // Names that are no globals, and texts: others in every round.
    const OWN: [&str; 16] = [
        "fun f(@1, @2)\n  var @3 = @1\n  @3 = @2\n", "{ var @1 = 1\n var @2 = @1\n } var z\n", "for (var @1 = 0; @1 < 3; @1 = @1 + 1) f(@1)\n",
        "class A < B\n  @1(@2)\n    this.@3 = super.@1(@2)\n  class @2()\n    this.@1\n", "a.@1.@2 = \"@3\"\n", "print \"@1 @2\"\n",
        "a = {@1: \"@2\", \"@3\": 1}\n", "a[\"@1\"] = fun(@2) { return @2\n}\n", "// @1\n", "var a =\n  @1: 1\n  @2: 2\n", "while (a)\n  var @1\n  @1\n",
        "f a.@1, fun(@1, @2) { @1(@2)\n}\n", "fun f()\n  fun @1(@2)\n    @1(@2)\n  @1\n", "a = 1@#\n", "if (a)\n  var @1\nelse\n  var @2\n", "print \"@1\n@2\"\n",
    ];
    let forms: Vec<&str> = (0..c.rng.range(1, 5)).map(|_| *c.rng.pick(&OWN)).collect();
    let text = |i: usize| {
        let t = forms.concat();
        let t = (1..4).fold(t, |t, k| t.replace(&format!("@{k}"), &format!("local{k}x{i:05}")));
        t.replace("@#", &format!("{i:05}"))
    };
    let mut kept = vec![];
    for i in 0..ROUNDS {
        let t = text(i);
        let before = live();
        let ok = s.feed(&t).is_ok();
        kept.push(live() - before);
        c.stats.add(if ok { "rounds of other local names" } else { "rejected rounds of other local names" }, 1);
    }
    if grows(&kept) {
        return violation(&text(0), format!("a session grows with local names and texts: {kept:?} bytes for lines like this"));
    }
    c.stats.nontrivial(&all);
    Ok(())
}

fn peak(pid: u32) -> Option<u64> {
    let s = std::fs::read_to_string(format!("/proc/{pid}/status")).ok()?;
    let l = s.lines().find(|l| l.starts_with("VmHWM:"))?;
    l.split_whitespace().nth(1)?.parse().ok()
}

/// The peak of a REPL process does not grow with the lines it has answered.
fn processes(c: &mut Ctx, idx: u64) -> Res {
    const FILL: usize = 1_500;
    let line = |i: usize| -> String {
        let x = format!("{}{i:06}", "x".repeat(FILL));
        match idx % 4 {
            0 => format!("\"{x}\""),
            1 => format!("// {x}"),
            2 => format!("fun f(a) {{ return {x}(a) ; }} \"{x}\""),
            _ => format!("fun f({x}) {{ var {x} }} b"),
        }
    };
    let mut child = spawn(Command::new(program()).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()));
    let pid = child.id();
    let mut to = child.stdin.take().unwrap();
    let mut from = BufReader::new(child.stdout.take().unwrap());
    let mut peaks = vec![];
    let mut i = 0;
    let mut gone = false;
    'all: for stop in [300, 800, 1_800] {
        // The answer to the mark comes after all others.
        let mark = format!("MARK{stop}");
        let lines: Vec<String> = (i..stop).map(|k| line(k) + "\n").chain([format!("\"{mark}\"\n")]).collect();
        i = stop;
        let h = std::thread::spawn(move || {
            for l in lines {
                if to.write_all(l.as_bytes()).is_err() {
                    break;
                }
            }
            to
        });
        let mut buf = vec![];
        loop {
            buf.clear();
            match from.read_until(b'\n', &mut buf) {
                Ok(0) | Err(_) => {
                    gone = true;
                    break;
                }
                Ok(_) if String::from_utf8_lossy(&buf).contains(&mark) => break,
                Ok(_) => (),
            }
        }
        to = h.join().unwrap();
        match peak(pid) {
            Some(p) if !gone => peaks.push(p),
            _ => break 'all,
        }
    }
    drop(to);
    drop(from);
    let _ = child.kill();
    let _ = child.wait();
    if peaks.len() < 3 {
        // It ended early, which is for others to judge.
        return Ok(());
    }
    c.stats.add("processes", 1);
    c.stats.max("growth of a process (KB)", peaks[2] - peaks[1]);
    // The second stretch has 1.5 MB of text.
    if peaks[2] - peaks[1] > 900 && peaks[1] - peaks[0] > 450 {
        return violation(&line(0), format!("a REPL keeps what it has answered: peaks of {peaks:?} KB after 300, 800 and 1800 lines like this"));
    }
    c.stats.nontrivial(&line(0));
    Ok(())
}

/// Memory and objects of a WebAssembly instance over repeated calls.
fn instances(c: &mut Ctx, idx: u64) -> Res {
    let streams: [Stream; 5] = [Valid, Rules, Mutant, Seeds, Soup];
    let mut v: Vec<String> = vec![];
    let n = if idx % 2 == 0 { 1 } else { 4 };
    while v.len() < n {
        let s = *c.rng.clone().pick(&streams);
        let t = inputs::produce(c, s);
        if t.len() < 4_000 {
            v.push(t);
        }
    }
    let all = v.join("----\n");
    let (mut objects, mut bytes) = (vec![], vec![]);
    for round in 0..ROUNDS {
        for k in 0..40 {
            let t = other(&v[k % v.len()], round * 40 + k);
            match ask(&t, round == 0 && k == 0) {
                Ok(('v' | 'e', ..)) => (),
                // A trap ends the instance.
                Ok(_) => return Ok(()),
                Err(e) => panic!("node went away: {e}"),
            }
        }
        match held() {
            Ok((b, o)) => {
                bytes.push(b as i64);
                objects.push(o);
            }
            Err(e) => panic!("node went away: {e}"),
        }
    }
    c.stats.add("instances", 1);
    c.stats.max("objects held by an instance", *objects.last().unwrap() as u64);
    let steps: Vec<i64> = [0].iter().chain(&objects).zip(&objects).map(|(a, b)| b - a).collect();
    if grows(&steps) {
        return violation(&all, format!("an instance holds more and more objects: {objects:?} after each 40 calls"));
    }
    if bytes[2] < bytes[5] && bytes[5] < bytes[8] && bytes[8] < bytes[11] {
        return violation(&all, format!("the memory of an instance grows with the number of calls: {bytes:?} bytes after each 40 calls"));
    }
    c.stats.nontrivial(&all);
    Ok(())
}
