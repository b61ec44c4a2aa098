//! A few threads scan, parse and resolve at once, from the very first use on,
//! under an interpreter that detects data races and undefined behaviour.
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::sync::{Arc, Barrier};
use whitespace::{parser, resolver, scanner::Scanner};

const SOURCES: [&str; 6] = [
    "class A < B\n  init(x)\n    super.y\n",
    "if (a) b: nil\n",
    "for (;;) print x\n",
    "return ) x\nvar é = 1\n",
    "fun f(a, a) { }\nthis or a",
    "@ and \"open",
];

/// The order of the threads' steps. (Relaxed: adds no synchronisation.)
static CLOCK: AtomicUsize = AtomicUsize::new(0);

fn all(src: &str, at: &mut Vec<usize>) -> String {
    at.push(CLOCK.fetch_add(1, Relaxed));
    let mut s = Scanner::new(src);
    let toks = s.scan_tokens().map(|v| v.len());
    at.push(CLOCK.fetch_add(1, Relaxed));
    let code = parser::parse_repl_line(src).and_then(|t| resolver::resolve(t).map(|c| c.statements));
    at.push(CLOCK.fetch_add(1, Relaxed));
    format!("{toks:?} {code:?}")
}

fn main() {
    let arg = |i: usize, d: usize| std::env::args().nth(i).and_then(|a| a.parse().ok()).unwrap_or(d);
    let (n, first, each) = (arg(1, 3), arg(2, 0), arg(3, 1));
    let gate = Arc::new(Barrier::new(n));
    let pick = move |k: usize, j: usize| SOURCES[(first + k / 2 + j) % SOURCES.len()];
    let hs: Vec<_> = (0..n)
        .map(|k| {
            let gate = gate.clone();
            std::thread::spawn(move || {
                gate.wait();
                let mut at = vec![];
                // Two threads share each source.
                let v = (0..each).map(|j| (pick(k, j), all(pick(k, j), &mut at))).collect::<Vec<_>>();
                (v, at)
            })
        })
        .collect();
    let mut got: Vec<(&str, String)> = vec![];
    let mut order = vec![];
    for h in hs {
        let (v, at) = h.join().unwrap();
        got.extend(v);
        order.push(at);
    }
    for (s, t) in &got {
        for (u, v) in &got {
            assert!(s != u || t == v, "{s:?} gives {t} and {v}");
        }
    }
    println!("order {order:?}: {} results agree", got.len());
}
