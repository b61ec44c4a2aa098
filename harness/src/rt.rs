//! Runner: a parent process drives sharded worker processes, watches how they
//! end, merges what they observed and gives the three-valued verdict.
use crate::clock;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::Ordering::Relaxed;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// splitmix64-seeded xoshiro256**.
#[derive(Clone)]
pub struct Rng([u64; 4]);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

pub fn hash(bytes: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in bytes {
        h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
    }
    mix(h)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut s = seed;
        let mut v = [0; 4];
        for x in v.iter_mut() {
            s = mix(s);
            *x = s;
        }
        Rng(v)
    }
    pub fn u64(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    /// In 0..n.
    pub fn below(&mut self, n: usize) -> usize {
        (self.u64() % n.max(1) as u64) as usize
    }
    /// In a..=b.
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, percent: usize) -> bool {
        self.below(100) < percent
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}

#[derive(Debug, Clone)]
pub struct Violation {
    pub source: String,
    pub detail: String,
}

pub type Res = Result<(), Violation>;

pub fn violation<X>(source: &str, detail: impl Into<String>) -> Result<X, Violation> {
    Err(Violation { source: source.to_string(), detail: detail.into() })
}

/// Panic payload for a panic inside the code under test.
pub struct RepoPanic {
    pub call: String,
    pub source: String,
    pub message: String,
}

#[derive(Default)]
pub struct Stats {
    pub cases: u64,
    /// Texts or histories recorded by nontrivial(), repeats included.
    pub judged: u64,
    pub counters: BTreeMap<String, u64>,
    pub maxima: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub truncated: bool,
}

impl Stats {
    pub fn add(&mut self, name: &str, n: u64) {
        match self.counters.get_mut(name) {
            Some(v) => *v += n,
            None => {
                self.counters.insert(name.to_string(), n);
            }
        }
    }
    pub fn max(&mut self, name: &str, n: u64) {
        match self.maxima.get_mut(name) {
            Some(v) => *v = (*v).max(n),
            None => {
                self.maxima.insert(name.to_string(), n);
            }
        }
    }
    /// Record a non-trivial case.
    pub fn nontrivial(&mut self, text: &str) {
        self.judged += 1;
        if self.distinct.insert(hash(text.as_bytes()))
            && self.samples.len() < 4
            && text.len() < 600
            && (self.samples.is_empty() || self.distinct.len() % 97 == 0)
        {
            self.samples.push(text.to_string());
        }
    }
}

pub struct Ctx<'a> {
    pub rng: Rng,
    pub stats: &'a mut Stats,
    pub tier: Tier,
    pub seed: u64,
    pub phase: &'static str,
    pub store: &'a mut crate::inputs::Store,
}

pub type CaseFn = fn(&mut Ctx, u64) -> Res;
pub type TextFn = fn(&mut Ctx, &str) -> Res;

#[derive(Clone, Copy)]
pub enum Kind {
    /// Case number to case.
    Cases(CaseFn),
    /// Oracle over a source text, from one of the shared input streams.
    Text(TextFn, &'static [crate::inputs::Stream]),
}

#[derive(Clone, Copy)]
pub struct Phase {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub kind: Kind,
}

pub struct Check {
    pub id: &'static str,
    pub rule: &'static str,
    pub phases: Vec<Phase>,
    /// Counters that must not be zero: otherwise nothing was observed.
    pub needs: &'static [&'static str],
    /// Work done by the parent before the shards start.
    pub prepare: Option<fn(&Parent) -> Result<(), String>>,
    /// Work done once by the parent, outside the shards.
    pub parent: Option<fn(&mut Parent) -> Result<(), String>>,
    pub assumptions: &'static [&'static str],
}

impl Check {
    pub fn new(id: &'static str, rule: &'static str) -> Check {
        Check { id, rule, phases: vec![], needs: &[], prepare: None, parent: None, assumptions: &[] }
    }
    pub fn phase(mut self, name: &'static str, quick: u64, thorough: u64, kind: Kind) -> Check {
        self.phases.push(Phase { name, quick, thorough, kind });
        self
    }
    pub fn cases(self, name: &'static str, quick: u64, thorough: u64, f: CaseFn) -> Check {
        self.phase(name, quick, thorough, Kind::Cases(f))
    }
    pub fn text(
        self,
        name: &'static str,
        quick: u64,
        thorough: u64,
        f: TextFn,
        streams: &'static [crate::inputs::Stream],
    ) -> Check {
        self.phase(name, quick, thorough, Kind::Text(f, streams))
    }
    pub fn needs(mut self, n: &'static [&'static str]) -> Check {
        self.needs = n;
        self
    }
    pub fn parent(mut self, f: fn(&mut Parent) -> Result<(), String>) -> Check {
        self.parent = Some(f);
        self
    }
    pub fn prepare(mut self, f: fn(&Parent) -> Result<(), String>) -> Check {
        self.prepare = Some(f);
        self
    }
    pub fn assume(mut self, a: &'static [&'static str]) -> Check {
        self.assumptions = a;
        self
    }
}

// ---------------------------------------------------------------- shared slot

unsafe extern "C" {
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn setrlimit(res: i32, lim: *const [u64; 2]) -> i32;
    fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}

/// Have the child end with this process.
pub fn tied(cmd: &mut std::process::Command) -> &mut std::process::Command {
    use std::os::unix::process::CommandExt;
    // PR_SET_PDEATHSIG, SIGKILL
    unsafe {
        cmd.pre_exec(|| {
            prctl(1, 9, 0, 0, 0);
            Ok(())
        })
    }
}

const SLOT: usize = 1 << 20;
static mut SLOT_PTR: *mut u8 = std::ptr::null_mut();

/// Map the file in which this worker leaves the input it is working on, for
/// the parent to read should the worker die.
fn map_slot(path: &Path) {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new()
        .read(true)
        .write(true)
        .create(true)
        .truncate(true)
        .open(path)
        .unwrap();
    f.set_len(SLOT as u64).unwrap();
    unsafe {
        let p = mmap(std::ptr::null_mut(), SLOT, 3, 1, f.as_raw_fd(), 0);
        assert!(p as isize != -1);
        SLOT_PTR = p;
    }
}

fn slot_put(off: usize, bytes: &[u8]) {
    unsafe {
        if SLOT_PTR.is_null() {
            return;
        }
        let n = bytes.len().min(SLOT - off - 8);
        let p = SLOT_PTR.add(off);
        (p as *mut u64).write_unaligned(n as u64);
        std::ptr::copy_nonoverlapping(bytes.as_ptr(), p.add(8), n);
    }
}

pub fn note_case(phase: &str, idx: u64) {
    slot_put(0, format!("{phase} {idx}").as_bytes());
    slot_put(256, b"");
    slot_put(128, b"");
}

pub fn note_source(call: &str, src: &str) {
    slot_put(128, call.as_bytes());
    slot_put(256, src.as_bytes());
}

fn slot_get(bytes: &[u8], off: usize) -> String {
    let n = u64::from_ne_bytes(bytes[off..off + 8].try_into().unwrap()) as usize;
    String::from_utf8_lossy(&bytes[off + 8..(off + 8 + n).min(bytes.len())]).into_owned()
}

// --------------------------------------------------------------------- worker

pub const BIG_STACK: usize = 2 << 30;

/// Run `f` on a thread with a large stack.
pub fn on_big_stack<R: Send + 'static>(f: impl FnOnce() -> R + Send + 'static) -> R {
    std::thread::Builder::new().stack_size(BIG_STACK).spawn(f).unwrap().join().unwrap()
}

pub fn run_case(ctx: &mut Ctx, kind: Kind, idx: u64) -> Res {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match kind {
        Kind::Cases(f) => f(ctx, idx),
        Kind::Text(f, streams) => crate::inputs::drive(ctx, f, streams, idx),
    }));
    crate::api::idle();
    match r {
        Ok(r) => r,
        Err(p) => match p.downcast::<RepoPanic>() {
            Ok(p) => violation(&p.source, format!("{} panicked: {}", p.call, p.message)),
            Err(p) => std::panic::resume_unwind(p),
        },
    }
}

/// Check one text with a text oracle, panics of the code under test included.
pub fn try_text(ctx: &mut Ctx, f: TextFn, text: &str) -> Res {
    // An oracle's own choices depend on the text alone, so they replay.
    ctx.rng = Rng::new(mix(ctx.seed) ^ hash(text.as_bytes()));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(ctx, text)));
    crate::api::idle();
    match r {
        Ok(r) => r,
        Err(p) => match p.downcast::<RepoPanic>() {
            Ok(p) => violation(&p.source, format!("{} panicked: {}", p.call, p.message)),
            Err(p) => std::panic::resume_unwind(p),
        },
    }
}

fn case_seed(seed: u64, id: &str, phase: &str, idx: u64) -> u64 {
    mix(seed ^ hash(format!("{id}/{phase}").as_bytes())).wrapping_add(mix(idx))
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        if !crate::api::in_repo() {
            eprintln!("vh: harness panic: {info}");
        } else {
            crate::api::note_panic(format!("{info}"));
        }
    }));
}

pub struct WorkerArgs {
    pub shard: u64,
    pub shards: u64,
    pub tier: Tier,
    pub seed: u64,
    pub dir: PathBuf,
    pub limit: f64,
}

/// How often a quick run goes through the numbers in the table.
fn factor(id: &str) -> u64 {
    match id {
        "C01" | "C28" | "C31" => 1,
        "C02" | "C27" | "C29" => 2,
        "C26" => 3,
        _ => 5,
    }
}

pub fn worker(check: &'static Check, a: WorkerArgs) -> i32 {
    map_slot(&a.dir.join(format!("slot.{}", a.shard)));
    install_hook();
    clock::METER.store(true, Relaxed);
    unsafe {
        // No core files from crashing workers.
        setrlimit(4, &[0, 0]);
    }
    on_big_stack(move || {
        let start = Instant::now();
        let mut stats = Stats::default();
        let mut store = crate::inputs::Store::new(mix(a.seed) ^ mix(a.shard + 1));
        let mut code = 0;
        let total: u64 = check.phases.len() as u64;
        'all: for (k, ph) in check.phases.iter().enumerate() {
            let n = if a.tier == Tier::Quick { ph.quick * factor(check.id) } else { ph.thorough };
            // Every phase gets its share of the time that is left.
            let left = a.limit - start.elapsed().as_secs_f64();
            let until = start.elapsed().as_secs_f64() + left / (total - k as u64) as f64;
            let mut idx = a.shard;
            while idx < n {
                if idx / a.shards % 16 == 0 && start.elapsed().as_secs_f64() > until {
                    stats.truncated = true;
                    break;
                }
                note_case(ph.name, idx);
                let mut ctx = Ctx {
                    rng: Rng::new(case_seed(a.seed, check.id, ph.name, idx)),
                    stats: &mut stats,
                    tier: a.tier,
                    seed: a.seed,
                    phase: ph.name,
                    store: &mut store,
                };
                let before = ctx.stats.judged;
                let r = run_case(&mut ctx, ph.kind, idx);
                stats.cases += (stats.judged - before).max(1);
                if let Err(mut v) = r {
                    if let Kind::Text(f, _) = ph.kind {
                        v = shrink(check, ph, f, v, &a);
                    }
                    write_violation(&a.dir.join(format!("viol.{}", a.shard)), ph.name, idx, &v);
                    code = 1;
                    break 'all;
                }
                idx += a.shards;
            }
        }
        stats.add("edges_total", 0);
        write_stats(&a.dir.join(format!("stats.{}", a.shard)), &stats);
        code
    })
}

/// Greedy removal of lines, then of pieces, keeping the violation.
fn shrink(check: &Check, ph: &Phase, f: TextFn, v: Violation, a: &WorkerArgs) -> Violation {
    let mut best = v;
    let tries = std::cell::Cell::new(0);
    let start = Instant::now();
    let test = |text: &str| -> Option<Violation> {
        tries.set(tries.get() + 1);
        if tries.get() > 3000 || start.elapsed() > Duration::from_secs(10) || text.is_empty() {
            return None;
        }
        let mut stats = Stats::default();
        let mut store = crate::inputs::Store::new(0);
        let mut ctx = Ctx {
            rng: Rng::new(case_seed(a.seed, check.id, ph.name, 0)),
            stats: &mut stats,
            tier: a.tier,
            seed: a.seed,
            phase: ph.name,
            store: &mut store,
        };
        try_text(&mut ctx, f, text).err().filter(|w| w.source == text)
    };
    if best.source.len() > 20_000 {
        return best;
    }
    let base = best.source.clone();
    match test(&base) {
        Some(w) => best = w,
        None => return best,
    }
    let mut size = (best.source.chars().count() / 2).max(1);
    loop {
        let cs: Vec<char> = best.source.chars().collect();
        let mut i = 0;
        let mut cur = cs;
        let mut any = false;
        while i < cur.len() {
            let mut t = cur.clone();
            t.drain(i..(i + size).min(t.len()));
            let s: String = t.iter().collect();
            if let Some(w) = test(&s) {
                best = w;
                cur = t;
                any = true;
            } else {
                i += size;
            }
        }
        if size == 1 && !any {
            return best;
        }
        if !any {
            size = (size / 2).max(1);
        }
        if tries.get() > 3000 {
            return best;
        }
    }
}

fn write_violation(path: &Path, phase: &str, idx: u64, v: &Violation) {
    std::fs::write(path, format!("{phase}\n{idx}\n{}\n{}{}", v.source.len(), v.source, v.detail))
        .unwrap();
}

fn read_violation(path: &Path) -> Option<(String, String, Violation)> {
    let b = std::fs::read(path).ok()?;
    let s = String::from_utf8_lossy(&b).into_owned();
    let mut it = s.splitn(4, '\n');
    let phase = it.next()?.to_string();
    let idx = it.next()?.to_string();
    let n: usize = it.next()?.parse().ok()?;
    let rest = it.next()?;
    Some((
        phase,
        idx,
        Violation { source: rest.get(..n)?.to_string(), detail: rest.get(n..)?.to_string() },
    ))
}

fn write_stats(path: &Path, s: &Stats) {
    let mut o = String::new();
    let _ = writeln!(o, "n {} {}", s.cases, s.truncated as u8);
    for (k, v) in &s.counters {
        let _ = writeln!(o, "c {v} {k}");
    }
    for (k, v) in &s.maxima {
        let _ = writeln!(o, "m {v} {k}");
    }
    for h in &s.distinct {
        let _ = writeln!(o, "h {h:x}");
    }
    for t in &s.samples {
        let _ = writeln!(o, "s {}", json(t));
    }
    let _ = writeln!(o, "t {}", clock::EDGES.load(Relaxed));
    for e in crate::inputs::all_edges() {
        let _ = writeln!(o, "e {e}");
    }
    std::fs::write(path, o).unwrap();
}

/// A string as JSON.
pub fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (0x7f..0xa0).contains(&(c as u32)) => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

// --------------------------------------------------------------------- parent

pub struct Parent {
    pub id: &'static str,
    pub tier: Tier,
    pub seed: u64,
    pub verif: PathBuf,
    pub dir: PathBuf,
    pub stats: Stats,
    pub edges: HashSet<u64>,
    pub edges_total: u64,
    pub violations: Vec<(String, String, Violation)>,
    pub known: Vec<String>,
    pub inconclusive: Vec<String>,
    pub start: Instant,
}

pub enum End {
    Code(i32),
    Signal(i32),
    Timeout,
}

/// Wait for a child with a wall-clock watchdog (inconclusive when it fires).
pub fn wait(child: &mut Child, limit: Duration) -> End {
    use std::os::unix::process::ExitStatusExt;
    let t = Instant::now();
    let mut nap = 1;
    loop {
        match child.try_wait().unwrap() {
            Some(st) => {
                return match st.code() {
                    Some(c) => End::Code(c),
                    None => End::Signal(st.signal().unwrap_or(0)),
                };
            }
            None if t.elapsed() > limit => {
                let _ = child.kill();
                let _ = child.wait();
                return End::Timeout;
            }
            None => {
                std::thread::sleep(Duration::from_millis(nap));
                nap = (nap + 1).min(20);
            }
        }
    }
}

impl Parent {
    pub fn violate(&mut self, phase: &str, case: &str, source: &str, detail: impl Into<String>) {
        self.violations.push((
            phase.to_string(),
            case.to_string(),
            Violation { source: source.to_string(), detail: detail.into() },
        ));
    }

    fn shards(&mut self, check: &Check, shards: u64) {
        let exe = std::env::current_exe().unwrap();
        let limit = match self.tier {
            Tier::Quick => 300.0,
            Tier::Thorough => 600.0,
        };
        let mut kids: Vec<(u64, Child)> = (0..shards)
            .map(|s| {
                let c = Command::new(&exe)
                    .args(["worker", check.id, &s.to_string(), &shards.to_string()])
                    .arg(if self.tier == Tier::Quick { "quick" } else { "thorough" })
                    .arg(self.seed.to_string())
                    .arg(&self.dir)
                    .arg(limit.to_string())
                    .env("VH_VERIF", &self.verif)
                    .env("VH_DIR", &self.dir)
                    .stdin(Stdio::null())
                    .stdout(Stdio::null())
                    .stderr(std::fs::File::create(self.dir.join(format!("err.{s}"))).unwrap())
                    .spawn()
                    .unwrap();
                (s, c)
            })
            .collect();
        let deadline = Instant::now() + Duration::from_secs_f64(limit + 60.0);
        let mut bad = false;
        for (s, c) in kids.iter_mut() {
            let end = if bad {
                wait(c, Duration::from_secs(3))
            } else {
                wait(c, deadline.saturating_duration_since(Instant::now()))
            };
            let slot = std::fs::read(self.dir.join(format!("slot.{s}"))).unwrap_or_default();
            let (case, call, src) = if slot.len() == SLOT {
                (slot_get(&slot, 0), slot_get(&slot, 128), slot_get(&slot, 256))
            } else {
                Default::default()
            };
            let (phase, idx) = case.split_once(' ').unwrap_or(("?", "?"));
            let err = std::fs::read_to_string(self.dir.join(format!("err.{s}"))).unwrap_or_default();
            match end {
                End::Code(0) => (),
                End::Code(1) => {
                    match read_violation(&self.dir.join(format!("viol.{s}"))) {
                        Some(v) => self.violations.push(v),
                        None => self.inconclusive.push(format!("worker {s} left no report")),
                    }
                    bad = true;
                }
                End::Code(clock::EXIT_STEPS) if !call.is_empty() => {
                    self.violate(phase, idx, &src, format!("{call} exceeded its step budget"));
                    bad = true;
                }
                End::Code(clock::EXIT_ALLOC) if !call.is_empty() => {
                    self.violate(phase, idx, &src, format!("{call} exceeded its memory budget"));
                    bad = true;
                }
                End::Signal(sig) if matches!(sig, 4 | 6 | 7 | 8 | 11) && !call.is_empty() => {
                    self.violate(phase, idx, &src, format!("{call} died of signal {sig}: {err}"));
                    bad = true;
                }
                End::Code(c) => {
                    self.inconclusive.push(format!("worker {s} exit {c} in {case}: {err}"))
                }
                End::Signal(sig) => {
                    self.inconclusive.push(format!("worker {s} signal {sig} in {case}: {err}"))
                }
                // The others are cut short when one has found a violation.
                End::Timeout if bad => (),
                End::Timeout => {
                    self.inconclusive.push(format!("worker {s} timed out in {case} [{call}]"))
                }
            }
            self.merge(&self.dir.join(format!("stats.{s}")).clone());
        }
    }

    fn merge(&mut self, path: &Path) {
        let Ok(t) = std::fs::read_to_string(path) else { return };
        for l in t.lines() {
            let (k, r) = l.split_at(1);
            let r = r.trim_start_matches(' ');
            match k {
                "n" => {
                    let (a, b) = r.split_once(' ').unwrap();
                    self.stats.cases += a.parse::<u64>().unwrap();
                    self.stats.truncated |= b == "1";
                }
                "c" | "m" => {
                    let (v, name) = r.split_once(' ').unwrap();
                    let v = v.parse().unwrap();
                    if k == "c" { self.stats.add(name, v) } else { self.stats.max(name, v) }
                }
                "h" => {
                    self.stats.distinct.insert(u64::from_str_radix(r, 16).unwrap());
                }
                "s" => {
                    if self.stats.samples.len() < 8 {
                        self.stats.samples.push(r.to_string())
                    }
                }
                "t" => self.edges_total = self.edges_total.max(r.parse().unwrap()),
                "e" => {
                    self.edges.insert(r.parse().unwrap());
                }
                _ => (),
            }
        }
    }

    fn evidence(&self, check: &Check) {
        let mut o = String::new();
        let _ = write!(
            o,
            "{{\n \"property\": \"{}\",\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}]",
            self.id,
            if self.tier == Tier::Quick { "quick" } else { "thorough" },
            self.seed,
            self.stats.cases,
            self.stats.distinct.len(),
            json(check.rule),
            self.stats.samples.join(", ")
        );
        let _ = write!(o, ",\n  \"observed\": {{");
        let mut first = true;
        for (k, v) in
            self.stats.counters.iter().map(|(k, v)| (k.clone(), v)).chain(
                self.stats.maxima.iter().map(|(k, v)| (format!("max {k}"), v)),
            )
        {
            if k == "edges_total" {
                continue;
            }
            let _ = write!(o, "{}\n   {}: {v}", if first { "" } else { "," }, json(&k));
            first = false;
        }
        let _ = write!(o, "\n  }}");
        if self.edges_total > 0 {
            let _ = write!(
                o,
                ",\n  \"edges_covered\": {},\n  \"edges_instrumented\": {}",
                self.edges.len(),
                self.edges_total
            );
        }
        if self.stats.truncated {
            let _ = write!(o, ",\n  \"stopped_by_time_limit\": true");
        }
        if !self.known.is_empty() {
            let _ = write!(o, ",\n  \"known_findings_seen\": {}", self.known.len());
        }
        let _ = write!(
            o,
            "\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.1},\n \"violations\": {}\n}}\n",
            check.assumptions.iter().map(|a| json(a)).collect::<Vec<_>>().join(", "),
            self.start.elapsed().as_secs_f64(),
            self.violations.len()
        );
        let dir = self.verif.join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        std::fs::write(dir.join(format!("{}.json", self.id)), o).unwrap();
    }
}

pub fn check(check: &'static Check, tier: Tier, seed: u64, verif: &Path) -> i32 {
    let dir = std::env::temp_dir().join(format!("vh-{}-{}", check.id, std::process::id()));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let mut p = Parent {
        id: check.id,
        tier,
        seed,
        verif: verif.to_path_buf(),
        dir: dir.clone(),
        stats: Stats::default(),
        edges: HashSet::new(),
        edges_total: 0,
        violations: vec![],
        known: vec![],
        inconclusive: vec![],
        start: Instant::now(),
    };
    let mut ready = true;
    if let Some(f) = check.prepare {
        if let Err(e) = f(&p) {
            p.inconclusive.push(e);
            ready = false;
        }
    }
    if ready && !check.phases.is_empty() {
        p.shards(check, 8);
    }
    if !ready {
    } else if let Some(f) = check.parent {
        if p.violations.is_empty() {
            if let Err(e) = f(&mut p) {
                p.inconclusive.push(e);
            }
        }
    }
    let mut code = 0;
    for k in &p.known {
        println!("{k}");
    }
    if !p.violations.is_empty() {
        code = 1;
        let rdir = verif.join("replays");
        let _ = std::fs::create_dir_all(&rdir);
        for (phase, idx, v) in p.violations.iter().take(3) {
            let body = format!(
                "property: {}\nphase: {phase}\nindex: {idx}\nseed: {seed}\ntier: {}\nsource-bytes: {}\n---\n{}\n---\n{}\n",
                check.id,
                if tier == Tier::Quick { "quick" } else { "thorough" },
                v.source.len(),
                v.source,
                v.detail
            );
            let path = rdir.join(format!("{}-{:08x}.txt", check.id, hash(body.as_bytes()) as u32));
            std::fs::write(&path, body).unwrap();
            println!("VIOLATION property={} replay={}", check.id, path.display());
            let d: String = v.detail.chars().take(1500).collect();
            let s: String = v.source.chars().take(600).collect();
            println!("  case {phase}/{idx}: {d}\n  source: {s:?}");
        }
    } else {
        for n in check.needs {
            if p.stats.counters.get(*n).copied().unwrap_or(0) == 0
                && p.stats.maxima.get(*n).copied().unwrap_or(0) == 0
            {
                p.inconclusive.push(format!("nothing was observed for '{n}'"));
            }
        }
        if !p.inconclusive.is_empty() {
            code = 2;
        }
    }
    for i in &p.inconclusive {
        println!("INCONCLUSIVE property={}: {i}", check.id);
    }
    p.evidence(check);
    println!(
        "{} {}: {} cases, {} distinct non-trivial, {} violations, {:.1}s",
        check.id,
        if code == 0 { "held on everything explored" } else { "not clean" },
        p.stats.cases,
        p.stats.distinct.len(),
        p.violations.len(),
        p.start.elapsed().as_secs_f64()
    );
    let _ = std::io::stdout().flush();
    let _ = std::fs::remove_dir_all(&dir);
    code
}

/// Re-run the case of a replay file.
pub fn replay(check: &'static Check, path: &Path) -> i32 {
    let t = std::fs::read(path).unwrap();
    let t = String::from_utf8_lossy(&t).into_owned();
    let field = |n: &str| {
        t.lines()
            .find_map(|l| l.strip_prefix(&format!("{n}: ")))
            .unwrap_or_default()
            .to_string()
    };
    let n: usize = field("source-bytes").parse().unwrap_or(0);
    let at = t.find("\n---\n").unwrap() + 5;
    let source = t.get(at..at + n).unwrap_or_default().to_string();
    let seed: u64 = field("seed").parse().unwrap();
    if std::env::var_os("VH_VERIF").is_none() {
        unsafe { std::env::set_var("VH_VERIF", "/verif") };
    }
    let idx: u64 = field("index").parse().unwrap_or(0);
    let phase = field("phase");
    let tier = if field("tier") == "quick" { Tier::Quick } else { Tier::Thorough };
    install_hook();
    on_big_stack(move || {
        let Some(ph) = check.phases.iter().find(|p| p.name == phase) else {
            println!("the case came from the parent process: run the whole check again");
            return 2;
        };
        let mut stats = Stats::default();
        let mut store = crate::inputs::Store::new(0);
        let mut ctx = Ctx {
            rng: Rng::new(case_seed(seed, check.id, ph.name, idx)),
            stats: &mut stats,
            tier,
            seed,
            phase: ph.name,
            store: &mut store,
        };
        let r = match ph.kind {
            Kind::Text(f, _) => try_text(&mut ctx, f, &source),
            Kind::Cases(_) => run_case(&mut ctx, ph.kind, idx),
        };
        match r {
            Ok(()) => {
                println!("holds now");
                0
            }
            Err(v) => {
                println!("VIOLATION property={} replay={}", check.id, path_str(&phase));
                println!("{:?}\n{}", v.source, v.detail);
                1
            }
        }
    })
}

fn path_str(p: &str) -> &str {
    p
}
