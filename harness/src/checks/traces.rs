//! C43: a run changes nothing but its output streams.
use super::streams::{Case, any_case, file_case};
use super::system::{bytes_same, prepare_cli, program, scratch, spawn};
use super::*;
use crate::inputs;
use crate::make;
use crate::rt::{Ctx, End, hash, wait};
use std::collections::BTreeMap;
use std::os::unix::fs::{MetadataExt, PermissionsExt, symlink};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, SystemTime};

pub fn all() -> Vec<Check> {
    vec![
        Check::new(
            "C43",
            "the program built from the working tree in scratch directories whose every entry (kind, size, mode, times, contents) is recorded before and after, run again over changed sources of the same size and time, and under strace for calls that open for writing, remove, rename, start or connect; non-trivial: a run between two records",
        )
        .prepare(prepare_cli)
        .cases("records", 300, 8_000, records)
        .cases("system calls", 40, 800, calls)
        .needs(&["records compared", "files run", "sessions run", "sources changed between runs", "faulty runs", "files accepted", "files rejected"])
        .assume(&["without a working strace only the scratch directories (home, temporary, working and source directory) are watched"]),
    ]
}

/// Everything in a directory that a program could have changed.
fn record(d: &Path, out: &mut BTreeMap<PathBuf, String>) {
    let Ok(m) = std::fs::symlink_metadata(d) else { return };
    let what = if m.is_symlink() {
        format!("{:?}", std::fs::read_link(d).ok())
    } else if m.is_file() {
        format!("{:x}", hash(&std::fs::read(d).unwrap_or_default()))
    } else {
        String::new()
    };
    let size = if m.is_file() { m.size() } else { 0 };
    out.insert(d.to_path_buf(), format!("mode {:o}, {} bytes, changed {}.{:09}, contents {what}", m.mode(), size, m.mtime(), m.mtime_nsec()));
    if m.is_dir() {
        let mut v: Vec<PathBuf> = std::fs::read_dir(d).map(|r| r.flatten().map(|e| e.path()).collect()).unwrap_or_default();
        v.sort();
        for p in v {
            record(&p, out);
        }
    }
}

fn differ(a: &BTreeMap<PathBuf, String>, b: &BTreeMap<PathBuf, String>) -> Option<String> {
    for (p, x) in a {
        match b.get(p) {
            None => return Some(format!("{} is gone", p.display())),
            Some(y) if x != y => return Some(format!("{}: {x}; afterwards {y}", p.display())),
            _ => (),
        }
    }
    b.iter().find(|(p, _)| !a.contains_key(*p)).map(|(p, y)| format!("{} is new: {y}", p.display()))
}

struct Place {
    base: PathBuf,
    source: PathBuf,
    named: PathBuf,
}

/// A home, a temporary, a working and a source directory with things in them.
fn place(c: &mut Ctx, idx: u64) -> Place {
    let base = scratch(&format!("place{idx}"));
    let _ = std::fs::remove_dir_all(&base);
    for d in ["home/.config", "home/.cache", "tmp", "work", "src"] {
        std::fs::create_dir_all(base.join(d)).unwrap();
    }
    for (f, t) in [("home/.profile", "x\n"), ("work/other.ws", "print 2\n"), ("work/in.ws.bak", "old\n"), ("src/notes", "")] {
        if c.rng.chance(70) {
            std::fs::write(base.join(f), t).unwrap();
        }
    }
    let name = *c.rng.pick(&["in.ws", "in", "a b.coffee", "größe.ws", ".in"]);
    let dir = *c.rng.pick(&["src", "src", "work", "home"]);
    let source = base.join(dir).join(name);
    let named = match c.rng.below(4) {
        0 => {
            let l = base.join("work/link");
            let _ = symlink(&source, &l);
            l
        }
        1 => PathBuf::from("..").join(dir).join(name),
        _ => source.clone(),
    };
    Place { base, source, named }
}

fn command(p: &Place, k: &Case, strace: Option<&Path>) -> Command {
    let mut cmd = match strace {
        None => Command::new(program()),
        Some(log) => {
            let mut c = Command::new("strace");
            c.args(["-f", "-qq", "-s", "200", "-o"]).arg(log).args(["-e", "trace=file,process,network,ftruncate,fchmod,fchown"]).arg(program());
            c
        }
    };
    if k.repl {
        let i = p.base.with_extension("input");
        std::fs::write(&i, &k.text).unwrap();
        cmd.stdin(std::fs::File::open(&i).unwrap());
    } else {
        cmd.arg(&p.named).stdin(Stdio::null());
    }
    let home = p.base.join("home");
    cmd.current_dir(p.base.join("work"))
        .env("HOME", &home)
        .env("TMPDIR", p.base.join("tmp"))
        .env("XDG_CONFIG_HOME", home.join(".config"))
        .env("XDG_CACHE_HOME", home.join(".cache"))
        .env("XDG_DATA_HOME", home.join(".local"))
        .env("XDG_STATE_HOME", home.join(".local"));
    cmd
}

/// Run it and compare the answer.
fn run(c: &mut Ctx, p: &Place, k: &Case, strace: Option<&Path>) -> Res {
    let (o, e) = (p.base.with_extension("out"), p.base.with_extension("err"));
    let mut cmd = command(p, k, strace);
    cmd.stdout(std::fs::File::create(&o).unwrap()).stderr(std::fs::File::create(&e).unwrap());
    let end = match wait(&mut spawn(&mut cmd), Duration::from_secs(120)) {
        End::Code(n) => format!("exit status {n}"),
        End::Signal(n) => format!("signal {n}"),
        End::Timeout => "a run without end".to_string(),
    };
    c.stats.add(if k.repl { "sessions run" } else { "files run" }, 1);
    if !k.repl {
        c.stats.add(if k.code == 0 { "files accepted" } else { "files rejected" }, 1);
    }
    let want = format!("exit status {}", k.code);
    if end != want {
        return violation(&k.text, format!("{end}, not {want}"));
    }
    bytes_same(&k.text, "standard output", k.out.as_bytes(), &std::fs::read(&o).unwrap())?;
    bytes_same(&k.text, "standard error", k.err.as_bytes(), &std::fs::read(&e).unwrap())
}

fn clear(p: &Place) {
    let _ = std::fs::remove_dir_all(&p.base);
    for x in ["out", "err", "input", "log"] {
        let _ = std::fs::remove_file(p.base.with_extension(x));
    }
}

/// Another source of the same size.
fn sized(c: &mut Ctx, n: usize) -> Option<String> {
    for _ in 0..20 {
        let t = match c.rng.below(3) {
            0 => "return 1\n".to_string(),
            1 => inputs::rules(&mut c.rng).text,
            _ => make::any(&mut c.rng).text,
        };
        if t.len() == n {
            return Some(t);
        }
        if t.len() + 3 <= n && t.ends_with('\n') {
            return Some(t.clone() + "//" + &"-".repeat(n - t.len() - 2));
        }
    }
    None
}

fn records(c: &mut Ctx, idx: u64) -> Res {
    let k = any_case(c);
    let p = place(c, idx);
    let mut all = k.text.clone();
    let old = SystemTime::UNIX_EPOCH + Duration::from_secs(1_000_000_000 + c.rng.below(500_000_000) as u64);
    let save = |t: &str, mode: u32| {
        let _ = std::fs::set_permissions(&p.source, PermissionsExt::from_mode(0o644));
        std::fs::write(&p.source, t).unwrap();
        let f = std::fs::OpenOptions::new().write(true).open(&p.source).unwrap();
        f.set_modified(old).unwrap();
        drop(f);
        let _ = std::fs::set_permissions(&p.source, PermissionsExt::from_mode(mode));
    };
    let mode = *c.rng.pick(&[0o644, 0o444, 0o600, 0o755]);
    let mut next = Some(k);
    for round in 0..3 {
        let Some(k) = next.take() else { break };
        all = if round == 0 { all } else { format!("{all}---- then, in the same file:\n{}", k.text) };
        save(if k.repl { "print 1\n" } else { &k.text }, mode);
        let (mut before, mut after) = (BTreeMap::new(), BTreeMap::new());
        record(&p.base, &mut before);
        for _ in 0..if round == 0 { 2 } else { 1 } {
            run(c, &p, &k, None)?;
        }
        record(&p.base, &mut after);
        c.stats.add("records compared", 1);
        c.stats.add("entries compared", before.len() as u64);
        if let Some(d) = differ(&before, &after) {
            return violation(&all, format!("running the program changed something: {d}"));
        }
        if !k.repl {
            next = sized(c, k.text.len()).map(file_case);
            c.stats.add("sources changed between runs", next.is_some() as u64);
        }
    }
    if idx % 3 == 0 {
        // Nothing that could be run.
        let args: &[&str] = [&["missing.ws"][..], &["../missing/in.ws"], &["."], &["bad.ws"], &["--version"], &["--help"], &["--nothing"], &["a", "b"]][c.rng.below(8)];
        std::fs::write(p.base.join("work/bad.ws"), b"\"\xff\"\n").unwrap();
        let (mut before, mut after) = (BTreeMap::new(), BTreeMap::new());
        record(&p.base, &mut before);
        let k = Case { text: String::new(), out: String::new(), err: String::new(), code: 0, repl: true };
        let mut cmd = command(&p, &k, None);
        cmd.args(args).stdout(Stdio::null()).stderr(Stdio::null());
        let _ = wait(&mut spawn(&mut cmd), Duration::from_secs(120));
        record(&p.base, &mut after);
        c.stats.add("faulty runs", 1);
        if let Some(d) = differ(&before, &after) {
            return violation(&args.join(" "), format!("running the program with these arguments changed something: {d}"));
        }
    }
    clear(&p);
    c.stats.nontrivial(&all);
    Ok(())
}

fn harmless(path: &str) -> bool {
    ["/dev/", "/proc/self/"].iter().any(|d| path.starts_with(d))
}

/// What the system is asked to do.
fn calls(c: &mut Ctx, idx: u64) -> Res {
    let k = any_case(c);
    let p = place(c, idx);
    std::fs::write(&p.source, &k.text).unwrap();
    let log = p.base.with_extension("log");
    // Is there an strace that may trace?
    let works = Command::new("strace")
        .args(["-f", "-qq", "-o"])
        .arg(&log)
        .arg("true")
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .status()
        .is_ok_and(|s| s.success())
        && std::fs::metadata(&log).is_ok_and(|m| m.len() > 0);
    if !works {
        c.stats.add("no strace", 1);
        clear(&p);
        return Ok(());
    }
    let _ = std::fs::remove_file(&log);
    run(c, &p, &k, Some(&log))?;
    let text = String::from_utf8_lossy(&std::fs::read(&log).unwrap_or_default()).into_owned();
    let mut started = 0;
    for l in text.lines() {
        // PID call(arguments) = result
        let l = l.trim_start_matches(|c: char| c.is_ascii_digit()).trim_start();
        let Some((name, rest)) = l.split_once('(') else { continue };
        let failed = rest.rsplit_once(" = ").is_some_and(|(_, r)| r.starts_with("-1"));
        c.stats.add("system calls seen", 1);
        let path = rest.split('"').nth(1).unwrap_or("");
        let bad = match name {
            "open" | "openat" | "openat2" => ["O_WRONLY", "O_RDWR", "O_CREAT", "O_TRUNC", "O_APPEND"].iter().any(|f| rest.contains(f)) && !harmless(path),
            "execve" | "execveat" => {
                started += 1;
                started > 1
            }
            "clone" | "clone3" => !rest.contains("CLONE_THREAD"),
            "creat" | "fork" | "vfork" | "unlink" | "unlinkat" | "rename" | "renameat" | "renameat2" | "mkdir" | "mkdirat" | "rmdir" | "symlink"
            | "symlinkat" | "link" | "linkat" | "chmod" | "fchmod" | "fchmodat" | "chown" | "lchown" | "fchown" | "fchownat" | "truncate" | "ftruncate"
            | "utimensat" | "utime" | "utimes" | "mknod" | "mknodat" | "mount" | "umount2" | "chroot" | "kill" | "connect" | "bind" | "sendto" | "sendmsg" => true,
            _ => false,
        };
        if bad && !failed {
            return violation(&k.text, format!("running the program asked the system for: {l}"));
        }
    }
    c.stats.add("runs traced", 1);
    clear(&p);
    c.stats.nontrivial(&k.text);
    Ok(())
}
