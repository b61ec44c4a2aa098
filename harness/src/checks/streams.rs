//! C41: the program when its input comes in pieces and its output goes nowhere.
use super::system::{answers, bytes_same, cut, diagnostics, pretty, prepare_cli, program, scratch, session, spawn};
use super::*;
use crate::inputs;
use crate::make;
use crate::rt::{Ctx, End, wait};
use std::io::{Read, Write};
use std::os::unix::process::CommandExt;
use std::process::{Command, Stdio};
use std::time::Duration;

pub fn all() -> Vec<Check> {
    vec![
        Check::new(
            "C41",
            "the program built from the working tree with its output limited to any number of bytes, on a full device, to a closed or slow pipe, and with a file that arrives in pieces, against the whole answer; non-trivial: output cut short or input in more than one piece",
        )
        .prepare(prepare_cli)
        .cases("limits", 500, 20_000, limits)
        .cases("devices", 300, 8_000, devices)
        .cases("slow readers", 60, 1_000, slow)
        .cases("pieces", 160, 5_000, in_pieces)
        .needs(&["output cut short", "output just fitting", "errors cut short", "full devices", "closed pipes", "files in pieces", "sessions cut short", "slow readers"]),
    ]
}

unsafe extern "C" {
    fn setrlimit(res: i32, lim: *const [u64; 2]) -> i32;
    fn signal(sig: i32, handler: usize) -> usize;
}

/// No file may grow beyond n bytes; either the write fails or the process is
/// stopped by the signal for it.
fn limit_files(cmd: &mut Command, n: u64, fails: bool) {
    unsafe {
        cmd.pre_exec(move || {
            // RLIMIT_CORE, RLIMIT_FSIZE, SIGXFSZ, SIG_IGN
            setrlimit(4, &[0, 0]);
            setrlimit(1, &[n, n]);
            if fails {
                signal(25, 1);
            }
            Ok(())
        });
    }
}

pub(super) struct Case {
    pub text: String,
    /// What goes to standard output and standard error, and the status.
    pub out: String,
    pub err: String,
    pub code: i32,
    pub repl: bool,
}

fn source(c: &mut Ctx) -> String {
    let r = &mut c.rng;
    match r.below(10) {
        0 => String::new(),
        1..=2 => inputs::rules(r).text,
        3..=4 => {
            let a = make::any(r).text;
            inputs::mutate(r, a, 1)
        }
        5 => r.pick(&inputs::SEEDS).to_string(),
        _ => make::any(r).text,
    }
}

pub(super) fn file_case(text: String) -> Case {
    match api::parse(&text).and_then(|t| api::resolve(&text, t)) {
        Ok(t) => Case { out: pretty(&text, &t), err: String::new(), code: 0, text, repl: false },
        Err(e) => Case { out: String::new(), err: diagnostics(&e), code: 65, text, repl: false },
    }
}

fn repl_case(c: &mut Ctx) -> Case {
    let lines = session(c);
    let (mut out, mut err) = (String::new(), String::new());
    for a in answers(&lines) {
        out.push_str("> ");
        match a {
            Ok(t) => out.push_str(&t),
            Err(e) => err.push_str(&e),
        }
    }
    out.push_str("> ");
    Case { text: lines.concat(), out, err, code: 0, repl: true }
}

pub(super) fn any_case(c: &mut Ctx) -> Case {
    if c.rng.chance(30) {
        return repl_case(c);
    }
    let s = source(c);
    file_case(s)
}

/// The program on the case; its streams are the caller's affair.
fn command(k: &Case) -> Command {
    let mut cmd = Command::new(program());
    let path = scratch("text.ws");
    std::fs::write(&path, &k.text).unwrap();
    if k.repl {
        cmd.stdin(std::fs::File::open(&path).unwrap());
    } else {
        cmd.arg(&path).stdin(Stdio::null());
    }
    cmd
}

fn finish(child: &mut std::process::Child, k: &Case, what: &str) -> Result<(Option<i32>, String), crate::rt::Violation> {
    match wait(child, Duration::from_secs(60)) {
        End::Code(n) => Ok((Some(n), format!("exit status {n}"))),
        End::Signal(n) => Ok((None, format!("signal {n}"))),
        End::Timeout => violation(&k.text, format!("{what}: the program does not end")),
    }
}

/// Standard output and standard error are files that may not grow beyond a
/// limit anywhere between nothing and a little more than the whole.
fn limits(c: &mut Ctx, _: u64) -> Res {
    let k = any_case(c);
    let longest = k.out.len().max(k.err.len());
    let n = match c.rng.below(6) {
        0 => longest,
        1 => longest.saturating_sub(1),
        2 => longest + c.rng.below(3),
        3 => c.rng.below(20),
        _ => c.rng.below(longest + 1),
    };
    let (o, e) = (scratch("out"), scratch("err"));
    let mut cmd = command(&k);
    cmd.stdout(std::fs::File::create(&o).unwrap()).stderr(std::fs::File::create(&e).unwrap());
    let fails = c.rng.chance(60);
    limit_files(&mut cmd, n as u64, fails);
    let mut child = spawn(&mut cmd);
    let what = format!("output files limited to {n} bytes, of {} and {}", k.out.len(), k.err.len());
    let (code, end) = finish(&mut child, &k, &what)?;
    let (out, err) = (std::fs::read(&o).unwrap(), std::fs::read(&e).unwrap());
    if k.out.len() <= n && k.err.len() <= n {
        if code != Some(k.code) {
            return violation(&k.text, format!("{what}: {end} instead of {}", k.code));
        }
        bytes_same(&k.text, &format!("{what}: standard output"), k.out.as_bytes(), trimmed(&k, &out))?;
        bytes_same(&k.text, &format!("{what}: standard error"), k.err.as_bytes(), &err)?;
        c.stats.add("output just fitting", 1);
        return Ok(());
    }
    if code == Some(0) && k.out.len() > n {
        return violation(&k.text, format!("{what}: exit status 0; standard error {:?}", cut(&err)));
    }
    // A session goes on after errors, whether they could be shown or not.
    if code == Some(0) && !k.repl {
        return violation(&k.text, format!("{what}: exit status 0"));
    }
    if k.out.len() > n {
        if !k.out.as_bytes().starts_with(trimmed(&k, &out)) {
            return violation(&k.text, format!("{what}: not the beginning of what it should write: {:?}", cut(&out)));
        }
        c.stats.add(if k.repl { "sessions cut short" } else { "output cut short" }, 1);
    }
    if k.err.len() > n {
        c.stats.add("errors cut short", 1);
    }
    c.stats.nontrivial(&format!("{what}\n{}", k.text));
    Ok(())
}

/// A line end after the last prompt is a matter of taste.
fn trimmed<'a>(k: &Case, out: &'a [u8]) -> &'a [u8] {
    if k.repl && out.len() == k.out.len() + 1 && out.ends_with(b"\n") { &out[..k.out.len()] } else { out }
}

/// Streams that take nothing at all.
fn devices(c: &mut Ctx, _: u64) -> Res {
    let mut k = any_case(c);
    if k.repl && c.rng.chance(50) {
        // Without an end in sight.
        k.text = k.text.repeat(200) + &"1\n".repeat(5000);
    }
    let mut cmd = command(&k);
    let full = || std::fs::OpenOptions::new().write(true).open("/dev/full").unwrap();
    let (o, e) = (scratch("out"), scratch("err"));
    cmd.stdout(std::fs::File::create(&o).unwrap()).stderr(std::fs::File::create(&e).unwrap());
    let (mut no_out, mut no_err) = (true, false);
    let what = match c.rng.below(5) {
        0 => {
            cmd.stdout(full());
            c.stats.add("full devices", 1);
            "standard output to a full device"
        }
        1 => {
            cmd.stdout(Stdio::piped());
            "standard output to a pipe closed at the other end"
        }
        2 => {
            cmd.stderr(full());
            (no_out, no_err) = (false, true);
            c.stats.add("full devices", 1);
            "standard error to a full device"
        }
        3 => {
            cmd.stderr(Stdio::piped());
            (no_out, no_err) = (false, true);
            "standard error to a pipe closed at the other end"
        }
        _ => {
            cmd.stdout(full()).stderr(full());
            no_err = true;
            c.stats.add("full devices", 2);
            "both outputs to a full device"
        }
    };
    // Have the pipe closed before the program starts to write to it.
    let gate = what.contains("pipe") && !k.repl;
    if gate {
        cmd = {
            let mut cmd2 = Command::new(program());
            cmd2.arg("/dev/stdin").stdin(Stdio::piped());
            cmd2.stdout(std::fs::File::create(&o).unwrap()).stderr(std::fs::File::create(&e).unwrap());
            if no_out { cmd2.stdout(Stdio::piped()) } else { cmd2.stderr(Stdio::piped()) };
            cmd2
        };
    } else if what.contains("pipe") {
        cmd.stdin(Stdio::piped());
    }
    let mut child = spawn(&mut cmd);
    if what.contains("pipe") {
        drop(child.stdout.take());
        drop(child.stderr.take());
        // It may have ended before it read anything.
        let _ = child.stdin.take().unwrap().write_all(k.text.as_bytes());
        c.stats.add("closed pipes", 1);
    }
    let (code, end) = finish(&mut child, &k, what)?;
    if !k.repl {
        let lost = no_out && !k.out.is_empty() || no_err && !k.err.is_empty();
        if lost && code == Some(0) {
            return violation(&k.text, format!("{what}: exit status 0, though what it should have written is lost"));
        }
        if !lost && code != Some(k.code) {
            return violation(&k.text, format!("{what}: {end} instead of {}, though nothing is lost", k.code));
        }
        if !no_out && k.code == 0 {
            bytes_same(&k.text, &format!("{what}: standard output"), k.out.as_bytes(), &std::fs::read(&o).unwrap())?;
        }
        if !no_err && k.code != 0 {
            bytes_same(&k.text, &format!("{what}: standard error"), k.err.as_bytes(), &std::fs::read(&e).unwrap())?;
        }
    } else if no_out && code == Some(0) && !what.contains("pipe") {
        return violation(&k.text, format!("{what}: exit status 0, though its answers are lost"));
    }
    c.stats.nontrivial(&format!("{what}\n{}", k.text));
    Ok(())
}

/// A reader that takes a little at a time gets everything.
fn slow(c: &mut Ctx, _: u64) -> Res {
    let mut k = any_case(c);
    if !k.repl {
        // More than a pipe holds.
        while k.code == 0 && k.out.len() < 100_000 && k.text.len() < 100_000 && k.text.ends_with('\n') {
            let again = file_case(k.text.repeat(2));
            if again.code != 0 {
                break;
            }
            k = again;
        }
    }
    let mut cmd = command(&k);
    let e = scratch("err");
    cmd.stdout(Stdio::piped()).stderr(std::fs::File::create(&e).unwrap());
    let mut child = spawn(&mut cmd);
    let mut o = child.stdout.take().unwrap();
    let mut out = vec![];
    let mut buf = vec![0; *c.rng.pick(&[1, 7, 512, 4096, 65536])];
    loop {
        if out.len() % 13 == 0 && c.rng.chance(5) {
            std::thread::sleep(Duration::from_millis(1));
        }
        match o.read(&mut buf) {
            Ok(0) => break,
            Ok(n) => out.extend(&buf[..n]),
            Err(_) => break,
        }
        if out.len() > k.out.len() + 1_000_000 {
            break;
        }
    }
    drop(o);
    let (code, end) = finish(&mut child, &k, "a slow reader")?;
    if code != Some(k.code) {
        return violation(&k.text, format!("with a slow reader: {end} instead of {}", k.code));
    }
    bytes_same(&k.text, "what a slow reader got", k.out.as_bytes(), trimmed(&k, &out))?;
    c.stats.add("slow readers", 1);
    c.stats.nontrivial(&k.text);
    Ok(())
}

/// The file is a pipe into which its contents come in pieces, cut anywhere.
fn in_pieces(c: &mut Ctx, _: u64) -> Res {
    let mut s = source(c);
    if c.rng.chance(10) && s.ends_with('\n') && file_case(s.clone()).code == 0 {
        while s.len() < 150_000 {
            s = s.repeat(2);
        }
    }
    let k = file_case(s);
    let (o, e) = (scratch("out"), scratch("err"));
    let mut cmd = Command::new(program());
    cmd.arg("/dev/stdin").stdin(Stdio::piped());
    cmd.stdout(std::fs::File::create(&o).unwrap()).stderr(std::fs::File::create(&e).unwrap());
    let mut child = spawn(&mut cmd);
    let mut i = child.stdin.take().unwrap();
    let b = k.text.as_bytes();
    let mut at = 0;
    let mut n = 0;
    while at < b.len() {
        let most = if n > 12 { b.len() } else { *c.rng.pick(&[1, 3, 40, 5000]) };
        let to = (at + c.rng.range(1, most)).min(b.len());
        if i.write_all(&b[at..to]).is_err() {
            break;
        }
        at = to;
        n += 1;
        if n <= 12 {
            std::thread::sleep(Duration::from_micros(*c.rng.pick(&[0, 100, 1500])));
        }
    }
    drop(i);
    let (code, end) = finish(&mut child, &k, "a file in pieces")?;
    let (out, err) = (std::fs::read(&o).unwrap(), std::fs::read(&e).unwrap());
    if code != Some(k.code) {
        return violation(&k.text, format!("file in {n} pieces: {end} instead of {}; standard error {:?}", k.code, cut(&err)));
    }
    bytes_same(&k.text, &format!("standard output for a file in {n} pieces"), k.out.as_bytes(), &out)?;
    bytes_same(&k.text, &format!("standard error for a file in {n} pieces"), k.err.as_bytes(), &err)?;
    c.stats.add("files in pieces", 1);
    if n > 1 {
        c.stats.nontrivial(&k.text);
    }
    Ok(())
}
