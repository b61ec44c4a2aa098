//! Words, characters and numbers that the code under test mentions in its
//! literals. They steer the inputs only: a special case in the code compares
//! against such a value, so inputs carry them more often than chance would.
use crate::rt::Rng;
use std::sync::OnceLock;

#[derive(Default)]
pub struct Dict {
    /// Legal identifiers that are not keywords.
    pub names: Vec<String>,
    /// Any text without a double quote.
    pub texts: Vec<String>,
    pub chars: Vec<String>,
    pub numbers: Vec<u64>,
    /// What may be part of a name.
    joints: Vec<String>,
}

const KEYWORDS: [&str; 18] = [
    "and", "break", "class", "continue", "else", "false", "for", "fun", "if", "nil", "or", "print",
    "return", "super", "this", "true", "var", "while",
];

static DICT: OnceLock<Dict> = OnceLock::new();

pub fn dict() -> &'static Dict {
    DICT.get_or_init(|| {
        let mut d = Dict::default();
        let mut files: Vec<_> = std::fs::read_dir("/repo/src")
            .map(|v| v.flatten().map(|e| e.path()).collect())
            .unwrap_or_default();
        files.sort();
        for f in files {
            if f.extension().is_some_and(|e| e == "rs") {
                if let Ok(s) = std::fs::read_to_string(&f) {
                    scan(s.split("#[cfg(test)]").next().unwrap_or(""), &mut d);
                }
            }
        }
        let part = |s: &&String| s.len() <= 12 && s.chars().all(|c| c == '_' || c.is_ascii_alphanumeric());
        d.joints = d.chars.iter().chain(&d.texts).chain(&d.names).filter(part).cloned().collect();
        for v in [&mut d.names, &mut d.texts, &mut d.chars, &mut d.joints] {
            v.sort();
            v.dedup();
        }
        for n in d.numbers.clone() {
            if n < 64 {
                // A shift, perhaps.
                d.numbers.push(1 << n.min(20));
            }
        }
        d.numbers.sort();
        d.numbers.dedup();
        d
    })
}

fn unescape(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c != '\\' {
            o.push(c);
            continue;
        }
        match it.next() {
            Some('n') => o.push('\n'),
            Some('r') => o.push('\r'),
            Some('t') => o.push('\t'),
            Some('0') => o.push('\0'),
            Some('x') => {
                let h: String = it.by_ref().take(2).collect();
                if let Ok(n) = u8::from_str_radix(&h, 16) {
                    o.push(n as char);
                }
            }
            Some('u') => {
                it.next();
                let mut h = String::new();
                for c in it.by_ref() {
                    if c == '}' {
                        break;
                    }
                    h.push(c);
                }
                if let Some(c) = u32::from_str_radix(&h, 16).ok().and_then(char::from_u32) {
                    o.push(c);
                }
            }
            Some(c) => o.push(c),
            None => (),
        }
    }
    o
}

fn text(s: &str, d: &mut Dict) {
    if s.is_empty() || s.len() > 60 {
        return;
    }
    for w in s.split(|c: char| !(c == '_' || c.is_ascii_alphanumeric())) {
        let ok = w.starts_with(|c: char| c == '_' || c.is_ascii_alphabetic());
        if ok && w.len() <= 24 && !KEYWORDS.contains(&w) {
            d.names.push(w.to_string());
        }
        if let Ok(n) = w.parse() {
            d.numbers.push(n);
        }
    }
    if s.chars().count() <= 2 {
        d.chars.push(s.to_string());
    }
    let t: String = s.chars().filter(|c| *c != '"').collect();
    if !t.is_empty() {
        d.texts.push(t);
    }
}

fn scan(src: &str, d: &mut Dict) {
    let b = src.as_bytes();
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if c == b'/' && b.get(i + 1) == Some(&b'/') {
            while i < b.len() && b[i] != b'\n' {
                i += 1;
            }
        } else if c == b'/' && b.get(i + 1) == Some(&b'*') {
            i = src[i..].find("*/").map_or(b.len(), |k| i + k + 2);
        } else if c == b'"' {
            let st = i + 1;
            i = st;
            while i < b.len() && b[i] != b'"' {
                i += if b[i] == b'\\' { 2 } else { 1 };
            }
            let end = i.min(b.len());
            if let Some(s) = src.get(st..end) {
                text(&unescape(s), d);
            }
            i += 1;
        } else if c == b'\'' {
            // A character, or a lifetime.
            let rest = &src[i + 1..];
            let end = if let Some(r) = rest.strip_prefix('\\') {
                r.char_indices().skip(1).find(|(_, c)| *c == '\'').map(|(k, _)| k + 1)
            } else {
                let n = rest.chars().next().map_or(0, char::len_utf8);
                rest[n..].starts_with('\'').then_some(n)
            };
            match end {
                Some(k) => {
                    let s = unescape(&rest[..k]);
                    if !s.is_empty() && s != "\"" {
                        d.chars.push(s);
                    }
                    i += k + 2;
                }
                None => i += 1,
            }
        } else if c.is_ascii_digit() {
            let st = i;
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                i += 1;
            }
            let w: String = src[st..i].chars().filter(|c| *c != '_').collect();
            let n = if let Some(h) = w.strip_prefix("0x") {
                u64::from_str_radix(h.split(['u', 'i']).next().unwrap_or(""), 16)
            } else {
                w.split(|c: char| !c.is_ascii_digit()).next().unwrap_or("").parse()
            };
            if let Ok(n) = n {
                d.numbers.push(n);
            }
        } else if c == b'_' || c.is_ascii_alphabetic() {
            let st = i;
            while i < b.len() && (b[i] == b'_' || b[i].is_ascii_alphanumeric()) {
                i += 1;
            }
            match &src[st..i] {
                "u8" | "i8" => d.numbers.push(256),
                "u16" | "i16" => d.numbers.push(65536),
                _ => (),
            }
        } else {
            i += 1;
        }
    }
}

const SIZES: [usize; 32] = [
    7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 24, 31, 32, 33, 40, 50, 63, 64, 65, 99, 100, 101, 127, 128,
    129, 199, 200, 254, 255, 256, 257, 300,
];

/// A size that a limit may sit at, at most `cap`.
pub fn size(r: &mut Rng, cap: usize) -> usize {
    for _ in 0..20 {
        let n = match r.below(10) {
            0 | 1 => {
                let v = &dict().numbers;
                if v.is_empty() {
                    continue;
                }
                (*r.pick(v) as usize).saturating_add(r.below(3)).saturating_sub(1)
            }
            2 => r.range(1, cap),
            3 => r.range(1, cap.min(40)),
            4 => (1usize << r.range(3, 17)) + r.below(3) - 1,
            _ => *r.pick(&SIZES),
        };
        if n > 0 && n <= cap {
            return n;
        }
    }
    cap.min(20)
}

pub fn name(r: &mut Rng) -> Option<String> {
    let v = &dict().names;
    if v.is_empty() { None } else { Some(r.pick(v).clone()) }
}

/// A name with pieces the code mentions at its ends.
pub fn joined(r: &mut Rng) -> Option<String> {
    let v = &dict().joints;
    if v.is_empty() {
        return None;
    }
    let mut s = String::new();
    if r.chance(70) {
        s.push_str(r.pick(v));
    }
    for _ in 0..r.below(4) {
        s.push(*r.pick(&['a', 'e', 'n', 'x', 'Z', '_', '1']));
    }
    if s.is_empty() || r.chance(70) {
        s.push_str(r.pick(v));
    }
    let ok = s.starts_with(|c: char| c == '_' || c.is_ascii_alphabetic()) && !KEYWORDS.contains(&s.as_str());
    ok.then_some(s)
}

pub fn words(r: &mut Rng) -> Option<String> {
    let v = &dict().texts;
    if v.is_empty() { None } else { Some(r.pick(v).clone()) }
}

pub fn piece(r: &mut Rng) -> Option<String> {
    let v = &dict().chars;
    if v.is_empty() || r.chance(30) { words(r) } else { Some(r.pick(v).clone()) }
}

pub fn number(r: &mut Rng) -> Option<u64> {
    let v = &dict().numbers;
    if v.is_empty() { None } else { Some((*r.pick(v)).saturating_add(r.below(3) as u64).saturating_sub(1)) }
}
