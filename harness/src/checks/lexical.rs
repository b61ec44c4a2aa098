//! C03-C08, C19: the scanner.
use super::*;
use crate::inputs::Stream::*;
use crate::inputs;
use crate::reflex::{LexKind, Piece, RTok, exact_decimal, is_newline, lex, pieces};
use crate::rt::{Ctx, Rng, Tier};
use unicode_segmentation::UnicodeSegmentation;
use whitespace::token::TokenType as T;

pub fn all() -> Vec<Check> {
    vec![
        Check::new(
            "C03",
            "every input: walk a cursor over the source; non-trivial: the source scans and has at least 3 tokens",
        )
        .text("streams", 60_000, 1_500_000, cover, &[Valid, Mutant, Layout, Soup, Chars, Guided, Seeds])
        .cases("short", 12_000, 400_000, |c, i| blocks(c, i, cover))
        .text("edits", 200_000, 1_000_000, cover, &[Edits])
        .text("small", 24_000, 1_500_000, cover, &[Small])
        .cases("far", 64, 768, |c, _| { let s = inputs::far(&mut c.rng); cover(c, &s) })
        .needs(&["tokens located", "comments skipped", "continuations skipped"]),
        Check::new(
            "C04",
            "every input: recompute the position of every token from the source's graphemes; non-trivial: more than one line",
        )
        .text("streams", 60_000, 1_500_000, positions, &[Valid, Mutant, Layout, Soup, Chars, Guided, Seeds])
        .cases("wide", 400, 6_000, wide)
        .cases("short", 12_000, 400_000, |c, i| blocks(c, i, positions))
        .text("edits", 200_000, 1_000_000, positions, &[Edits])
        .text("small", 24_000, 1_500_000, positions, &[Small])
        .cases("far", 160, 1920, |c, _| { let s = inputs::far(&mut c.rng); positions(c, &s) })
        .needs(&["positions checked", "block markers checked", "ends checked"]),
        Check::new(
            "C05",
            "every input: block markers between tokens against the layout model; non-trivial: opens a block or is rejected for its layout",
        )
        .text("streams", 50_000, 1_500_000, indentation, &[Layout, Valid, Mutant, Soup, Guided, Seeds])
        .cases("lines", 40_000, 600_000, lines_indent)
        .text("rescale", 6_000, 150_000, rescale, &[Valid, Layout, Seeds])
        .cases("deep", 60, 600, deep_indent)
        .text("edits", 200_000, 1_000_000, indentation, &[Edits])
        .text("small", 24_000, 1_500_000, indentation, &[Small])
        .needs(&["indents", "outdents", "dedent errors", "rescaled"]),
        Check::new(
            "C06",
            "every input: terminators between tokens against the line model; non-trivial: has a continued line",
        )
        .text("streams", 50_000, 1_500_000, terminators, &[Layout, Valid, Mutant, Soup, Guided, Seeds])
        .cases("ends", 30_000, 400_000, line_ends)
        .cases("lines", 30_000, 500_000, lines_term)
        .text("edits", 200_000, 1_000_000, terminators, &[Edits])
        .text("small", 24_000, 1_500_000, terminators, &[Small])
        .needs(&["terminators", "lines continued"]),
        Check::new(
            "C07",
            "every input: class, text and value of every token against the lexical model; non-trivial: at least 3 tokens",
        )
        .text("streams", 40_000, 1_200_000, tokens, &[Valid, Mutant, Soup, Chars, Guided, Seeds])
        .cases("alphabets", 16_000, 300_000, |c, i| alphabets(c, i, tokens))
        .cases("words", 6_000, 200_000, words)
        .cases("characters", 1_088, 8_704, characters)
        .cases("numbers", 4_000, 150_000, numbers)
        .text("literals", 10_000, 300_000, literals, &[Valid, Exprs, Mutant])
        .text("edits", 200_000, 1_000_000, tokens, &[Edits])
        .text("small", 24_000, 1_500_000, tokens, &[Small])
        .cases("far", 64, 768, |c, _| { let s = inputs::far(&mut c.rng); tokens(c, &s) })
        .needs(&["tokens compared", "keywords", "numbers exact", "abutting", "tree literals"]),
        Check::new(
            "C08",
            "a source and a copy with its insignificant layout edited: same tree without positions, or both rejected; non-trivial: accepted and at least one edit made",
        )
        .text("edits", 40_000, 1_000_000, neutral, &[Valid, Layout, Mutant, Rules, Seeds, Soup])
        .text("edits", 200_000, 1_000_000, neutral, &[Edits])
        .text("small", 24_000, 1_500_000, neutral, &[Small])
        .needs(&["edits made", "accepted pairs", "line ends changed", "lines removed", "lines inserted"]),
        Check::new(
            "C19",
            "every input: lexical errors against the lexical model; non-trivial: has an error",
        )
        .text("streams", 50_000, 1_200_000, lexical_errors, &[Chars, Mutant, Layout, Soup, Guided, Valid])
        .text("dirty", 20_000, 500_000, dirty, &[Valid, Layout, Seeds])
        .cases("alphabets", 16_000, 300_000, |c, i| alphabets(c, i, lexical_errors))
        .cases("lines", 20_000, 300_000, lines_err)
        .text("edits", 60_000, 300_000, lexical_errors, &[Edits])
        .text("small", 24_000, 1_500_000, lexical_errors, &[Small])
        .cases("far", 96, 1152, |c, _| { let s = inputs::far(&mut c.rng); lexical_errors(c, &s) })
        .needs(&[
            "Tab errors",
            "BadChar errors",
            "Backslash errors",
            "Dedent errors",
            "Unterminated errors",
            "clean sources",
        ]),
    ]
}

fn marker(t: T) -> bool {
    matches!(t, T::Indent | T::Outdent)
}

fn solid(t: T) -> bool {
    !matches!(t, T::Indent | T::Outdent | T::Terminator | T::Eof)
}

// ------------------------------------------------------------------ C03, C04

/// Skip what lies between tokens; stops at a newline if `line`.
fn skip_gap(src: &str, mut i: usize, line: bool, seen: &mut (u64, u64)) -> usize {
    loop {
        let rest = &src[i..];
        let Some(c) = rest.chars().next() else { return i };
        match c {
            // What looks like a blank may be part of a larger character.
            ' ' | '\t' | '\r' | '\n' => {
                let g = rest.graphemes(true).next().unwrap();
                if !matches!(g, " " | "\r" | "\n" | "\r\n") || line && is_newline(g) {
                    return i;
                }
                i += g.len();
            }
            '/' if rest.starts_with("//") => {
                seen.0 += 1;
                for g in rest.graphemes(true) {
                    if is_newline(g) {
                        break;
                    }
                    i += g.len();
                }
            }
            '\\' => {
                let t = rest[1..].trim_start_matches(' ');
                let t = if t.starts_with("\r\r\n") { &t[1..] } else { t };
                let n = if t.starts_with("\r\n") {
                    2
                } else if t.starts_with('\n') {
                    1
                } else {
                    return i;
                };
                seen.1 += 1;
                i = src.len() - t.len() + n;
            }
            _ => return i,
        }
    }
}

/// Byte range of every token that has text, found by walking the source.
fn locate(
    src: &str,
    toks: &[RTok],
    seen: &mut (u64, u64),
) -> Result<Vec<Option<(usize, usize)>>, crate::rt::Violation> {
    let mut i = 0;
    let mut out = Vec::with_capacity(toks.len());
    for (k, t) in toks.iter().enumerate() {
        if marker(t.ty) {
            out.push(None);
            continue;
        }
        if t.ty == T::Terminator {
            i = skip_gap(src, i, true, seen);
            let g = src[i..].graphemes(true).next().unwrap_or("");
            if !is_newline(g) || g != t.text {
                return violation(
                    src,
                    format!("token {k} Terminator {:?} is not the line end that follows, {g:?}", t.text),
                );
            }
            out.push(Some((i, i + g.len())));
            i += g.len();
            continue;
        }
        i = skip_gap(src, i, false, seen);
        let eof = t.ty == T::Eof;
        if eof && (!t.text.is_empty() || i != src.len()) || !eof && t.text.is_empty() {
            return violation(
                src,
                format!(
                    "token {k} is {:?} {:?} where {:?} follows",
                    t.ty,
                    t.text,
                    src[i..].chars().take(12).collect::<String>()
                ),
            );
        }
        if !src[i..].starts_with(&t.text) {
            return violation(
                src,
                format!(
                    "token {k} {:?} has text {:?}, the source there is {:?}",
                    t.ty,
                    t.text,
                    src[i..].chars().take(t.text.len() + 8).collect::<String>()
                ),
            );
        }
        out.push(Some((i, i + t.text.len())));
        i += t.text.len();
        if eof && k + 1 != toks.len() {
            return violation(src, "a token follows the end-of-file token");
        }
    }
    match toks.last() {
        Some(t) if t.ty == T::Eof => Ok(out),
        _ => violation(src, "the last token is not the end-of-file token"),
    }
}

fn cover(c: &mut Ctx, src: &str) -> Res {
    let Ok(toks) = api::scan(src) else { return Ok(()) };
    let mut seen = (0, 0);
    let at = locate(src, &toks, &mut seen)?;
    for (t, at) in toks.iter().zip(&at) {
        let Some((a, b)) = at else { continue };
        if t.ty == T::String && t.string.as_deref() != Some(&src[a + 1..b - 1]) {
            return violation(src, format!("string token {:?} carries {:?}", t.text, t.string));
        }
    }
    c.stats.add("tokens located", toks.len() as u64);
    c.stats.add("comments skipped", seen.0);
    c.stats.add("continuations skipped", seen.1);
    if toks.len() > 3 {
        c.stats.nontrivial(src);
    }
    Ok(())
}

fn positions(c: &mut Ctx, src: &str) -> Res {
    let Ok(toks) = api::scan(src) else { return Ok(()) };
    // Where the texts are is C03's business.
    let Ok(at) = locate(src, &toks, &mut (0, 0)) else {
        c.stats.add("skipped: tokens do not cover the source", 1);
        return Ok(());
    };
    let mut pos = std::collections::HashMap::new();
    let (mut line, mut col) = (1u32, 1u32);
    for (i, g) in src.grapheme_indices(true) {
        pos.insert(i, (line, col));
        if is_newline(g) {
            line += 1;
            col = 1;
        } else {
            col += 1;
        }
    }
    pos.insert(src.len(), (line, col));
    let mut want = None;
    for (k, t) in toks.iter().enumerate().rev() {
        if let Some((a, _)) = at[k] {
            want = pos.get(&a).copied();
            c.stats.add(if t.ty == T::Eof { "ends checked" } else { "positions checked" }, 1);
        } else {
            c.stats.add("block markers checked", 1);
        }
        let Some((l, q)) = want else {
            return violation(src, format!("token {k} {:?} starts inside a character", t.text));
        };
        if (t.line, t.col) != (l, q.min(u16::MAX as u32)) {
            return violation(
                src,
                format!("token {k} {:?} {:?} is at {l}:{q} but reports {}:{}", t.ty, t.text, t.line, t.col),
            );
        }
    }
    if line > 1 && toks.len() > 2 {
        c.stats.nontrivial(src);
    }
    Ok(())
}

/// Far columns and lines.
fn wide(c: &mut Ctx, _: u64) -> Res {
    let r = &mut c.rng;
    let mut s = String::new();
    for _ in 0..r.range(1, 6) {
        match r.below(4) {
            0 => s.push_str(&"\n".repeat(r.below(900))),
            1 => s.push_str(&" ".repeat(r.below(900))),
            2 => {
                let n = r.below(500);
                s.push_str(&format!("\"{}\"", "é\u{301}".repeat(n)));
            }
            _ => {
                let n = r.range(1, 800);
                s.push_str(&"ab + ".repeat(n));
            }
        }
        s.push_str(*r.pick(&["x\n", "x ", "\"a\nb\" y", "y\r\n"]));
    }
    positions(c, &s)
}

/// Short sources from a handful of building blocks.
fn blocks(c: &mut Ctx, _: u64, f: fn(&mut Ctx, &str) -> Res) -> Res {
    const B: [&str; 26] = [
        "a", "b1", "\n", "\r\n", " ", "  ", "\n ", "\n  ", "// c", "//", "\\\n", "\\ \r\n", "\"s\"",
        "\"\n\"", "\"é\r\n\"", "+", "(", ")", ",", "if", "1.5", "1.", "变", "é\u{301}", "\r", "!=",
    ];
    let n = c.rng.range(1, 9);
    let s: String = (0..n).map(|_| *c.rng.pick(&B)).collect();
    f(c, &s)
}

// ------------------------------------------------------------------ C05, C06

fn only(toks: &[RTok], keep: fn(T) -> bool) -> Vec<T> {
    toks.iter().map(|t| t.ty).filter(|t| keep(*t)).collect()
}

fn same_types(src: &str, what: &str, want: &[T], got: &[T]) -> Res {
    if want == got {
        return Ok(());
    }
    let i = want.iter().zip(got).take_while(|(a, b)| a == b).count();
    violation(
        src,
        format!(
            "{what} differ after {i}: expected {:?}..., got {:?}...",
            want[i..].iter().take(6).collect::<Vec<_>>(),
            got[i..].iter().take(6).collect::<Vec<_>>()
        ),
    )
}

fn indentation(c: &mut Ctx, src: &str) -> Res {
    let want = lex(src);
    match api::scan(src) {
        Ok(toks) => {
            if let Some(e) =
                want.errs.iter().find(|e| matches!(e.kind, LexKind::Dedent | LexKind::Tab))
            {
                return violation(src, format!("accepted in spite of {e:?}"));
            }
            if !want.errs.is_empty() {
                return Ok(());
            }
            let keep = |t| t != T::Terminator;
            same_types(src, "blocks", &only(&want.toks, keep), &only(&toks, keep))?;
            let n = toks.iter().filter(|t| t.ty == T::Indent).count() as u64;
            c.stats.add("indents", n);
            c.stats.add("outdents", toks.iter().filter(|t| t.ty == T::Outdent).count() as u64);
            c.stats.max("blocks in a source", n);
            if n > 0 {
                c.stats.nontrivial(src);
            }
        }
        Err(e) => {
            if want.errs.is_empty() {
                return violation(src, format!("rejected: {}", api::errs(&e)));
            }
            for w in want.errs.iter().filter(|e| matches!(e.kind, LexKind::Dedent | LexKind::Tab)) {
                c.stats.add("dedent errors", 1);
                if !e.causes.iter().any(|c| at(c.source_loc) == (w.line, w.col)) {
                    return violation(src, format!("{w:?} is not reported: {}", api::errs(&e)));
                }
                c.stats.nontrivial(src);
            }
        }
    }
    Ok(())
}

/// Structured lines: every combination of a few widths and kinds of line.
fn line_soup(c: &mut Ctx, idx: u64) -> String {
    const KINDS: [&str; 7] = ["a", "a +", "", "// c", "a \\", "f(", "\"x\n  y\""];
    const WIDTHS: usize = 4;
    let per = (KINDS.len() * WIDTHS) as u64;
    // All sources of up to 3 lines in turn, then random longer ones.
    let mut k = idx / 2;
    let mut n = 1;
    let mut span = per;
    while n <= 3 && k >= span {
        k -= span;
        n += 1;
        span *= per;
    }
    let mut lines = vec![];
    if n <= 3 {
        for _ in 0..n {
            lines.push(((k % per) as usize, 0));
            k /= per;
        }
        c.stats.add("line structures enumerated", 1);
    } else {
        for _ in 0..c.rng.range(4, 9) {
            lines.push((c.rng.below(per as usize), c.rng.below(6)));
        }
    }
    let eol = if c.rng.chance(25) { "\r\n" } else { "\n" };
    let unit = c.rng.range(1, 3);
    let s: Vec<String> = lines
        .iter()
        .map(|(l, t)| {
            let tail = ["", "", "", " ", " // t", " \r"][*t];
            format!("{}{}{tail}", " ".repeat(unit * (l % WIDTHS)), KINDS[l / WIDTHS])
        })
        .collect();
    s.join(eol) + if idx % 2 == 0 { eol } else { "" }
}

fn lines_indent(c: &mut Ctx, i: u64) -> Res {
    let s = line_soup(c, i);
    indentation(c, &s)
}

fn lines_term(c: &mut Ctx, i: u64) -> Res {
    let s = line_soup(c, i);
    terminators(c, &s)
}

fn lines_err(c: &mut Ctx, i: u64) -> Res {
    let s = line_soup(c, i);
    lexical_errors(c, &s)
}

/// Widths may change as long as their order does not.
fn rescale(c: &mut Ctx, src: &str) -> Res {
    if lex(src).toks.iter().any(|t| t.ty == T::String && t.text.contains('\n')) {
        return Ok(());
    }
    let Ok(before) = api::scan(src) else { return Ok(()) };
    let mut map = vec![0usize];
    let step = c.rng.range(1, 4);
    let mut out = String::new();
    for l in src.split_inclusive('\n') {
        let w = l.len() - l.trim_start_matches(' ').len();
        while map.len() <= w {
            let n = map.last().unwrap() + c.rng.range(1, step);
            map.push(n);
        }
        out.push_str(&" ".repeat(map[w]));
        out.push_str(&l[w..]);
    }
    match api::scan(&out) {
        Ok(after) => {
            same_types(&out, "tokens after re-indenting", &only(&before, |_| true), &only(&after, |_| true))?;
            c.stats.add("rescaled", 1);
            Ok(())
        }
        Err(e) => violation(&out, format!("rejected after re-indenting: {}", api::errs(&e))),
    }
}

/// Many levels opened, then closed in arbitrary steps.
fn deep_indent(c: &mut Ctx, _: u64) -> Res {
    let n = c.rng.range(5, 300);
    let step = c.rng.range(1, 3);
    let mut s = String::new();
    for i in 0..n {
        s.push_str(&format!("{}a\n", " ".repeat(i * step)));
    }
    let mut at = (n - 1) as i64;
    while at > 0 {
        at -= c.rng.range(1, 40) as i64;
        let mut w = at.max(0) as usize * step;
        if c.rng.chance(5) {
            w += 1;
        }
        s.push_str(&format!("{}b\n", " ".repeat(w)));
    }
    indentation(c, &s)
}

fn terminators(c: &mut Ctx, src: &str) -> Res {
    let want = lex(src);
    let Ok(toks) = api::scan(src) else { return Ok(()) };
    if !want.errs.is_empty() {
        return Ok(());
    }
    // Blocks matter here only where a continued line could open one.
    same_types(src, "line ends", &only(&want.toks, |t| !marker(t)), &only(&toks, |t| !marker(t)))?;
    same_types(src, "blocks on continued lines", &only(&want.toks, |_| true), &only(&toks, |_| true))?;
    let terms = toks.iter().filter(|t| t.ty == T::Terminator).count() as u64;
    c.stats.add("terminators", terms);
    let ends = pieces(src).iter().filter(|p| matches!(p.0, Piece::Newline | Piece::Join)).count() as u64;
    c.stats.add("newlines", ends);
    let mut cont = 0;
    for w in toks.windows(2) {
        if solid(w[0].ty) && solid(w[1].ty) && w[1].line > w[0].line && w[0].ty != T::String {
            cont += 1;
        }
    }
    c.stats.add("lines continued", cont);
    if cont > 0 {
        c.stats.nontrivial(src);
    }
    Ok(())
}

/// Every token at the end of a line, with every kind of tail and next line.
fn line_ends(c: &mut Ctx, idx: u64) -> Res {
    const TAILS: [&str; 8] = ["", " ", "   ", " // c", "//", " \r", " \\", "\\"];
    const NEXT: [&str; 12] = [
        "b\n",
        "  b\n",
        "    b\n  c\n",
        "\n  b\n",
        "// c\n  b\n",
        "      // c\n\n    b\n",
        "",
        "  ",
        "+ b\n",
        "  \\\n  b\n",
        "  b +\n    c\nd\n",
        "\r\n \r\n  b\n",
    ];
    let toks = &crate::inputs::TOKENS;
    let all = (toks.len() * TAILS.len() * NEXT.len() * 4) as u64;
    let i = (idx % all) as usize;
    let t = toks[i % toks.len()];
    let i = i / toks.len();
    let tail = TAILS[i % TAILS.len()];
    let i = i / TAILS.len();
    let next = NEXT[i % NEXT.len()];
    let i = i / NEXT.len();
    let eol = if i & 1 == 0 { "\n" } else { "\r\n" };
    let lead = if i & 2 == 0 { "x " } else { "x\n  " };
    let mut s = format!("{lead}{t}{tail}{eol}{next}");
    if idx >= all {
        // Beyond the enumeration: two such lines.
        let t2 = *c.rng.pick(toks);
        let tail2 = *c.rng.pick(&TAILS);
        s = format!("{lead}{t}{tail}{eol}{}{t2}{tail2}{eol}{next}", " ".repeat(c.rng.below(5)));
    } else {
        c.stats.add("line ends enumerated", 1);
    }
    terminators(c, &s)
}

// ------------------------------------------------------------------------ C07

fn tokens(c: &mut Ctx, src: &str) -> Res {
    let want = lex(src);
    let toks = match api::scan(src) {
        Ok(t) => t,
        Err(e) => {
            if want.errs.is_empty() {
                return violation(src, format!("rejected: {}", api::errs(&e)));
            }
            return Ok(());
        }
    };
    if !want.errs.is_empty() {
        return violation(src, format!("accepted in spite of {:?}", want.errs[0]));
    }
    let w: Vec<&RTok> = want.toks.iter().filter(|t| solid(t.ty)).collect();
    let g: Vec<&RTok> = toks.iter().filter(|t| solid(t.ty)).collect();
    for (k, (a, b)) in w.iter().zip(&g).enumerate() {
        let num = match (a.number, b.number) {
            (Some(x), Some(y)) => x.to_bits() == y.to_bits(),
            (None, None) => true,
            _ => false,
        };
        if a.ty != b.ty || a.text != b.text || a.string != b.string || !num {
            return violation(src, format!("token {k} should be {a:?}, is {b:?}"));
        }
        if a.ty == T::LeftParenAbutting {
            c.stats.add("abutting", 1);
        }
        if b.text.len() > 1 && b.text.chars().all(|c| c.is_ascii_lowercase()) && b.ty != T::Identifier {
            c.stats.add("keywords", 1);
        }
    }
    if w.len() != g.len() {
        return violation(src, format!("{} tokens expected, {} found", w.len(), g.len()));
    }
    c.stats.add("tokens compared", w.len() as u64);
    if w.len() > 2 {
        c.stats.nontrivial(src);
    }
    Ok(())
}

/// Short strings over small alphabets: all of them up to a length, then random
/// longer ones.
fn alphabets(c: &mut Ctx, idx: u64, f: fn(&mut Ctx, &str) -> Res) -> Res {
    const A: [&[&str]; 8] = [
        &["=", "!", "<", ">", " ", "a", "/"],
        &["1", "0", ".", "a", " ", "-"],
        &["\"", "a", "\n", "/", "\\", " "],
        &["(", ")", "a", " ", "\\\n", "\n", "\""],
        &["/", "\n", "a", " ", "\t", "\\"],
        &["\\", " ", "\n", "\r", "a", "\t"],
        &["if", "_", "1", "é", "\u{301}", "I", " "],
        &["\r", "\n", "a", "\"", "+", "  "],
    ];
    let a = A[(idx / 8) as usize % 8];
    let n = a.len() as u64;
    let mut k = idx / 64 * 8 + idx % 8;
    let mut s = String::new();
    let max = if c.tier == Tier::Quick { 4 } else { 6 };
    let mut len = 1;
    let mut span = n;
    while len <= max && k >= span {
        k -= span;
        len += 1;
        span *= n;
    }
    if len <= max {
        for _ in 0..len {
            s.push_str(a[(k % n) as usize]);
            k /= n;
        }
        c.stats.add("strings enumerated", 1);
    } else {
        for _ in 0..c.rng.range(4, 12) {
            s.push_str(*c.rng.pick(a));
        }
    }
    f(c, &s)
}

/// Keywords and words close to them.
fn words(c: &mut Ctx, idx: u64) -> Res {
    let r = &mut c.rng;
    let mut s = String::new();
    for k in 0..r.range(1, 4) {
        let (w, _) = reflex::KEYWORDS[(idx as usize + k) % reflex::KEYWORDS.len()];
        let mut w = w.to_string();
        match r.below(9) {
            0 | 1 => (),
            2 => w.push_str(*r.pick(&["s", "_", "1", "é", "\u{301}", "x"])),
            3 => w.insert_str(0, *r.pick(&["a", "_", "é", "x", "9"])),
            4 => {
                w.pop();
            }
            5 => w = w.to_uppercase(),
            6 => w[..1].make_ascii_uppercase(),
            7 => w.push_str(*r.pick(&reflex::KEYWORDS.map(|k| k.0))),
            _ => {
                let i = r.below(w.len());
                w.remove(i);
            }
        }
        s.push_str(&w);
        s.push_str(*r.pick(&[" ", "(", "\n", ".", "", "\"", "-", "//", "\\\n"]));
    }
    tokens(c, &s)
}

/// Every character: as the start and as the continuation of a word.
fn characters(c: &mut Ctx, idx: u64) -> Res {
    // 1088 blocks of 1024 code points; in a quick run each is sampled.
    let block = (idx % 1088) as u32;
    let part = idx / 1088;
    let mut s = String::new();
    for k in 0..1024u32 {
        let Some(ch) = char::from_u32(block * 1024 + k) else { continue };
        let take = if c.tier == Tier::Quick { k % 16 == 0 || block < 2 } else { k as u64 % 8 == part };
        if !take || matches!(ch, '"' | '\\' | '\n' | '\r' | '\t' | '/' | ' ') {
            continue;
        }
        c.stats.add("characters tried", 1);
        // Sources with an illegal character are rejected as a whole.
        for t in [format!("{ch}"), format!("a{ch}b")] {
            s.clear();
            s.push_str(&t);
            tokens(c, &s)?;
        }
    }
    Ok(())
}

fn number_text(r: &mut Rng) -> String {
    let digits = |r: &mut Rng, n: usize| -> String {
        (0..n).map(|_| char::from(b'0' + r.below(10) as u8)).collect()
    };
    match r.below(9) {
        0 => format!("{}", r.below(1000)),
        1 => {
            let n = r.range(1, 400);
            digits(r, n)
        }
        2 => {
            let (a, b) = (r.range(1, 30), r.range(1, 60));
            format!("{}.{}", digits(r, a), digits(r, b))
        }
        // Next to the middle between two doubles.
        3 => {
            let x = (1u64 << 53) + r.below(1 << 20) as u64 * 2 + 1;
            format!("{x}")
        }
        4 => {
            let x = (1u64 << 53) + r.below(1 << 20) as u64 * 2 + 1;
            let zeros = r.range(0, 40);
            format!("{x}.{}{}", "0".repeat(zeros), r.below(3))
        }
        5 => {
            let n = r.range(1, 340);
            format!("0.{}{}", "0".repeat(n), digits(r, 25))
        }
        6 => format!("{:.60}", f64::from_bits(0x3ff0_0000_0000_0000 | (r.u64() >> 12))),
        7 => format!("00{}.{}0", r.below(100), r.below(100)),
        _ => format!("{}.{}", r.below(100000), r.below(100000)),
    }
}

fn numbers(c: &mut Ctx, _: u64) -> Res {
    let text = number_text(&mut c.rng);
    let tail = *c.rng.pick(&["", "\n", " ", ".x", ".", "..1", ".1", "a", "(", "-1"]);
    let src = format!("{text}{tail}");
    tokens(c, &src)?;
    let toks = api::scan(&src).map_err(|e| crate::rt::Violation {
        source: src.clone(),
        detail: format!("rejected: {}", api::errs(&e)),
    })?;
    if let Some(t) = toks.first() {
        let ok = t.ty == T::Number && t.number.is_some_and(|x| exact_decimal(&t.text, x));
        if !ok {
            return violation(&src, format!("not the nearest double: {t:?}"));
        }
        c.stats.add("numbers exact", 1);
    }
    // And in the tree.
    if let Ok(whitespace::ast::Expr::LiteralNumber(x)) = api::expr(&text) {
        if !exact_decimal(&text, x) {
            return violation(&text, format!("literal {x:?} is not the nearest double"));
        }
    } else {
        return violation(&text, "a number is not a number literal");
    }
    c.stats.nontrivial(&src);
    Ok(())
}

/// Numbers and strings of the tree are those of the source. Order is C14's
/// subject: here they are compared as bags.
fn literals(c: &mut Ctx, src: &str) -> Res {
    let Ok(tree) = api::repl(src) else { return Ok(()) };
    let l = lex(src);
    if !l.errs.is_empty() {
        return Ok(());
    }
    let mut want: Vec<String> = vec![];
    for (k, t) in l.toks.iter().enumerate() {
        let key = l.toks.get(k + 1).is_some_and(|n| n.ty == T::Colon);
        match t.ty {
            T::Number => want.push(format!("{:x}", t.number.unwrap().to_bits())),
            T::String if !key => want.push(t.string.clone().unwrap()),
            _ => (),
        }
    }
    let mut got = vec![];
    walk::each_expr(&tree, &mut |e| match e {
        Expr::LiteralNumber(x) => got.push(format!("{:x}", x.to_bits())),
        Expr::LiteralString(s) => got.push(s.clone()),
        _ => (),
    });
    c.stats.add("tree literals", got.len() as u64);
    want.sort();
    got.sort();
    if want != got {
        return violation(src, format!("literals of the source {want:?}, of the tree {got:?}"));
    }
    Ok(())
}

// ------------------------------------------------------------------------ C08

/// Edit the layout where it means nothing.
pub fn relayout(r: &mut Rng, src: &str, note: &mut dyn FnMut(&'static str)) -> Option<String> {
    let ps = pieces(src);
    if ps.iter().any(|p| matches!(p.0, Piece::Stray | Piece::Open | Piece::Tab | Piece::Bad)) {
        return None;
    }
    let rate = *r.pick(&[5, 20, 50, 100]);
    let eols = r.below(5);
    let remove = r.chance(50);
    let mut lines: Vec<Vec<(Piece, String)>> = vec![vec![]];
    for (p, a, b) in ps {
        lines.last_mut().unwrap().push((p, src[a..b].to_string()));
        if matches!(p, Piece::Newline | Piece::Join) {
            lines.push(vec![]);
        }
    }
    let mut out = String::new();
    let count = lines.len();
    for (k, mut l) in lines.into_iter().enumerate() {
        let last = k + 1 == count;
        let end = if last { None } else { l.pop() };
        let empty = !l.iter().any(|(p, _)| matches!(p, Piece::Solid(_)));
        // Lines without tokens may go or come.
        if empty && matches!(end, Some((Piece::Newline, _))) && remove && r.chance(rate) {
            note("lines removed");
            continue;
        }
        // Not before the last line if it is blank: it would get a line end.
        while r.chance(rate / 2) {
            note("lines inserted");
            out.push_str(&" ".repeat(r.below(12)));
            if r.chance(60) {
                out.push_str(r.pick(&["// noise", "//", "// \"", "// \\", "// +", "/// é"]));
            }
            out.push_str(r.pick(&["\n", "\r\n"]));
        }
        let mut seen = false;
        let mut k = 0;
        while k < l.len() {
            let (p, t) = &l[k];
            match p {
                Piece::Blank => {
                    let from = k;
                    while k < l.len() && l[k].0 == Piece::Blank {
                        k += 1;
                    }
                    let n = k - from;
                    if !seen && (!empty || r.chance(50)) {
                        // Indentation stays (that of empty lines need not).
                        out.push_str(&" ".repeat(n));
                    } else if k == l.len() && r.chance(rate) {
                        note("trailing blanks changed");
                        out.push_str(&" ".repeat(r.below(4)));
                    } else if r.chance(rate) {
                        note("spaces changed");
                        out.push_str(&" ".repeat(r.range(1, 5)));
                    } else {
                        out.push_str(&" ".repeat(n));
                    }
                    continue;
                }
                Piece::Comment if remove && r.chance(rate) => note("comments removed"),
                Piece::Comment if r.chance(rate) => {
                    note("comments changed");
                    out.push_str("// other + (");
                }
                _ => {
                    seen |= matches!(p, Piece::Solid(_));
                    out.push_str(t);
                }
            }
            k += 1;
        }
        let comment = l.last().is_some_and(|(p, _)| *p == Piece::Comment);
        match end {
            Some((Piece::Join, t)) => {
                if r.chance(rate) {
                    note("continuations changed");
                    out.push('\\');
                    out.push_str(&" ".repeat(r.below(3)));
                    out.push_str(if t.ends_with("\r\n") { "\r\n" } else { "\n" });
                } else {
                    out.push_str(&t);
                }
            }
            other => {
                if !comment && r.chance(rate) {
                    note("line tails changed");
                    out.push_str(&" ".repeat(r.range(1, 3)));
                    if r.chance(60) {
                        out.push_str(r.pick(&["// tail", "//", "// \" {", "// \\"]));
                    }
                }
                if let Some((_, t)) = other {
                    let t = match eols {
                        0 => "\n",
                        1 => "\r\n",
                        2 if r.chance(50) => "\n",
                        2 => "\r\n",
                        _ => &t,
                    };
                    if eols < 3 {
                        note("line ends changed");
                    }
                    out.push_str(t);
                }
            }
        }
    }
    Some(out)
}

fn outcome(src: &str) -> (Option<String>, &'static str, usize) {
    match api::repl(src) {
        Err(_) => (None, "parse", 0),
        Ok(t) => match api::resolve(src, t) {
            Err(e) => (None, "resolve", e.causes.len()),
            Ok(t) => (Some(walk::render(&t, false, true)), "", 0),
        },
    }
}

fn neutral(c: &mut Ctx, src: &str) -> Res {
    let mut notes: Vec<&'static str> = vec![];
    let Some(edited) = relayout(&mut c.rng, src, &mut |n| notes.push(n)) else { return Ok(()) };
    if edited == src {
        return Ok(());
    }
    for n in &notes {
        c.stats.add(n, 1);
        c.stats.add("edits made", 1);
    }
    let a = outcome(src);
    let b = outcome(&edited);
    // parse() and parse_repl_line() differ in the last line only.
    let pa = api::parse(src).is_ok();
    let pb = api::parse(&edited).is_ok();
    if a != b || pa != pb {
        let d = match (&a.0, &b.0) {
            (Some(x), Some(y)) => walk::diff(x, y),
            _ => format!("{:?}/{pa} and {:?}/{pb}", a, b),
        };
        return violation(
            src,
            format!("layout matters. The edited source is {edited:?}; before and after: {d}"),
        );
    }
    if a.0.is_some() {
        c.stats.add("accepted pairs", 1);
        c.stats.nontrivial(&format!("{src}\u{0}{edited}"));
    } else {
        c.stats.add("rejected pairs", 1);
    }
    Ok(())
}

// ------------------------------------------------------------------------ C19

fn lexical_errors(c: &mut Ctx, src: &str) -> Res {
    let want = lex(src);
    let got = api::scan(src);
    let show = |v: &[(u32, u32)]| format!("{v:?}");
    let w: Vec<(u32, u32)> = want.errs.iter().map(|e| (e.line, e.col.min(65535))).collect();
    let g: Vec<(u32, u32)> = match &got {
        Ok(_) => vec![],
        Err(e) => e.causes.iter().map(|c| at(c.source_loc)).collect(),
    };
    if w != g {
        return violation(
            src,
            format!(
                "lexical errors expected at {} ({:?}), reported at {} ({})",
                show(&w),
                want.errs.iter().map(|e| e.kind).collect::<Vec<_>>(),
                show(&g),
                got.as_ref().err().map(api::errs).unwrap_or_default()
            ),
        );
    }
    if let Err(e) = &got {
        if e.causes.is_empty() {
            return violation(src, "rejected without an error");
        }
        // Same mistakes read alike, different ones do not.
        for (a, x) in want.errs.iter().zip(&e.causes) {
            for (b, y) in want.errs.iter().zip(&e.causes) {
                if (a.kind, &a.text) == (b.kind, &b.text) && x.message != y.message
                    || a.kind != b.kind && x.message == y.message
                {
                    return violation(src, format!("{a:?} and {b:?} are reported as {:?} and {:?}", x.message, y.message));
                }
            }
        }
        // What one entry point rejects, all do, with the same errors.
        for (n, o) in [("parse", api::parse(src).err()), ("parse_repl_line", api::repl(src).err()), ("parse_expression", api::expr(src).err())] {
            if o.as_ref() != Some(e) {
                return violation(src, format!("{n} reports {:?}", o.as_ref().map(api::errs)));
            }
        }
        c.stats.nontrivial(src);
    } else {
        c.stats.add("clean sources", 1);
    }
    for e in &want.errs {
        c.stats.add(&format!("{:?} errors", e.kind), 1);
    }
    c.stats.max("errors in a source", want.errs.len() as u64);
    Ok(())
}

/// Good sources with a few mistakes sprinkled in.
fn dirty(c: &mut Ctx, src: &str) -> Res {
    const DIRT: [&str; 12] = ["\t", "@", "#", "\\", "\\x", "'", "$", "\"", "²", "\u{301}", "🇫🇷", "\n   \t"];
    let mut s = src.to_string();
    for _ in 0..c.rng.range(1, 4) {
        let i = crate::inputs::floor_char(&s, c.rng.below(s.len() + 1));
        let d = *c.rng.pick(&DIRT);
        s.insert_str(i, d);
    }
    lexical_errors(c, &s)
}

