//! C15: lexemes against the reference lexer

use crate::accept::sentence;
use crate::engine::{panic_text, Case, Info, Outcome};
use crate::gen::{random_ident, random_number, random_string};
use crate::grammar::grammar;
use crate::layout::{draw, render, FULL};
use crate::lexis::{lex, Lexeme, K};
use crate::src::Src;
use mofmt::SyntaxKind;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Lexemes in any order
fn soup(s: &mut Src) -> Vec<String> {
    let n = 1 + s.below(60);
    (0..n)
        .map(|_| match s.below(8) {
            0 => random_ident(s),
            1 => random_string(s, true),
            2 if s.chance(8, 16) => {
                let real = s.chance(12, 16);
                random_number(s, real)
            }
            2 => s
                .pick(&[
                    "1.", "0.5", "1e5", "12E-3", "3.e+2", "007", "1.5e0", "9E+10",
                ])
                .to_string(),
            _ => grammar().any_lexeme(s).1,
        })
        .collect()
}

/// Characters that are lexically close to each other
fn fragments(s: &mut Src) -> String {
    const PARTS: [&str; 65] = [
        "/**",
        "/* *",
        "/*/",
        "\r",
        "\x0c",
        "a",
        "e",
        "E",
        "1",
        "0",
        ".",
        "..",
        "+",
        "-",
        "*",
        "/",
        "^",
        "=",
        "<",
        ">",
        ":",
        "'",
        "\"",
        "\\",
        " ",
        "\n",
        "\t",
        "//",
        "/*",
        "*/",
        "(",
        ")",
        "[",
        "]",
        "{",
        "}",
        ",",
        ";",
        "end",
        "if",
        "in",
        "_",
        "der",
        "initial",
        "or",
        "not",
        "\r\n",
        "x",
        "==",
        ":=",
        "<>",
        ".+",
        ".*",
        "1.5",
        "2e3",
        "'q'",
        "\"s\"",
        "\u{105}",
        "\u{1d11e}",
        "elseif",
        "elsewhen",
        "true",
        "false",
        "* /",
        "/ *",
    ];
    let n = 1 + s.below(40);
    let mut out = String::new();
    for _ in 0..n {
        out += s.pick(&PARTS);
    }
    out
}

/// One lexeme of each class
fn exemplars() -> Vec<&'static str> {
    let mut out: Vec<&str> = grammar()
        .terminals()
        .iter()
        .map(|t| match t.as_str() {
            "IDENT" => "x",
            "STR" => "\"s\"",
            "UINT" => "1",
            "UREAL" => "1.5",
            "BOOL" => "true",
            t => t,
        })
        .collect();
    out.extend(["// c", "/* c */"]);
    out
}

fn exemplar(l: &Lexeme) -> &str {
    match l.kind {
        K::Ident => "x",
        K::Str => "\"s\"",
        K::UInt => "1",
        K::UReal => "1.5",
        K::Bool => "true",
        K::LineComment => "// c",
        K::BlockComment => "/* c */",
        K::Kw | K::Op => &l.text,
    }
}

/// C15
pub fn lexemes_exact(case: &Case) -> Outcome {
    compare(case, false)
}

/// C15: sources of up to 200 000 lexemes
pub fn lexemes_exact_long(case: &Case) -> Outcome {
    compare(case, true)
}

fn compare(case: &Case, long: bool) -> Outcome {
    let mut s = case.syn();
    let (source, what) = match s.below(8) {
        _ if long => (crate::relate::long_source(case), "long source"),
        0..=2 => {
            let (toks, _) = sentence(case, 1500);
            let texts: Vec<&str> = toks.iter().map(|t| t.1.as_str()).collect();
            (
                render(&texts, &draw(&mut case.lay(), &texts, FULL)).source,
                "program",
            )
        }
        3..=5 => {
            let toks = soup(&mut s);
            let texts: Vec<&str> = toks.iter().map(|t| t.as_str()).collect();
            (
                render(&texts, &draw(&mut case.lay(), &texts, FULL)).source,
                "lexemes in any order",
            )
        }
        _ => (fragments(&mut s), "adjacent fragments"),
    };
    let Ok(want) = lex(&source) else {
        return Outcome::Discard("lexically invalid");
    };
    let malformed = want
        .iter()
        .any(|l| l.kind == K::UReal && l.text.ends_with(['e', 'E', '+', '-']));
    if malformed {
        return Outcome::Discard("malformed numeral");
    }
    crate::watch::input(&source);
    let parsed = match catch_unwind(AssertUnwindSafe(|| {
        mofmt::parse("f.mo", &source, SyntaxKind::StoredDefinition)
    })) {
        Ok(p) => p,
        Err(e) => return Outcome::fail(&source, format!("panicked: {}", panic_text(&*e))),
    };
    let exem = exemplars();
    let canon: Vec<_> = exem
        .iter()
        .map(|t| {
            let mut p = mofmt::parse("c", &format!("{t}\n"), SyntaxKind::StoredDefinition);
            p.tokens.append(&mut p.comments);
            (*t, p.tokens.pop())
        })
        .collect();
    for (i, (t, a)) in canon.iter().enumerate() {
        let Some(a) = a else {
            return Outcome::fail(t, "lexeme is not recognised".to_string());
        };
        if a.text != *t {
            return Outcome::fail(t, format!("recognised as {:?}", a.text));
        }
        for (u, b) in &canon[..i] {
            if b.as_ref().is_some_and(|b| b.kind == a.kind) {
                return Outcome::fail(
                    &format!("{t} {u}"),
                    "lexemes are classified equally".to_string(),
                );
            }
        }
    }
    // A lexical error would not be at a lexeme
    for e in &parsed.errors {
        let at = crate::accept::location("f.mo", e).map(|e| (e.0, e.1));
        if !parsed.tokens.is_empty() && !want.iter().any(|l| Some((l.line, l.col)) == at) {
            return Outcome::fail(
                &source,
                format!("lexically valid source has the error {e:?}"),
            );
        }
    }
    let (nt, nc) = (parsed.tokens.len(), parsed.comments.len());
    let mut toks = parsed.tokens.into_iter().peekable();
    let mut comments = parsed.comments.into_iter().peekable();
    for (i, w) in want.iter().enumerate() {
        let got = if w.kind.is_comment() {
            comments.next()
        } else {
            toks.next()
        };
        let bad = |what: String| {
            Outcome::fail(
                &source,
                format!(
                    "{what}; lexeme {i} should be {:?} {:?} at {}:{}",
                    w.kind, w.text, w.line, w.col
                ),
            )
        };
        let Some(g) = got else {
            return bad("lexeme is missing".to_string());
        };
        if g.text != w.text {
            return bad(format!("{:?} found", g.text));
        }
        if g.idx != i {
            return bad(format!("number {}", g.idx));
        }
        let (a, b) = (g.start, g.end);
        if (a.pos, a.line, a.col) != (w.start, w.line, w.col) {
            return bad(format!("start is {a:?}, not at byte {}", w.start));
        }
        if (b.pos, b.line, b.col) != (w.end, w.eline, w.ecol) {
            return bad(format!(
                "end is {b:?}, not {}:{} (byte {})",
                w.eline, w.ecol, w.end
            ));
        }
        let e = exemplar(w);
        let c = canon.iter().find(|c| c.0 == e).and_then(|c| c.1.as_ref());
        match c {
            Some(c) if c.kind == g.kind => (),
            Some(c) => return bad(format!("class {:?} instead of {:?}", g.kind, c.kind)),
            None => unreachable!("no exemplar {e}"),
        }
    }
    if toks.next().is_some() || comments.next().is_some() {
        return Outcome::fail(
            &source,
            format!(
                "{nt} lexemes and {nc} comments, {} expected in total",
                want.len()
            ),
        );
    }
    Outcome::Pass(Info {
        nontrivial: want.len() >= 5,
        source,
        classes: vec![what],
        checks: want.len() as u64,
    })
}
