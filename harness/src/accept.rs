//! Checks of what is accepted, and of reported errors: C11-C13

use crate::dict;
use crate::engine::{Case, Info, Outcome};
use crate::gen::generate;
use crate::grammar::{grammar, Verdict};
use crate::layout::{draw, render, Opts, Rendered, FULL};
use crate::lexis::{lex, LexErr, K};
use crate::src::Src;
use crate::sut::errors_named;
use mofmt::SyntaxKind;

pub type Toks = Vec<(K, String)>;

/// A valid sequence of lexemes
pub fn sentence(case: &Case, max: usize) -> (Toks, &'static str) {
    let mut s = case.syn();
    if s.chance(5, 16) {
        if s.chance(1, 32) && max > 1000 {
            return (grammar().pumped(&mut s, max), "very long repetition");
        }
        (grammar().sentence(&mut s, max), "sentence of the grammar")
    } else {
        let doc = generate(&mut s, SyntaxKind::StoredDefinition, max);
        let toks = doc.toks.into_iter().map(|t| (t.kind, t.text)).collect();
        (toks, "generated program")
    }
}

/// Change the sequence of lexemes
pub fn mutate(s: &mut Src, toks: &mut Toks) -> &'static str {
    let g = grammar();
    let n = toks.len();
    if n == 0 {
        toks.push(g.any_lexeme(s));
        return "insertion";
    }
    let i = s.below(n);
    match s.below(12) {
        0..=2 => {
            toks.remove(i);
            "deletion"
        }
        3 | 4 => {
            let t = if s.chance(4, 16) {
                toks[s.below(n)].clone()
            } else {
                g.any_lexeme(s)
            };
            toks.insert(s.below(n + 1), t);
            "insertion"
        }
        5 | 6 => {
            toks[i] = if s.chance(4, 16) {
                toks[s.below(n)].clone()
            } else {
                g.any_lexeme(s)
            };
            "replacement"
        }
        7 => {
            if i + 1 < n {
                toks.swap(i, i + 1);
            }
            "transposition"
        }
        8 => {
            let t = toks[i].clone();
            toks.insert(i, t);
            "duplication"
        }
        9 => {
            let m = 1 + s.below(6.min(n - i));
            toks.drain(i..i + m);
            "deletion of a range"
        }
        10 => {
            let m = 1 + s.below(8.min(n - i));
            let part: Vec<_> = toks[i..i + m].to_vec();
            let at = s.below(n + 1);
            toks.splice(at..at, part);
            "copy of a range"
        }
        _ => {
            toks.truncate(i);
            "truncation"
        }
    }
}

fn lay(case: &Case, toks: &Toks, o: Opts) -> Rendered {
    let texts: Vec<&str> = toks.iter().map(|t| t.1.as_str()).collect();
    render(&texts, &draw(&mut case.lay(), &texts, o))
}

fn as_refs(toks: &Toks) -> Vec<(K, &str)> {
    toks.iter().map(|t| (t.0, t.1.as_str())).collect()
}

fn info(r: &Rendered, nontrivial: bool, classes: Vec<&'static str>) -> Outcome {
    Outcome::Pass(Info {
        nontrivial,
        source: r.source.clone(),
        classes,
        checks: 1,
    })
}

/// C11
pub fn valid_accepted(case: &Case) -> Outcome {
    let (mut toks, mut what) = sentence(case, 2500);
    let mut alt = case.alt();
    if alt.chance(5, 16) {
        // Mutants that are still valid
        for _ in 0..1 + alt.below(2) {
            mutate(&mut alt, &mut toks);
        }
        if toks.len() > 400 || grammar().recognise(&as_refs(&toks)) != Verdict::Accepted {
            return Outcome::Discard("mutant is not valid");
        }
        what = "valid mutant";
    }
    let r = lay(case, &toks, FULL);
    match errors_named("f.mo", &r.source, SyntaxKind::StoredDefinition) {
        Err(e) => Outcome::fail(&r.source, format!("panicked: {e}")),
        Ok(e) if !e.is_empty() => Outcome::fail(
            &r.source,
            format!("valid source is rejected:\n{}", e.join("\n")),
        ),
        Ok(_) => {
            let mut classes = vec![what];
            for (w, _) in [("within", 0), ("external", 0), ("enumeration", 0)] {
                if toks.iter().any(|t| t.1 == w) {
                    classes.push(w);
                }
            }
            if r.comments.iter().any(|c| !c.is_empty()) {
                classes.push("comments");
            }
            info(&r, toks.len() >= 10, classes)
        }
    }
}

/// C11: sources of up to 200 000 lexemes
pub fn long_accepted(case: &Case) -> Outcome {
    let source = crate::relate::long_source(case);
    match errors_named("f.mo", &source, SyntaxKind::StoredDefinition) {
        Err(e) => Outcome::fail(&source, format!("panicked: {e}")),
        Ok(e) if !e.is_empty() => Outcome::fail(
            &source,
            format!("valid source is rejected:\n{}", e.join("\n")),
        ),
        Ok(_) => Outcome::Pass(Info {
            nontrivial: true,
            source,
            classes: vec!["long source"],
            checks: 1,
        }),
    }
}

/// C11: the annotated generator derives nothing but sentences of the grammar
/// the recogniser knows (a check of the harness itself, and of its domain)
pub fn generators_agree(case: &Case) -> Outcome {
    let mut s = case.syn();
    let doc = generate(&mut s, SyntaxKind::StoredDefinition, 120);
    let toks: Toks = doc.toks.into_iter().map(|t| (t.kind, t.text)).collect();
    if toks.len() > 300 {
        return Outcome::Discard("too long to be recognised");
    }
    if let Verdict::Rejected(k) = grammar().recognise(&as_refs(&toks)) {
        let texts: Vec<&str> = toks.iter().map(|t| t.1.as_str()).collect();
        panic!(
            "generated program is not in the grammar at lexeme {k}: {}",
            texts.join(" ")
        );
    }
    let r = lay(case, &toks, FULL);
    match errors_named("f.mo", &r.source, SyntaxKind::StoredDefinition) {
        Err(e) => Outcome::fail(&r.source, format!("panicked: {e}")),
        Ok(e) if !e.is_empty() => Outcome::fail(
            &r.source,
            format!("valid source is rejected:\n{}", e.join("\n")),
        ),
        Ok(_) => info(&r, toks.len() >= 10, vec!["recognised program"]),
    }
}

/// C12
pub fn invalid_rejected(case: &Case) -> Outcome {
    let (mut toks, _) = sentence(case, 160);
    let mut alt = case.alt();
    if alt.chance(2, 16) {
        return match damaged(case, &mut alt) {
            None => Outcome::Discard("lexically valid"),
            Some((r, _)) => match errors_named("f.mo", &r.source, SyntaxKind::StoredDefinition) {
                Err(e) => Outcome::fail(&r.source, format!("panicked: {e}")),
                Ok(e) if e.is_empty() => Outcome::fail(
                    &r.source,
                    "lexically invalid source is accepted".to_string(),
                ),
                Ok(_) => info(&r, true, vec!["lexically invalid"]),
            },
        };
    }
    let mut classes = Vec::new();
    for _ in 0..[1, 1, 1, 2, 3][alt.below(5)] {
        classes.push(mutate(&mut alt, &mut toks));
    }
    rejected(case, toks, classes)
}

/// C12: sentences of grammars that differ a little from the right one
pub fn deviant_rejected(case: &Case) -> Outcome {
    let (toks, what) = grammar().deviant(&mut case.syn());
    rejected(case, toks, vec![what])
}

fn rejected(case: &Case, toks: Toks, classes: Vec<&'static str>) -> Outcome {
    if toks.len() > 400 {
        return Outcome::Discard("too long to be recognised");
    }
    let verdict = grammar().recognise(&as_refs(&toks));
    let Verdict::Rejected(k) = verdict else {
        return Outcome::Discard("mutant is valid");
    };
    let r = lay(case, &toks, FULL);
    match errors_named("f.mo", &r.source, SyntaxKind::StoredDefinition) {
        Err(e) => Outcome::fail(&r.source, format!("panicked: {e}")),
        Ok(e) if e.is_empty() => {
            let t = toks.get(k).map_or("end of file", |t| t.1.as_str());
            Outcome::fail(
                &r.source,
                format!("invalid source is accepted (invalid at lexeme {k}, {t:?})"),
            )
        }
        Ok(_) => info(&r, k >= 3, classes),
    }
}

const NAMES: [&str; 6] = [
    "f.mo",
    "a b.mo",
    "./x/y.mo",
    "C:\\m.mo",
    "\u{105}/\u{20ac}.mo",
    "",
];

/// Name of a source: any text
pub fn any_name(s: &mut crate::src::Src) -> String {
    if let Some(t) = dict::text(s, 8) {
        return t;
    }
    if !s.chance(6, 16) {
        return s.pick(&NAMES).to_string();
    }
    let piece = *s.pick(&[
        "\u{e9}",
        "\u{20ac}",
        "d/",
        "x",
        "\u{1f600}/",
        "a:1:2: ",
        " ",
        "{}",
        "%s",
    ]);
    let most = *s.pick(&[4, 80, 300]);
    let n = s.below(most);
    format!("{}{}.mo", "a".repeat(s.below(4)), piece.repeat(n))
}

/// Split `name:line:col: message`
pub fn location(name: &str, error: &str) -> Option<(usize, usize, String)> {
    let rest = error.strip_prefix(name)?.strip_prefix(':')?;
    let (line, rest) = rest.split_once(':')?;
    let (col, msg) = rest.split_once(": ")?;
    let num = |t: &str| {
        (!t.is_empty() && t.bytes().all(|b| b.is_ascii_digit())).then(|| t.parse().ok())?
    };
    if msg.trim().is_empty() {
        return None;
    }
    Some((num(line)?, num(col)?, msg.to_string()))
}

/// C13
pub fn errors_located(case: &Case) -> Outcome {
    let mut alt = case.alt();
    let name = &any_name(&mut alt);
    if alt.chance(4, 16) {
        return lexical_errors(case, &mut alt, name);
    }
    let mut classes = vec!["grammar error"];
    let toks = if alt.chance(6, 16) {
        let (toks, what) = grammar().deviant(&mut case.syn());
        classes.push(what);
        toks
    } else {
        let (mut toks, _) = sentence(case, 160);
        for _ in 0..[1, 1, 1, 2][alt.below(4)] {
            classes.push(mutate(&mut alt, &mut toks));
        }
        toks
    };
    if toks.is_empty() {
        return Outcome::Discard("no lexemes");
    }
    let Verdict::Rejected(k) = grammar().recognise(&as_refs(&toks)) else {
        return Outcome::Discard("mutant is valid");
    };
    let r = lay(case, &toks, FULL);
    let errors = match errors_named(name, &r.source, SyntaxKind::StoredDefinition) {
        Err(e) => return Outcome::fail(&r.source, format!("panicked: {e}")),
        Ok(e) => e,
    };
    if errors.is_empty() {
        return Outcome::Discard("invalid source is accepted");
    }
    let lexemes = match lex(&r.source) {
        Ok(l) => l,
        Err(_) => unreachable!("layout broke the lexemes"),
    };
    let pos: Vec<(usize, usize)> = lexemes
        .iter()
        .filter(|l| !l.kind.is_comment())
        .map(|l| (l.line, l.col))
        .collect();
    assert_eq!(pos.len(), toks.len());
    for (i, e) in errors.iter().enumerate() {
        let Some((line, col, _)) = location(name, e) else {
            return Outcome::fail(&r.source, format!("malformed error {e:?} (name {name:?})"));
        };
        let Some(at) = pos.iter().position(|p| *p == (line, col)) else {
            return Outcome::fail(
                &r.source,
                format!("no lexeme starts at the location of {e:?}"),
            );
        };
        let last = toks.len() - 1;
        let ok = if k == toks.len() {
            at == last
        } else {
            at == k || at + 1 == k
        };
        if i == 0 && !ok {
            let t = toks.get(k).map_or("end of file", |t| t.1.as_str());
            return Outcome::fail(
                &r.source,
                format!("first error is {e:?} (lexeme {at}), but it is lexeme {k} ({t:?}) that is invalid"),
            );
        }
    }
    if let Err(e) = listed(name, &errors, &pos, &kinds(name, &r.source)) {
        return Outcome::fail(&r.source, format!("{e}\n{}", errors.join("\n")));
    }
    if errors.len() > 1 {
        classes.push("several errors");
    }
    if k == toks.len() {
        classes.push("unexpected end of file");
    }
    info(&r, k >= 3, classes)
}

/// Names of the kinds of lexemes
fn kinds(name: &str, source: &str) -> Vec<String> {
    mofmt::parse(name, source, SyntaxKind::StoredDefinition)
        .tokens
        .iter()
        .map(|t| format!("{:?}", t.kind))
        .collect()
}

/// Errors are in the order of the source, each one is listed once, and names
/// the lexeme that is found at its location
fn listed(
    name: &str,
    errors: &[String],
    pos: &[(usize, usize)],
    kinds: &[String],
) -> Result<(), String> {
    let mut last = (0, 0);
    for (i, e) in errors.iter().enumerate() {
        let (line, col, msg) = location(name, e).expect("checked");
        if (line, col) < last {
            return Err(format!("error {e:?} is listed after one behind it"));
        }
        last = (line, col);
        if errors[..i].contains(e) {
            return Err(format!("error {e:?} is listed twice"));
        }
        let at = pos.iter().position(|p| *p == (line, col)).expect("checked");
        let Some((_, found)) = msg.rsplit_once("found ") else {
            continue;
        };
        let word = found.trim_matches(|c: char| !c.is_alphanumeric());
        let end = word == "EOF" && (i > 0 || at + 1 == pos.len());
        if kinds.iter().any(|k| k == word) && kinds.get(at).is_some_and(|k| k != word) && !end {
            return Err(format!("error {e:?} is at {:?}", kinds.get(at)));
        }
        if word == "EOF" && !end {
            return Err(format!("error {e:?} is not at the end"));
        }
    }
    Ok(())
}

/// Source that ends within a lexeme
fn unfinished(case: &Case, alt: &mut Src) -> Option<(Rendered, LexErr)> {
    let (toks, _) = sentence(case, 120);
    let texts: Vec<&str> = toks.iter().map(|t| t.1.as_str()).collect();
    let mut r = render(&texts, &draw(&mut case.lay(), &texts, FULL));
    if alt.chance(1, 2) {
        let ends: Vec<usize> = r.source.char_indices().map(|(i, _)| i).collect();
        if !ends.is_empty() {
            // Few places are in comments or strings
            for _ in 0..12 {
                let end = *alt.pick(&ends);
                if lex(&r.source[..end]).is_err() {
                    r.source.truncate(end);
                    break;
                }
            }
        }
    } else {
        const PARTS: [&str; 16] = [
            "*", "/", "**", "\\", "\"", "'", "a", " ", "\n", "\r\n", "\t", "//", "\u{105}",
            "end A;", "\\\"", "\\'",
        ];
        r.source += alt.pick(&["\n", " ", "", "//\n"]);
        r.source += alt.pick(&["/*", "\"", "'"]);
        for _ in 0..alt.below(6) {
            match dict::text(alt, 2) {
                Some(known) => r.source += &known,
                None => r.source += alt.pick(&PARTS),
            }
        }
    }
    let e = lex(&r.source).err()?;
    Some((r, e))
}

/// Lexically invalid source
fn damaged(case: &Case, alt: &mut Src) -> Option<(Rendered, LexErr)> {
    if alt.chance(5, 16) {
        return unfinished(case, alt);
    }
    const BAD: [&str; 30] = [
        "\u{feff}",
        "\u{a0}",
        "\u{2028}",
        "\u{85}",
        "\0",
        "\x0b",
        "\x7f",
        "\u{200b}",
        "\u{3000}",
        "$",
        "@",
        "?",
        "!",
        "#",
        "%",
        "&",
        "|",
        "~",
        "\\",
        "`",
        "\u{105}",
        "\u{20ac}",
        "\u{1d11e}",
        "\"abc",
        "'x y",
        "/* c",
        "'a\u{105}'",
        "\"a\\",
        "/*/",
        "'q\\",
    ];
    let (toks, _) = sentence(case, 120);
    let texts: Vec<&str> = toks.iter().map(|t| t.1.as_str()).collect();
    let mut layout = draw(&mut case.lay(), &texts, FULL);
    for _ in 0..1 + alt.below(2) {
        let i = if alt.chance(2, 16) {
            0
        } else {
            alt.below(layout.len())
        };
        let known = dict::text(alt, 4);
        let bad = known.as_deref().unwrap_or_else(|| *alt.pick(&BAD));
        let n = layout[i].len();
        use crate::layout::Atom;
        let at = if alt.chance(2, 16) { 0 } else { n };
        let bad = if alt.chance(4, 16) {
            bad.to_string()
        } else {
            format!(" {bad} ")
        };
        layout[i].insert(at, Atom::Ws(0, bad));
    }
    let r = render(&texts, &layout);
    let e = lex(&r.source).err()?;
    Some((r, e))
}

fn lexical_errors(case: &Case, alt: &mut Src, name: &str) -> Outcome {
    let Some((r, bad)) = damaged(case, alt) else {
        return Outcome::Discard("lexically valid");
    };
    let errors = match errors_named(name, &r.source, SyntaxKind::StoredDefinition) {
        Err(e) => return Outcome::fail(&r.source, format!("panicked: {e}")),
        Ok(e) => e,
    };
    let before = &r.source[..bad.at];
    let line = 1 + before.matches('\n').count();
    let col = 1 + before[before.rfind('\n').map_or(0, |n| n + 1)..]
        .chars()
        .count();
    let lines: Vec<&str> = r.source.split('\n').collect();
    let mut found = false;
    for e in &errors {
        let Some((l, c, _)) = location(name, e) else {
            return Outcome::fail(&r.source, format!("malformed error {e:?} (name {name:?})"));
        };
        found |= (l, c) == (line, col);
        let inside = l >= 1
            && c >= 1
            && lines
                .get(l - 1)
                .is_some_and(|t| c <= t.chars().count().max(1));
        if !inside {
            return Outcome::fail(&r.source, format!("error {e:?} is outside of the source"));
        }
    }
    if !found {
        return Outcome::fail(
            &r.source,
            format!(
                "no error at {line}:{col}, where a lexeme is invalid:\n{}",
                errors.join("\n")
            ),
        );
    }
    info(&r, true, vec!["lexical error"])
}
