//! Relations between runs on different sources: C04, C22, C23

use crate::engine::{Case, Info, Outcome};
use crate::gen::{generate_chunk, random_ident, random_number, random_string, Chunk, Doc};
use crate::layout::{draw, fix, render, Atom, Layout, Profile, FULL};
use crate::lexis::{lex, K};
use crate::src::Src;
use crate::style::{choices, program, split, Size, MAX_TOKENS};
use crate::sut::{format, Fmt};

fn ok(source: &str) -> Result<String, Outcome> {
    match format(source) {
        Fmt::Ok(s) => Ok(s),
        Fmt::Errors(_) => Err(Outcome::Discard("syntax errors reported")),
        Fmt::Panic(e) => Err(Outcome::fail(source, format!("panicked: {e}"))),
    }
}

macro_rules! attempt {
    ($e:expr) => {
        match $e {
            Ok(x) => x,
            Err(o) => return o,
        }
    };
}

/// Draw other whitespace with the same line structure
fn relayout(s: &mut Src, texts: &[&str], layout: &Layout) -> Layout {
    let prof = Profile::draw(s, FULL);
    let mut out = Vec::new();
    for (i, atoms) in layout.iter().enumerate() {
        let mut prev = (i > 0).then(|| texts[i - 1].to_string());
        let mut new = Vec::new();
        for (j, atom) in atoms.iter().enumerate() {
            match atom {
                Atom::Comment(t) => {
                    prev = Some(t.clone());
                    new.push(atom.clone());
                }
                Atom::Ws(nl, _) => {
                    let next = match atoms.get(j + 1) {
                        Some(Atom::Comment(t)) => Some(t.as_str()),
                        _ => texts.get(i).copied(),
                    };
                    let mut raw = prof.space(s, *nl);
                    fix(&mut raw, *nl, prev.as_deref(), next);
                    new.push(Atom::Ws(*nl, raw));
                }
            }
        }
        out.push(new);
    }
    out
}

/// C04
pub fn whitespace_independent(case: &Case, size: Size) -> Outcome {
    let doc = program(case, size);
    let texts = doc.texts();
    let l1 = draw(&mut choices(&case.lay, size), &texts, FULL);
    let l2 = relayout(&mut choices(&case.alt, size), &texts, &l1);
    let a = render(&texts, &l1).source;
    let b = render(&texts, &l2).source;
    let (fa, fb) = (attempt!(ok(&a)), attempt!(ok(&b)));
    if fa != fb {
        return Outcome::fail(
            &a,
            format!(
                "--- source with other whitespace:\n{b}\n--- is formatted as:\n{fb}\n--- instead of:\n{fa}\n---"
            ),
        );
    }
    let mut classes = Vec::new();
    if a.contains("\r\n") != b.contains("\r\n") {
        classes.push("LF versus CRLF");
    }
    if l1.iter().flatten().any(|x| matches!(x, Atom::Ws(2, _))) {
        classes.push("blank lines");
    }
    if l1.iter().flatten().any(|x| matches!(x, Atom::Comment(_))) {
        classes.push("comments");
    }
    Outcome::Pass(Info {
        nontrivial: a != b && texts.len() >= 12,
        source: format!("{a}\u{0}{b}"),
        classes,
        checks: 1,
    })
}

fn rename(s: &mut Src, kind: K, text: &str) -> String {
    match kind {
        K::Ident => random_ident(s),
        K::Str if !text.contains('\n') => random_string(s, false),
        K::UInt => random_number(s, false),
        K::UReal => random_number(s, true),
        K::Bool => ["true", "false"][s.below(2)].to_string(),
        _ => text.to_string(),
    }
}

fn recomment(s: &mut Src, text: &str) -> String {
    if text.contains('\n') {
        return text.to_string();
    }
    let t = random_string(s, false).replace("*/", "*_");
    if text.starts_with("//") {
        format!("//{}", if s.chance(8, 16) { t.as_str() } else { "" })
    } else {
        format!("/*{}*/", if s.chance(8, 16) { t.as_str() } else { "" })
    }
}

/// C23
pub fn name_independent(case: &Case, size: Size) -> Outcome {
    let doc = program(case, size);
    let texts = doc.texts();
    let l1 = draw(&mut choices(&case.lay, size), &texts, FULL);
    let mut s = choices(&case.alt, size);
    let names: Vec<String> = doc
        .toks
        .iter()
        .map(|t| {
            if s.chance(10, 16) {
                rename(&mut s, t.kind, &t.text)
            } else {
                t.text.clone()
            }
        })
        .collect();
    let names: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
    let mut l2: Layout = l1.clone();
    for (i, atoms) in l2.iter_mut().enumerate() {
        for a in atoms.iter_mut() {
            if let Atom::Comment(t) = a {
                *t = recomment(&mut s, t);
            }
        }
        // Separate what would be merged
        let texts_of: Vec<String> = atoms
            .iter()
            .map(|a| match a {
                Atom::Comment(t) => t.clone(),
                _ => String::new(),
            })
            .collect();
        for (j, a) in atoms.iter_mut().enumerate() {
            if let Atom::Ws(nl, raw) = a {
                let prev = if j > 0 {
                    Some(texts_of[j - 1].as_str())
                } else {
                    (i > 0).then(|| names[i - 1])
                };
                let next = match texts_of.get(j + 1) {
                    Some(t) => Some(t.as_str()),
                    None => names.get(i).copied(),
                };
                fix(raw, *nl, prev, next);
            }
        }
    }
    let a = render(&texts, &l1).source;
    let b = render(&names, &l2).source;
    let (fa, fb) = (attempt!(ok(&a)), attempt!(ok(&b)));
    let (Some(ga), Some(gb)) = (split(&fa, &texts), split(&fb, &names)) else {
        return Outcome::Discard("code not preserved");
    };
    for (i, (x, y)) in ga.iter().zip(&gb).enumerate() {
        let same = x.sep == y.sep
            && x.comments.len() == y.comments.len()
            && x.comments
                .iter()
                .zip(&y.comments)
                .all(|(c, d)| c.0 == d.0 && c.1.starts_with("//") == d.1.starts_with("//"));
        if !same {
            return Outcome::fail(
                &a,
                format!(
                    "gap {:?} before lexeme {i} ({:?}) becomes {:?} when texts are replaced\n--- second source:\n{b}\n--- outputs:\n{fa}\n---\n{fb}\n---",
                    x.text(),
                    texts.get(i),
                    y.text()
                ),
            );
        }
    }
    let mut classes = Vec::new();
    let longest = |t: &str| t.lines().map(str::len).max().unwrap_or(0);
    if longest(&fa) < 80 && longest(&fb) > 120 {
        classes.push("short versus long lines");
    }
    if l1 != l2 {
        classes.push("comments replaced");
    }
    Outcome::Pass(Info {
        nontrivial: names != texts && texts.len() >= 12,
        source: format!("{a}\u{0}{b}"),
        classes,
        checks: ga.len() as u64,
    })
}

/// Draw the layout of a chunk, without whitespace around it
fn chunk_source(s: &mut Src, doc: &Doc, own_trailing: bool) -> String {
    let texts = doc.texts();
    let mut l = draw(s, &texts, FULL);
    if let Some(Atom::Ws(nl, raw)) = l[0].first_mut() {
        *nl = 0;
        raw.clear();
    }
    let last = l.last_mut().unwrap();
    if !own_trailing {
        // Keep comments that begin next to the last lexeme
        let mut keep = 0;
        let mut newline = false;
        for (i, a) in last.iter().enumerate() {
            match a {
                Atom::Ws(nl, _) => newline |= *nl > 0,
                Atom::Comment(_) if newline => break,
                Atom::Comment(t) => {
                    keep = i + 1;
                    newline |= t.contains('\n');
                }
            }
        }
        last.truncate(keep);
    } else {
        while matches!(last.last(), Some(Atom::Ws(..))) {
            last.pop();
        }
    }
    render(&texts, &l).source
}

/// Indent lines of formatted code, except for insides of lexemes
fn indent(text: &str) -> Option<String> {
    let mut inside = std::collections::HashSet::new();
    for l in lex(text).ok()? {
        for line in l.line + 1..=l.eline {
            inside.insert(line);
        }
    }
    let lines: Vec<String> = text
        .split('\n')
        .enumerate()
        .map(|(i, l)| {
            if l.is_empty() || inside.contains(&(i + 1)) {
                l.to_string()
            } else {
                format!("  {l}")
            }
        })
        .collect();
    Some(lines.join("\n"))
}

/// C22
pub fn compositional(case: &Case) -> Outcome {
    compose(case, false)
}

/// C22: thousands of parts
pub fn compositional_long(case: &Case) -> Outcome {
    compose(case, true)
}

/// Lexemes of a long file
fn long_length(s: &mut Src) -> usize {
    const MOST: [usize; 6] = [4_000, 9_000, 17_000, 34_000, 70_000, 140_000];
    let most = MOST[s.below(6)];
    most + s.below(most / 2)
}

/// A valid source of many lexemes
pub fn long_source(case: &Case) -> String {
    let mut s = case.alt();
    let n = 1 + s.below(4);
    let (mut syn, mut lay) = (case.syn(), case.lay());
    let chunks: Vec<(usize, String)> = (0..n)
        .map(|_| {
            let doc = generate_chunk(&mut syn, Chunk::Class, 300);
            (doc.toks.len(), chunk_source(&mut lay, &doc, true))
        })
        .collect();
    let most = long_length(&mut s);
    let mut out = String::new();
    let mut left = most;
    for i in (0..n).cycle() {
        out += &chunks[i].1;
        out += ["\n", "\n\n"][s.below(2)];
        if left < chunks[i].0 {
            return out;
        }
        left -= chunks[i].0;
    }
    out
}

fn compose(case: &Case, long: bool) -> Outcome {
    let mut s = case.alt();
    let (what, frames): (Chunk, &[(&str, &str)]) = match s.below(4) {
        0 => (Chunk::Class, &[("", "")]),
        1 => (
            Chunk::Element,
            &[
                ("model M\n\n", "\n\nend M;"),
                (
                    "model M\n\n  Real x;\n\npublic\n\n",
                    "\n\nequation\n\n  x = y;\n\nend M;",
                ),
            ],
        ),
        2 => (
            Chunk::Equation,
            &[
                ("model M\n\nequation\n\n", "\n\nend M;"),
                (
                    "model M\n\ninitial equation\n\n",
                    "\n\nalgorithm\n\n  x := y;\n\nend M;",
                ),
            ],
        ),
        _ => (
            Chunk::Statement,
            &[
                ("model M\n\nalgorithm\n\n", "\n\nend M;"),
                (
                    "function F\n\ninitial algorithm\n\n",
                    "\n\n  annotation ();\n\nend F;",
                ),
            ],
        ),
    };
    let frame = frames[0];
    let top = what == Chunk::Class;
    let nested = s.chance(6, 16);
    let n = 2 + s.below(3);
    let mut syn = case.syn();
    let mut lay = case.lay();
    let mut sources = Vec::new();
    let mut outs = Vec::new();
    let mut lexemes = 0;
    let most = if long { 200 } else { MAX_TOKENS / n };
    for i in 0..n {
        let doc = generate_chunk(&mut syn, what, most);
        lexemes += doc.toks.len();
        let last = i + 1 == n;
        let src = chunk_source(&mut lay, &doc, top && !(last && nested));
        // Class: comments of the first line would be taken for those that
        // trail code
        let alone = if top {
            format!("\n{src}\n")
        } else {
            format!("{}{src}{}", frame.0, frame.1)
        };
        let out = attempt!(ok(&alone));
        let body = out
            .strip_prefix(frame.0)
            .and_then(|t| t.strip_suffix(frame.1));
        let Some(body) = body else {
            return Outcome::fail(
                &alone,
                format!("code around of the chunk is changed\n--- formatted text:\n{out}\n---"),
            );
        };
        outs.push(body.to_string());
        sources.push(src);
    }
    let mut all_src = String::new();
    let mut all_out = String::new();
    let times = if long {
        1 + long_length(&mut s) / lexemes
    } else {
        1
    };
    // The last one might have no comments behind it
    let order = (0..times).flat_map(|t| (0..n).filter(move |i| t + 1 == times || i + 1 < n));
    for (k, i) in order.enumerate() {
        if k > 0 {
            let blank = s.below(3);
            all_src += ["\n", "\n\n", "\n \n\n\t"][blank];
            all_out += ["\n", "\n\n", "\n\n"][blank];
        }
        all_src += &sources[i];
        all_out += &outs[i];
    }
    let (source, want) = if nested {
        let Some(all_out) = indent(&all_out) else {
            return Outcome::Discard("output is not lexically valid");
        };
        match what {
            Chunk::Class | Chunk::Element => {
                let (head, tail) = if top { ("", "") } else { frame };
                (
                    format!("package P\n{head}{all_src}{tail}\nend P;"),
                    format!(
                        "package P\n\n{}{all_out}{}\n\nend P;",
                        indent(head).unwrap(),
                        indent(tail).unwrap()
                    ),
                )
            }
            _ => {
                let (a, b) = [
                    ("for i in x loop", "end for;"),
                    ("if x then", "end if;"),
                    ("when x then", "end when;"),
                ][s.below(3)];
                (
                    format!("{}{a}\n{all_src}\n{b}{}", frame.0, frame.1),
                    format!("{}  {a}\n{all_out}\n  {b}{}", frame.0, frame.1),
                )
            }
        }
    } else {
        let f = frames[s.below(frames.len())];
        let lead = if top { "\n" } else { "" };
        (
            format!("{lead}{}{all_src}{}", f.0, f.1),
            format!("{}{all_out}{}", f.0, f.1),
        )
    };
    let got = match format(&source) {
        Fmt::Ok(s) => s,
        Fmt::Panic(e) => return Outcome::fail(&source, format!("panicked: {e}")),
        Fmt::Errors(e) => {
            return Outcome::fail(
                &source,
                format!(
                    "rejected, though its parts separately are accepted:\n{}",
                    e.join("\n")
                ),
            )
        }
    };
    if got != want {
        return Outcome::fail(
            &source,
            format!("--- formatted as:\n{got}\n--- but its parts separately as:\n{want}\n---"),
        );
    }
    Outcome::Pass(Info {
        nontrivial: source.len() > 60,
        source,
        classes: vec![
            match what {
                Chunk::Class => "classes",
                Chunk::Element => "elements",
                Chunk::Equation => "equations",
                Chunk::Statement => "statements",
            },
            if nested { "nested" } else { "concatenated" },
        ],
        checks: n as u64,
    })
}
