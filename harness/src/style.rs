//! Checks of single formatted programs: C01-C03, C05-C10

use crate::engine::{Case, Info, Outcome};
use crate::gen::{generate, generate_long, Blank, Doc, Gap};
use crate::layout::{layout_doc, Rendered, FULL};
use crate::lexis::{lex, K};
use crate::model::{expected, Expected, Sep};
use crate::src::Src;
use crate::sut::{format, Fmt};
use mofmt::SyntaxKind;

/// Generated program with its layout and formatted text
pub struct Run {
    pub doc: Doc,
    pub r: Rendered,
    pub out: String,
}

pub const MAX_TOKENS: usize = 4000;

#[derive(Clone, Copy, PartialEq)]
pub enum Size {
    Usual,
    /// More lexemes and lines than 16 bits can count
    VeryLong,
}

/// Generate a program
pub fn program(case: &Case, size: Size) -> Doc {
    let root = SyntaxKind::StoredDefinition;
    if size == Size::Usual {
        return generate(&mut case.syn(), root, MAX_TOKENS);
    }
    let least = 66_000 + case.alt().below(80_000);
    generate_long(
        &mut Src::endless(&case.syn),
        root,
        least,
        least + MAX_TOKENS,
    )
}

/// Where the layout comes from
pub fn choices(v: &[u32], size: Size) -> Src<'_> {
    match size {
        Size::Usual => Src::new(v),
        Size::VeryLong => Src::endless(v),
    }
}

/// Generate a program and format it
pub fn run(case: &Case, size: Size) -> Result<Run, Outcome> {
    let doc = program(case, size);
    let (_, r) = layout_doc(&mut choices(&case.lay, size), &doc, FULL);
    match format(&r.source) {
        Fmt::Ok(out) => Ok(Run { doc, r, out }),
        // C11 is about these
        Fmt::Errors(_) => Err(Outcome::Discard("syntax errors reported")),
        Fmt::Panic(e) => Err(Outcome::fail(&r.source, format!("panicked: {e}"))),
    }
}

pub fn classes(run: &Run, exp: &Expected) -> Vec<&'static str> {
    let mut out = Vec::new();
    let texts = run.doc.texts();
    let has = |w: &str| texts.contains(&w);
    for (w, name) in [
        ("within", "within"),
        ("external", "external"),
        ("enumeration", "enumeration"),
        ("connect", "connect"),
        ("annotation", "annotation"),
        ("constrainedby", "constrainedby"),
        ("import", "import"),
        ("when", "when"),
        ("for", "for"),
        ("while", "while"),
        ("if", "if"),
        ("equation", "equation section"),
        ("algorithm", "algorithm section"),
        ("redeclare", "redeclare"),
        ("[", "brackets"),
        ("{", "array"),
        ("+", "plus"),
    ] {
        if has(w) {
            out.push(name);
        }
    }
    if run.r.comments.iter().any(|c| !c.is_empty()) {
        out.push("comments");
    }
    if exp.gaps.iter().any(|g| !g.comments.is_empty()) {
        out.push("kept comments");
    }
    if run.r.source.contains("\r\n") {
        out.push("CRLF");
    }
    if exp
        .gaps
        .iter()
        .any(|g| g.wrapped && matches!(g.rule, Gap::Grp(..)))
    {
        out.push("wrapped list");
    }
    if exp.gaps.iter().any(|g| g.wrapped && g.rule == Gap::Bin) {
        out.push("wrapped operator");
    }
    if texts.len() > 100 {
        out.push("over 100 lexemes");
    }
    out
}

/// Formatted text split in gaps: comments and separators before each lexeme
pub struct ActualGap {
    pub comments: Vec<(String, String)>,
    pub sep: String,
}

impl ActualGap {
    pub fn has_newline(&self) -> bool {
        self.sep.contains('\n')
            || self
                .comments
                .iter()
                .any(|(s, t)| s.contains('\n') || t.contains('\n'))
    }

    /// Is the lexeme the first thing on its line?
    pub fn starts_line(&self) -> bool {
        self.sep.contains('\n')
    }

    /// The gap as text
    pub fn text(&self) -> String {
        let mut out = String::new();
        for (s, t) in &self.comments {
            out += s;
            out += t;
        }
        out + &self.sep
    }
}

/// Split the output; `None` if its lexemes are not those expected
pub fn split(out: &str, texts: &[&str]) -> Option<Vec<ActualGap>> {
    let lexemes = lex(out).ok()?;
    let mut gaps = Vec::new();
    let mut comments = Vec::new();
    let mut pos = 0;
    let mut n = 0;
    for l in lexemes {
        let sep = out[pos..l.start].to_string();
        pos = l.end;
        if l.kind.is_comment() {
            comments.push((sep, l.text));
        } else {
            if texts.get(n) != Some(&l.text.as_str()) {
                return None;
            }
            n += 1;
            gaps.push(ActualGap {
                comments: std::mem::take(&mut comments),
                sep,
            });
        }
    }
    if n != texts.len() {
        return None;
    }
    gaps.push(ActualGap {
        comments,
        sep: out[pos..].to_string(),
    });
    Some(gaps)
}

fn pass(run: &Run, exp: &Expected, nontrivial: bool, checks: u64) -> Outcome {
    Outcome::Pass(Info {
        nontrivial,
        source: run.r.source.clone(),
        classes: classes(run, exp),
        checks,
    })
}

fn show(run: &Run) -> String {
    format!("--- formatted text:\n{}\n---", run.out)
}

/// C01
pub fn code_preserved(case: &Case, size: Size) -> Outcome {
    let run = match run(case, size) {
        Ok(r) => r,
        Err(o) => return o,
    };
    let want = run.doc.texts();
    let got = match lex(&run.out) {
        Ok(l) => l,
        Err(e) => {
            return Outcome::fail(
                &run.r.source,
                format!(
                    "output is not lexically valid at byte {}\n{}",
                    e.at,
                    show(&run)
                ),
            )
        }
    };
    let got: Vec<&str> = got
        .iter()
        .filter(|l| !l.kind.is_comment())
        .map(|l| l.text.as_str())
        .collect();
    if got != want {
        let i = got.iter().zip(&want).take_while(|(a, b)| a == b).count();
        return Outcome::fail(
            &run.r.source,
            format!(
                "lexeme {i}: source has {:?}, output has {:?}\n{}",
                want.get(i),
                got.get(i),
                show(&run)
            ),
        );
    }
    let exp = expected(&run.doc, &run.r);
    pass(&run, &exp, want.len() >= 12, want.len() as u64)
}

/// C02
pub fn comments_kept(case: &Case, size: Size) -> Outcome {
    let run = match run(case, size) {
        Ok(r) => r,
        Err(o) => return o,
    };
    let exp = expected(&run.doc, &run.r);
    let Some(act) = split(&run.out, &run.doc.texts()) else {
        return Outcome::Discard("code not preserved");
    };
    let mut n = 0;
    for (i, (e, a)) in exp.gaps.iter().zip(&act).enumerate() {
        let before = || {
            format!(
                "before lexeme {i} ({})\n{}",
                run.doc.toks.get(i).map_or("end of file", |t| &t.text),
                show(&run)
            )
        };
        let got: Vec<&str> = a.comments.iter().map(|c| c.1.as_str()).collect();
        if !e.wrapped {
            // May be discarded, must not be displaced
            let mut rest = run.r.comments[i].iter().map(|c| c.text.as_str());
            if !got.iter().all(|g| rest.any(|c| c == *g)) {
                return Outcome::fail(
                    &run.r.source,
                    format!("comments {got:?} do not belong {}", before()),
                );
            }
            continue;
        }
        let want: Vec<&str> = run.r.comments[i].iter().map(|c| c.text.as_str()).collect();
        if got != want {
            return Outcome::fail(
                &run.r.source,
                format!("comments {got:?} instead of {want:?} {}", before()),
            );
        }
        n += want.len() as u64;
        for ((es, t), (s, _)) in e.comments.iter().zip(&a.comments) {
            let trails = matches!(es, Sep::Sp);
            if trails == s.contains('\n') && *es != Sep::None {
                return Outcome::fail(
                    &run.r.source,
                    format!(
                        "comment {t:?} {} {}",
                        if trails {
                            "does not trail the code any more"
                        } else {
                            "is not on a line of its own any more"
                        },
                        before()
                    ),
                );
            }
        }
        // Code must not be put behind a comment that was on its own line
        if let (Some((es, t)), Some(_)) = (e.comments.last(), run.doc.toks.get(i)) {
            if !a.sep.contains('\n') {
                return Outcome::fail(
                    &run.r.source,
                    format!("no line break after comment {t:?} ({es:?}) {}", before()),
                );
            }
        }
    }
    pass(&run, &exp, n >= 2, n)
}

/// C03
pub fn idempotent(case: &Case, size: Size) -> Outcome {
    let run = match run(case, size) {
        Ok(r) => r,
        Err(o) => return o,
    };
    let once = format!("{}\n", run.out);
    let again = match format(&once) {
        Fmt::Ok(s) => s,
        Fmt::Errors(e) => {
            return Outcome::fail(
                &run.r.source,
                format!("output is not accepted: {}\n{}", e.join("\n"), show(&run)),
            )
        }
        Fmt::Panic(e) => {
            return Outcome::fail(
                &run.r.source,
                format!("panicked on output: {e}\n{}", show(&run)),
            )
        }
    };
    if again != run.out {
        return Outcome::fail(
            &run.r.source,
            format!("{}\n--- formatted again:\n{again}\n---", show(&run)),
        );
    }
    let exp = expected(&run.doc, &run.r);
    let changed = once != run.r.source;
    pass(&run, &exp, changed && run.doc.toks.len() >= 12, 1)
}

#[derive(Clone, Copy, PartialEq)]
pub enum Aspect {
    Spacing,
    Indentation,
    Wraps,
    Blanks,
    Lists,
    Operators,
}

fn indentation(sep: &str) -> Option<&str> {
    sep.rfind('\n').map(|i| &sep[i + 1..])
}

fn blanks(sep: &str) -> usize {
    sep.matches('\n').count().saturating_sub(1)
}

/// C05-C10: compare one aspect of every gap with the reference model
pub fn style(case: &Case, aspect: Aspect, size: Size) -> Outcome {
    let run = match run(case, size) {
        Ok(r) => r,
        Err(o) => return o,
    };
    let exp = expected(&run.doc, &run.r);
    let Some(act) = split(&run.out, &run.doc.texts()) else {
        return Outcome::Discard("code not preserved");
    };
    let mut checks = 0;
    let mut interesting = 0;
    for (i, (e, a)) in exp.gaps.iter().zip(&act).enumerate() {
        let last = i == run.doc.toks.len();
        let bad = |what: String| {
            let t = |k: usize| run.doc.toks.get(k).map_or("<end of file>", |t| &t.text);
            let p = if i == 0 { "<beginning>" } else { t(i - 1) };
            Outcome::fail(
                &run.r.source,
                format!(
                    "{what}\nbetween {p:?} and {:?} (lexemes {} and {i}): {:?}\nrule {:?}\n{}",
                    t(i),
                    i as isize - 1,
                    a.text(),
                    e.rule,
                    show(&run)
                ),
            )
        };
        let same_comments = e.comments.len() == a.comments.len()
            && e.comments.iter().zip(&a.comments).all(|(x, y)| x.1 == y.1);
        // Separators of the gap: (expected, actual)
        let mut seps: Vec<(&Sep, &str)> = Vec::new();
        if same_comments {
            seps.extend(
                e.comments
                    .iter()
                    .zip(&a.comments)
                    .map(|(x, y)| (&x.0, y.0.as_str())),
            );
            if !last {
                seps.push((&e.sep, a.sep.as_str()));
            }
        }
        match aspect {
            Aspect::Spacing => {
                for (x, y) in &seps {
                    if y.contains('\n') || matches!(x, Sep::Break { .. }) {
                        continue;
                    }
                    checks += 1;
                    if matches!(e.rule, Gap::Sp | Gap::Grp(..) | Gap::Bin) {
                        interesting += 1;
                    }
                    if *y != x.text() {
                        return bad(format!("{y:?} instead of {:?}", x.text()));
                    }
                }
                // Nothing trails a line, wherever it is wrapped
                for sep in a.comments.iter().map(|c| &c.0).chain([&a.sep]) {
                    let head = sep.find('\n').map_or("", |n| &sep[..n]);
                    if !head.is_empty() {
                        return bad(format!("trailing whitespace {head:?}"));
                    }
                }
            }
            Aspect::Indentation => {
                for (x, y) in &seps {
                    let Sep::Break { indent, .. } = x else {
                        continue;
                    };
                    let Some(got) = indentation(y) else { continue };
                    checks += 1;
                    if *indent > 1 {
                        interesting += 1;
                    }
                    if got != "  ".repeat(*indent) {
                        return bad(format!(
                            "indentation {got:?} instead of {:?}",
                            "  ".repeat(*indent)
                        ));
                    }
                }
            }
            Aspect::Blanks => {
                if i == 0 && run.out.starts_with(['\n', '\r', ' ']) {
                    return bad("the output begins with whitespace".to_string());
                }
                if last && !a.sep.is_empty() {
                    return bad(format!("the output ends with whitespace {:?}", a.sep));
                }
                for (x, y) in &seps {
                    let want = match x {
                        Sep::Break { blank, .. } => *blank as usize,
                        _ => 0,
                    };
                    if !y.contains('\n') && matches!(x, Sep::Break { .. }) {
                        continue;
                    }
                    checks += 1;
                    interesting += want;
                    if blanks(y) != want {
                        return bad(format!("{} blank lines instead of {want}", blanks(y)));
                    }
                }
                for sep in a.comments.iter().map(|c| &c.0).chain([&a.sep]) {
                    if blanks(sep) > 1 {
                        return bad("consecutive blank lines".to_string());
                    }
                    // Blank lines are empty
                    let (a, b) = (sep.find('\n'), sep.rfind('\n'));
                    if let (Some(a), Some(b)) = (a, b) {
                        if sep[a..b].contains(|c| c != '\n') {
                            return bad(format!("whitespace on a blank line: {sep:?}"));
                        }
                    }
                }
            }
            Aspect::Wraps => {
                if i == 0 || last {
                    continue;
                }
                checks += 1;
                interesting += matches!(e.rule, Gap::Line(_)) as usize;
                if e.wrapped && !a.starts_line() {
                    return bad("not wrapped".to_string());
                }
                if !e.wrapped && a.has_newline() {
                    return bad("wrapped".to_string());
                }
            }
            Aspect::Lists | Aspect::Operators => {
                if last || i == 0 {
                    continue;
                }
                let mine = match e.rule {
                    Gap::Grp(..) => aspect == Aspect::Lists,
                    Gap::Bin => aspect == Aspect::Operators,
                    _ => false,
                };
                if !mine {
                    // Breaks inside of an expression are kept before binary
                    // operators only: what follows the operator is joined
                    if aspect == Aspect::Operators
                        && matches!(e.rule, Gap::Sp)
                        && run.doc.toks[i - 1].gap == Gap::Bin
                        && a.has_newline()
                    {
                        return bad("wrapped after a binary operator".to_string());
                    }
                    continue;
                }
                checks += 1;
                interesting += e.wrapped as usize;
                if e.wrapped != a.has_newline() || e.wrapped != a.starts_line() {
                    return bad(if e.wrapped { "not wrapped" } else { "wrapped" }.to_string());
                }
            }
        }
    }
    let enough = match aspect {
        Aspect::Lists | Aspect::Operators => 1,
        Aspect::Indentation => 2,
        _ => 4,
    };
    pass(&run, &exp, interesting >= enough, checks)
}

/// The complete expected text (used to validate the model itself)
pub fn exact(case: &Case, size: Size) -> Outcome {
    let run = match run(case, size) {
        Ok(r) => r,
        Err(o) => return o,
    };
    let exp = expected(&run.doc, &run.r);
    let want = exp.text(&run.doc.texts());
    if want != run.out {
        return Outcome::fail(
            &run.r.source,
            format!("{}\n--- expected:\n{want}\n---", show(&run)),
        );
    }
    pass(&run, &exp, true, 1)
}

#[allow(dead_code)]
fn unused(_: Blank, _: K) {}
