//! C17: every rule as an entry point

use crate::engine::{Case, Info, Outcome};
use crate::gen::{generate, Gap, ROOTS};
use crate::layout::{layout_doc, Opts};
use crate::lexis::lex;
use crate::model::{expected, wrapped_groups, Sep};
use crate::style::split;
use crate::sut::{format_as, Fmt};
use mofmt::SyntaxKind as S;

pub fn root_name(kind: mofmt::SyntaxKind) -> &'static str {
    use std::collections::HashMap;
    use std::sync::{Mutex, OnceLock};
    static NAMES: OnceLock<Mutex<HashMap<String, &'static str>>> = OnceLock::new();
    let mut names = NAMES.get_or_init(Default::default).lock().unwrap();
    let name = format!("{kind:?}");
    names
        .entry(name.clone())
        .or_insert_with(|| Box::leak(name.into_boxed_str()))
}

/// Lists that are wrapped or not by what contains them
const LISTS: [S; 8] = [
    S::EnumList,
    S::ArgumentList,
    S::ArgumentOrInheritanceModificationList,
    S::FunctionArguments,
    S::FunctionArgumentsNonFirst,
    S::ArrayArguments,
    S::ArrayArgumentsNonFirst,
    S::NamedArguments,
];

/// One or two ends of lines, and an indentation
fn is_break(sep: &str) -> bool {
    let t = sep.trim_end_matches(' ');
    t == "\n" || t == "\n\n"
}

pub fn entry_points(case: &Case) -> Outcome {
    let mut syn = case.syn();
    let mut alt = case.alt();
    let root = ROOTS[alt.below(ROOTS.len())];
    let doc = generate(&mut syn, root, 300);
    let multi = alt.chance(4, 16);
    let (_, r) = layout_doc(
        &mut case.lay(),
        &doc,
        Opts {
            comments: multi,
            newlines: multi,
            crlf: true,
        },
    );
    if doc.toks.is_empty() {
        return Outcome::Discard("empty fragment");
    }
    let fail = |detail: String| Outcome::fail(&r.source, format!("entry point {root:?}: {detail}"));
    let out = match format_as(&r.source, root) {
        Fmt::Ok(s) => s,
        Fmt::Errors(e) => return fail(format!("valid fragment is rejected: {}", e.join("\n"))),
        Fmt::Panic(e) => return fail(format!("panicked: {e}")),
    };
    let texts = doc.texts();
    let got: Vec<String> = match lex(&out) {
        Ok(l) => l
            .into_iter()
            .filter(|l| !l.kind.is_comment())
            .map(|l| l.text)
            .collect(),
        Err(e) => return fail(format!("output is not lexically valid at {}: {out}", e.at)),
    };
    if got != texts {
        return fail(format!("lexemes are not preserved: {out}"));
    }
    let gaps = split(&out, &texts).unwrap();
    let want = expected(&doc, &r).gaps;
    // Not told by the fragment: whether the list is a wrapped one
    let free = LISTS.contains(&root) && wrapped_groups(&doc, &r)[0];
    let first = &gaps[0];
    if doc.toks[0].gap == Gap::Glue && !(first.sep.is_empty() && first.comments.is_empty()) {
        return fail(format!("something at the beginning: {out}"));
    }
    let mut shift = None;
    let mut checks = 1;
    for (i, (g, w)) in gaps.iter().zip(&want).enumerate().skip(1) {
        checks += 1;
        let bad = |what: &str| {
            fail(format!(
                "{what} between {:?} and {:?}: {out}",
                texts[i - 1],
                texts.get(i).unwrap_or(&"the end")
            ))
        };
        let Some(rule) = doc.toks.get(i).map(|t| t.gap) else {
            if !g.sep.trim().is_empty() {
                return bad("unexpected text");
            }
            continue;
        };
        if free && matches!(rule, Gap::Grp(0, _)) {
            let flat = if rule == Gap::Grp(0, true) { " " } else { "" };
            if g.comments.is_empty() && g.sep != flat && !is_break(&g.sep) {
                return bad(&format!("{:?}", g.sep));
            }
            continue;
        }
        let have: Vec<&String> = g.comments.iter().map(|c| &c.1).collect();
        if w.wrapped && have != w.comments.iter().map(|c| &c.1).collect::<Vec<_>>() {
            return bad("changed comments");
        }
        if !w.wrapped && !have.is_empty() {
            if g.has_newline() {
                return bad("line break");
            }
            continue;
        }
        let seps = g.comments.iter().map(|c| &c.0).chain([&g.sep]);
        for (have, want) in seps.zip(w.comments.iter().map(|c| &c.0).chain([&w.sep])) {
            let Sep::Break { blank, indent } = want else {
                if *have != want.text() {
                    return bad(&format!("{have:?} instead of {:?}", want.text()));
                }
                continue;
            };
            if !is_break(have) || have.contains("\n\n") != *blank {
                let blank = if *blank {
                    "a blank line"
                } else {
                    "a line break"
                };
                return bad(&format!("{have:?} instead of {blank}"));
            }
            // Constructs are indented as parts of others, where the fragment
            // stands alone: by the same everywhere
            let by = have.trim_start_matches('\n').len() as isize - 2 * *indent as isize;
            if *shift.get_or_insert(by) != by {
                return bad(&format!("wrong indentation, {have:?},"));
            }
        }
    }
    Outcome::Pass(Info {
        nontrivial: texts.len() >= 3,
        source: format!("{root:?}: {}", r.source),
        classes: vec![root_name(root)],
        checks,
    })
}
