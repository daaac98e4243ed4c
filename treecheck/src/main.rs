//! C16: the syntax tree against the derivation. Needs the hook of the crate
//! under test (feature `verif`).

use harness::driver::{Check, Phase};
use harness::engine::{panic_text, Case, Info, Outcome};
use harness::gen::{generate, Doc, Item, ROOTS};
use harness::layout::{layout_doc, Opts, Rendered, FULL};
use harness::style::{choices, program, Size};
use mofmt::verif::{Child, Tree};
use mofmt::SyntaxKind;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

#[derive(Debug)]
enum Want {
    Tok(usize),
    Node(SyntaxKind, Vec<Want>),
}

/// Derivation of the program, without empty constructs
fn derivation(doc: &Doc) -> Option<Want> {
    let mut stack: Vec<(SyntaxKind, Vec<Want>)> = Vec::new();
    let mut root = None;
    for item in &doc.items {
        match item {
            Item::Enter(k) => stack.push((*k, Vec::new())),
            Item::Tok(i) => stack.last_mut()?.1.push(Want::Tok(*i)),
            Item::Exit => {
                let (k, children) = stack.pop()?;
                match stack.last_mut() {
                    Some(parent) => {
                        if !children.is_empty() {
                            parent.1.push(Want::Node(k, children));
                        }
                    }
                    None => root = Some(Want::Node(k, children)),
                }
            }
            _ => (),
        }
    }
    root
}

fn first(w: &Want) -> usize {
    match w {
        Want::Tok(i) => *i,
        Want::Node(_, c) => first(&c[0]),
    }
}

fn last(w: &Want) -> usize {
    match w {
        Want::Tok(i) => *i,
        Want::Node(_, c) => last(&c[c.len() - 1]),
    }
}

fn has(children: &[Want], kind: SyntaxKind) -> bool {
    children.iter().any(|c| match c {
        Want::Node(k, inner) => *k == kind || has(inner, kind),
        _ => false,
    })
}

struct Cmp<'a> {
    doc: &'a Doc,
    r: &'a Rendered,
    kinds: Vec<SyntaxKind>,
    /// Numbers of lexemes, with comments counted
    numbers: Vec<usize>,
    checks: u64,
}

impl Cmp<'_> {
    fn show(&self, c: &Want) -> String {
        match c {
            Want::Tok(i) => format!("{:?}", self.doc.toks[*i].text),
            Want::Node(k, _) => format!("{k:?}"),
        }
    }

    fn node(
        &mut self,
        got: &Tree,
        kind: SyntaxKind,
        want: &[Want],
        depth: usize,
    ) -> Result<(), String> {
        if got.kind != kind {
            return Err(format!("{:?} instead of {kind:?}", got.kind));
        }
        let here = |what: String| format!("in {kind:?}: {what}");
        if got.children.len() != want.len() {
            let a: Vec<String> = got
                .children
                .iter()
                .map(|c| match c {
                    Child::Token(t) => format!("{:?}", t.text),
                    Child::Tree(t) => format!("{:?}", t.kind),
                })
                .collect();
            let b: Vec<String> = want.iter().map(|w| self.show(w)).collect();
            return Err(here(format!(
                "children [{}] instead of [{}]",
                a.join(", "),
                b.join(", ")
            )));
        }
        for (g, w) in got.children.iter().zip(want) {
            self.checks += 1;
            match (g, w) {
                (Child::Token(t), Want::Tok(i)) => {
                    if t.text != self.doc.toks[*i].text {
                        return Err(here(format!(
                            "{:?} instead of {:?}",
                            t.text, self.doc.toks[*i].text
                        )));
                    }
                    if (t.start.line, t.end.line) != self.r.lines[*i] {
                        return Err(here(format!("lexeme {:?} is on another line", t.text)));
                    }
                }
                (Child::Tree(t), Want::Node(k, c)) => {
                    self.node(t, *k, c, depth + 1).map_err(|e| {
                        if depth < 3 || e.len() < 300 {
                            here(e)
                        } else {
                            e
                        }
                    })?
                }
                (Child::Token(t), w) => {
                    return Err(here(format!("{:?} instead of {}", t.text, self.show(w))))
                }
                (Child::Tree(t), w) => {
                    return Err(here(format!("{:?} instead of {}", t.kind, self.show(w))))
                }
            }
        }
        if got.len() != want.len() {
            return Err(here(format!("reported length is {}", got.len())));
        }
        if want.is_empty() {
            return Ok(());
        }
        let (a, b) = (first(&want[0]), last(&want[want.len() - 1]));
        // Texts may repeat, so compare what is unique: the order of lexemes
        let (s, e) = (got.start(), got.end());
        let (wa, wb) = (self.numbers[a], self.numbers[b]);
        if s.idx != wa || s.text != self.doc.toks[a].text {
            return Err(here(format!(
                "first lexeme is said to be {:?} (number {}), not {:?} (number {wa})",
                s.text, s.idx, self.doc.toks[a].text
            )));
        }
        if e.idx != wb || e.text != self.doc.toks[b].text {
            return Err(here(format!(
                "last lexeme is said to be {:?} (number {}), not {:?} (number {wb})",
                e.text, e.idx, self.doc.toks[b].text
            )));
        }
        let multi = self.r.lines[a].0 < self.r.lines[b].1;
        if got.is_multiline() != multi {
            return Err(here(format!(
                "is {}said to be multi-line, from line {} to {}",
                if multi { "not " } else { "" },
                self.r.lines[a].0,
                self.r.lines[b].1
            )));
        }
        // Quadratic: for small or shallow nodes only
        if b - a < 60 || depth < 3 {
            for i in 0..self.kinds.len() {
                let k = self.kinds[i];
                self.checks += 1;
                if got.contains(k) != has(want, k) {
                    return Err(here(format!(
                        "containment of {k:?} is wrong: {}",
                        got.contains(k)
                    )));
                }
            }
        }
        Ok(())
    }
}

fn mirrors(case: &Case, size: Size) -> Outcome {
    let mut alt = case.alt();
    let root = if size == Size::Usual && alt.chance(8, 16) {
        ROOTS[alt.below(ROOTS.len())]
    } else {
        SyntaxKind::StoredDefinition
    };
    let doc = match size {
        Size::Usual => generate(&mut case.syn(), root, 600),
        Size::VeryLong => program(case, size),
    };
    if doc.toks.is_empty() {
        return Outcome::Discard("empty fragment");
    }
    let (_, r) = layout_doc(
        &mut choices(&case.lay, size),
        &doc,
        if alt.chance(4, 16) {
            Opts {
                comments: false,
                newlines: alt.chance(8, 16),
                crlf: true,
            }
        } else {
            FULL
        },
    );
    let want = derivation(&doc).expect("derivation");
    let Want::Node(kind, children) = &want else {
        unreachable!()
    };
    let mut kinds: Vec<SyntaxKind> = Vec::new();
    // The ones the formatter asks for, and some of those that are there
    for k in [
        SyntaxKind::DescriptionString,
        SyntaxKind::Description,
        SyntaxKind::ConstrainingClause,
        ROOTS[alt.below(ROOTS.len())],
        ROOTS[alt.below(ROOTS.len())],
        ROOTS[alt.below(ROOTS.len())],
    ] {
        if !kinds.contains(&k) {
            kinds.push(k);
        }
    }
    let mut comments = 0;
    let numbers = (0..doc.toks.len())
        .map(|i| {
            comments += r.comments[i].len();
            i + comments
        })
        .collect();
    let mut cmp = Cmp {
        doc: &doc,
        r: &r,
        kinds,
        numbers,
        checks: 0,
    };
    harness::watch::input(&r.source);
    let result = catch_unwind(AssertUnwindSafe(|| {
        let parsed = mofmt::parse("f.mo", &r.source, root);
        if !parsed.errors.is_empty() {
            return None;
        }
        let tree = mofmt::build_tree(parsed.tokens, parsed.events);
        Some(cmp.node(&tree, *kind, children, 0))
    }));
    match result {
        Err(e) => Outcome::fail(
            &r.source,
            format!("{root:?}: panicked: {}", panic_text(&*e)),
        ),
        Ok(None) => Outcome::Discard("syntax errors reported"),
        Ok(Some(Err(e))) => Outcome::fail(&r.source, format!("{root:?}: {e}")),
        Ok(Some(Ok(()))) => {
            let mut classes = vec![harness::entry::root_name(root)];
            if doc.toks.len() > 100 {
                classes.push("over 100 lexemes");
            }
            Outcome::Pass(Info {
                nontrivial: doc.toks.len() >= 5,
                source: format!("{root:?}: {}", r.source),
                classes,
                checks: cmp.checks,
            })
        }
    }
}

fn make(id: &str) -> Option<Check> {
    (id == "C16").then(|| Check {
        id: "C16",
        rule: "programs and fragments of 90 grammar rules are derived together with their derivation trees; kinds, nesting, lexemes, and the reported first and last lexeme, length, containment and spread over lines of every node of the syntax tree are compared with the derivation; non-trivial: at least five lexemes",
        assumptions: vec!["the derivations of the annotated generator (harness/src/gen.rs) are those of the supported grammar; they have no ambiguity left but the one noted in DESIGN.md"],
        phases: vec![
            Phase::new("derivations", Arc::new(|c| mirrors(c, Size::Usual)), 480_000),
            Phase::new("very long programs", Arc::new(|c| mirrors(c, Size::VeryLong)), 48).sizes(20_000, 20_000, 600),
        ],
        fixed: None,
        cleanup: None,
    })
}

fn main() {
    std::process::exit(harness::driver::main(&make));
}
