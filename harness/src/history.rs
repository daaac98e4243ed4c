//! C26: results do not depend on what was parsed and formatted before

use crate::accept::{any_name, mutate};
use crate::checks::WHOLE;
use crate::engine::{panic_text, Case, Info, Outcome};
use crate::gen::{generate, ROOTS};
use crate::layout::{draw, render, FULL};
use crate::src::Src;
use mofmt::SyntaxKind;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Everything that can be observed
#[derive(Clone, Debug, PartialEq)]
struct Result {
    tokens: Vec<String>,
    errors: Vec<String>,
    text: Option<String>,
}

#[derive(Clone, Debug)]
struct Op {
    name: String,
    source: String,
    entry: SyntaxKind,
    /// Formatted too? Otherwise only parsed
    print: bool,
}

fn perform(op: &Op) -> std::result::Result<Result, String> {
    crate::watch::input(&op.source);
    catch_unwind(AssertUnwindSafe(|| {
        let p = mofmt::parse(&op.name, &op.source, op.entry);
        let tokens = p
            .tokens
            .iter()
            .chain(&p.comments)
            .map(|t| {
                format!(
                    "{} {:?} {:?} {}:{}-{}:{}",
                    t.idx, t.kind, t.text, t.start.line, t.start.col, t.end.line, t.end.col
                )
            })
            .collect();
        let errors = p.errors.clone();
        let text = (op.print && errors.is_empty())
            .then(|| mofmt::pretty_print(p.tokens, p.comments, p.events));
        Result {
            tokens,
            errors,
            text,
        }
    }))
    .map_err(|e| panic_text(&*e))
}

fn draw_op(k: &mut Src, case: &Case, n: usize) -> Op {
    fn from(v: &[u32], n: usize) -> Src<'_> {
        Src::new(if v.is_empty() {
            v
        } else {
            &v[n * 131 % v.len()..]
        })
    }
    let (mut s, mut lay) = (from(&case.syn, n), from(&case.lay, n));
    let entry = match k.below(4) {
        0 => *k.pick(&ROOTS),
        _ => WHOLE,
    };
    let mut toks: Vec<_> = generate(&mut s, entry, *k.pick(&[60, 15, 200]))
        .toks
        .into_iter()
        .map(|t| (t.kind, t.text))
        .collect();
    if k.chance(5, 16) {
        mutate(k, &mut toks);
    }
    let texts: Vec<&str> = toks.iter().map(|t| t.1.as_str()).collect();
    let mut source = render(&texts, &draw(&mut lay, &texts, FULL)).source;
    match k.below(16) {
        0 => source += "\"",
        1 => source += "/*",
        2 => source.insert(0, '$'),
        _ => (),
    }
    Op {
        name: match k.below(6) {
            0 => any_name(k),
            n => ["f.mo", "g.mo", "d/h.mo", "f.mo", "F.mo"][n - 1].to_string(),
        },
        source,
        entry,
        print: k.chance(12, 16),
    }
}

/// C26
pub fn no_memory(case: &Case) -> Outcome {
    let mut k = case.alt();
    let n = 2 + k.below(4);
    let ops: Vec<Op> = (0..n).map(|i| draw_op(&mut k, case, i)).collect();
    // A history of the operations, in which each occurs at least twice
    let mut history: Vec<usize> = (0..n).chain((0..n).rev()).collect();
    for _ in 0..k.below(5) {
        history.push(k.below(n));
    }
    let mut known: Vec<Option<Result>> = vec![None; n];
    let describe = || {
        let mut t = format!("history {history:?} of\n");
        for (i, o) in ops.iter().enumerate() {
            t += &format!(
                "{i}: {:?} as {:?}, print: {}\n{}\n",
                o.name, o.entry, o.print, o.source
            );
        }
        t
    };
    for (step, &i) in history.iter().enumerate() {
        let got = match perform(&ops[i]) {
            Ok(r) => r,
            // C14
            Err(_) => return Outcome::Discard("panicked"),
        };
        match &known[i] {
            None => known[i] = Some(got),
            Some(r) if *r == got => (),
            Some(r) => {
                return Outcome::fail(
                    &describe(),
                    format!("step {step} (operation {i}) has another result:\n{got:#?}\n--- than before:\n{r:#?}"),
                )
            }
        }
    }
    // The operations in a thread of its own
    if k.chance(2, 16) {
        let fresh = std::thread::scope(|s| {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, || ops.iter().rev().map(perform).collect::<Vec<_>>())
                .expect("thread")
                .join()
                .expect("no panic")
        });
        for (i, r) in fresh.into_iter().rev().enumerate() {
            if r.as_ref().ok() != known[i].as_ref() {
                return Outcome::fail(
                    &describe(),
                    format!("operation {i} has another result in another thread:\n{r:#?}\n--- than:\n{:#?}", known[i]),
                );
            }
        }
    }
    let valid = known
        .iter()
        .flatten()
        .filter(|r| r.errors.is_empty())
        .count();
    let mut classes = Vec::new();
    if valid > 0 && valid < n {
        classes.push("valid and invalid sources");
    }
    if ops.iter().any(|o| o.entry != WHOLE) {
        classes.push("fragments");
    }
    Outcome::Pass(Info {
        nontrivial: valid > 0 && ops.iter().map(|o| o.source.len()).sum::<usize>() > 100,
        source: describe(),
        classes,
        checks: history.len() as u64,
    })
}
