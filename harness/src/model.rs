//! Reference model of the code style: what the formatted text has to be

use crate::gen::{Blank, Doc, Gap, Item};
use crate::layout::Rendered;
use mofmt::SyntaxKind;

#[derive(Clone, Debug, PartialEq)]
pub enum Sep {
    /// Beginning of the output
    None,
    Glue,
    Sp,
    Break {
        blank: bool,
        indent: usize,
    },
}

impl Sep {
    pub fn text(&self) -> String {
        match self {
            Sep::None | Sep::Glue => String::new(),
            Sep::Sp => " ".to_string(),
            Sep::Break { blank, indent } => {
                format!(
                    "{}{}",
                    if *blank { "\n\n" } else { "\n" },
                    "  ".repeat(*indent)
                )
            }
        }
    }
}

#[derive(Clone, Debug)]
pub struct Piece {
    pub sep: Sep,
    pub text: String,
    pub comment: bool,
}

/// Expected contents of the gap before a lexeme
#[derive(Clone, Debug)]
pub struct GapOut {
    /// Comments with separators before them
    pub comments: Vec<(Sep, String)>,
    /// Separator before the lexeme itself
    pub sep: Sep,
    /// The rule
    pub rule: Gap,
    pub wrapped: bool,
}

#[derive(Clone, Debug)]
pub struct Expected {
    /// One for each lexeme, and one for what follows the last lexeme
    pub gaps: Vec<GapOut>,
}

impl Expected {
    pub fn text(&self, texts: &[&str]) -> String {
        let mut out = String::new();
        for (i, g) in self.gaps.iter().enumerate() {
            for (sep, c) in &g.comments {
                out += &sep.text();
                out += c;
            }
            if let Some(t) = texts.get(i) {
                out += &g.sep.text();
                out += t;
            }
        }
        out
    }
}

/// Is the list wrapped: is it spread over several lines in the source, or does
/// any of its items contain something that always begins a line?
pub fn wrapped_groups(doc: &Doc, r: &Rendered) -> Vec<bool> {
    doc.groups
        .iter()
        .map(|&(a, b)| {
            if a >= doc.toks.len() || b < a {
                return false;
            }
            r.lines[a].0 < r.lines[b].1
                || doc.toks[a + 1..=b]
                    .iter()
                    .any(|t| matches!(t.gap, Gap::Line(_)))
        })
        .collect()
}

pub fn expected(doc: &Doc, r: &Rendered) -> Expected {
    let groups = wrapped_groups(doc, r);
    let stored = doc.root == SyntaxKind::StoredDefinition;
    let mut indent = 0;
    let mut at_gap = None;
    let mut scopes: Vec<bool> = vec![false];
    let mut gaps: Vec<GapOut> = Vec::new();
    let mut is_empty = true;
    for item in &doc.items {
        match *item {
            Item::Gap => at_gap = Some(indent),
            Item::Indent => indent += 1,
            Item::Dedent => indent -= 1,
            Item::ScopeIn => scopes.push(false),
            Item::ScopeOut => {
                if scopes.pop().unwrap() {
                    indent -= 1;
                }
            }
            Item::Enter(_) | Item::Exit => (),
            Item::Tok(i) => {
                let rule = doc.toks[i].gap;
                let prev_end = if i == 0 { 1 } else { r.lines[i - 1].1 };
                let wrap = match rule {
                    Gap::Glue | Gap::Sp => None,
                    Gap::Line(b) => Some(b),
                    Gap::Grp(g, _) => groups[g].then_some(Blank::Illegal),
                    Gap::Bin => (r.lines[i + 1].0 > prev_end).then_some(Blank::Illegal),
                };
                if rule == Gap::Bin && wrap.is_some() {
                    let scope = scopes.last_mut().unwrap();
                    if !*scope {
                        *scope = true;
                        indent += 1;
                    }
                }
                let indent = match rule {
                    Gap::Bin => indent,
                    _ => at_gap.unwrap_or(indent),
                };
                at_gap = None;
                let gap = match wrap {
                    Some(blank) if i > 0 || stored => break_before(
                        r,
                        i,
                        prev_end,
                        Some((r.lines[i].0, blank)),
                        indent,
                        &mut is_empty,
                    ),
                    _ => (
                        Vec::new(),
                        match rule {
                            _ if i == 0 => Sep::None,
                            Gap::Sp | Gap::Grp(_, true) | Gap::Bin => Sep::Sp,
                            _ => Sep::Glue,
                        },
                    ),
                };
                is_empty = false;
                gaps.push(GapOut {
                    comments: gap.0,
                    sep: gap.1,
                    rule,
                    wrapped: wrap.is_some(),
                });
            }
        }
    }
    let n = doc.toks.len();
    let prev_end = if n == 0 { 1 } else { r.lines[n - 1].1 };
    let trailing = if stored {
        break_before(r, n, prev_end, None, 0, &mut is_empty).0
    } else {
        Vec::new()
    };
    gaps.push(GapOut {
        comments: trailing,
        sep: Sep::None,
        rule: Gap::Line(Blank::Legal),
        wrapped: stored,
    });
    Expected { gaps }
}

/// Separators and comments of a wrapped gap
fn break_before(
    r: &Rendered,
    i: usize,
    prev_end: usize,
    tok: Option<(usize, Blank)>,
    indent: usize,
    is_empty: &mut bool,
) -> (Vec<(Sep, String)>, Sep) {
    let mut out = Vec::new();
    let mut line = prev_end;
    let wrap = |blank: bool, is_empty: &mut bool| {
        if std::mem::replace(is_empty, false) {
            Sep::None
        } else {
            Sep::Break { blank, indent }
        }
    };
    let (inline, own): (Vec<_>, Vec<_>) = r.comments[i].iter().partition(|c| c.start == prev_end);
    for c in inline {
        let sep = if std::mem::replace(is_empty, false) {
            Sep::None
        } else {
            Sep::Sp
        };
        out.push((sep, c.text.clone()));
        line = c.end;
    }
    let required = matches!(tok, Some((_, Blank::Required)));
    let mut first = true;
    for c in own {
        let blank = c.start - line > 1 || (first && required);
        out.push((wrap(blank, is_empty), c.text.clone()));
        line = c.end;
        first = false;
    }
    let sep = match tok {
        None => Sep::None,
        Some((start, rule)) => {
            let blank = match rule {
                Blank::Illegal => false,
                Blank::Legal => start - line > 1,
                Blank::Required => start - line > 1 || first,
            };
            wrap(blank, is_empty)
        }
    };
    (out, sep)
}
