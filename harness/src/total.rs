//! C14: any text is handled

use crate::accept::{mutate, sentence};
use crate::alloc::measure;
use crate::cli::survives;
use crate::driver::Fixed;
use crate::engine::{panic_text, Case, Info, Outcome};
use crate::gen::ROOTS;
use crate::grammar::grammar;
use crate::layout::{draw, render, FULL};
use crate::src::Src;
use mofmt::SyntaxKind;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Duration;

fn characters(s: &mut Src) -> String {
    let n = s.below(200);
    (0..n)
        .map(|_| match s.below(6) {
            0 => char::from_u32(s.below(0x11_0000) as u32).unwrap_or('\u{fffd}'),
            1 => char::from_u32(s.below(0x500) as u32).unwrap_or(' '),
            2 => *s.pick(&[
                '\n', '\r', '\t', ' ', '\u{feff}', '\0', '\u{85}', '\u{2028}',
            ]),
            3 => *s.pick(&['/', '*', '"', '\'', '\\', '.', '_', 'e', '1', ':', '=']),
            _ => (32 + s.below(95)) as u8 as char,
        })
        .collect()
}

fn damage(s: &mut Src, text: &str) -> String {
    let mut chars: Vec<char> = text.chars().collect();
    for _ in 0..1 + s.below(6) {
        let n = chars.len();
        if n == 0 {
            break;
        }
        let i = s.below(n);
        if let Some(t) = crate::dict::text(s, 6) {
            let n = crate::dict::number(s, 4, 1, 3_000).unwrap_or(1);
            chars.splice(i..i, t.repeat(n.min(1 + 20_000 / t.len())).chars());
            continue;
        }
        match s.below(8) {
            0 => {
                chars.remove(i);
            }
            1 => {
                let c = characters(s).chars().next().unwrap_or('"');
                chars.insert(i, c);
            }
            2 => {
                chars[i] = *s.pick(&['"', '\'', '/', '*', '\\', '(', ')', ';', '\n', '\u{20ac}']);
            }
            3 => {
                let m = 1 + s.below(20.min(n - i));
                chars.drain(i..i + m);
            }
            4 => {
                let m = 1 + s.below(20.min(n - i));
                let part = chars[i..i + m].to_vec();
                let at = s.below(n + 1);
                chars.splice(at..at, part);
            }
            5 => chars.truncate(i),
            6 => {
                chars.drain(..i);
            }
            _ => {
                let t: Vec<char> = s
                    .pick(&["/*", "*/", "//", "\"", "\\\"", "end", "';", "\r\n"])
                    .chars()
                    .collect();
                chars.splice(i..i, t);
            }
        }
    }
    chars.into_iter().collect()
}

/// (prefix, repeated part, closing part, suffix, greatest number of repetitions)
pub const SHAPES: [(&str, &str, &str, &str, usize); 88] = [
    ("", "model A end A;\n", "", "", 8000),
    ("", "// c\n", "", "", 20000),
    ("", "/* c */ ", "", "", 20000),
    ("", "\n", "", "model A end A;", 200_000),
    ("model A", " ", "", "end A;", 200_000),
    ("model A\n", "Real x;\n", "", "end A;", 10000),
    ("model A Real x", ", x", "", "; end A;", 10000),
    ("model A\nequation\n", "x = 1; // c\n", "", "end A;", 10000),
    ("model A\nalgorithm\n", "f(x);\n\n", "", "end A;", 10000),
    ("model A equation x = 1", " + 1", "", "; end A;", 20000),
    ("model A equation x = 1", "\n* 1", "", "; end A;", 20000),
    ("model A equation x = y", ".y", "", "; end A;", 20000),
    ("model A equation x = a", " or\nb", "", "; end A;", 20000),
    (
        "model A equation x = if a then b",
        " elseif c then d",
        "",
        " else e; end A;",
        5000,
    ),
    (
        "model A equation if a then",
        " elseif c then x = 1;",
        "",
        " else end if; end A;",
        5000,
    ),
    (
        "model A equation when a then",
        " elsewhen c then x = 1;",
        "",
        " end when; end A;",
        5000,
    ),
    ("model A \"s\"", " + \"s\"", "", " end A;", 10000),
    ("model A algorithm (a", ", ", "", ") := f(); end A;", 20000),
    ("model A algorithm f(a", ", b", "", "); end A;", 1500),
    (
        "model A algorithm f(a = 1",
        ",\nb = 1",
        "",
        "); end A;",
        1500,
    ),
    ("model A algorithm x := {a", ", b", "", "}; end A;", 1500),
    ("model A algorithm x := [a", "; b, c", "", "]; end A;", 5000),
    ("model A(x = 1", ", y(z = 2)", "", ") end A;", 5000),
    ("type A = enumeration(a", ", b \"d\"", "", ");", 5000),
    ("package A import B.{c", ", d", "", "}; end A;", 10000),
    (
        "package A = B(x = 1",
        ", redeclare model C = D",
        "",
        ");",
        5000,
    ),
    ("model A equation x = ", "(", ")", "y; end A;", 150),
    ("model A equation x = ", "(", "", "", 400),
    ("model A equation x = ", "{", "}", "y; end A;", 150),
    ("model A equation x = ", "[", "", "", 400),
    ("model A equation x = ", "f(", ")", "; end A;", 150),
    (
        "model A equation x = ",
        "if a then b else ",
        "",
        "c; end A;",
        300,
    ),
    (
        "model A equation ",
        "if a then ",
        " end if;",
        " end A;",
        150,
    ),
    (
        "model A algorithm ",
        "for i loop\n",
        " end for;",
        " end A;",
        150,
    ),
    ("", "package A ", " end A;", "", 150),
    ("model A B b(", "c(", ")", "); end A;", 150),
    ("model A ", "annotation(", ")", "; end A;", 150),
    ("", "model ", "", "", 5000),
    ("", "end ", "", "", 5000),
    ("model A equation ", "= ", "", "", 5000),
    ("model A \"", "x\\\"", "", "\" end A;", 50000),
    ("/*", "* /", "", "*/", 50000),
    // Many errors
    ("", "x y z ) ) )\n", "", "", 5000),
    ("", "$ ", "", "", 20000),
    ("model A\n", "Real = ;\n", "", "end A;", 5000),
    ("model A\nequation\n", ") x = 1;\n", "", "end A;", 5000),
    ("", "model A end;\n", "", "", 5000),
    ("", "'a\n", "", "", 20000),
    ("", "\\ \u{105} ", "", "", 20000),
    // Comments and strings of many lines
    ("model A\n", "// c\n\n", "", "end A;", 20000),
    ("model A\n", "/* c\n c */\n", "", "end A;", 20000),
    ("model A \"", "x\n", "", "\" end A;", 50000),
    ("/*", " * x\n", "", "*/", 50000),
    // Words of any length
    ("model ", "a", "", " end A;", 200_000),
    ("model A Real x = ", "1", "", "; end A;", 200_000),
    ("model A Real x = 1.", "0", "", "; end A;", 200_000),
    ("model '", "\u{105}", "", "' end A;", 100_000),
    ("//", " x", "", "\nmodel A end A;", 100_000),
    // Many sections
    ("model A\n", "public\n", "", "end A;", 20000),
    ("model A\n", "equation\nx = 1;\n", "", "end A;", 10000),
    (
        "model A\n",
        "import B.C;\nextends D;\n",
        "",
        "end A;",
        10000,
    ),
    ("model A\n", "model B end B;\n", "", "end A;", 10000),
    (
        "model A algorithm x := {a for i",
        ", j in 1:2",
        "",
        "}; end A;",
        5000,
    ),
    (
        "model A\nalgorithm\n",
        "if a then\nreturn;\nend if;\n",
        "",
        "end A;",
        5000,
    ),
    // What is opened and never closed, over and over
    ("", "/* ", "", "", 50000),
    ("", "/*\n", "", "", 50000),
    ("model A end A;", "/**", "", "", 50000),
    ("", "\"\\\"", "", "", 50000),
    ("\"", "\"\"", "", "", 50000),
    ("\"", "\n", "", "", 100_000),
    ("'", "a", "", "", 100_000),
    ("", "'a ", "", "", 50000),
    ("", "'a\" ", "", "", 50000),
    ("", "'\\", "", "", 50000),
    ("", "\\", "", "", 20000),
    ("", "\"a\\", "", "", 20000),
    // Numbers that are hard to end
    ("model A Real x = 1", "e", "", "; end A;", 20000),
    ("model A Real x = ", "1.", "", "; end A;", 20000),
    ("model A Real x = ", "1e+", "", "; end A;", 20000),
    ("model A Real x = ", ".1", "", "; end A;", 20000),
    // Descriptions, comments and blanks within a declaration
    ("model A Real x \"d\"", " /* c */", "", "; end A;", 20000),
    ("model A Real x", " // c\n", "", "; end A;", 20000),
    ("model A equation x = y +", "\n\n", "", "z; end A;", 100_000),
    (
        "model A equation x = -y",
        " - // c\n y",
        "",
        "; end A;",
        10000,
    ),
    // Names and array indices
    ("model A Real x[n", ", 1:m", "", "]; end A;", 1500),
    ("model A equation x = a", ".b[1]", "", "; end A;", 5000),
    (
        "model A extends B; equation ",
        "connect(a, b);\n",
        "",
        "end A;",
        10000,
    ),
    ("within A", ".B", "", "; end A;", 20000),
];

pub fn shape(s: &mut Src) -> String {
    let (pre, part, close, post, most) = *s.pick(&SHAPES);
    // Sizes are spread over magnitudes
    let most = (most >> [3, 5, 7, 4, 9, 2, 6, 0][s.below(8)]).max(1);
    let n = 1 + s.below(most);
    let mut out = String::from(pre);
    for _ in 0..n {
        out += part;
    }
    if close.is_empty() {
        out += post;
    } else {
        let (inner, rest) = post.split_at(post.find(';').unwrap_or(0));
        out += inner;
        // Innermost contents go before what closes them
        for _ in 0..n {
            out += close;
        }
        out += rest;
    }
    out
}

/// Part of a program many times in a row
fn pumped(case: &Case, s: &mut Src) -> String {
    let (toks, _) = sentence(case, 200);
    let mut texts: Vec<&str> = toks.iter().map(|t| t.1.as_str()).collect();
    if texts.is_empty() {
        texts.push("x");
    }
    let i = s.below(texts.len());
    let m = 1 + s.below(12.min(texts.len() - i));
    let shift = [0, 2, 4, 6, 8][s.below(5)];
    let n = 1 + s.below(16_000 >> shift) / m;
    let sep = *s.pick(&[" ", "\n", " // c\n", "\n\n"]);
    let part = texts[i..i + m].join(" ");
    let mut out = texts[..i].join(" ");
    for _ in 0..n {
        out += sep;
        out += &part;
    }
    out + sep + &texts[i + m..].join(" ")
}

/// Greatest memory (bytes) and processor time allowed for a text
pub fn memory_bound(len: usize) -> usize {
    (1 << 20) + 2000 * len
}

pub fn time_bound(len: usize) -> Duration {
    Duration::from_millis(1500) + Duration::from_micros(4) * len as u32
}

fn text(case: &Case, s: &mut Src, deep: bool) -> (String, &'static str) {
    let (source, what) = match s.below(12) {
        0 | 1 => (characters(s), "random characters"),
        2 => {
            let n = s.below(120);
            let toks: Vec<String> = (0..n).map(|_| grammar().any_lexeme(s).1).collect();
            (toks.join([" ", "\n", ""][s.below(3)]), "random lexemes")
        }
        3..=5 => {
            let (mut toks, _) = sentence(case, 300);
            for _ in 0..1 + s.below(6) {
                mutate(s, &mut toks);
            }
            let texts: Vec<&str> = toks.iter().map(|t| t.1.as_str()).collect();
            (
                render(&texts, &draw(&mut case.lay(), &texts, FULL)).source,
                "mutated program",
            )
        }
        11 if s.chance(2, 16) => (shape(s), "long or deep program"),
        11 if deep && s.chance(2, 16) => (pumped(case, s), "repeated part of a program"),
        _ => {
            let (toks, _) = sentence(case, 300);
            let texts: Vec<&str> = toks.iter().map(|t| t.1.as_str()).collect();
            let text = render(&texts, &draw(&mut case.lay(), &texts, FULL)).source;
            (damage(s, &text), "damaged text of a program")
        }
    };
    (source, what)
}

pub fn any_text(case: &Case) -> Outcome {
    let mut s = case.alt();
    let (source, what) = text(case, &mut s, true);
    let whole = !s.chance(3, 16);
    let root = if whole {
        SyntaxKind::StoredDefinition
    } else {
        ROOTS[s.below(ROOTS.len())]
    };
    let name = if whole {
        crate::accept::any_name(&mut s)
    } else {
        String::from("f.mo")
    };
    check_text(&name, &source, root, what)
}

pub fn check_text(name: &str, source: &str, root: SyntaxKind, what: &'static str) -> Outcome {
    let shown = if source.len() > 20_000 {
        let mut n = 20_000;
        while !source.is_char_boundary(n) {
            n -= 1;
        }
        &source[..n]
    } else {
        source
    };
    // Other entry points are not used by the binary. What they make of
    // invalid fragments is not specified, except that they get to the end.
    let whole = root == SyntaxKind::StoredDefinition;
    crate::watch::input(source);
    let (result, memory, time) = measure(|| {
        catch_unwind(AssertUnwindSafe(|| {
            let parsed = mofmt::parse(name, source, root);
            if parsed.errors.is_empty() {
                if whole {
                    let out = mofmt::pretty_print(parsed.tokens, parsed.comments, parsed.events);
                    std::hint::black_box(&out);
                }
                0
            } else {
                parsed.errors.len()
            }
        }))
    });
    let n = match result {
        Ok(n) => n,
        Err(e) => {
            return Outcome::fail(
                shown,
                format!(
                    "source named {name:?}, entry point {root:?}: panicked: {}",
                    panic_text(&*e)
                ),
            )
        }
    };
    let len = source.len();
    // Each error has the name in it
    if memory > memory_bound(len) + 8 * n * name.len() {
        return Outcome::fail(
            shown,
            format!("{memory} bytes of memory used for a text of {len} bytes"),
        );
    }
    if time > time_bound(len) {
        return Outcome::fail(
            shown,
            format!("{time:?} of processor time used for a text of {len} bytes"),
        );
    }
    let mut classes = vec![what];
    classes.push(if n == 0 { "accepted" } else { "rejected" });
    if len > 20_000 {
        classes.push("over 20 kB");
    }
    Outcome::Pass(Info {
        nontrivial: len > 20,
        source: shown.to_string(),
        classes,
        checks: 1,
    })
}

/// Files given to the binary
pub fn any_file(case: &Case) -> Outcome {
    let mut s = case.alt();
    let (source, what) = if s.chance(2, 16) {
        (shape(&mut s), "long or deep program")
    } else {
        // The stack of the binary is too small for some repetitions
        text(case, &mut s, false)
    };
    let mut bytes = source.into_bytes();
    let mut classes = vec![what];
    if s.chance(3, 16) {
        let n = s.below(20);
        for _ in 0..n {
            let at = s.below(bytes.len() + 1);
            bytes.insert(at, s.below(256) as u8);
        }
        classes.push("random bytes");
    }
    let shown: String = String::from_utf8_lossy(&bytes)
        .chars()
        .take(20_000)
        .collect();
    match survives(&bytes) {
        Err((e, _)) => Outcome::fail(&shown, e),
        Ok(()) => Outcome::Pass(Info {
            nontrivial: bytes.len() > 20,
            source: shown,
            classes,
            checks: 2,
        }),
    }
}

fn repeated(i: usize, n: usize) -> String {
    let (pre, part, close, post, _) = SHAPES[i];
    let mut out = String::from(pre);
    out += &part.repeat(n);
    let (inner, rest) = if close.is_empty() {
        ("", post)
    } else {
        post.split_at(post.find(';').unwrap_or(0))
    };
    out += inner;
    out += &close.repeat(n);
    out + rest
}

/// Long texts of every shape: resources have to stay proportional
fn long_texts() -> Vec<(String, Fixed)> {
    let next = std::sync::atomic::AtomicUsize::new(0);
    let found = std::sync::Mutex::new(Vec::new());
    std::thread::scope(|scope| {
        for _ in 0..8 {
            std::thread::Builder::new()
                .stack_size(1 << 30)
                .spawn_scoped(scope, || loop {
                    let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    let Some((_, part, close, _, most)) = SHAPES.get(i) else {
                        break;
                    };
                    // What nests is not made longer
                    let n = if *most <= 1500 {
                        *most
                    } else {
                        (LONG / (part.len() + close.len())).max(*most)
                    };
                    let t = repeated(i, n);
                    crate::watch::fixed(&format!("{n} times {part:?}"));
                    let mut o = check_text("f.mo", &t, SyntaxKind::StoredDefinition, "long");
                    if let (Outcome::Pass(_), Err((e, _))) = (&o, survives(t.as_bytes())) {
                        o = Outcome::fail(&t[..2000.min(t.len())], e);
                    }
                    let o = crate::checks::fixed(o);
                    found
                        .lock()
                        .unwrap()
                        .push((format!("{n} times {part:?}"), o));
                })
                .unwrap();
        }
    });
    found.into_inner().unwrap()
}

const LONG: usize = 400_000;

/// Texts known to make the binary overflow its stack
fn overflows() -> Vec<(&'static str, String)> {
    vec![
        (
            "array-constructor-of-300000-items",
            format!(
                "model A\n  Real x[:] = {{1{}}};\nend A;\n",
                ", 1".repeat(300_000)
            ),
        ),
        (
            "call-with-300000-arguments",
            format!(
                "model A\nequation\n  f(1{});\nend A;\n",
                ", 1".repeat(300_000)
            ),
        ),
        (
            "30000-nested-parentheses",
            format!(
                "model A\nequation\n  x = {}1{};\nend A;\n",
                "(".repeat(30_000),
                ")".repeat(30_000)
            ),
        ),
        (
            "30000-nested-packages",
            format!("{}{}", "package A ".repeat(30_000), "end A;".repeat(30_000)),
        ),
    ]
}

/// Findings listed in the committed file
fn listed(property: &str) -> Vec<String> {
    let path = crate::driver::verif_dir().join("KNOWN_FINDINGS.txt");
    let text = std::fs::read_to_string(path).unwrap_or_default();
    let prefix = format!("known: property={property} case=");
    text.lines()
        .filter_map(|l| l.strip_prefix(prefix.as_str()))
        .filter_map(|l| l.split_whitespace().next())
        .map(|t| t.to_string())
        .collect()
}

pub fn fixed() -> Vec<(String, Fixed)> {
    let mut out = long_texts();
    let known = listed("C14");
    for (name, text) in overflows() {
        let what = match survives(text.as_bytes()) {
            Ok(()) => Fixed::Fine,
            // Only the listed failure of the listed input is a known one
            Err((e, Some(6)))
                if e.contains("overflowed its stack") && known.iter().any(|k| k == name) =>
            {
                Fixed::Known(format!("{name}: the binary overflows its stack (SIGABRT)"))
            }
            Err((e, _)) => {
                crate::checks::broken(&text[..2000.min(text.len())], format!("{name}: {e}"))
            }
        };
        out.push((name.to_string(), what));
    }
    out
}
