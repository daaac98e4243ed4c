//! Dictionary of the fuzzer: literals found in the code under test. What the
//! code compares its input with shows which names, texts, and sizes are worth
//! trying. Literals the code had when the checks were written are known, and
//! not worth as much as others. Only the choice of inputs depends on them.

use crate::src::Src;
use std::collections::HashMap;
use std::path::Path;
use std::sync::OnceLock;

#[derive(Clone, Debug, PartialEq)]
enum Lit {
    Text(String),
    Num(usize),
}

#[derive(Default)]
pub struct Dict {
    /// Literals as they are spelled, in the order of the code
    spelled: Vec<String>,
    texts: Vec<String>,
    numbers: Vec<usize>,
}

static DICT: OnceLock<Dict> = OnceLock::new();
/// Variable that turns the dictionary off
pub const OFF: &str = "VERIF_NO_DICTIONARY";
const KNOWN: &str = include_str!("literals.txt");

fn dict() -> &'static Dict {
    DICT.get_or_init(|| {
        if std::env::var_os(OFF).is_some() {
            return Dict::default();
        }
        let repo = std::env::var_os("MOFMT_REPO").unwrap_or_else(|| "/repo".into());
        let mut found = Vec::new();
        files(&Path::new(&repo).join("src"), &mut found);
        let mut known: HashMap<&str, usize> = HashMap::new();
        for l in KNOWN.lines() {
            *known.entry(l).or_default() += 1;
        }
        found.retain(|l| match known.get_mut(l.as_str()) {
            Some(n) if *n > 0 => {
                *n -= 1;
                false
            }
            _ => true,
        });
        found.truncate(400);
        Dict::new(found)
    })
}

/// Literals that are new, for the replay file
pub fn spelled() -> String {
    dict().spelled.join("\t")
}

/// Use the dictionary of a replay file
pub fn restore(line: &str) {
    let found = line.split('\t').filter(|l| !l.is_empty());
    let _ = DICT.set(Dict::new(found.map(|l| l.to_string()).collect()));
}

/// All literals of the code, as they are listed in `literals.txt`
pub fn listing() -> String {
    let repo = std::env::var_os("MOFMT_REPO").unwrap_or_else(|| "/repo".into());
    let mut found = Vec::new();
    files(&Path::new(&repo).join("src"), &mut found);
    found.sort();
    found.join("\n") + "\n"
}

fn files(dir: &Path, out: &mut Vec<String>) {
    let Ok(entries) = std::fs::read_dir(dir) else {
        return;
    };
    let mut paths: Vec<_> = entries.flatten().map(|e| e.path()).collect();
    paths.sort();
    for p in paths {
        if p.is_dir() {
            files(&p, out);
        } else if p.extension().is_some_and(|e| e == "rs") {
            if let Ok(bytes) = std::fs::read(&p) {
                literals(&String::from_utf8_lossy(&bytes), out);
            }
        }
    }
}

/// Find the literals of Rust code. Nothing depends on finding all of them.
fn literals(code: &str, out: &mut Vec<String>) {
    let c: Vec<char> = code.chars().collect();
    let at = |i: usize| c.get(i).copied().unwrap_or('\0');
    let word = |x: char| x.is_alphanumeric() || x == '_';
    let mut i = 0;
    while i < c.len() {
        let from = i;
        match c[i] {
            '/' if at(i + 1) == '/' => {
                while i < c.len() && c[i] != '\n' {
                    i += 1;
                }
                continue;
            }
            '/' if at(i + 1) == '*' => {
                i += 2;
                while i < c.len() && !(c[i] == '*' && at(i + 1) == '/') {
                    i += 1;
                }
                i += 2;
                continue;
            }
            'r' if (at(i + 1) == '#' || at(i + 1) == '"') && (i == 0 || !word(c[i - 1])) => {
                let mut hashes = 0;
                while at(i + 1 + hashes) == '#' {
                    hashes += 1;
                }
                if at(i + 1 + hashes) != '"' {
                    i += 1;
                    continue;
                }
                let mut j = i + 2 + hashes;
                let begin = j;
                while j < c.len() && !(c[j] == '"' && (1..=hashes).all(|k| at(j + k) == '#')) {
                    j += 1;
                }
                let text: String = c[begin..j.min(c.len())].iter().collect();
                out.push(format!("{text:?}"));
                i = j + 1 + hashes;
                continue;
            }
            '"' => {
                i += 1;
                while i < c.len() && c[i] != '"' {
                    i += 1 + (c[i] == '\\') as usize;
                }
                i += 1;
            }
            '\'' => {
                let mut j = i + 1;
                if at(j) == '\\' {
                    j += 2;
                    while j < c.len() && c[j] != '\'' && j < i + 12 {
                        j += 1;
                    }
                } else {
                    j += 1;
                }
                if at(j) != '\'' {
                    i += 1;
                    continue;
                }
                i = j + 1;
            }
            x if x.is_ascii_digit() => {
                while word(at(i)) {
                    i += 1;
                }
                // Field of a tuple
                if from > 0 && c[from - 1] == '.' && (from < 2 || c[from - 2] != '.') {
                    continue;
                }
            }
            x if word(x) => {
                while word(at(i)) {
                    i += 1;
                }
                continue;
            }
            _ => {
                i += 1;
                continue;
            }
        }
        let text: String = c[from..i.min(c.len())].iter().collect();
        if !text.contains('\n') && !text.contains('\t') {
            out.push(text);
        }
    }
}

/// Meaning of a literal
fn decode(spelled: &str) -> Option<Lit> {
    let quoted = ['"', '\'']
        .iter()
        .find_map(|q| spelled.strip_prefix(*q).and_then(|t| t.strip_suffix(*q)));
    let Some(inner) = quoted else {
        let t = spelled.replace('_', "");
        let end = |d: fn(&char) -> bool| t.chars().take_while(d).collect::<String>();
        let n = match t.strip_prefix("0x") {
            Some(hex) => {
                let digits: String = hex.chars().take_while(|c| c.is_ascii_hexdigit()).collect();
                usize::from_str_radix(&digits, 16).ok()?
            }
            None => end(|c| c.is_ascii_digit()).parse().ok()?,
        };
        return Some(Lit::Num(n));
    };
    let mut out = String::new();
    let mut c = inner.chars().peekable();
    while let Some(x) = c.next() {
        if x != '\\' {
            out.push(x);
            continue;
        }
        match c.next()? {
            'n' => out.push('\n'),
            'r' => out.push('\r'),
            't' => out.push('\t'),
            '0' => out.push('\0'),
            'x' => {
                let h: String = c.by_ref().take(2).collect();
                out.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?);
            }
            'u' => {
                let h: String = c.by_ref().take_while(|x| *x != '}').collect();
                let h = h.trim_start_matches('{');
                out.push(char::from_u32(u32::from_str_radix(h, 16).ok()?)?);
            }
            other => out.push(other),
        }
    }
    Some(Lit::Text(out))
}

impl Dict {
    fn new(spelled: Vec<String>) -> Self {
        let (mut texts, mut numbers) = (Vec::new(), Vec::new());
        for l in &spelled {
            match decode(l) {
                Some(Lit::Text(t)) => {
                    if !t.trim().is_empty() || t.chars().count() == 1 {
                        texts.push(t.clone());
                    }
                    // Messages consist of words
                    if t.contains(' ') {
                        texts.extend(t.split_whitespace().map(|w| w.to_string()));
                    }
                }
                Some(Lit::Num(n)) if n > 1 => numbers.push(n),
                _ => (),
            }
        }
        texts.sort();
        texts.dedup();
        numbers.sort();
        numbers.dedup();
        Dict {
            spelled,
            texts,
            numbers,
        }
    }
}

/// Text of the dictionary (once in `one_of` cases), if there is any
pub fn text(s: &mut Src, one_of: usize) -> Option<String> {
    let texts = &dict().texts;
    if texts.is_empty() || !s.chance(1, one_of) {
        return None;
    }
    let t = s.pick(texts).clone();
    let t = match s.below(12) {
        0 => t.to_uppercase(),
        1 => t.to_lowercase(),
        2 => t.repeat(2 + s.below(3)),
        3 => format!("{t}{}", s.pick(texts)),
        4 => t.trim_matches(|c: char| !c.is_alphanumeric()).to_string(),
        _ => t,
    };
    Some(t).filter(|t| !t.is_empty())
}

/// Number close to one of the dictionary, between `least` and `most`
pub fn number(s: &mut Src, one_of: usize, least: usize, most: usize) -> Option<usize> {
    let fit: Vec<usize> = dict()
        .numbers
        .iter()
        .copied()
        .filter(|n| (least..=most).contains(n))
        .collect();
    if fit.is_empty() || !s.chance(1, one_of) {
        return None;
    }
    let n = *s.pick(&fit);
    Some([n, n + 1, n - 1, n + 2, 2 * n][s.below(5)].clamp(least, most))
}

#[cfg(test)]
mod tests {
    use super::*;

    #[test]
    fn finds_literals() {
        let mut out = Vec::new();
        literals(
            "// \"no\"\nfn f<'a>(x: &'a str) { g(\"a b\", 'x', '\\'', 1_000u8, 0x1F, x.0, r#\"q\"\"#, b'z', 1..5) } /* 7 */",
            &mut out,
        );
        assert_eq!(
            out,
            [
                "\"a b\"",
                "'x'",
                "'\\''",
                "1_000u8",
                "0x1F",
                "\"q\\\"\"",
                "'z'",
                "1",
                "5"
            ]
        );
        assert_eq!(decode("0x1F"), Some(Lit::Num(31)));
        assert_eq!(decode("1_000u8"), Some(Lit::Num(1000)));
        assert_eq!(
            decode("\"a\\n\\u{e9}\""),
            Some(Lit::Text("a\n\u{e9}".into()))
        );
    }
}
