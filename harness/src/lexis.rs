//! Lexis of Modelica, as this harness understands it: texts of lexemes, the
//! reference lexer, and the rule telling when two lexemes need a separator.

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum K {
    /// Keyword
    Kw,
    /// Operator or punctuation
    Op,
    Ident,
    Str,
    UInt,
    UReal,
    Bool,
    LineComment,
    BlockComment,
}

impl K {
    pub fn is_comment(self) -> bool {
        matches!(self, K::LineComment | K::BlockComment)
    }
}

pub const KEYWORDS: [&str; 59] = [
    "not",
    "and",
    "or",
    "in",
    "for",
    "if",
    "else",
    "elseif",
    "then",
    "when",
    "elsewhen",
    "while",
    "loop",
    "break",
    "return",
    "partial",
    "class",
    "operator",
    "expandable",
    "model",
    "function",
    "record",
    "type",
    "block",
    "connector",
    "package",
    "pure",
    "impure",
    "end",
    "der",
    "connect",
    "initial",
    "equation",
    "algorithm",
    "extends",
    "import",
    "public",
    "protected",
    "within",
    "final",
    "encapsulated",
    "enumeration",
    "input",
    "output",
    "redeclare",
    "inner",
    "outer",
    "replaceable",
    "constrainedby",
    "flow",
    "stream",
    "discrete",
    "parameter",
    "constant",
    "each",
    "annotation",
    "external",
    "true",
    "false",
];

/// Longest operators first
pub const OPERATORS: [&str; 30] = [
    ".+", ".-", ".*", "./", ".^", ":=", "==", "<>", "<=", ">=", ";", ",", ".", ":", "(", ")", "{",
    "}", "[", "]", "=", "+", "-", "*", "/", "^", "<", ">", "", "",
];

const QALLOWED: &str = "!#$%&()*+,-./:;<>=?@[]^{}|~ \"";

/// Lexeme found by the reference lexer
#[derive(Clone, Debug, PartialEq)]
pub struct Lexeme {
    pub kind: K,
    pub text: String,
    /// Byte offsets
    pub start: usize,
    pub end: usize,
    /// 1-based line and column of the first character
    pub line: usize,
    pub col: usize,
    /// Position right after the last character
    pub eline: usize,
    pub ecol: usize,
}

/// Position (byte offset) of the first offending lexeme
#[derive(Clone, Debug, PartialEq)]
pub struct LexErr {
    pub at: usize,
}

pub fn is_keyword(w: &str) -> bool {
    KEYWORDS.contains(&w)
}

fn is_space(c: char) -> bool {
    matches!(c, ' ' | '\t' | '\n' | '\r' | '\x0C')
}

/// Length in bytes, and class, of the lexeme at the beginning of `s`
fn munch(s: &str) -> Option<(usize, K)> {
    let first = s.chars().next()?;
    let span = |f: &dyn Fn(char) -> bool| s.find(|c| !f(c)).unwrap_or(s.len());
    if s.starts_with("//") {
        let n = s.find(['\n', '\r']).unwrap_or(s.len());
        return Some((n, K::LineComment));
    }
    if let Some(rest) = s.strip_prefix("/*") {
        return rest.find("*/").map(|n| (n + 4, K::BlockComment));
    }
    if first.is_ascii_alphabetic() || first == '_' {
        let n = span(&|c| c.is_ascii_alphanumeric() || c == '_');
        let kind = match &s[..n] {
            "true" | "false" => K::Bool,
            w if KEYWORDS.contains(&w) => K::Kw,
            _ => K::Ident,
        };
        return Some((n, kind));
    }
    if first.is_ascii_digit() {
        let digits = |from: usize| {
            s[from..]
                .find(|c: char| !c.is_ascii_digit())
                .map_or(s.len(), |n| from + n)
        };
        let mut n = digits(0);
        let mut kind = K::UInt;
        if s[n..].starts_with('.') {
            kind = K::UReal;
            n = digits(n + 1);
        }
        if s[n..].starts_with(['e', 'E']) {
            kind = K::UReal;
            n += 1;
            if s[n..].starts_with(['+', '-']) {
                n += 1;
            }
            n = digits(n);
        }
        return Some((n, kind));
    }
    if first == '"' || first == '\'' {
        let mut chars = s.char_indices().skip(1);
        while let Some((i, c)) = chars.next() {
            if c == '\\' {
                chars.next()?;
            } else if c == first {
                return Some((i + 1, if c == '"' { K::Str } else { K::Ident }));
            } else if first == '\''
                && !(c.is_ascii_alphanumeric() || c == '_' || QALLOWED.contains(c))
            {
                return None;
            }
        }
        return None;
    }
    OPERATORS
        .iter()
        .find(|op| !op.is_empty() && s.starts_with(**op))
        .map(|op| (op.len(), K::Op))
}

/// Split a source into lexemes and comments
pub fn lex(source: &str) -> Result<Vec<Lexeme>, LexErr> {
    let mut out = Vec::new();
    let (mut pos, mut line, mut col) = (0, 1, 1);
    let step = |text: &str, line: &mut usize, col: &mut usize| {
        for c in text.chars() {
            if c == '\n' {
                *line += 1;
                *col = 1;
            } else {
                *col += 1;
            }
        }
    };
    while pos < source.len() {
        let rest = &source[pos..];
        let c = rest.chars().next().unwrap();
        if is_space(c) {
            step(&rest[..1], &mut line, &mut col);
            pos += 1;
            continue;
        }
        let (n, kind) = munch(rest).ok_or(LexErr { at: pos })?;
        let (sline, scol) = (line, col);
        step(&rest[..n], &mut line, &mut col);
        out.push(Lexeme {
            kind,
            text: rest[..n].to_string(),
            start: pos,
            end: pos + n,
            line: sline,
            col: scol,
            eline: line,
            ecol: col,
        });
        pos += n;
    }
    Ok(out)
}

/// Return `true` if lexemes `a` and `b` cannot be adjacent without being lexed
/// in another way
pub fn need_sep(a: &str, b: &str) -> bool {
    let (Some(la), Some(fa), Some(fb)) =
        (a.chars().next_back(), a.chars().next(), b.chars().next())
    else {
        return false;
    };
    let word = |c: char| c.is_ascii_alphanumeric() || c == '_';
    if fa.is_ascii_digit() {
        // Numeral
        return word(fb) || (fb == '.' && a.chars().all(|c| c.is_ascii_digit()));
    }
    if word(fa) {
        return word(fb);
    }
    if fa == '"' || fa == '\'' || a.starts_with("/*") {
        return false;
    }
    match la {
        '.' => "+-*/^".contains(fb),
        ':' => fb == '=',
        '=' => fb == '=' && a == "=",
        '<' => fb == '>' || fb == '=',
        '>' => fb == '=' && a == ">",
        '/' => (fb == '/' || fb == '*') && a == "/",
        _ => false,
    }
}
