//! Random layouts of a lexeme sequence: whitespace, line breaks and comments

use crate::dict;
use crate::gen::Doc;
use crate::lexis::need_sep;
use crate::src::Src;

#[derive(Clone, Debug, PartialEq)]
pub enum Atom {
    /// Whitespace with no, one, or more (2) line breaks
    Ws(u8, String),
    Comment(String),
}

/// Atoms before each lexeme, and after the last one
pub type Layout = Vec<Vec<Atom>>;

#[derive(Clone, Debug)]
pub struct Cm {
    pub text: String,
    pub start: usize,
    pub end: usize,
}

/// Source text together with the lines of its lexemes and comments
#[derive(Clone, Debug)]
pub struct Rendered {
    pub source: String,
    /// First and last line of each lexeme
    pub lines: Vec<(usize, usize)>,
    /// Comments before each lexeme, and after the last one
    pub comments: Vec<Vec<Cm>>,
}

#[derive(Clone, Copy)]
pub struct Opts {
    pub comments: bool,
    pub newlines: bool,
    /// Put comments only before lexemes
    pub crlf: bool,
}

pub const FULL: Opts = Opts {
    comments: true,
    newlines: true,
    crlf: true,
};

pub struct Profile {
    p_comment: usize,
    p_line: usize,
    p_none: usize,
    eol: usize,
    /// Number that some line of the code is to have
    line: Option<usize>,
}

impl Profile {
    pub fn draw(s: &mut Src, o: Opts) -> Self {
        let p_line = *s.pick(&[1, 0, 3, 8, 16, 1, 2]);
        let p_comment = *s.pick(&[0, 1, 3, 6, 0, 1]);
        let p_none = *s.pick(&[2, 8, 0]);
        let eol = *s.pick(&[0, 0, 0, 1, 2]);
        let line = s
            .chance(1, 160)
            .then(|| *s.pick(&[65_536, 65_536, 32_768, 256, 128]))
            .or_else(|| dict::number(s, 16, 2, 3_000))
            .or_else(|| dict::number(s, 160, 3_000, 200_000));
        Profile {
            line: line.filter(|_| o.newlines),
            p_comment: if o.comments { p_comment } else { 0 },
            p_line: if o.newlines { p_line } else { 0 },
            p_none,
            eol: if o.crlf { eol } else { 0 },
        }
    }

    fn eol(&self, s: &mut Src) -> &'static str {
        match self.eol {
            0 => "\n",
            1 => "\r\n",
            _ => ["\n", "\r\n"][s.below(2)],
        }
    }

    /// Unusually great number, in rare cases
    fn many(s: &mut Src, one_of: usize) -> Option<usize> {
        const MANY: [usize; 12] = [7, 9, 17, 33, 65, 66, 101, 129, 257, 300, 1030, 66_000];
        s.chance(1, one_of)
            .then(|| MANY[s.below(MANY.len())])
            .or_else(|| dict::number(s, 64.min(one_of), 2, 600))
            .or_else(|| dict::number(s, one_of, 600, 66_000))
    }

    /// Draw whitespace with `nl` (0, 1 or at least 2) line breaks
    pub fn space(&self, s: &mut Src, nl: u8) -> String {
        const BLANKS: [&str; 8] = ["", " ", "  ", "\t", "    ", " \t ", "", "\x0c"];
        if nl == 0 {
            if s.chance(self.p_none, 16) {
                return String::new();
            }
            let n = Self::many(s, 2048).unwrap_or(1);
            return [" ", " ", " ", "  ", "\t", "   \t ", " ", "\x0c"][s.below(8)].repeat(n);
        }
        let mut out = String::from(*s.pick(&BLANKS));
        let n = if nl == 1 { 1 } else { 2 + s.below(3) };
        if nl > 1 {
            if let Some(n) = Self::many(s, 512) {
                out += &(self.eol(s).to_string() + s.pick(&BLANKS)).repeat(n);
            }
        }
        for _ in 0..n {
            out += self.eol(s);
            out += s.pick(&BLANKS);
        }
        out
    }

    fn lines(&self, s: &mut Src) -> u8 {
        if s.chance(self.p_line, 16) {
            1 + s.chance(5, 16) as u8
        } else {
            0
        }
    }

    fn comment(&self, s: &mut Src, n: usize) -> String {
        let eol = self.eol(s);
        if let Some(t) = dict::text(s, 8) {
            return comment_of(s, &t);
        }
        match s.below(18) {
            0 | 1 => format!("// c{n}"),
            2 | 3 => format!("/* c{n} */"),
            4 => format!("/* c{n}{eol}  x */"),
            5 => format!("//c{n} \u{105}\u{20ac}"),
            6 => format!("/*/ c{n} /*/"),
            7 => format!("// /* c{n}"),
            8 => format!("/* // c{n} */"),
            9 => format!("// c{n}  \t"),
            10 => format!("/*{eol}{eol}c{n}{eol}*/"),
            11 => "//".to_string(),
            12 => "/**/".to_string(),
            13 => format!("/** \u{e9}\u{2019} c{n} **/"),
            14 => format!("// c{n} \"x' ; end"),
            15 if s.chance(1, 32) => {
                let most = [2_000, 70_000][s.below(8) / 7];
                let n = Self::many(s, 1).unwrap_or(1).min(most);
                let t = ["x", " ", "\u{e9}", "*"][s.below(4)].repeat(n);
                if s.chance(8, 16) {
                    format!("/* {t} */")
                } else {
                    format!("// {t}")
                }
            }
            15 if s.chance(8, 16) => {
                let block = s.chance(8, 16);
                let t = crate::gen::random_string(s, block).replace("*/", "*_");
                if block {
                    format!("/*{t}*/")
                } else {
                    format!("//{t}")
                }
            }
            16 => {
                let t = s.pick(&crate::gen::PHRASES);
                let [a, b] = *s.pick(&[
                    ["// ", ""],
                    ["//", ""],
                    ["/* ", " */"],
                    ["/*", "*/"],
                    ["/** ", "\n */"],
                    ["/// ", " "],
                ]);
                format!("{a}{t}{b}")
            }
            17 if s.chance(8, 16) => {
                // Banners
                let fill = *s.pick(&["*", "-", "=", "#", " ", "/", "!", "<"]);
                let mut out = format!("/*{}", fill.repeat(s.below(4)));
                for _ in 0..s.below(4) {
                    out += eol;
                    out += s.pick(&["", " * ", "   ", " ** ", "\t"]);
                    out += s.pick(&["", "c", "c **", "\"", "//"]);
                }
                out += s.pick(&["", eol, " "]);
                out += &fill.repeat(s.below(3));
                out.replace("*/", "* /") + "*/"
            }
            _ => format!("/* c{n} \" */"),
        }
    }
}

/// Comment with the given text
fn comment_of(s: &mut Src, text: &str) -> String {
    let line = text.replace(['\n', '\r'], " ");
    let inner = line.trim_start_matches("//").trim_start_matches("/*");
    let inner = inner.replace("*/", "* ");
    match s.below(8) {
        0 | 1 => format!("// {inner}"),
        2 => format!("//{inner}"),
        3 => format!("//{inner} x"),
        4 => format!("/* {inner} */"),
        5 => format!("/*{inner}*/"),
        6 => format!("/* x\n {inner} */"),
        _ => format!("// x{inner}{inner}"),
    }
}

/// Draw a layout for the lexemes
pub fn draw(s: &mut Src, texts: &[&str], o: Opts) -> Layout {
    let prof = Profile::draw(s, o);
    let mut out = Vec::with_capacity(texts.len() + 1);
    let mut counter = 0;
    for i in 0..=texts.len() {
        let prev = if i == 0 { None } else { Some(texts[i - 1]) };
        let next = texts.get(i).copied();
        let edge = prev.is_none() || next.is_none();
        let mut atoms = Vec::new();
        let mut before = prev.map(|p| p.to_string());
        if s.chance(prof.p_comment, 16) {
            let few = [0, 0, 0, 1, 1, 2, 3][s.below(7)];
            let n = Profile::many(s, 512).map_or(few, |n| n.min(70));
            for _ in 0..=n {
                let mut text = prof.comment(s, counter);
                if let Some(Atom::Comment(t)) = atoms.last() {
                    // The same comment again
                    if s.chance(1, 16) {
                        text = t.clone();
                    }
                }
                counter += 1;
                let ws = ws(&prof, s, before.as_deref(), Some(&text), edge);
                atoms.push(ws);
                atoms.push(Atom::Comment(text.clone()));
                before = Some(text);
            }
        }
        atoms.push(ws(&prof, s, before.as_deref(), next, edge));
        out.push(atoms);
    }
    if let Some(line) = prof.line {
        shift(s, &prof, texts, &mut out, line);
    }
    if o.newlines {
        if let Some(n) = dict::number(s, 24, 16, 100_000) {
            fill(s, texts, &mut out, n);
        }
    }
    out
}

/// Insert blanks at the beginning or the end, so that the source has the given length
fn fill(s: &mut Src, texts: &[&str], layout: &mut Layout, length: usize) {
    let n = length.saturating_sub(render(texts, layout).source.len());
    let i = [0, texts.len()][s.below(2)];
    if let Some(Atom::Ws(nl, raw)) = layout[i].last_mut() {
        if *nl == 0 {
            // Might be after a line comment
            return;
        }
        raw.push_str(&" ".repeat(n));
    }
}

/// Insert blank lines at the beginning, so that some line has the given number
fn shift(s: &mut Src, prof: &Profile, texts: &[&str], layout: &mut Layout, line: usize) {
    let r = render(texts, layout);
    let lines = r.source.matches('\n').count();
    let before = line.saturating_sub(1 + s.below(lines + 1)).max(2);
    if let Some(Atom::Ws(nl, raw)) = layout[0].first_mut() {
        *nl = 2;
        raw.insert_str(0, &prof.eol(s).repeat(before));
    }
}

fn ws(prof: &Profile, s: &mut Src, prev: Option<&str>, next: Option<&str>, edge: bool) -> Atom {
    let mut nl = prof.lines(s);
    let after_line_comment = prev.is_some_and(|p| p.starts_with("//"));
    if after_line_comment && nl == 0 && next.is_some() {
        nl = 1;
    }
    if edge && nl == 0 && (prev.is_none() || next.is_none()) && prof.p_line == 1 {
        return Atom::Ws(0, String::new());
    }
    let mut raw = prof.space(s, nl);
    fix(&mut raw, nl, prev, next);
    Atom::Ws(nl, raw)
}

/// Make sure that whitespace separates what it has to, and that it does not
/// extend a line comment
pub fn fix(raw: &mut String, nl: u8, prev: Option<&str>, next: Option<&str>) {
    if prev.is_some_and(|p| p.starts_with("//")) {
        let n = raw.find(['\n', '\r']).unwrap_or(raw.len());
        raw.replace_range(..n, "");
    }
    if nl == 0 && raw.is_empty() {
        if let (Some(a), Some(b)) = (prev, next) {
            if need_sep(a, b) {
                raw.push(' ');
            }
        }
    }
}

pub fn render(texts: &[&str], layout: &Layout) -> Rendered {
    let mut source = String::new();
    let mut line = 1;
    let mut lines = Vec::with_capacity(texts.len());
    let mut comments = Vec::with_capacity(layout.len());
    let count = |t: &str| t.bytes().filter(|b| *b == b'\n').count();
    for (i, atoms) in layout.iter().enumerate() {
        let mut here = Vec::new();
        for atom in atoms {
            let text = match atom {
                Atom::Ws(_, t) => t,
                Atom::Comment(t) => {
                    here.push(Cm {
                        text: t.clone(),
                        start: line,
                        end: line + count(t),
                    });
                    t
                }
            };
            source += text;
            line += count(text);
        }
        comments.push(here);
        if let Some(t) = texts.get(i) {
            let end = line + count(t);
            lines.push((line, end));
            source += t;
            line = end;
        }
    }
    Rendered {
        source,
        lines,
        comments,
    }
}

/// Draw a layout and render it
pub fn layout_doc(s: &mut Src, doc: &Doc, o: Opts) -> (Layout, Rendered) {
    let texts = doc.texts();
    let l = draw(s, &texts, o);
    let r = render(&texts, &l);
    (l, r)
}
