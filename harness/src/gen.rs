//! Generator of Modelica programs annotated with the layout rules of the code
//! style. It derives sentences of the grammar; every lexeme is emitted together
//! with the kind of gap the code style puts before it.

use crate::dict;
use crate::lexis::K;
use crate::src::Src;
use mofmt::SyntaxKind as S;
use std::collections::HashMap;
use std::panic::Location;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Blank {
    Required,
    Legal,
    Illegal,
}

/// Layout rule for the gap before a lexeme
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Gap {
    /// Never separated
    Glue,
    /// Always a single space
    Sp,
    /// Always wrapped
    Line(Blank),
    /// Wrapped together with other items of the list `.0`; otherwise
    /// separated with a space (`.1`) or not at all
    Grp(usize, bool),
    /// Before a binary operator: wrapped if its operands are on different lines
    Bin,
}

#[derive(Clone, Debug)]
pub struct Tok {
    pub kind: K,
    pub text: String,
    pub gap: Gap,
}

#[derive(Clone, Copy, Debug)]
pub enum Item {
    Tok(usize),
    /// Where the gap before the next lexeme is laid out
    Gap,
    Indent,
    Dedent,
    ScopeIn,
    ScopeOut,
    Enter(S),
    Exit,
}

/// Annotated program
#[derive(Clone, Debug)]
pub struct Doc {
    pub root: S,
    pub toks: Vec<Tok>,
    pub items: Vec<Item>,
    /// First and last lexeme of each list
    pub groups: Vec<(usize, usize)>,
}

impl Doc {
    pub fn texts(&self) -> Vec<&str> {
        self.toks.iter().map(|t| t.text.as_str()).collect()
    }
}

pub struct Gen<'a, 'b> {
    s: &'a mut Src<'b>,
    toks: Vec<Tok>,
    items: Vec<Item>,
    groups: Vec<(usize, usize)>,
    gap: Option<Gap>,
    depth: usize,
    /// Lexemes a file has to have
    least: usize,
    max: usize,
    /// Probabilities (of 16)
    p_desc: usize,
    p_list: usize,
    p_op: usize,
    p_if: usize,
    p_prefix: usize,
    p_long: usize,
    p_sect: usize,
    /// Multiplier of nesting and length limits
    scale: usize,
    /// What to nest deeply, and how many levels are left
    nest: Nest,
    nest_left: usize,
    /// Place of the repetition that is prolonged
    pump: Option<&'static Location<'static>>,
    pump_due: usize,
    pump_left: usize,
    /// It is a sequence of operators
    pump_ops: bool,
    /// Choices by place, in programs that repeat them: what is repeated, if it
    /// is
    habits: Option<HashMap<&'static Location<'static>, Option<usize>>>,
}

/// What is nested deeply, in some programs
#[derive(Clone, Copy, PartialEq)]
enum Nest {
    Nothing,
    Classes,
    Blocks,
    Expressions,
    Modifications,
    Everything,
}

/// Where an equation occurs, which decides what its first lexeme must not be
#[derive(Clone, Copy, PartialEq)]
enum Head {
    Any,
    /// No `end`
    Block,
    /// Neither `end` nor `initial`
    Section,
}

pub const ROOTS: [S; 90] = [
    S::StoredDefinition,
    S::ClassDefinition,
    S::ClassPrefixes,
    S::ClassSpecifier,
    S::LongClassSpecifier,
    S::ShortClassSpecifier,
    S::DerClassSpecifier,
    S::BasePrefix,
    S::EnumList,
    S::EnumerationLiteral,
    S::Composition,
    S::LanguageSpecification,
    S::ExternalFunctionCall,
    S::ElementList,
    S::Element,
    S::ImportClause,
    S::ImportList,
    S::ExtendsClause,
    S::ConstrainingClause,
    S::ClassOrInheritanceModification,
    S::ArgumentOrInheritanceModificationList,
    S::InheritanceModification,
    S::ComponentClause,
    S::TypePrefix,
    S::ComponentList,
    S::ComponentDeclaration,
    S::ConditionAttribute,
    S::Declaration,
    S::Modification,
    S::ModificationExpression,
    S::ClassModification,
    S::ArgumentList,
    S::Argument,
    S::ElementModificationOrReplaceable,
    S::ElementModification,
    S::ElementRedeclaration,
    S::ElementReplaceable,
    S::ComponentClause1,
    S::ComponentDeclaration1,
    S::ShortClassDefinition,
    S::EquationSection,
    S::AlgorithmSection,
    S::Equation,
    S::Statement,
    S::IfEquation,
    S::IfStatement,
    S::ForEquation,
    S::ForStatement,
    S::ForIndices,
    S::ForIndex,
    S::WhileStatement,
    S::WhenEquation,
    S::WhenStatement,
    S::ConnectEquation,
    S::Expression,
    S::SimpleExpression,
    S::LogicalExpression,
    S::LogicalTerm,
    S::LogicalFactor,
    S::Relation,
    S::RelationalOperator,
    S::ArithmeticExpression,
    S::AddOperator,
    S::Term,
    S::MulOperator,
    S::Factor,
    S::Primary,
    S::TypeSpecifier,
    S::Name,
    S::ComponentReference,
    S::ResultReference,
    S::FunctionCallArgs,
    S::FunctionArguments,
    S::FunctionArgumentsNonFirst,
    S::ArrayArguments,
    S::ArrayArgumentsNonFirst,
    S::NamedArguments,
    S::NamedArgument,
    S::FunctionArgument,
    S::FunctionPartialApplication,
    S::OutputExpressionList,
    S::ExpressionList,
    S::ArraySubscripts,
    S::Subscript,
    S::Description,
    S::DescriptionString,
    S::AnnotationClause,
    S::StoredDefinition,
    S::StoredDefinition,
    S::StoredDefinition,
];

pub const IDENTS: [&str; 24] = [
    "x", "a", "B", "foo", "Real", "y1", "_z", "'q'", "endx", "e1", "E", "IF", "der_", "Modelica",
    "'a b'", "'x.y'", "'\\''", "'//'", "'\"'", "'/*'", "x_2", "ifx", "'+'", "'end'",
];
/// Names with a meaning in the language or in its libraries, which the
/// formatter must not care for
pub const WORDS: [&str; 62] = [
    "time",
    "Integer",
    "Boolean",
    "String",
    "Complex",
    "ExternalObject",
    "StateSelect",
    "AssertionLevel",
    "start",
    "fixed",
    "unit",
    "min",
    "max",
    "nominal",
    "quantity",
    "displayUnit",
    "stateSelect",
    "pre",
    "edge",
    "change",
    "sample",
    "reinit",
    "assert",
    "terminate",
    "terminal",
    "noEvent",
    "smooth",
    "delay",
    "cardinality",
    "homotopy",
    "semiLinear",
    "inStream",
    "actualStream",
    "spatialDistribution",
    "getInstanceName",
    "sin",
    "sqrt",
    "abs",
    "size",
    "ndims",
    "zeros",
    "ones",
    "fill",
    "sum",
    "array",
    "cat",
    "Documentation",
    "info",
    "revisions",
    "Icon",
    "Diagram",
    "Placement",
    "Line",
    "Dialog",
    "choices",
    "choice",
    "experiment",
    "version",
    "uses",
    "Evaluate",
    "Inline",
    "__Vendor",
];
/// What strings and comments may mean to tools
pub const PHRASES: [&str; 22] = [
    "<html>",
    "</html>",
    "<p>x</p>",
    "modelica://Modelica/x.png",
    "http://a.b/c?d=e",
    "file:x",
    "%name",
    "TODO",
    "FIXME: x",
    "mofmt: off",
    "mofmt: on",
    "mofmt:skip",
    "@formatter:off",
    "fmt: off",
    "noformat",
    "--------",
    "========",
    "########",
    "@param x",
    "<pre>",
    "$Id$",
    "#",
];
const STRINGS: [&str; 15] = [
    "\"s\"",
    "\"\"",
    "\"a b\"",
    "\"\\\"\"",
    "\"//\"",
    "\"/* x\"",
    "\"a\nb\"",
    "\"ąę€\"",
    "\"\\\\\"",
    "\"'\"",
    "\"\n\"",
    "\";\"",
    "\"  x  \"",
    "\"\n\n  y\n\"",
    "\"a\r\n  b\r\n\"",
];
const REALS: [&str; 10] = [
    "1.5", "1.", "2e3", "1.5E-3", "0.", "1.e+5", "10.25", "1E5", "3.14e10", "2e-7",
];
const UINTS: [&str; 5] = ["1", "0", "12", "007", "1000000"];

fn length(s: &mut Src) -> usize {
    if let Some(n) = dict::number(s, 24, 1, 1_000) {
        return n;
    }
    if let Some(n) = dict::number(s, 1024, 1_000, 70_000) {
        return n;
    }
    if s.chance(1, 8192) {
        return 65_500 + s.below(6_000);
    }
    if s.chance(1, 256) {
        return 1000 + s.below(4500);
    }
    let (a, b) = *s.pick(&[
        (1, 4),
        (1, 4),
        (1, 4),
        (1, 4),
        (1, 12),
        (1, 12),
        (1, 40),
        (1, 40),
        (1, 40),
        (70, 60),
        (110, 60),
        (200, 300),
    ]);
    a + s.below(b)
}

/// Name or quoted name
pub fn random_ident(s: &mut Src) -> String {
    const HEAD: &[u8] = b"aexznEXZ_";
    const REST: &[u8] = b"ae1xn0E_dZ9";
    const NAME: &[u8] = b"_abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
    const ANY: [&str; 20] = [
        "a", " ", "/", "*", "\"", ".", "\\'", "\\\\", "(", ";", "!", "//", "/*", "=", "+", "{",
        "end", "\\n", "\\\"", "0",
    ];
    if let Some(t) = dict::text(s, 8) {
        return ident_of(&t);
    }
    if s.chance(2, 16) {
        return s.pick(&WORDS).to_string();
    }
    if s.chance(1, 16) {
        return like_keyword(s);
    }
    let (n, times) = repeated(length(s));
    let mut out = String::new();
    if s.chance(11, 16) {
        let any = s.chance(8, 16);
        out.push(*s.pick(if any { &NAME[..53] } else { HEAD }) as char);
        while out.len() < n {
            out.push(*s.pick(if any { NAME } else { REST }) as char);
        }
        if crate::lexis::is_keyword(&out) {
            out.push('_');
        }
        out = out.repeat(times);
    } else {
        for _ in 0..n {
            if s.chance(4, 16) {
                out.push(printable(s));
            } else {
                out += s.pick(&ANY);
            }
        }
        out = format!("'{}'", out.repeat(times));
    }
    out
}

/// The text as a name, quoted if need be
fn ident_of(text: &str) -> String {
    let word = |c: char| c.is_ascii_alphanumeric() || c == '_';
    let t: String = text
        .chars()
        .filter(|c| (' '..='~').contains(c) && !"'\\`".contains(*c))
        .collect();
    if t.is_empty() || !t.chars().all(word) || t.starts_with(|c: char| c.is_ascii_digit()) {
        return format!("'{t}'");
    }
    if crate::lexis::is_keyword(&t) {
        return format!("{t}_");
    }
    t
}

/// Great lengths are made of repetitions
fn repeated(n: usize) -> (usize, usize) {
    match n {
        0..10_000 => (n, 1),
        _ => (n.div_ceil(100), 100),
    }
}

/// Name that resembles a keyword
fn like_keyword(s: &mut Src) -> String {
    let w = *s.pick(&crate::lexis::KEYWORDS);
    let out = match s.below(8) {
        0 => w.to_uppercase(),
        1 => w[..1].to_uppercase() + &w[1..],
        2 => format!("{w}_"),
        3 => format!("_{w}"),
        4 => format!("{w}1"),
        5 => format!("'{w}'"),
        6 => w[..w.len() - 1].to_string(),
        _ => w.to_string() + *s.pick(&crate::lexis::KEYWORDS),
    };
    if out.is_empty() || crate::lexis::is_keyword(&out) {
        return format!("{out}x");
    }
    out
}

/// Printable character that ends neither names nor strings
fn printable(s: &mut Src) -> char {
    match b' ' + s.below(95) as u8 {
        b'"' | b'\'' | b'\\' | b'`' => 'q',
        c => c as char,
    }
}

/// Digits, with fraction or exponent
pub fn random_number(s: &mut Src, real: bool) -> String {
    if let Some(n) = dict::number(s, 12, 1, usize::MAX / 4) {
        let tail = ["", ".0", ".", "e0", "e-3"];
        return format!("{n}{}", if real { tail[1 + s.below(4)] } else { tail[0] });
    }
    let most = *s.pick(&[3, 20, 120]);
    let n = dict::number(s, 12, 1, 500).unwrap_or_else(|| 1 + s.below(most));
    let digits = |s: &mut Src, n: usize| -> String {
        (0..n).map(|_| (b'0' + s.below(10) as u8) as char).collect()
    };
    let mut out = digits(s, n);
    if real {
        let kind = s.below(3);
        if kind != 1 {
            out.push('.');
            let n = s.below(6);
            out += &digits(s, n);
        }
        if kind > 0 {
            out += ["e", "E", "e+", "e-", "E+", "E-"][s.below(6)];
            let n = 1 + s.below(4);
            out += &digits(s, n);
        }
    }
    out
}

/// The text as a part of a string
fn string_part(text: &str, multiline: bool) -> String {
    let t = text.replace('\\', "\\\\").replace('"', "\\\"");
    if multiline {
        return t;
    }
    t.replace(['\n', '\r'], " ")
}

/// String literal
pub fn random_string(s: &mut Src, multiline: bool) -> String {
    const ANY: [&str; 44] = [
        "a",
        " ",
        "/",
        "*",
        "'",
        ".",
        "\\\"",
        "\\\\",
        "(",
        ";",
        "\u{105}",
        "\u{20ac}",
        "\u{1d11e}",
        "=",
        "+",
        "{",
        "end",
        "//",
        "/*",
        "*/",
        "\t",
        "\u{a0}",
        "\u{2028}",
        "\u{85}",
        "\u{feff}",
        "\0",
        "\x0b",
        "\x0c",
        "e\u{301}",
        "\u{1f600}",
        "\u{200d}",
        "\u{3000}",
        "\x7f",
        // Only if lines may end
        "\n",
        "\n  ",
        "\n\n",
        "\r\n",
        "\r",
        "\\\n",
        "\\\r\n",
        "\\n",
        "\\\u{20ac}",
        " \n",
        "\t\n",
    ];
    let known = dict::text(s, 8).map(|t| string_part(&t, multiline));
    if let Some(t) = &known {
        if s.chance(4, 16) {
            return format!("\"{t}\"");
        }
    }
    let (n, times) = repeated(length(s));
    let at = known.as_ref().map_or(0, |_| s.below(n.min(4) + 1));
    let mut out = String::new();
    if s.chance(2, 16) {
        out += s.pick(&PHRASES);
    }
    for i in 0..n {
        if let (Some(t), true) = (&known, at == i) {
            out += t;
        }
        if s.chance(4, 16) {
            out.push(printable(s));
        } else {
            out += ANY[s.below(if multiline { 44 } else { 33 })];
        }
    }
    format!("\"{}\"", out.repeat(times))
}

impl<'a, 'b> Gen<'a, 'b> {
    fn new(s: &'a mut Src<'b>, max: usize) -> Self {
        let p_desc = *s.pick(&[4, 0, 2, 8, 14]);
        let p_list = *s.pick(&[6, 2, 10, 12]);
        let p_op = *s.pick(&[3, 1, 5, 8]);
        let p_if = *s.pick(&[1, 0, 3]);
        let p_prefix = *s.pick(&[4, 1, 10]);
        let p_long = *s.pick(&[0, 0, 0, 0, 0, 9, 13, 15]);
        let p_sect = *s.pick(&[10, 3, 15]);
        let scale = *s.pick(&[1, 1, 1, 1, 1, 1, 1, 1, 2, 2, 5, 5, 5, 30]);
        let mut nest = Nest::Nothing;
        let mut nest_left = 0;
        if s.chance(1, 48) {
            nest = *s.pick(&[
                Nest::Classes,
                Nest::Blocks,
                Nest::Expressions,
                Nest::Modifications,
                Nest::Everything,
            ]);
            nest_left = *s.pick(&[12, 20, 40, 70, 140, 300]);
            if let Some(n) = dict::number(s, 2, 2, 300) {
                nest_left = n;
            }
        }
        let (mut pump_due, mut pump_left) = (0, 0);
        if s.chance(1, 40) {
            pump_due = 1 + s.below(60);
            pump_left = *s.pick(&[8, 17, 20, 33, 40, 65, 70, 110, 140, 260, 300, 520, 700]);
        }
        if let Some(n) = dict::number(s, 12, 2, 2500) {
            pump_due = 1 + s.below(60);
            pump_left = n;
        }
        let pump_ops = pump_due > 0 && s.chance(3, 16);
        if pump_ops {
            pump_due = pump_due.div_ceil(3);
        }
        // Most things alike, as in texts about one matter
        let habits = s.chance(2, 16).then(HashMap::new);
        Gen {
            habits,
            pump: None,
            pump_due,
            pump_left,
            pump_ops,
            s,
            toks: Vec::new(),
            items: Vec::new(),
            groups: Vec::new(),
            gap: None,
            depth: 0,
            least: 0,
            max,
            p_desc,
            p_list,
            p_op,
            p_if,
            p_prefix,
            p_long,
            p_sect,
            scale,
            nest,
            nest_left,
        }
    }

    // Choices

    fn spent(&self) -> bool {
        self.toks.len() > self.max
    }

    #[track_caller]
    fn ch(&mut self, n: usize) -> usize {
        if self.spent() {
            return 0;
        }
        self.habit(Location::caller(), n, |s| s.below(n))
    }

    #[track_caller]
    fn p(&mut self, num: usize) -> bool {
        if self.spent() {
            return false;
        }
        self.habit(Location::caller(), 2, |s| s.chance(num, 16) as usize) > 0
    }

    /// One of `n` choices, mostly the first one that was made at the same place
    /// if that is what it is like there
    fn habit(
        &mut self,
        site: &'static Location<'static>,
        n: usize,
        choose: impl FnOnce(&mut Src) -> usize,
    ) -> usize {
        let Some(habits) = self.habits.as_mut().filter(|_| !self.s.exhausted()) else {
            return choose(self.s);
        };
        if let Some(known) = habits.get(site) {
            return match *known {
                Some(x) if x < n && self.s.chance(7, 8) => x,
                _ => choose(self.s),
            };
        }
        let x = choose(self.s);
        let kept = self.s.chance(1, 2).then_some(x);
        habits.insert(site, kept);
        x
    }

    /// Are more levels of this kind due?
    fn nesting(&self, kind: Nest) -> bool {
        self.nest_left > 0 && !self.spent() && (self.nest == kind || self.nest == Nest::Everything)
    }

    /// Add one level?
    fn deeper(&mut self, kind: Nest) -> bool {
        let odds = if self.nest == kind { 63 } else { 40 };
        let more = self.nesting(kind) && self.s.chance(odds, 64);
        self.nest_left -= more as usize;
        more
    }

    #[track_caller]
    fn desc_p(&mut self) -> bool {
        let p = self.p_desc;
        if p == 0 && (self.pump.is_some() || self.scale > 1) {
            // One description may be anywhere in a long list
            return !self.spent() && self.s.chance(1, 64);
        }
        self.p(p)
    }

    /// Continue a list?
    #[track_caller]
    fn more(&mut self, len: usize) -> bool {
        let p = self.p_list;
        self.again(len, 12, p)
    }

    /// Repeat once more after `n` times, `most` being usual, with probability
    /// `p`? One site of the generator may be repeated very often in a text.
    #[track_caller]
    fn again(&mut self, n: usize, most: usize, p: usize) -> bool {
        if !self.pump_ops && self.pumped(Location::caller()) {
            return !self.spent();
        }
        n < most * self.scale && self.go(p)
    }

    /// Is this the place of the repetition that is prolonged?
    fn pumped(&mut self, site: &'static Location<'static>) -> bool {
        if self.pump_due > 0 {
            self.pump_due -= 1;
            if self.pump_due == 0 {
                self.pump = Some(site);
            }
        }
        let more = self.pump == Some(site) && self.pump_left > 0;
        self.pump_left -= more as usize;
        more
    }

    /// Repeat, with probability `p` unless long sequences are preferred?
    #[track_caller]
    fn go(&mut self, p: usize) -> bool {
        let p = p.max(self.p_long);
        self.p(p)
    }

    #[track_caller]
    fn pre_p(&mut self) -> bool {
        let p = self.p_prefix;
        self.p(p)
    }

    // Emission

    fn gap(&mut self, gap: Gap) {
        debug_assert!(self.gap.is_none(), "gap {:?} set twice", self.gap);
        self.gap = Some(gap);
        self.items.push(Item::Gap);
    }

    fn sp(&mut self) {
        self.gap(Gap::Sp);
    }

    fn line(&mut self, b: Blank) {
        self.gap(Gap::Line(b));
    }

    fn tok(&mut self, kind: K, text: &str) {
        let gap = self.gap.take().unwrap_or(Gap::Glue);
        self.items.push(Item::Tok(self.toks.len()));
        self.toks.push(Tok {
            kind,
            text: text.to_string(),
            gap,
        });
    }

    fn op(&mut self, t: &str) {
        self.tok(K::Op, t);
    }

    fn kw(&mut self, t: &str) {
        self.tok(K::Kw, t);
    }

    fn ident(&mut self) {
        let i = self.ch(IDENTS.len() + 3);
        match IDENTS.get(i) {
            Some(t) => self.tok(K::Ident, t),
            None => {
                let t = random_ident(self.s);
                self.tok(K::Ident, &t);
            }
        }
    }

    fn number(&mut self, real: bool) {
        let (kind, pool) = if real {
            (K::UReal, &REALS[..])
        } else {
            (K::UInt, &UINTS[..])
        };
        let i = self.ch(pool.len() + 1);
        match pool.get(i) {
            Some(t) => self.tok(kind, t),
            None => {
                let t = random_number(self.s, real);
                self.tok(kind, &t);
            }
        }
    }

    fn string(&mut self) {
        let i = self.ch(32);
        match STRINGS.get(i) {
            Some(t) => self.tok(K::Str, t),
            None if i < 22 => {
                let t = random_string(self.s, true);
                self.tok(K::Str, &t);
            }
            None => self.tok(K::Str, "\"s\""),
        }
    }

    fn node(&mut self, kind: S, f: impl FnOnce(&mut Self)) {
        self.items.push(Item::Enter(kind));
        f(self);
        self.items.push(Item::Exit);
    }

    fn indented(&mut self, f: impl FnOnce(&mut Self)) {
        self.items.push(Item::Indent);
        f(self);
        self.items.push(Item::Dedent);
    }

    fn scope(&mut self, f: impl FnOnce(&mut Self)) {
        self.items.push(Item::ScopeIn);
        f(self);
        self.items.push(Item::ScopeOut);
    }

    fn group(&mut self) -> usize {
        self.groups.push((self.toks.len(), self.toks.len()));
        self.groups.len() - 1
    }

    /// Close the group at the last lexeme
    fn close(&mut self, g: usize) {
        self.groups[g].1 = self.toks.len() - 1;
    }

    // Stored definition

    fn stored_definition(&mut self) {
        self.node(S::StoredDefinition, |g| {
            if g.p(6) {
                g.line(Blank::Illegal);
                g.kw("within");
                g.sp();
                if g.p(10) {
                    g.name();
                    g.op(";");
                } else {
                    g.op(";");
                }
            }
            let mut n = 0;
            loop {
                g.line(Blank::Legal);
                if g.p(3) {
                    g.kw("final");
                    g.sp();
                }
                g.class_definition();
                g.op(";");
                n += 1;
                if g.toks.len() >= g.least && !g.again(n, 4, 5) {
                    break;
                }
            }
        });
    }

    fn class_definition(&mut self) {
        self.node(S::ClassDefinition, |g| {
            if g.p(2) {
                g.kw("encapsulated");
                g.sp();
            }
            g.class_prefixes();
            g.sp();
            g.class_specifier();
        });
    }

    fn class_prefixes(&mut self) {
        self.node(S::ClassPrefixes, |g| {
            if g.p(2) {
                g.kw("partial");
                g.sp();
            }
            let words: &[&str] = match g.ch(16) {
                0 => &["model"],
                1 => &["class"],
                2 => &["record"],
                3 => &["block"],
                4 => &["connector"],
                5 => &["expandable", "connector"],
                6 => &["type"],
                7 => &["package"],
                8 => &["function"],
                9 => &["operator", "function"],
                10 => &["pure", "function"],
                11 => &["impure", "function"],
                12 => &["pure", "operator", "function"],
                13 => &["impure", "operator", "function"],
                14 => &["operator"],
                _ => &["operator", "record"],
            };
            for (i, w) in words.iter().enumerate() {
                if i > 0 {
                    g.sp();
                }
                g.kw(w);
            }
        });
    }

    fn class_specifier(&mut self) {
        let long = self.nesting(Nest::Classes) || self.nesting(Nest::Blocks);
        self.node(S::ClassSpecifier, |g| {
            match if long { 0 } else { g.ch(12) } {
                0..=8 => g.long_class_specifier(),
                9 | 10 => g.short_class_specifier(),
                _ => g.der_class_specifier(),
            }
        });
    }

    fn long_class_specifier(&mut self) {
        self.node(S::LongClassSpecifier, |g| {
            if g.p(2) {
                g.kw("extends");
                g.sp();
                g.ident();
                if g.p(8) {
                    g.class_modification();
                }
            } else {
                g.ident();
            }
            g.description_string();
            g.composition();
            g.line(Blank::Required);
            g.kw("end");
            g.sp();
            g.ident();
        });
    }

    fn short_class_specifier(&mut self) {
        self.node(S::ShortClassSpecifier, |g| {
            g.ident();
            g.sp();
            g.op("=");
            g.sp();
            if g.p(7) {
                g.kw("enumeration");
                let gr = g.group();
                g.op("(");
                match g.ch(8) {
                    0 => (),
                    1 => g.op(":"),
                    _ => g.indented(|g| {
                        g.gap(Gap::Grp(gr, false));
                        g.enum_list(gr);
                    }),
                }
                g.op(")");
                g.close(gr);
            } else {
                g.node(S::BasePrefix, |g| {
                    if g.p(4) {
                        let w = ["input", "output"][g.ch(2)];
                        g.kw(w);
                        g.sp();
                    }
                });
                g.type_specifier();
                if g.p(4) {
                    g.array_subscripts();
                }
                if g.p(6) {
                    g.class_modification();
                }
            }
            g.description(true);
        });
    }

    fn der_class_specifier(&mut self) {
        self.node(S::DerClassSpecifier, |g| {
            g.ident();
            g.sp();
            g.op("=");
            g.sp();
            g.kw("der");
            let gr = g.group();
            g.op("(");
            g.indented(|g| {
                g.gap(Gap::Grp(gr, false));
                g.type_specifier();
                let mut n = 0;
                loop {
                    g.op(",");
                    g.gap(Gap::Grp(gr, true));
                    g.ident();
                    n += 1;
                    if !g.more(n) {
                        break;
                    }
                }
            });
            g.op(")");
            g.close(gr);
            g.description(true);
        });
    }

    fn base_prefix(&mut self) {
        self.node(S::BasePrefix, |g| match g.ch(3) {
            0 => (),
            1 => g.kw("input"),
            _ => g.kw("output"),
        });
    }

    fn enum_list(&mut self, gr: usize) {
        self.node(S::EnumList, |g| {
            let mut n = 0;
            loop {
                g.enumeration_literal();
                n += 1;
                if !g.more(n) {
                    break;
                }
                g.op(",");
                g.gap(Gap::Grp(gr, true));
            }
        });
    }

    fn enumeration_literal(&mut self) {
        self.node(S::EnumerationLiteral, |g| {
            g.ident();
            g.description(true);
        });
    }

    fn composition(&mut self) {
        self.node(S::Composition, |g| {
            g.element_list();
            let mut n = 0;
            while (n == 0 && g.nesting(Nest::Blocks)) || g.again(n, 5, g.p_sect) {
                n += 1;
                let section = g.nesting(Nest::Blocks);
                match if section { 2 + g.ch(4) } else { g.ch(6) } {
                    0 | 1 => {
                        g.line(Blank::Required);
                        let w = ["protected", "public"][g.ch(2)];
                        g.kw(w);
                        g.element_list();
                    }
                    2 | 3 => {
                        g.line(Blank::Required);
                        g.equation_section();
                    }
                    _ => {
                        g.line(Blank::Required);
                        g.algorithm_section();
                    }
                }
            }
            if g.p(2) {
                g.line(Blank::Required);
                g.kw("external");
                if g.p(8) {
                    g.sp();
                    g.language_specification();
                }
                if g.p(8) {
                    g.indented(|g| {
                        g.line(Blank::Required);
                        g.external_function_call();
                    });
                }
                if g.p(5) {
                    g.indented(|g| {
                        g.indented(|g| {
                            g.line(Blank::Illegal);
                            g.annotation_clause();
                        })
                    });
                }
                g.op(";");
            }
            if g.p(3) {
                g.indented(|g| {
                    g.line(Blank::Required);
                    g.annotation_clause();
                });
                g.op(";");
            }
        });
    }

    fn language_specification(&mut self) {
        self.node(S::LanguageSpecification, |g| g.string());
    }

    fn external_function_call(&mut self) {
        self.node(S::ExternalFunctionCall, |g| {
            g.indented(|g| {
                if g.p(8) {
                    g.component_reference();
                    g.sp();
                    g.op("=");
                    g.sp();
                }
                g.ident();
                let gr = g.group();
                g.op("(");
                if g.p(10) {
                    g.gap(Gap::Grp(gr, false));
                    g.expression_list(gr);
                }
                g.op(")");
                g.close(gr);
            });
        });
    }

    fn element_list(&mut self) {
        let mut n = 0;
        self.node(S::ElementList, |g| {
            g.indented(|g| {
                while (n == 0 && g.nesting(Nest::Classes))
                    || g.again(n, 6, if n == 0 { 9 } else { 7 })
                {
                    g.line(if n == 0 {
                        Blank::Required
                    } else {
                        Blank::Legal
                    });
                    g.element();
                    g.op(";");
                    n += 1;
                }
            })
        });
    }

    fn element(&mut self) {
        let body = self.nesting(Nest::Classes);
        self.node(S::Element, |g| match if body { 0 } else { g.ch(10) } {
            0..=3 => g.element_body(),
            4 => g.import_clause(),
            5 => g.extends_clause(),
            _ => {
                for w in ["redeclare", "final", "inner", "outer"] {
                    if g.pre_p() {
                        g.kw(w);
                        g.sp();
                    }
                }
                if g.p(6) {
                    g.kw("replaceable");
                    g.sp();
                    g.element_body();
                    if g.p(8) {
                        g.indented(|g| {
                            g.line(Blank::Illegal);
                            g.constraining_clause();
                        });
                        g.description(true);
                    }
                } else {
                    g.element_body();
                }
            }
        });
    }

    fn element_body(&mut self) {
        if self.deeper(Nest::Classes) || self.depth < 4 * self.scale && self.p(4) {
            self.depth += 1;
            self.class_definition();
            self.depth -= 1;
        } else {
            self.component_clause();
        }
    }

    fn import_clause(&mut self) {
        self.node(S::ImportClause, |g| {
            g.kw("import");
            g.sp();
            match g.ch(4) {
                0 => g.name(),
                1 => {
                    g.ident();
                    g.sp();
                    g.op("=");
                    g.sp();
                    g.name();
                }
                2 => {
                    g.name();
                    g.op(".*");
                }
                _ => {
                    g.name();
                    g.op(".");
                    let gr = g.group();
                    g.op("{");
                    g.indented(|g| {
                        g.gap(Gap::Grp(gr, false));
                        g.import_list(gr);
                    });
                    g.op("}");
                    g.close(gr);
                }
            }
            g.description(true);
        });
    }

    fn import_list(&mut self, gr: usize) {
        self.node(S::ImportList, |g| {
            let mut n = 0;
            loop {
                g.ident();
                n += 1;
                if !g.more(n) {
                    break;
                }
                g.op(",");
                g.gap(Gap::Grp(gr, true));
            }
        });
    }

    fn extends_clause(&mut self) {
        self.node(S::ExtendsClause, |g| {
            g.kw("extends");
            g.sp();
            g.type_specifier();
            if g.p(8) {
                g.class_or_inheritance_modification();
            }
            if g.p(4) {
                g.indented(|g| {
                    g.line(Blank::Illegal);
                    g.annotation_clause();
                });
            }
        });
    }

    fn constraining_clause(&mut self) {
        self.node(S::ConstrainingClause, |g| {
            g.kw("constrainedby");
            g.sp();
            g.type_specifier();
            if g.p(6) {
                g.class_modification();
            }
        });
    }

    fn class_or_inheritance_modification(&mut self) {
        self.node(S::ClassOrInheritanceModification, |g| {
            let gr = g.group();
            g.indented(|g| {
                g.op("(");
                if g.p(13) {
                    g.gap(Gap::Grp(gr, false));
                    g.argument_or_inheritance_modification_list(gr);
                }
                g.op(")");
            });
            g.close(gr);
        });
    }

    fn argument_or_inheritance_modification_list(&mut self, gr: usize) {
        self.node(S::ArgumentOrInheritanceModificationList, |g| {
            let mut n = 0;
            loop {
                if g.p(5) {
                    g.inheritance_modification();
                } else {
                    g.argument();
                }
                n += 1;
                if !g.more(n) {
                    break;
                }
                g.op(",");
                g.gap(Gap::Grp(gr, true));
            }
        });
    }

    fn inheritance_modification(&mut self) {
        self.node(S::InheritanceModification, |g| {
            g.kw("break");
            g.sp();
            if g.p(7) {
                g.connect_equation();
            } else {
                g.ident();
            }
        });
    }

    // Components

    fn component_clause(&mut self) {
        self.node(S::ComponentClause, |g| {
            if g.type_prefix() {
                g.sp();
            }
            g.type_specifier();
            if g.p(4) {
                g.array_subscripts();
            }
            g.component_list();
        });
    }

    fn type_prefix(&mut self) -> bool {
        let mut any = false;
        self.node(S::TypePrefix, |g| {
            for words in [
                &["flow", "stream"][..],
                &["discrete", "parameter", "constant"],
                &["input", "output"],
            ] {
                if g.pre_p() {
                    if any {
                        g.sp();
                    }
                    let w = words[g.ch(words.len())];
                    g.kw(w);
                    any = true;
                }
            }
        });
        any
    }

    fn component_list(&mut self) {
        let from = self.items.len();
        self.node(S::ComponentList, |g| {
            let gr = g.group();
            let first = g.toks.len();
            g.indented(|g| {
                let mut n = 0;
                loop {
                    g.gap(Gap::Grp(gr, true));
                    g.component_declaration();
                    n += 1;
                    if !g.more(n + 4) {
                        break;
                    }
                    g.op(",");
                }
                if n == 1 {
                    // Not a list
                    g.toks[first].gap = Gap::Sp;
                }
            });
            g.close(gr);
            if g.toks[first].gap == Gap::Sp {
                // Neither is it indented
                let i = g.items[from..]
                    .iter()
                    .position(|i| matches!(i, Item::Indent))
                    .unwrap();
                g.items.remove(from + i);
                g.items.pop();
            }
        });
    }

    fn component_declaration(&mut self) {
        self.node(S::ComponentDeclaration, |g| {
            g.declaration();
            if g.p(2) {
                g.sp();
                g.condition_attribute();
            }
            g.description(true);
        });
    }

    fn condition_attribute(&mut self) {
        self.node(S::ConditionAttribute, |g| {
            g.kw("if");
            g.sp();
            g.expression();
        });
    }

    fn declaration(&mut self) {
        self.node(S::Declaration, |g| {
            g.ident();
            if g.p(4) {
                g.array_subscripts();
            }
            if g.nesting(Nest::Modifications) || g.p(8) {
                g.modification();
            }
        });
    }

    // Modifications

    fn modification(&mut self) {
        let nested = self.deeper(Nest::Modifications);
        self.node(S::Modification, |g| {
            match if nested { 2 + g.ch(2) } else { g.ch(4) } {
                0 | 1 => {
                    g.sp();
                    let w = ["=", "=", ":="][g.ch(3)];
                    g.op(w);
                    g.modification_expression();
                }
                2 => g.class_modification(),
                _ => {
                    g.class_modification();
                    g.sp();
                    g.op("=");
                    g.modification_expression();
                }
            }
        });
    }

    fn modification_expression(&mut self) {
        self.node(S::ModificationExpression, |g| {
            if g.p(2) {
                g.sp();
                g.kw("break");
            } else {
                g.rhs();
            }
        });
    }

    fn class_modification(&mut self) {
        self.node(S::ClassModification, |g| {
            let gr = g.group();
            g.indented(|g| {
                g.op("(");
                if g.nesting(Nest::Modifications) || g.depth < 6 * g.scale && g.p(13) {
                    g.depth += 1;
                    g.gap(Gap::Grp(gr, false));
                    g.argument_list(gr);
                    g.depth -= 1;
                }
                g.op(")");
            });
            g.close(gr);
        });
    }

    fn argument_list(&mut self, gr: usize) {
        self.node(S::ArgumentList, |g| {
            let mut n = 0;
            loop {
                g.argument();
                n += 1;
                if !g.more(n) {
                    break;
                }
                g.op(",");
                g.gap(Gap::Grp(gr, true));
            }
        });
    }

    fn argument(&mut self) {
        self.node(S::Argument, |g| {
            if g.p(3) {
                g.element_redeclaration();
            } else {
                g.element_modification_or_replaceable();
            }
        });
    }

    fn element_modification_or_replaceable(&mut self) {
        self.node(S::ElementModificationOrReplaceable, |g| {
            for w in ["each", "final"] {
                if g.p(3) {
                    g.kw(w);
                    g.sp();
                }
            }
            if g.p(2) {
                g.element_replaceable();
            } else {
                g.element_modification();
            }
        });
    }

    fn element_modification(&mut self) {
        self.node(S::ElementModification, |g| {
            g.name();
            if g.nesting(Nest::Modifications) || g.p(9) {
                g.modification();
            }
            g.description_string();
        });
    }

    fn element_redeclaration(&mut self) {
        self.node(S::ElementRedeclaration, |g| {
            g.kw("redeclare");
            g.sp();
            for w in ["each", "final"] {
                if g.p(3) {
                    g.kw(w);
                    g.sp();
                }
            }
            match g.ch(3) {
                0 => g.component_clause1(),
                1 => g.short_class_definition(),
                _ => g.element_replaceable(),
            }
        });
    }

    fn element_replaceable(&mut self) {
        self.node(S::ElementReplaceable, |g| {
            g.kw("replaceable");
            g.sp();
            if g.p(6) {
                g.short_class_definition();
            } else {
                g.component_clause1();
            }
            if g.p(6) {
                g.indented(|g| {
                    g.line(Blank::Illegal);
                    g.constraining_clause();
                });
            }
        });
    }

    fn component_clause1(&mut self) {
        self.node(S::ComponentClause1, |g| {
            if g.type_prefix() {
                g.sp();
            }
            g.type_specifier();
            g.sp();
            g.component_declaration1();
        });
    }

    fn component_declaration1(&mut self) {
        self.node(S::ComponentDeclaration1, |g| {
            g.declaration();
            g.description(true);
        });
    }

    fn short_class_definition(&mut self) {
        self.node(S::ShortClassDefinition, |g| {
            g.class_prefixes();
            g.sp();
            g.short_class_specifier();
        });
    }

    // Equations

    fn equation_section(&mut self) {
        self.node(S::EquationSection, |g| {
            if g.p(5) {
                g.kw("initial");
                g.sp();
            }
            g.kw("equation");
            g.indented(|g| {
                let mut n = 0;
                while (n == 0 && g.nesting(Nest::Blocks))
                    || g.again(n, 6, if n == 0 { 13 } else { 7 })
                {
                    g.line(if n == 0 {
                        Blank::Required
                    } else {
                        Blank::Legal
                    });
                    g.equation(Head::Section);
                    g.op(";");
                    n += 1;
                }
            });
        });
    }

    fn algorithm_section(&mut self) {
        self.node(S::AlgorithmSection, |g| {
            if g.p(5) {
                g.kw("initial");
                g.sp();
            }
            g.kw("algorithm");
            g.indented(|g| {
                let mut n = 0;
                while (n == 0 && g.nesting(Nest::Blocks))
                    || g.again(n, 6, if n == 0 { 13 } else { 7 })
                {
                    g.line(if n == 0 {
                        Blank::Required
                    } else {
                        Blank::Legal
                    });
                    g.statement();
                    g.op(";");
                    n += 1;
                }
            });
        });
    }

    fn equation(&mut self, head: Head) {
        self.node(S::Equation, |g| {
            let nested = g.deeper(Nest::Blocks);
            let deep = !nested && g.depth > 4 * g.scale;
            match if nested { 6 + g.ch(3) } else { g.ch(12) } {
                6 if !deep => g.if_equation(),
                7 if !deep => g.for_equation(),
                8 if !deep => g.when_equation(),
                9 => g.connect_equation(),
                k => {
                    g.scope(|g| g.simple_expression(head));
                    if k != 5 && k != 10 {
                        g.sp();
                        g.op("=");
                        g.rhs();
                    }
                }
            }
            g.description(true);
        });
    }

    /// Expression after `=` or `:=`, with the gap before it
    fn rhs(&mut self) {
        let p = self.p_if;
        let nested =
            self.nesting(Nest::Expressions) && self.ch(8) == 7 && self.deeper(Nest::Expressions);
        if nested || self.depth < 6 * self.scale && self.p(p) {
            self.indented(|g| {
                let gr = g.group();
                g.gap(Gap::Grp(gr, true));
                g.scope(|g| g.if_expression(gr));
            });
        } else {
            self.sp();
            self.scope(|g| g.node(S::Expression, |g| g.simple_expression(Head::Any)));
        }
    }

    fn statement(&mut self) {
        self.node(S::Statement, |g| {
            let nested = g.deeper(Nest::Blocks);
            let deep = !nested && g.depth > 4 * g.scale;
            match if nested { 6 + g.ch(4) } else { g.ch(14) } {
                3 => {
                    g.op("(");
                    g.scope(|g| g.output_expression_list());
                    g.op(")");
                    g.sp();
                    g.op(":=");
                    g.sp();
                    g.component_reference();
                    g.function_call_args();
                }
                4 => g.kw("break"),
                5 => g.kw("return"),
                6 if !deep => g.if_statement(),
                7 if !deep => g.for_statement(),
                8 if !deep => g.when_statement(),
                9 if !deep => g.while_statement(),
                10 | 11 => {
                    g.component_reference();
                    g.function_call_args();
                }
                _ => {
                    g.component_reference();
                    g.sp();
                    g.op(":=");
                    g.rhs();
                }
            }
            g.description(true);
        });
    }

    fn block(&mut self, equations: bool) {
        self.depth += 1;
        let mut n = 0;
        while (n == 0 && self.nesting(Nest::Blocks))
            || self.again(n, 4, if n == 0 { 12 } else { 5 })
        {
            self.indented(|g| {
                g.line(Blank::Legal);
                if equations {
                    g.equation(Head::Block);
                } else {
                    g.statement();
                }
            });
            self.op(";");
            n += 1;
        }
        self.depth -= 1;
    }

    fn end_block(&mut self, w: &str) {
        self.line(Blank::Legal);
        self.kw("end");
        self.sp();
        self.kw(w);
    }

    /// `if` or `when` condition
    fn condition(&mut self, w: &str) {
        self.kw(w);
        self.sp();
        self.expression();
        self.sp();
        self.kw("then");
    }

    fn if_block(&mut self, equations: bool) {
        self.condition("if");
        self.block(equations);
        let mut n = 0;
        while self.again(n, 3, 5) {
            self.line(Blank::Legal);
            self.condition("elseif");
            self.block(equations);
            n += 1;
        }
        if self.p(6) {
            self.line(Blank::Legal);
            self.kw("else");
            self.block(equations);
        }
        self.end_block("if");
    }

    fn if_equation(&mut self) {
        self.node(S::IfEquation, |g| g.if_block(true));
    }

    fn if_statement(&mut self) {
        self.node(S::IfStatement, |g| g.if_block(false));
    }

    fn when_block(&mut self, equations: bool) {
        self.condition("when");
        self.block(equations);
        let mut n = 0;
        while self.again(n, 3, 5) {
            self.line(Blank::Legal);
            self.condition("elsewhen");
            self.block(equations);
            n += 1;
        }
        self.end_block("when");
    }

    fn when_equation(&mut self) {
        self.node(S::WhenEquation, |g| g.when_block(true));
    }

    fn when_statement(&mut self) {
        self.node(S::WhenStatement, |g| g.when_block(false));
    }

    fn for_block(&mut self, equations: bool) {
        self.kw("for");
        self.sp();
        self.for_indices();
        self.sp();
        self.kw("loop");
        self.block(equations);
        self.end_block("for");
    }

    fn for_equation(&mut self) {
        self.node(S::ForEquation, |g| g.for_block(true));
    }

    fn for_statement(&mut self) {
        self.node(S::ForStatement, |g| g.for_block(false));
    }

    fn while_statement(&mut self) {
        self.node(S::WhileStatement, |g| {
            g.kw("while");
            g.sp();
            g.expression();
            g.sp();
            g.kw("loop");
            g.block(false);
            g.end_block("while");
        });
    }

    fn for_indices(&mut self) {
        self.node(S::ForIndices, |g| {
            let mut n = 0;
            loop {
                g.for_index();
                n += 1;
                if !g.again(n, 3 + 1, 4) {
                    break;
                }
                g.op(",");
                g.sp();
            }
        });
    }

    fn for_index(&mut self) {
        self.node(S::ForIndex, |g| {
            g.ident();
            if g.p(10) {
                g.sp();
                g.kw("in");
                g.sp();
                g.expression();
            }
        });
    }

    fn connect_equation(&mut self) {
        self.node(S::ConnectEquation, |g| {
            let gr = g.group();
            g.indented(|g| {
                g.kw("connect");
                g.op("(");
                g.gap(Gap::Grp(gr, false));
                g.component_reference();
                g.op(",");
                g.gap(Gap::Grp(gr, true));
                g.component_reference();
                g.op(")");
            });
            g.close(gr);
        });
    }

    // Expressions

    fn expression(&mut self) {
        self.scope(|g| g.expression_in_scope());
    }

    fn expression_in_scope(&mut self) {
        let p = self.p_if;
        let nested =
            self.nesting(Nest::Expressions) && self.ch(8) == 7 && self.deeper(Nest::Expressions);
        if nested || self.depth < 6 * self.scale && self.p(p) {
            let gr = self.group();
            self.if_expression(gr);
        } else {
            self.node(S::Expression, |g| g.simple_expression(Head::Any));
        }
    }

    fn if_expression(&mut self, gr: usize) {
        self.depth += 1;
        self.node(S::Expression, |g| {
            g.groups[gr].0 = g.toks.len();
            g.kw("if");
            g.sp();
            g.expression();
            g.sp();
            g.kw("then");
            g.indented(|g| {
                g.gap(Gap::Grp(gr, true));
                g.expression();
            });
            let mut n = 0;
            while g.again(n, 3, 4) {
                g.gap(Gap::Grp(gr, true));
                g.kw("elseif");
                g.sp();
                g.expression();
                g.sp();
                g.kw("then");
                g.indented(|g| {
                    g.gap(Gap::Grp(gr, true));
                    g.expression();
                });
                n += 1;
            }
            g.gap(Gap::Grp(gr, true));
            g.kw("else");
            g.indented(|g| {
                g.gap(Gap::Grp(gr, true));
                g.expression();
            });
            g.close(gr);
        });
        self.depth -= 1;
    }

    /// Choose whether to add an operator of a kind
    #[track_caller]
    fn op_p(&mut self, n: usize) -> bool {
        if self.pump_ops && self.pumped(Location::caller()) {
            return !self.spent();
        }
        let p = self.p_op;
        n < 4 && self.p(p)
    }

    /// The same for those that are less common
    #[track_caller]
    fn rare_op_p(&mut self, n: usize) -> bool {
        if self.pump_ops && self.pumped(Location::caller()) {
            return !self.spent();
        }
        let p = self.p_op;
        n < 5 && self.p(4) && self.p(p)
    }

    fn bin(&mut self, f: impl FnOnce(&mut Self)) {
        self.gap(Gap::Bin);
        f(self);
        self.sp();
    }

    fn simple_expression(&mut self, head: Head) {
        self.node(S::SimpleExpression, |g| {
            g.logical_expression(head);
            if g.p(1) {
                g.sp();
                g.op(":");
                g.sp();
                g.logical_expression(Head::Any);
                if g.p(6) {
                    g.sp();
                    g.op(":");
                    g.sp();
                    g.logical_expression(Head::Any);
                }
            }
        });
    }

    fn logical_expression(&mut self, head: Head) {
        self.node(S::LogicalExpression, |g| {
            g.logical_term(head);
            let mut n = 1;
            while g.rare_op_p(n) {
                g.bin(|g| g.kw("or"));
                g.logical_term(Head::Any);
                n += 1;
            }
        });
    }

    fn logical_term(&mut self, head: Head) {
        self.node(S::LogicalTerm, |g| {
            g.logical_factor(head);
            let mut n = 1;
            while g.rare_op_p(n) {
                g.bin(|g| g.kw("and"));
                g.logical_factor(Head::Any);
                n += 1;
            }
        });
    }

    fn logical_factor(&mut self, head: Head) {
        self.node(S::LogicalFactor, |g| {
            if g.p(1) {
                g.kw("not");
                g.sp();
                g.relation(Head::Any);
            } else {
                g.relation(head);
            }
        });
    }

    fn relation(&mut self, head: Head) {
        self.node(S::Relation, |g| {
            g.arithmetic_expression(head);
            if g.p(5) && g.op_p(0) {
                g.bin(|g| g.relational_operator());
                g.arithmetic_expression(Head::Any);
            }
        });
    }

    fn relational_operator(&mut self) {
        self.node(S::RelationalOperator, |g| {
            let w = ["<", "<=", ">", ">=", "==", "<>"][g.ch(6)];
            g.op(w);
        });
    }

    fn arithmetic_expression(&mut self, head: Head) {
        self.node(S::ArithmeticExpression, |g| {
            if g.p(2) {
                g.add_operator();
                g.term(Head::Any);
            } else {
                g.term(head);
            }
            let mut n = 0;
            while g.op_p(n) {
                g.bin(|g| g.add_operator());
                g.term(Head::Any);
                n += 1;
            }
        });
    }

    fn add_operator(&mut self) {
        self.node(S::AddOperator, |g| {
            let w = ["+", "-", ".+", ".-"][g.ch(4)];
            g.op(w);
        });
    }

    fn term(&mut self, head: Head) {
        self.node(S::Term, |g| {
            g.factor(head);
            let mut n = 0;
            while g.op_p(n) {
                g.bin(|g| g.mul_operator());
                g.factor(Head::Any);
                n += 1;
            }
        });
    }

    fn mul_operator(&mut self) {
        self.node(S::MulOperator, |g| {
            let w = ["*", "/", ".*", "./"][g.ch(4)];
            g.op(w);
        });
    }

    fn factor(&mut self, head: Head) {
        self.node(S::Factor, |g| {
            g.primary(head);
            if g.p(5) && g.op_p(0) {
                g.bin(|g| {
                    let w = ["^", ".^"][g.ch(2)];
                    g.op(w);
                });
                g.primary(Head::Any);
            }
        });
    }

    fn primary(&mut self, head: Head) {
        let nested = self.deeper(Nest::Expressions);
        let deep = !nested && self.depth > 5 * self.scale;
        self.depth += 1;
        self.node(S::Primary, |g| {
            match if nested {
                [10, 12, 14, 18, 16][g.ch(5)]
            } else {
                g.ch(24)
            } {
                5 | 6 => {
                    g.number(false);
                }
                7 => {
                    g.number(true);
                }
                8 => g.string(),
                9 => {
                    let w = ["true", "false"][g.ch(2)];
                    g.tok(K::Bool, w);
                }
                10 | 11 if !deep => {
                    g.op("(");
                    g.output_expression_list();
                    g.op(")");
                    if g.p(3) {
                        g.array_subscripts();
                    }
                }
                12 | 13 if !deep => {
                    let gr = g.group();
                    g.indented(|g| {
                        g.op("[");
                        let mut rows: Vec<(usize, usize)> = Vec::new();
                        loop {
                            g.gap(Gap::Grp(gr, !rows.is_empty()));
                            let row = g.group();
                            let from = g.toks.len();
                            g.expression_list(row);
                            g.close(row);
                            rows.push((row, from));
                            if !g.again(rows.len(), 3 + 1, 7) {
                                break;
                            }
                            g.op(";");
                        }
                        if let [(row, from)] = rows[..] {
                            // A single row is wrapped together with the brackets
                            for t in &mut g.toks[from..] {
                                if t.gap == Gap::Grp(row, true) {
                                    t.gap = Gap::Grp(gr, true);
                                }
                            }
                        }
                    });
                    g.op("]");
                    g.close(gr);
                }
                14 | 15 if !deep => {
                    let gr = g.group();
                    g.indented(|g| {
                        g.op("{");
                        g.gap(Gap::Grp(gr, false));
                        g.array_arguments(gr);
                    });
                    g.op("}");
                    g.close(gr);
                }
                16 if !deep => {
                    let w = match head {
                        Head::Section => ["der", "pure", "der"][g.ch(3)],
                        _ => ["der", "pure", "initial"][g.ch(3)],
                    };
                    g.kw(w);
                    g.function_call_args();
                }
                17 if head == Head::Any => g.kw("end"),
                18..=20 if !deep => {
                    g.component_reference();
                    g.function_call_args();
                }
                _ => g.component_reference(),
            }
        });
        self.depth -= 1;
    }

    fn type_specifier(&mut self) {
        self.node(S::TypeSpecifier, |g| {
            if g.p(2) {
                g.op(".");
            }
            g.name();
        });
    }

    fn name(&mut self) {
        self.node(S::Name, |g| {
            g.ident();
            let mut n = 0;
            while g.again(n, 3, 4) {
                g.op(".");
                g.ident();
                n += 1;
            }
        });
    }

    fn component_reference(&mut self) {
        self.node(S::ComponentReference, |g| {
            if g.p(1) {
                g.op(".");
            }
            let mut n = 0;
            loop {
                g.ident();
                if g.depth < 7 * g.scale && g.p(2) {
                    g.array_subscripts();
                }
                n += 1;
                if !g.again(n, 3 + 1, 3) {
                    break;
                }
                g.op(".");
            }
        });
    }

    fn result_reference(&mut self) {
        self.node(S::ResultReference, |g| {
            if g.p(9) {
                g.kw("der");
                g.op("(");
                g.component_reference();
                if g.p(8) {
                    g.op(",");
                    g.sp();
                    g.number(false);
                }
                g.op(")");
            } else {
                g.component_reference();
            }
        });
    }

    fn function_call_args(&mut self) {
        self.node(S::FunctionCallArgs, |g| {
            let gr = g.group();
            g.indented(|g| {
                g.op("(");
                if g.depth < 8 * g.scale && g.p(13) {
                    g.depth += 1;
                    g.gap(Gap::Grp(gr, false));
                    g.function_arguments(gr);
                    g.depth -= 1;
                }
                g.op(")");
            });
            g.close(gr);
        });
    }

    fn function_arguments(&mut self, gr: usize) {
        self.node(S::FunctionArguments, |g| match g.ch(8) {
            5 => g.named_arguments(gr, 0),
            6 => {
                g.function_partial_application();
                if g.more(1) {
                    g.op(",");
                    g.gap(Gap::Grp(gr, true));
                    g.function_arguments_non_first(gr, 1);
                }
            }
            7 => {
                g.expression();
                g.gap(Gap::Grp(gr, true));
                g.kw("for");
                g.sp();
                g.for_indices();
            }
            _ => {
                g.expression();
                if g.more(1) {
                    g.op(",");
                    g.gap(Gap::Grp(gr, true));
                    g.function_arguments_non_first(gr, 1);
                }
            }
        });
    }

    fn function_arguments_non_first(&mut self, gr: usize, n: usize) {
        self.node(S::FunctionArgumentsNonFirst, |g| {
            if g.p(5) {
                g.named_arguments(gr, n);
            } else {
                g.function_argument();
                if g.more(n) {
                    g.op(",");
                    g.gap(Gap::Grp(gr, true));
                    g.function_arguments_non_first(gr, n + 1);
                }
            }
        });
    }

    fn array_arguments(&mut self, gr: usize) {
        self.node(S::ArrayArguments, |g| {
            g.expression();
            if g.p(3) {
                g.gap(Gap::Grp(gr, true));
                g.kw("for");
                g.sp();
                g.for_indices();
            } else if g.more(1) {
                g.op(",");
                g.gap(Gap::Grp(gr, true));
                g.array_arguments_non_first(gr, 1);
            }
        });
    }

    fn array_arguments_non_first(&mut self, gr: usize, n: usize) {
        self.node(S::ArrayArgumentsNonFirst, |g| {
            g.expression();
            if g.more(n) {
                g.op(",");
                g.gap(Gap::Grp(gr, true));
                g.array_arguments_non_first(gr, n + 1);
            }
        });
    }

    fn named_arguments(&mut self, gr: usize, n: usize) {
        self.node(S::NamedArguments, |g| {
            g.named_argument();
            if g.more(n) {
                g.op(",");
                g.gap(Gap::Grp(gr, true));
                g.named_arguments(gr, n + 1);
            }
        });
    }

    fn named_argument(&mut self) {
        self.node(S::NamedArgument, |g| {
            g.ident();
            g.sp();
            g.op("=");
            if g.p(2) {
                g.sp();
                g.node(S::FunctionArgument, |g| g.function_partial_application());
            } else {
                g.node(S::FunctionArgument, |g| g.rhs());
            }
        });
    }

    fn function_argument(&mut self) {
        self.node(S::FunctionArgument, |g| {
            if g.p(2) {
                g.function_partial_application();
            } else {
                g.expression();
            }
        });
    }

    fn function_partial_application(&mut self) {
        self.node(S::FunctionPartialApplication, |g| {
            g.kw("function");
            g.sp();
            g.type_specifier();
            let gr = g.group();
            g.op("(");
            if g.depth < 8 * g.scale && g.p(12) {
                g.depth += 1;
                g.gap(Gap::Grp(gr, false));
                g.named_arguments(gr, 0);
                g.depth -= 1;
            }
            g.op(")");
            g.close(gr);
        });
    }

    fn output_expression_list(&mut self) {
        self.node(S::OutputExpressionList, |g| {
            let mut n = 0;
            let (first, empty, more, most) = match g.ch(24) {
                0..=21 => (1, 3, 4, 3),
                22 => (14, 14, 12, 10),
                _ => (16, 16, 13, 12),
            };
            loop {
                if !g.p(if n == 0 { first } else { empty }) {
                    g.expression_in_scope();
                }
                if !g.again(n, most + 1, more) {
                    break;
                }
                // An empty slot keeps the space that follows the previous comma
                if g.gap.is_none() && g.toks.last().is_some_and(|t| t.text == "(") {
                    g.sp();
                }
                g.op(",");
                g.sp();
                n += 1;
            }
        });
    }

    fn expression_list(&mut self, gr: usize) {
        self.node(S::ExpressionList, |g| {
            let mut n = 0;
            loop {
                g.expression();
                n += 1;
                if !g.more(n) {
                    break;
                }
                g.op(",");
                g.gap(Gap::Grp(gr, true));
            }
        });
    }

    fn array_subscripts(&mut self) {
        self.node(S::ArraySubscripts, |g| {
            let gr = g.group();
            g.depth += 1;
            g.indented(|g| {
                g.op("[");
                let mut n = 0;
                loop {
                    g.gap(Gap::Grp(gr, n > 0));
                    g.subscript();
                    n += 1;
                    if !g.more(n) {
                        break;
                    }
                    g.op(",");
                }
                g.op("]");
            });
            g.depth -= 1;
            g.close(gr);
        });
    }

    fn subscript(&mut self) {
        self.node(S::Subscript, |g| {
            if g.p(5) {
                g.op(":");
            } else {
                g.expression();
            }
        });
    }

    /// Optional description. `own` if it goes to its own, indented line.
    fn description(&mut self, own: bool) {
        self.node(S::Description, |g| {
            let has_string = g.desc_p();
            let half = g.p_desc / 2;
            let has_annotation = g.depth < 6 * g.scale && g.p(half);
            let body = |g: &mut Self| {
                if own && (has_string || has_annotation) {
                    g.line(Blank::Illegal);
                }
                g.node(S::DescriptionString, |g| {
                    if has_string {
                        g.string_parts();
                    }
                });
                if has_annotation {
                    if has_string {
                        g.line(Blank::Illegal);
                    }
                    g.annotation_clause();
                }
            };
            if own {
                g.indented(body);
            } else {
                body(g);
            }
        });
    }

    /// Optional string comment in its own line
    fn description_string(&mut self) {
        self.indented(|g| {
            g.node(S::DescriptionString, |g| {
                if g.desc_p() {
                    g.line(Blank::Illegal);
                    g.string_parts();
                }
            })
        });
    }

    fn string_parts(&mut self) {
        let gr = self.group();
        self.string();
        self.indented(|g| {
            let mut n = 0;
            while g.again(n, 3, 3) {
                g.gap(Gap::Grp(gr, true));
                g.op("+");
                g.sp();
                g.string();
                n += 1;
            }
        });
        self.close(gr);
    }

    fn annotation_clause(&mut self) {
        self.node(S::AnnotationClause, |g| {
            g.kw("annotation");
            g.sp();
            g.class_modification();
        });
    }

    fn root(&mut self, root: S) {
        match root {
            S::Error => unreachable!(),
            S::StoredDefinition => self.stored_definition(),
            S::ClassDefinition => self.class_definition(),
            S::ClassPrefixes => self.class_prefixes(),
            S::ClassSpecifier => self.class_specifier(),
            S::LongClassSpecifier => self.long_class_specifier(),
            S::ShortClassSpecifier => self.short_class_specifier(),
            S::DerClassSpecifier => self.der_class_specifier(),
            S::BasePrefix => self.base_prefix(),
            S::EnumList => self.in_group(|g, gr| g.enum_list(gr)),
            S::EnumerationLiteral => self.enumeration_literal(),
            S::Composition => self.composition(),
            S::LanguageSpecification => self.language_specification(),
            S::ExternalFunctionCall => self.external_function_call(),
            S::ElementList => self.element_list(),
            S::Element => self.element(),
            S::ImportClause => self.import_clause(),
            S::ImportList => self.in_group(|g, gr| g.import_list(gr)),
            S::ExtendsClause => self.extends_clause(),
            S::ConstrainingClause => self.constraining_clause(),
            S::ClassOrInheritanceModification => self.class_or_inheritance_modification(),
            S::ArgumentOrInheritanceModificationList => {
                self.in_group(|g, gr| g.argument_or_inheritance_modification_list(gr))
            }
            S::InheritanceModification => self.inheritance_modification(),
            S::ComponentClause => self.component_clause(),
            S::TypePrefix => _ = self.type_prefix(),
            S::ComponentList => self.component_list(),
            S::ComponentDeclaration => self.component_declaration(),
            S::ConditionAttribute => self.condition_attribute(),
            S::Declaration => self.declaration(),
            S::Modification => self.modification(),
            S::ModificationExpression => self.modification_expression(),
            S::ClassModification => self.class_modification(),
            S::ArgumentList => self.in_group(|g, gr| g.argument_list(gr)),
            S::Argument => self.argument(),
            S::ElementModificationOrReplaceable => self.element_modification_or_replaceable(),
            S::ElementModification => self.element_modification(),
            S::ElementRedeclaration => self.element_redeclaration(),
            S::ElementReplaceable => self.element_replaceable(),
            S::ComponentClause1 => self.component_clause1(),
            S::ComponentDeclaration1 => self.component_declaration1(),
            S::ShortClassDefinition => self.short_class_definition(),
            S::EquationSection => self.equation_section(),
            S::AlgorithmSection => self.algorithm_section(),
            S::Equation => self.equation(Head::Any),
            S::Statement => self.statement(),
            S::IfEquation => self.if_equation(),
            S::IfStatement => self.if_statement(),
            S::ForEquation => self.for_equation(),
            S::ForStatement => self.for_statement(),
            S::ForIndices => self.for_indices(),
            S::ForIndex => self.for_index(),
            S::WhileStatement => self.while_statement(),
            S::WhenEquation => self.when_equation(),
            S::WhenStatement => self.when_statement(),
            S::ConnectEquation => self.connect_equation(),
            S::Expression => self.expression(),
            S::SimpleExpression => self.scope(|g| g.simple_expression(Head::Any)),
            S::LogicalExpression => self.scope(|g| g.logical_expression(Head::Any)),
            S::LogicalTerm => self.scope(|g| g.logical_term(Head::Any)),
            S::LogicalFactor => self.scope(|g| g.logical_factor(Head::Any)),
            S::Relation => self.scope(|g| g.relation(Head::Any)),
            S::RelationalOperator => self.relational_operator(),
            S::ArithmeticExpression => self.scope(|g| g.arithmetic_expression(Head::Any)),
            S::AddOperator => self.add_operator(),
            S::Term => self.scope(|g| g.term(Head::Any)),
            S::MulOperator => self.mul_operator(),
            S::Factor => self.scope(|g| g.factor(Head::Any)),
            S::Primary => self.scope(|g| g.primary(Head::Any)),
            S::TypeSpecifier => self.type_specifier(),
            S::Name => self.name(),
            S::ComponentReference => self.component_reference(),
            S::ResultReference => self.result_reference(),
            S::FunctionCallArgs => self.function_call_args(),
            S::FunctionArguments => self.in_group(|g, gr| g.function_arguments(gr)),
            S::FunctionArgumentsNonFirst => {
                self.in_group(|g, gr| g.function_arguments_non_first(gr, 1))
            }
            S::ArrayArguments => self.in_group(|g, gr| g.array_arguments(gr)),
            S::ArrayArgumentsNonFirst => self.in_group(|g, gr| g.array_arguments_non_first(gr, 1)),
            S::NamedArguments => self.in_group(|g, gr| g.named_arguments(gr, 0)),
            S::NamedArgument => self.named_argument(),
            S::FunctionArgument => self.function_argument(),
            S::FunctionPartialApplication => self.function_partial_application(),
            S::OutputExpressionList => self.scope(|g| g.output_expression_list()),
            S::ExpressionList => self.in_group(|g, gr| g.expression_list(gr)),
            S::ArraySubscripts => self.array_subscripts(),
            S::Subscript => self.subscript(),
            S::Description => self.description(false),
            S::DescriptionString => self.description_string(),
            S::AnnotationClause => self.annotation_clause(),
        }
    }

    fn in_group(&mut self, f: impl FnOnce(&mut Self, usize)) {
        let gr = self.group();
        f(self, gr);
        if !self.toks.is_empty() {
            self.close(gr);
        }
    }
}

/// Derive a program (or fragment) of about `max` lexemes at most
pub fn generate(s: &mut Src, root: S, max: usize) -> Doc {
    generate_long(s, root, 0, max)
}

/// Derive a file with at least so many lexemes
pub fn generate_long(s: &mut Src, root: S, least: usize, max: usize) -> Doc {
    let mut g = Gen::new(s, max);
    g.least = least;
    g.root(root);
    Doc {
        root,
        toks: g.toks,
        items: g.items,
        groups: g.groups,
    }
}

/// Which flavour of a self-contained piece of a class body
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Chunk {
    Class,
    Element,
    Equation,
    Statement,
}

/// Derive one class definition, element, equation or statement (with the
/// semicolon). Its first gap is `Line(Legal)`.
pub fn generate_chunk(s: &mut Src, what: Chunk, max: usize) -> Doc {
    let mut g = Gen::new(s, max);
    g.line(Blank::Legal);
    let root = match what {
        Chunk::Class => {
            if g.p(3) {
                g.kw("final");
                g.sp();
            }
            g.class_definition();
            S::ClassDefinition
        }
        Chunk::Element => {
            g.element();
            S::Element
        }
        Chunk::Equation => {
            g.equation(Head::Section);
            S::Equation
        }
        Chunk::Statement => {
            g.statement();
            S::Statement
        }
    };
    g.op(";");
    Doc {
        root,
        toks: g.toks,
        items: g.items,
        groups: g.groups,
    }
}
