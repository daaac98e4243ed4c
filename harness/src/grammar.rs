//! Context-free grammar of the supported language, and an Earley recogniser
//! for it. It shares nothing with the annotated generator, or with the parser
//! under test.

use crate::lexis::K;
use crate::src::Src;
use std::collections::{HashMap, HashSet};
use std::sync::OnceLock;

const BNF: &str = include_str!("bnf.txt");

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum Sym {
    T(u16),
    N(u16),
}

pub struct Grammar {
    /// Names of terminals: texts, or classes in upper case
    terms: Vec<String>,
    term_ids: HashMap<String, u16>,
    names: Vec<String>,
    rules: Vec<(u16, Vec<Sym>)>,
    by_lhs: Vec<Vec<usize>>,
    nullable: Vec<bool>,
    first: Vec<HashSet<u16>>,
    /// Number of lexemes of the shortest sentence
    min_len: Vec<usize>,
    /// Rules (and positions in them) that mention the construct
    parents: Vec<Vec<(usize, usize)>>,
    /// Number of rules between the start and the construct
    dist: Vec<usize>,
    start: u16,
}

struct Reader<'a> {
    toks: Vec<&'a str>,
    pos: usize,
    g: Grammar,
    ids: HashMap<String, u16>,
    suffix: &'a str,
}

impl<'a> Reader<'a> {
    fn peek(&self) -> &'a str {
        self.toks[self.pos]
    }
    fn next(&mut self) -> &'a str {
        self.pos += 1;
        self.toks[self.pos - 1]
    }
    fn nonterm(&mut self, name: &str) -> u16 {
        let name = name.replace('@', self.suffix);
        if let Some(&i) = self.ids.get(&name) {
            return i;
        }
        let i = self.g.names.len() as u16;
        self.g.names.push(name.clone());
        self.ids.insert(name, i);
        i
    }
    fn term(&mut self, name: &str) -> u16 {
        if let Some(&i) = self.g.term_ids.get(name) {
            return i;
        }
        let i = self.g.terms.len() as u16;
        self.g.terms.push(name.to_string());
        self.g.term_ids.insert(name.to_string(), i);
        i
    }
    fn fresh(&mut self) -> u16 {
        let n = self.g.names.len();
        self.nonterm(&format!("${n}"))
    }
    /// Alternatives, added as rules of `lhs`
    fn alternatives(&mut self, lhs: u16) {
        loop {
            let seq = self.sequence();
            self.g.rules.push((lhs, seq));
            if self.peek() != "|" {
                break;
            }
            self.next();
        }
    }
    fn sequence(&mut self) -> Vec<Sym> {
        let mut out = Vec::new();
        loop {
            match self.peek() {
                "|" | "." | ")" | "]" | "}" => return out,
                "(" | "[" | "{" => {
                    let open = self.next();
                    let n = self.fresh();
                    if open == "{" {
                        let item = self.fresh();
                        self.alternatives(item);
                        self.g.rules.push((n, Vec::new()));
                        self.g.rules.push((n, vec![Sym::N(n), Sym::N(item)]));
                    } else {
                        self.alternatives(n);
                        if open == "[" {
                            self.g.rules.push((n, Vec::new()));
                        }
                    }
                    self.next();
                    out.push(Sym::N(n));
                }
                t => {
                    self.next();
                    if t.starts_with('"') {
                        let id = self.term(t.trim_matches('"'));
                        out.push(Sym::T(id));
                    } else if t.chars().all(|c| c.is_ascii_uppercase()) {
                        let id = self.term(t);
                        out.push(Sym::T(id));
                    } else {
                        let id = self.nonterm(t);
                        out.push(Sym::N(id));
                    }
                }
            }
        }
    }
}

/// The grammar
pub fn grammar() -> &'static Grammar {
    static G: OnceLock<Grammar> = OnceLock::new();
    G.get_or_init(load)
}

fn load() -> Grammar {
    let toks: Vec<&str> = BNF.split_whitespace().collect();
    let mut r = Reader {
        toks,
        pos: 0,
        g: Grammar {
            terms: Vec::new(),
            term_ids: HashMap::new(),
            names: Vec::new(),
            rules: Vec::new(),
            by_lhs: Vec::new(),
            nullable: Vec::new(),
            first: Vec::new(),
            min_len: Vec::new(),
            parents: Vec::new(),
            dist: Vec::new(),
            start: 0,
        },
        ids: HashMap::new(),
        suffix: "",
    };
    while r.pos < r.toks.len() {
        let begin = r.pos;
        let variants: &[&str] = if r.peek().contains('@') {
            &["S", "B"]
        } else {
            &[""]
        };
        for v in variants {
            r.suffix = v;
            r.pos = begin;
            let name = r.next();
            let lhs = r.nonterm(name);
            assert_eq!(r.next(), "=");
            r.alternatives(lhs);
            assert_eq!(r.next(), ".");
        }
    }
    let ids = r.ids;
    let mut g = r.g;
    g.start = ids["stored_definition"];
    let n = g.names.len();
    g.by_lhs = vec![Vec::new(); n];
    for (i, (lhs, _)) in g.rules.iter().enumerate() {
        g.by_lhs[*lhs as usize].push(i);
    }
    for (i, rules) in g.by_lhs.iter().enumerate() {
        assert!(!rules.is_empty(), "no rule for {}", g.names[i]);
    }
    g.nullable = vec![false; n];
    g.first = vec![HashSet::new(); n];
    g.min_len = vec![usize::MAX; n];
    loop {
        let mut changed = false;
        for (lhs, rhs) in &g.rules {
            let lhs = *lhs as usize;
            let mut nullable = true;
            let mut len = 0usize;
            for s in rhs {
                len = len.saturating_add(match s {
                    Sym::T(_) => 1,
                    Sym::N(n) => g.min_len[*n as usize],
                });
                if !nullable {
                    continue;
                }
                match s {
                    Sym::T(t) => {
                        changed |= g.first[lhs].insert(*t);
                        nullable = false;
                    }
                    Sym::N(n) => {
                        let add: Vec<u16> = g.first[*n as usize].iter().copied().collect();
                        for t in add {
                            changed |= g.first[lhs].insert(t);
                        }
                        nullable = g.nullable[*n as usize];
                    }
                }
            }
            if nullable && !g.nullable[lhs] {
                g.nullable[lhs] = true;
                changed = true;
            }
            if len < g.min_len[lhs] {
                g.min_len[lhs] = len;
                changed = true;
            }
        }
        if !changed {
            break;
        }
    }
    g.parents = vec![Vec::new(); n];
    for (i, (_, rhs)) in g.rules.iter().enumerate() {
        for (j, s) in rhs.iter().enumerate() {
            if let Sym::N(m) = s {
                g.parents[*m as usize].push((i, j));
            }
        }
    }
    g.dist = vec![usize::MAX; n];
    g.dist[g.start as usize] = 0;
    let mut queue = vec![g.start];
    let mut next = 0;
    while next < queue.len() {
        let m = queue[next];
        next += 1;
        for &r in &g.by_lhs[m as usize] {
            for s in &g.rules[r].1 {
                if let Sym::N(k) = s {
                    if g.dist[*k as usize] == usize::MAX {
                        g.dist[*k as usize] = g.dist[m as usize] + 1;
                        queue.push(*k);
                    }
                }
            }
        }
    }
    g
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Verdict {
    Accepted,
    /// The first lexeme (or the end of file, if it is equal to their number)
    /// that no valid source continues with
    Rejected(usize),
}

impl Grammar {
    /// Terminal for a lexeme
    pub fn terminal(&self, kind: K, text: &str) -> Option<u16> {
        let name = match kind {
            K::Ident => "IDENT",
            K::Str => "STR",
            K::UInt => "UINT",
            K::UReal => "UREAL",
            K::Bool => "BOOL",
            _ => text,
        };
        self.term_ids.get(name).copied()
    }

    pub fn recognise(&self, toks: &[(K, &str)]) -> Verdict {
        type Item = (u32, u16, u32); // rule, dot, origin
        let input: Vec<u16> = toks
            .iter()
            .map(|(k, t)| self.terminal(*k, t).unwrap_or(u16::MAX))
            .collect();
        let mut waiting: Vec<HashMap<u16, Vec<Item>>> = Vec::with_capacity(input.len() + 1);
        let mut kernel: Vec<Item> = Vec::new();
        let n = input.len();
        for k in 0..=n {
            let look = input.get(k).copied();
            let mut set: Vec<Item> = std::mem::take(&mut kernel);
            let mut seen: HashSet<Item> = set.iter().copied().collect();
            let mut wait: HashMap<u16, Vec<Item>> = HashMap::new();
            let mut predicted: HashSet<u16> = HashSet::new();
            let mut next: Vec<Item> = Vec::new();
            let mut accepted = false;
            macro_rules! add {
                ($item:expr) => {{
                    let it: Item = $item;
                    if seen.insert(it) {
                        set.push(it);
                    }
                }};
            }
            let viable = |s: u16| {
                self.nullable[s as usize]
                    || look.is_some_and(|t| self.first[s as usize].contains(&t))
            };
            if k == 0 {
                predicted.insert(self.start);
                for &r in &self.by_lhs[self.start as usize] {
                    add!((r as u32, 0, 0));
                }
            }
            let mut i = 0;
            while i < set.len() {
                let (r, dot, origin) = set[i];
                i += 1;
                let (lhs, rhs) = &self.rules[r as usize];
                match rhs.get(dot as usize) {
                    Some(Sym::T(t)) => {
                        if look == Some(*t) {
                            next.push((r, dot + 1, origin));
                        }
                    }
                    Some(Sym::N(s)) => {
                        wait.entry(*s).or_default().push((r, dot, origin));
                        if viable(*s) && predicted.insert(*s) {
                            for &q in &self.by_lhs[*s as usize] {
                                add!((q as u32, 0, k as u32));
                            }
                        }
                        if self.nullable[*s as usize] {
                            add!((r, dot + 1, origin));
                        }
                    }
                    None => {
                        if *lhs == self.start && origin == 0 && k == n {
                            accepted = true;
                        }
                        if origin as usize != k {
                            if let Some(ws) = waiting[origin as usize].get(lhs) {
                                for &(r, d, o) in ws {
                                    add!((r, d + 1, o));
                                }
                            }
                        }
                        // Rules without lexemes are completed on prediction
                    }
                }
            }
            if k == n {
                return if accepted {
                    Verdict::Accepted
                } else {
                    Verdict::Rejected(n)
                };
            }
            if next.is_empty() {
                return Verdict::Rejected(k);
            }
            waiting.push(wait);
            kernel = next;
        }
        unreachable!()
    }

    /// Rules from the start of the grammar to the construct, with positions
    fn path(&self, s: &mut Src, mut n: u16) -> Vec<(usize, usize)> {
        let mut out = Vec::new();
        while n != self.start {
            let d = self.dist[n as usize];
            let all: Vec<_> = self.parents[n as usize]
                .iter()
                .filter(|p| {
                    let e = self.dist[self.rules[p.0].0 as usize];
                    // Detours, if there are not too many of them
                    e < d || e < usize::MAX && out.len() < 30
                })
                .collect();
            let near: Vec<_> = all
                .iter()
                .filter(|p| self.dist[self.rules[p.0].0 as usize] < d)
                .collect();
            let p = if s.chance(10, 16) {
                **s.pick(&near)
            } else {
                *s.pick(&all)
            };
            out.push(*p);
            n = self.rules[p.0].0;
        }
        out.reverse();
        out
    }

    /// Derive something of up to about `extra` lexemes, if possible not empty
    fn emit(&self, s: &mut Src, sym: Sym, extra: usize, out: &mut Vec<(K, String)>) {
        match sym {
            Sym::T(t) => out.push(self.lexeme(t, s)),
            Sym::N(n) => {
                let most = if s.chance(6, 16) { extra } else { 0 };
                let start = out.len();
                self.derive(s, n, start + most, 0, out);
                if out.len() == start && self.nullable[n as usize] && s.chance(8, 16) {
                    self.emit_some(s, n, 0, out);
                }
            }
        }
    }

    /// As short as possible, but not empty
    fn emit_some(&self, s: &mut Src, n: u16, depth: usize, out: &mut Vec<(K, String)>) {
        let rules: Vec<_> = self.by_lhs[n as usize]
            .iter()
            .filter_map(|r| {
                let rhs = &self.rules[*r].1;
                let at: Vec<usize> = (0..rhs.len())
                    .filter(|i| match rhs[*i] {
                        Sym::T(_) => true,
                        Sym::N(m) => m != n && (depth < 12 || !self.nullable[m as usize]),
                    })
                    .collect();
                (!at.is_empty()).then_some((rhs, at))
            })
            .collect();
        if rules.is_empty() {
            return;
        }
        let (rhs, at) = s.pick(&rules);
        let some = *s.pick(at);
        for (i, sym) in rhs.iter().enumerate() {
            match sym {
                Sym::N(m) if i == some && self.nullable[*m as usize] => {
                    self.emit_some(s, *m, depth + 1, out)
                }
                Sym::N(m) => self.derive(s, *m, 0, 0, out),
                Sym::T(t) => out.push(self.lexeme(*t, s)),
            }
        }
    }

    /// Derive along the path, and let `last` derive the last construct of it
    fn along(
        &self,
        s: &mut Src,
        path: &[(usize, usize)],
        out: &mut Vec<(K, String)>,
        last: &mut dyn FnMut(&mut Src, &mut Vec<(K, String)>),
    ) {
        let Some(((r, at), rest)) = path.split_first() else {
            return last(s, out);
        };
        for (i, sym) in self.rules[*r].1.iter().enumerate() {
            if i == *at {
                self.along(s, rest, out, last);
            } else {
                self.emit(s, *sym, 10, out);
            }
        }
    }

    /// A sentence, one construct of which deviates from its rule as if the
    /// grammar was a slightly different one. It may happen to be valid.
    pub fn deviant(&self, s: &mut Src) -> (Vec<(K, String)>, &'static str) {
        let r = loop {
            let r = s.below(self.rules.len());
            if self.dist[self.rules[r].0 as usize] < usize::MAX && !self.rules[r].1.is_empty() {
                break r;
            }
            // Nothing but zeros is left to draw
            if r == 0 {
                break 0;
            }
        };
        let mut rhs = self.rules[r].1.clone();
        let mut what = "";
        for _ in 0..1 + s.chance(2, 16) as usize {
            let n = rhs.len();
            if n == 0 {
                break;
            }
            let i = s.below(n);
            let any = if s.chance(9, 16) {
                Sym::T(s.below(self.terms.len()) as u16)
            } else {
                Sym::N(s.below(self.names.len()) as u16)
            };
            what = match s.below(10) {
                0 => {
                    rhs.remove(i);
                    "part left out"
                }
                1 => {
                    rhs.insert(i, rhs[i]);
                    "part repeated"
                }
                2 => {
                    rhs.extend(rhs.clone());
                    "construct repeated"
                }
                3 => {
                    let x = rhs.remove(i);
                    rhs.insert(s.below(n), x);
                    "parts in another order"
                }
                4 => {
                    let x = rhs[i];
                    rhs.insert(s.below(n + 1), x);
                    "part repeated elsewhere"
                }
                5..=7 => {
                    rhs.insert(s.below(n + 1), any);
                    "part inserted"
                }
                _ => {
                    rhs[i] = any;
                    "part replaced"
                }
            };
        }
        let path = self.path(s, self.rules[r].0);
        let mut out = Vec::new();
        self.along(s, &path, &mut out, &mut |s, out| {
            for sym in &rhs {
                self.emit(s, *sym, 6, out);
            }
        });
        (out, what)
    }

    /// A sentence in which one repetition has very many items
    pub fn pumped(&self, s: &mut Src, most: usize) -> Vec<(K, String)> {
        let loops: Vec<usize> = (0..self.rules.len())
            .filter(|r| {
                let (lhs, rhs) = &self.rules[*r];
                rhs.len() == 2 && rhs[0] == Sym::N(*lhs) && self.dist[*lhs as usize] < usize::MAX
            })
            .collect();
        let r = *s.pick(&loops);
        let (lhs, rhs) = &self.rules[r];
        let times = *s.pick(&[2, 15, 20, 40, 70, 110, 140, 270, 300, 520, 1100]);
        let times = crate::dict::number(s, 2, 2, 1500).unwrap_or(times);
        let path = self.path(s, *lhs);
        let mut out = Vec::new();
        self.along(s, &path, &mut out, &mut |s, out| {
            for _ in 0..times {
                if out.len() > most {
                    break;
                }
                for sym in rhs {
                    if *sym != Sym::N(*lhs) {
                        self.emit(s, *sym, 3, out);
                    }
                }
            }
        });
        out
    }

    /// Random sentence
    pub fn sentence(&self, s: &mut Src, max: usize) -> Vec<(K, String)> {
        let mut out = Vec::new();
        self.derive(s, self.start, max, 0, &mut out);
        out
    }

    fn derive(&self, s: &mut Src, n: u16, max: usize, depth: usize, out: &mut Vec<(K, String)>) {
        let rules = &self.by_lhs[n as usize];
        let len = |r: usize| -> usize {
            self.rules[r]
                .1
                .iter()
                .map(|x| match x {
                    Sym::T(_) => 1,
                    Sym::N(n) => self.min_len[*n as usize],
                })
                .sum()
        };
        let shortest = *rules.iter().min_by_key(|r| len(**r)).unwrap();
        let r = if out.len() >= max || depth > 120 {
            shortest
        } else {
            // 0 is the simplest choice
            let optional = self.nullable[n as usize] && rules.len() == 2;
            match s.below(if optional { 8 } else { rules.len() + 1 }) {
                0 => shortest,
                i if optional => rules[(i > 3) as usize],
                i => rules[i - 1],
            }
        };
        for sym in &self.rules[r].1 {
            match sym {
                Sym::N(m) => self.derive(s, *m, max, depth + 1, out),
                Sym::T(t) => out.push(self.lexeme(*t, s)),
            }
        }
    }

    fn lexeme(&self, t: u16, s: &mut Src) -> (K, String) {
        let name = self.terms[t as usize].as_str();
        let kind = match name {
            "IDENT" => K::Ident,
            "STR" => K::Str,
            "UINT" => K::UInt,
            "UREAL" => K::UReal,
            "BOOL" => K::Bool,
            w if w.chars().all(|c| c.is_ascii_lowercase()) => K::Kw,
            _ => K::Op,
        };
        let pick: &[&str] = match kind {
            K::Ident => &crate::gen::IDENTS,
            K::Str => &["\"s\"", "\"\"", "\"a\nb\"", "\"end\""],
            K::UInt => &["1", "0", "25"],
            K::UReal => &["1.5", "2.", "1e3", "2.5E-7"],
            K::Bool => &["true", "false"],
            _ => return (kind, name.to_string()),
        };
        if s.chance(1, 24) {
            use crate::gen::{random_ident, random_number, random_string};
            let text = match kind {
                K::Ident => random_ident(s),
                K::Str => random_string(s, true),
                K::UInt | K::UReal => random_number(s, kind == K::UReal),
                _ => s.pick(pick).to_string(),
            };
            return (kind, text);
        }
        (kind, s.pick(pick).to_string())
    }

    /// Any lexeme of the language
    pub fn any_lexeme(&self, s: &mut Src) -> (K, String) {
        let t = s.below(self.terms.len()) as u16;
        self.lexeme(t, s)
    }

    pub fn terminals(&self) -> &[String] {
        &self.terms
    }
}
