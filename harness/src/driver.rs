//! Runs the phases of a check, and writes its evidence and replay files

use crate::engine::*;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::path::{Path, PathBuf};
use std::sync::Arc;
use std::time::Instant;

/// One search: generated cases against one oracle
pub struct Phase {
    pub name: &'static str,
    pub check: Arc<CheckFn>,
    /// Cases of the quick tier, over all threads
    pub quick: u32,
    /// How many times more cases the thorough tier runs
    pub factor: u32,
    /// Greatest numbers of choices
    pub syn: usize,
    pub lay: usize,
    pub alt: usize,
}

impl Phase {
    pub fn new(name: &'static str, check: Arc<CheckFn>, quick: u32) -> Self {
        Phase {
            name,
            check,
            quick,
            factor: 20,
            syn: 1200,
            lay: 900,
            alt: 600,
        }
    }
    pub fn sizes(mut self, syn: usize, lay: usize, alt: usize) -> Self {
        (self.syn, self.lay, self.alt) = (syn, lay, alt);
        self
    }
    pub fn factor(mut self, factor: u32) -> Self {
        self.factor = factor;
        self
    }
}

/// What a fixed case has shown
pub enum Fixed {
    Fine,
    /// A listed finding: what fails
    Known(String),
    Broken(Failure),
}

pub type FixedFn = dyn Fn() -> Vec<(String, Fixed)>;

pub struct Check {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: Vec<&'static str>,
    pub phases: Vec<Phase>,
    /// Fixed cases: regressions, known findings
    pub fixed: Option<Box<FixedFn>>,
    /// Called at the end: removes scratch files
    pub cleanup: Option<fn()>,
}

pub fn verif_dir() -> PathBuf {
    std::env::var_os("VERIF_DIR").map_or_else(|| PathBuf::from("/verif"), PathBuf::from)
}

fn json(t: &str) -> String {
    let mut out = String::from("\"");
    for c in t.chars() {
        match c {
            '"' => out += "\\\"",
            '\\' => out += "\\\\",
            '\n' => out += "\\n",
            '\r' => out += "\\r",
            '\t' => out += "\\t",
            c if (c as u32) < 32 || ('\u{7f}'..'\u{a0}').contains(&c) => {
                let _ = write!(out, "\\u{:04x}", c as u32);
            }
            c => out.push(c),
        }
    }
    out.push('"');
    out
}

fn counts(m: &BTreeMap<&'static str, u64>) -> String {
    let items: Vec<String> = m.iter().map(|(k, v)| format!("{}: {v}", json(k))).collect();
    format!("{{{}}}", items.join(", "))
}

fn numbers(v: &[u32]) -> String {
    let v: Vec<String> = v.iter().map(|x| x.to_string()).collect();
    v.join(" ")
}

/// Write the replay file of a violation
pub fn replay_file(id: &str, phase: &str, case: Option<&Case>, f: &Failure) -> PathBuf {
    let dir = verif_dir().join("replays");
    std::fs::create_dir_all(&dir).expect("replays directory");
    let path = dir.join(format!("{id}.txt"));
    let mut t = format!("property: {id}\nphase: {phase}\n");
    let words = crate::dict::spelled();
    if !words.is_empty() {
        let _ = writeln!(t, "dictionary: {words}");
    }
    if let Some(c) = case {
        let _ = write!(
            t,
            "syn: {}\nlay: {}\nalt: {}\n",
            numbers(&c.syn),
            numbers(&c.lay),
            numbers(&c.alt)
        );
    }
    let _ = write!(t, "--- input\n{}\n--- what fails\n{}\n", f.source, f.detail);
    std::fs::write(&path, t).expect("replay file");
    path
}

struct Report {
    stats: Vec<(&'static str, Stats)>,
    fixed: usize,
    known: Vec<String>,
    violations: usize,
}

fn evidence(check: &Check, tier: &str, seed: u64, report: &Report, wall: f64) {
    let mut all = Stats::default();
    let mut phases = Vec::new();
    for (name, s) in &report.stats {
        phases.push(format!(
            "{}: {{\"evaluations\": {}, \"distinct_nontrivial\": {}, \"comparisons\": {}, \"discarded\": {}, \"classes\": {}}}",
            json(name),
            s.evaluations,
            s.seen.len(),
            s.checks,
            counts(&s.discarded),
            counts(&s.classes)
        ));
        all.evaluations += s.evaluations;
    }
    let nontrivial: usize = report.stats.iter().map(|s| s.1.seen.len()).sum();
    let mut samples: Vec<String> = report
        .stats
        .iter()
        .flat_map(|s| s.1.samples.iter().take(6).map(|t| json(t)))
        .collect();
    if samples.is_empty() {
        samples.push(json("(none: the search stopped at a violation)"));
    }
    let assumptions: Vec<String> = check.assumptions.iter().map(|t| json(t)).collect();
    let known: Vec<String> = report.known.iter().map(|t| json(t)).collect();
    let text = format!(
        "{{\n\"property\": {},\n\"tier\": {},\n\"seed\": {seed},\n\"level\": \"exploration\",\n\"coverage\": {{\n\"evaluations\": {},\n\"distinct_nontrivial\": {nontrivial},\n\"rule\": {},\n\"fixed_cases\": {},\n\"known_findings\": [{}],\n\"phases\": {{{}}},\n\"samples\": [{}]\n}},\n\"assumptions\": [{}],\n\"wall_s\": {wall:.2},\n\"violations\": {}\n}}\n",
        json(check.id),
        json(tier),
        all.evaluations + report.fixed as u64,
        json(check.rule),
        report.fixed,
        known.join(", "),
        phases.join(",\n"),
        samples.join(",\n"),
        assumptions.join(", "),
        report.violations,
    );
    let dir = verif_dir().join("evidence");
    std::fs::create_dir_all(&dir).expect("evidence directory");
    std::fs::write(dir.join(format!("{}.json", check.id)), text).expect("evidence file");
}

pub fn announce(id: &str, path: &Path, f: &Failure) {
    println!("--- input\n{}\n--- what fails\n{}", f.source, f.detail);
    println!("VIOLATION property={id} replay={}", path.display());
}

pub fn parse_replay(text: &str) -> Option<(String, String, Option<Case>)> {
    let field = |name: &str| {
        text.lines()
            .take_while(|l| !l.starts_with("--- "))
            .find_map(|l| l.strip_prefix(name)?.strip_prefix(':'))
            .map(|t| t.trim().to_string())
    };
    let nums =
        |t: String| -> Option<Vec<u32>> { t.split_whitespace().map(|x| x.parse().ok()).collect() };
    let case = match (field("syn"), field("lay"), field("alt")) {
        (Some(s), Some(l), Some(a)) => Some(Case {
            syn: nums(s)?,
            lay: nums(l)?,
            alt: nums(a)?,
        }),
        _ => None,
    };
    Some((field("property")?, field("phase")?, case))
}

/// `harness <ID>` or `harness replay <file>`, returns the exit status
pub fn main(make: &dyn Fn(&str) -> Option<Check>) -> i32 {
    if std::env::var_os(crate::watch::NOTES).is_none() {
        return crate::supervise::supervise();
    }
    quiet_panics();
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("literals") if args.len() == 2 => {
            print!("{}", crate::dict::listing());
            0
        }
        Some("replay") if args.len() == 3 => replay(Path::new(&args[2]), make),
        Some(id) if args.len() == 2 => match make(id) {
            Some(c) => {
                let code = search(&c);
                if let Some(f) = c.cleanup {
                    f();
                }
                code
            }
            None => {
                eprintln!("error: unknown check {id}");
                2
            }
        },
        _ => {
            eprintln!("usage: harness <ID> | harness replay <file>");
            2
        }
    }
}

fn replay(path: &Path, make: &dyn Fn(&str) -> Option<Check>) -> i32 {
    let text = std::fs::read_to_string(path).expect("replay file");
    let (id, name, case) = parse_replay(&text).expect("malformed replay file");
    let words = text.lines().take_while(|l| !l.starts_with("--- "));
    let words = words.filter_map(|l| l.strip_prefix("dictionary: ")).next();
    crate::dict::restore(words.unwrap_or(""));
    let check = make(&id).expect("unknown check");
    let mut failed = None;
    match (case, check.phases.iter().find(|p| p.name == name)) {
        (Some(case), Some(phase)) => {
            crate::watch::case(&name, &case);
            if let Outcome::Fail(f) = guarded(&*phase.check, &case) {
                failed = Some(f);
            }
        }
        _ => {
            if let Some(fixed) = &check.fixed {
                for (n, what) in fixed() {
                    if let (true, Fixed::Broken(f)) = (n == name, what) {
                        failed = Some(f);
                    }
                }
            }
        }
    }
    if let Some(f) = check.cleanup {
        f();
    }
    match failed {
        Some(f) => {
            announce(&id, path, &f);
            1
        }
        None => {
            println!("the property holds for the case");
            0
        }
    }
}

fn search(check: &Check) -> i32 {
    let seed: u64 = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.trim().parse::<i64>().ok())
        .map_or(1, |s| s as u64);
    let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
    let tier = if thorough { "thorough" } else { "quick" };
    // Divides the work, for trying things out
    let scale: f64 = std::env::var("VERIF_SCALE")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1.0);
    let begin = Instant::now();
    let mut report = Report {
        stats: Vec::new(),
        fixed: 0,
        known: Vec::new(),
        violations: 0,
    };
    let violation = |phase: &str, case: Option<&Case>, f: &Failure| {
        let path = replay_file(check.id, phase, case, f);
        announce(check.id, &path, f);
    };
    if let Some(fixed) = &check.fixed {
        crate::watch::fixed("fixed cases");
        let results = fixed();
        crate::watch::idle();
        for (name, what) in results {
            report.fixed += 1;
            match what {
                Fixed::Fine => (),
                Fixed::Known(what) => {
                    println!("KNOWN-FINDING: property={} {what}", check.id);
                    report.known.push(what);
                }
                Fixed::Broken(f) => {
                    if report.violations == 0 {
                        violation(&name, None, &f);
                    }
                    report.violations += 1;
                }
            }
        }
    }
    for (i, phase) in check.phases.iter().enumerate() {
        if report.violations > 0 {
            break;
        }
        let threads = 8;
        let factor = if thorough { phase.factor } else { 1 };
        let cases = (phase.quick as f64 * factor as f64 * scale / threads as f64).ceil();
        let plan = Plan {
            cases: cases.max(1.0) as u32,
            threads,
            syn: phase.syn,
            lay: phase.lay,
            alt: phase.alt,
            seed: seed.wrapping_mul(1000).wrapping_add(i as u64),
            phase: phase.name,
        };
        let (stats, found) = run(&plan, phase.check.clone());
        eprintln!(
            "{} ({}): {} cases, {} distinct and non-trivial, {} comparisons, {:.1} s",
            check.id,
            phase.name,
            stats.evaluations,
            stats.seen.len(),
            stats.checks,
            begin.elapsed().as_secs_f64()
        );
        report.stats.push((phase.name, stats));
        if let Some(f) = found {
            violation(phase.name, Some(&f.case), &f.failure);
            report.violations += 1;
        }
    }
    evidence(check, tier, seed, &report, begin.elapsed().as_secs_f64());
    if report.violations > 0 {
        1
    } else {
        0
    }
}
