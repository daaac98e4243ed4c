//! Runs a check over generated cases with proptest, shrinks failures, and
//! collects the statistics for the evidence file

use crate::src::Src;
use proptest::prelude::*;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};

/// Generated choices
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Case {
    /// What is generated (syntax)
    pub syn: Vec<u32>,
    /// How it is laid out
    pub lay: Vec<u32>,
    /// The second element of a relation (mutation, relayout, renaming, ...)
    pub alt: Vec<u32>,
}

impl Case {
    pub fn syn(&self) -> Src<'_> {
        Src::new(&self.syn)
    }
    pub fn lay(&self) -> Src<'_> {
        Src::new(&self.lay)
    }
    pub fn alt(&self) -> Src<'_> {
        Src::new(&self.alt)
    }
}

pub enum Outcome {
    /// The case is out of the property's domain
    Discard(&'static str),
    Pass(Info),
    Fail(Failure),
}

#[derive(Default, Clone)]
pub struct Info {
    pub nontrivial: bool,
    /// What identifies the case
    pub source: String,
    /// Features covered by the case
    pub classes: Vec<&'static str>,
    /// How many individual comparisons the case stands for
    pub checks: u64,
}

#[derive(Clone, Debug)]
pub struct Failure {
    pub source: String,
    pub detail: String,
}

impl Outcome {
    pub fn fail(source: &str, detail: String) -> Self {
        Outcome::Fail(Failure {
            source: source.to_string(),
            detail,
        })
    }
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub discarded: BTreeMap<&'static str, u64>,
    pub classes: BTreeMap<&'static str, u64>,
    pub seen: HashSet<u64>,
    pub checks: u64,
    pub samples: Vec<String>,
}

impl Stats {
    fn merge(&mut self, other: Stats) {
        self.evaluations += other.evaluations;
        for (k, v) in other.discarded {
            *self.discarded.entry(k).or_default() += v;
        }
        for (k, v) in other.classes {
            *self.classes.entry(k).or_default() += v;
        }
        self.seen.extend(other.seen);
        self.checks += other.checks;
        self.samples.extend(other.samples);
    }

    pub fn record(&mut self, o: &Outcome) {
        self.evaluations += 1;
        match o {
            Outcome::Discard(why) => *self.discarded.entry(why).or_default() += 1,
            Outcome::Pass(info) => {
                for c in &info.classes {
                    *self.classes.entry(c).or_default() += 1;
                }
                self.checks += info.checks;
                if info.nontrivial {
                    let mut h = DefaultHasher::new();
                    info.source.hash(&mut h);
                    if self.seen.insert(h.finish())
                        && self.samples.len() < 3
                        && self.seen.len() % 7 == 1
                    {
                        self.samples.push(info.source.chars().take(1200).collect());
                    }
                }
            }
            Outcome::Fail(_) => (),
        }
    }
}

pub type CheckFn = dyn Fn(&Case) -> Outcome + Send + Sync;

pub struct Plan {
    /// Cases per thread
    pub cases: u32,
    pub threads: u64,
    /// Greatest number of choices of each kind
    pub syn: usize,
    pub lay: usize,
    pub alt: usize,
    pub seed: u64,
    pub phase: &'static str,
}

fn choices(max: usize) -> BoxedStrategy<Vec<u32>> {
    if max == 0 {
        return Just(Vec::new()).boxed();
    }
    // Short vectors make small cases, which are checked (and shrunk) first
    prop_oneof![
        60 => prop::collection::vec(any::<u32>(), 0..=max),
        1 => prop::collection::vec(any::<u32>(), max..=max * 8),
        20 => prop::collection::vec(any::<u32>(), 0..=max / 8 + 1),
    ]
    .boxed()
}

pub struct Found {
    pub case: Case,
    pub failure: Failure,
}

/// Silence the default panic message: panics are part of outcomes
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|_| ()));
}

pub fn panic_text(e: &(dyn std::any::Any + Send)) -> String {
    e.downcast_ref::<String>()
        .cloned()
        .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_else(|| "panic".to_string())
}

pub fn run(plan: &Plan, check: Arc<CheckFn>) -> (Stats, Option<Found>) {
    let stop = Arc::new(AtomicBool::new(false));
    let found: Arc<Mutex<Option<Found>>> = Arc::new(Mutex::new(None));
    let total: Arc<Mutex<Stats>> = Arc::new(Mutex::new(Stats::default()));
    let handles: Vec<_> = (0..plan.threads)
        .map(|t| {
            let (stop, found, total, check) =
                (stop.clone(), found.clone(), total.clone(), check.clone());
            let mut seed = [0u8; 32];
            seed[..8].copy_from_slice(&plan.seed.to_le_bytes());
            seed[8..16].copy_from_slice(&t.to_le_bytes());
            let config = Config {
                cases: plan.cases,
                failure_persistence: None,
                max_shrink_iters: 6000,
                max_shrink_time: 20_000,
                source_file: None,
                ..Config::default()
            };
            let phase = plan.phase;
            let (ns, nl, na) = (plan.syn, plan.lay, plan.alt);
            std::thread::Builder::new()
                .stack_size(512 << 20)
                .spawn(move || {
                    let strategy = (choices(ns), choices(nl), choices(na));
                    let stats = RefCell::new(Stats::default());
                    let failed = RefCell::new(None::<Failure>);
                    let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed);
                    let mut runner = TestRunner::new_with_rng(config, rng);
                    let result = runner.run(&strategy, |(syn, lay, alt)| {
                        if failed.borrow().is_none() && stop.load(Ordering::Relaxed) {
                            return Ok(());
                        }
                        let case = Case { syn, lay, alt };
                        crate::watch::case(phase, &case);
                        let outcome = guarded(&*check, &case);
                        if failed.borrow().is_none() {
                            stats.borrow_mut().record(&outcome);
                        }
                        match outcome {
                            Outcome::Fail(f) => {
                                stop.store(true, Ordering::Relaxed);
                                *failed.borrow_mut() = Some(f);
                                Err(TestCaseError::fail("violation"))
                            }
                            _ => Ok(()),
                        }
                    });
                    if let Err(TestError::Fail(_, (syn, lay, alt))) = result {
                        let case = Case { syn, lay, alt };
                        let failure = match guarded(&*check, &case) {
                            Outcome::Fail(f) => f,
                            _ => failed.borrow().clone().unwrap(),
                        };
                        let mut slot = found.lock().unwrap();
                        let size = |c: &Case| c.syn.len() + c.lay.len() + c.alt.len();
                        if slot.as_ref().is_none_or(|f| size(&f.case) > size(&case)) {
                            *slot = Some(Found { case, failure });
                        }
                    }
                    total.lock().unwrap().merge(stats.into_inner());
                })
                .unwrap()
        })
        .collect();
    let mut broken = false;
    for h in handles {
        broken |= h.join().is_err();
    }
    if broken {
        eprintln!("error: a worker thread of the harness failed");
        std::process::exit(3);
    }
    let stats = std::mem::take(&mut *total.lock().unwrap());
    let found = found.lock().unwrap().take();
    (stats, found)
}

/// Run the check; a panic that escapes from it is an error of the harness
pub fn guarded(check: &CheckFn, case: &Case) -> Outcome {
    match catch_unwind(AssertUnwindSafe(|| check(case))) {
        Ok(o) => o,
        Err(e) => {
            eprintln!("error: harness panicked: {}", panic_text(&*e));
            let t = format!("{case:?}");
            eprintln!(
                "case: {} ({} choices)",
                t.chars().take(2000).collect::<String>(),
                case.syn.len() + case.lay.len() + case.alt.len()
            );
            std::process::exit(3);
        }
    }
}
