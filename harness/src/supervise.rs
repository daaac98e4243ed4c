//! Runs a check in another process. If that process dies (stack overflow,
//! memory) or hangs, what it was working on is run again case by case, to find
//! the input that is to blame.

use crate::driver::{announce, parse_replay, replay_file};
use crate::engine::{Case, Failure};
use crate::watch::{self, Note, HANGS};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, ExitStatus, Stdio};
use std::time::{Duration, Instant};

struct Notes(PathBuf);

impl Drop for Notes {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn worker(args: &[String], notes: &Path, cpu: Option<u64>) -> Command {
    let mut c = Command::new(std::env::current_exe().expect("own path"));
    c.args(args).env(watch::NOTES, notes);
    let parent = std::process::id();
    unsafe {
        c.pre_exec(move || {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            if libc::getppid() as u32 != parent {
                libc::_exit(3);
            }
            let none = libc::rlimit {
                rlim_cur: 0,
                rlim_max: 0,
            };
            libc::setrlimit(libc::RLIMIT_CORE, &none);
            if let Some(n) = cpu {
                let l = libc::rlimit {
                    rlim_cur: n,
                    rlim_max: n,
                };
                libc::setrlimit(libc::RLIMIT_CPU, &l);
            }
            Ok(())
        });
    }
    c
}

fn run(c: &mut Command) -> ExitStatus {
    let mut child = c.spawn().expect("cannot start a process");
    let status = child.wait().expect("cannot wait for a process");
    crate::cli::cleanup_after(child.id());
    status
}

/// Why the process did not get to its end
fn died(s: ExitStatus) -> Option<String> {
    match (s.signal(), s.code()) {
        (Some(n @ (libc::SIGXCPU | libc::SIGKILL)), _) => Some(format!(
            "does not end in reasonable time (process ended by signal {n})"
        )),
        (Some(n), _) => Some(format!(
            "the process is ended by signal {n} (stack overflow, abort, or over 3 GB of memory)"
        )),
        (None, Some(HANGS)) => Some("does not end in reasonable time".to_string()),
        _ => None,
    }
}

/// Exit status of the check
pub fn supervise() -> i32 {
    let code = attempt();
    let replays = std::env::args().nth(1).is_some_and(|a| a == "replay");
    if code != 3 || replays || crate::dict::spelled().is_empty() {
        return code;
    }
    // No answer: what is found in the code may be beyond the generators
    eprintln!("trying again without dictionary");
    std::env::set_var(crate::dict::OFF, "1");
    attempt()
}

fn attempt() -> i32 {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let notes =
        Notes(std::env::temp_dir().join(format!("mofmt-verif-notes-{}", std::process::id())));
    std::fs::create_dir_all(&notes.0).expect("directory for notes");
    let status = run(&mut worker(&args, &notes.0, None));
    let Some(why) = died(status) else {
        return status.code().unwrap_or(3);
    };
    eprintln!("error: the check did not get to its end: {why}");
    let found = watch::read(&notes.0);
    if args[0] == "replay" {
        let path = PathBuf::from(&args[1]);
        let text = std::fs::read_to_string(&path).expect("replay file");
        let (id, ..) = parse_replay(&text).expect("malformed replay file");
        let source = text.split_once("--- input\n").map_or("", |t| t.1);
        let source = source.split("\n--- what fails").next().unwrap_or("");
        let f = Failure {
            source: source.to_string(),
            detail: why,
        };
        announce(&id, &path, &f);
        return 1;
    }
    let id = &args[0];
    let mut cases = Vec::new();
    let mut fixed = Vec::new();
    for n in found {
        match n {
            Note::Case(phase, case) => cases.push((phase, case)),
            Note::Fixed(name) => fixed.push(name),
        }
    }
    let search = Search {
        id,
        dir: &notes.0,
        until: Instant::now() + Duration::from_secs(90),
    };
    let dead = search.all(&cases, 45);
    let smallest = cases
        .into_iter()
        .zip(dead)
        .filter_map(|(c, d)| Some((c, d?)))
        .min_by_key(|((_, c), _)| size(c));
    let violation = match smallest {
        Some(((phase, case), why)) => {
            let (case, why) = search.shrink(&phase, case, why);
            let source = search.input(&phase, &case);
            Some((
                phase,
                Some(case),
                Failure {
                    source,
                    detail: why,
                },
            ))
        }
        None if !fixed.is_empty() => Some((
            fixed.join(" or "),
            None,
            Failure {
                source: fixed.join(" or "),
                detail: why,
            },
        )),
        None => None,
    };
    match violation {
        Some((phase, case, f)) => {
            let path = replay_file(id, &phase, case.as_ref(), &f);
            announce(id, &path, &f);
            1
        }
        None => {
            eprintln!("error: no case does this again");
            3
        }
    }
}

fn size(c: &Case) -> usize {
    c.syn.len() + c.lay.len() + c.alt.len()
}

fn part(c: &mut Case, which: usize) -> &mut Vec<u32> {
    match which {
        0 => &mut c.syn,
        1 => &mut c.lay,
        _ => &mut c.alt,
    }
}

struct Search<'a> {
    id: &'a str,
    dir: &'a Path,
    until: Instant,
}

impl Search<'_> {
    fn command(&self, n: usize, phase: &str, case: &Case, cpu: u64) -> Command {
        let path = self.dir.join(format!("case-{n}"));
        let numbers = |v: &[u32]| {
            v.iter()
                .map(|x| x.to_string())
                .collect::<Vec<_>>()
                .join(" ")
        };
        let text = format!(
            "property: {}\nphase: {phase}\ndictionary: {}\nsyn: {}\nlay: {}\nalt: {}\n",
            self.id,
            crate::dict::spelled(),
            numbers(&case.syn),
            numbers(&case.lay),
            numbers(&case.alt)
        );
        std::fs::write(&path, text).expect("case file");
        let notes = self.dir.join(format!("notes-{n}"));
        std::fs::create_dir_all(&notes).expect("directory for notes");
        let args = ["replay".to_string(), path.display().to_string()];
        let mut c = worker(&args, &notes, Some(cpu));
        c.stdout(Stdio::null()).stderr(Stdio::null());
        c
    }

    /// Which of the cases kill or block a process?
    fn all(&self, cases: &[(String, Case)], cpu: u64) -> Vec<Option<String>> {
        std::thread::scope(|s| {
            let threads: Vec<_> = cases
                .iter()
                .enumerate()
                .map(|(n, (phase, case))| {
                    s.spawn(move || died(run(&mut self.command(n, phase, case, cpu))))
                })
                .collect();
            threads
                .into_iter()
                .map(|t| t.join().unwrap_or(None))
                .collect()
        })
    }

    fn shrink(&self, phase: &str, mut case: Case, mut why: String) -> (Case, String) {
        // Every part, from large to small, is left out if it can be
        let mut chunk = 1 << 20;
        while chunk > 0 {
            let mut candidates = Vec::new();
            for which in 0..3 {
                let len = part(&mut case, which).len();
                let mut at = 0;
                while at < len && chunk < 2 * len {
                    let mut c = case.clone();
                    part(&mut c, which).drain(at..(at + chunk).min(len));
                    candidates.push((phase.to_string(), c));
                    at += chunk;
                }
            }
            let mut better = false;
            for some in candidates.chunks(8) {
                if Instant::now() > self.until {
                    return (case, why);
                }
                let dead = self.all(some, 12);
                if let Some((c, w)) = some.iter().zip(dead).find_map(|(c, d)| Some((c, d?))) {
                    case = c.1.clone();
                    why = w;
                    better = true;
                    break;
                }
            }
            if !better {
                chunk /= 2;
            }
        }
        (case, why)
    }

    /// What mofmt was given when the process died
    fn input(&self, phase: &str, case: &Case) -> String {
        let path = self.dir.join("input");
        let mut c = self.command(0, phase, case, 45);
        run(c.env(watch::DUMP, &path));
        let text = std::fs::read(&path).unwrap_or_default();
        String::from_utf8_lossy(&text)
            .chars()
            .take(20_000)
            .collect()
    }
}
