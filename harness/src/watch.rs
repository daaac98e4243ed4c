//! What every thread is working on, so that a case which kills or blocks the
//! whole process can be told, and run again, by the process that waits for it

use crate::engine::Case;
use std::cell::Cell;
use std::fs::File;
use std::os::unix::fs::FileExt;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Mutex, OnceLock};
use std::time::{Duration, Instant};

/// Exit status of a worker that found one of its threads hanging
pub const HANGS: i32 = 70;

/// Processor time after which a case counts as hanging
pub const HANG_CPU: Duration = Duration::from_secs(30);
/// Time after which it does, even if it does nothing
const HANG_WALL: Duration = Duration::from_secs(400);

const MOST: usize = 64;

struct Slot {
    file: Option<File>,
    clock: libc::clockid_t,
    beats: u64,
    busy: bool,
}

static SLOTS: [Mutex<Option<Slot>>; MOST] = [const { Mutex::new(None) }; MOST];
static BEATS: [AtomicU64; MOST] = [const { AtomicU64::new(0) }; MOST];
static NEXT: AtomicUsize = AtomicUsize::new(0);
static WATCHED: AtomicBool = AtomicBool::new(false);
static DIR: OnceLock<Option<PathBuf>> = OnceLock::new();

thread_local! {
    static INDEX: Cell<Option<usize>> = const { Cell::new(None) };
}

/// Name of the variable with the directory for notes
pub const NOTES: &str = "VERIF_NOTES";

fn dir() -> &'static Option<PathBuf> {
    DIR.get_or_init(|| std::env::var_os(NOTES).map(PathBuf::from))
}

fn index() -> Option<usize> {
    INDEX.with(|i| {
        if let Some(n) = i.get() {
            return Some(n);
        }
        let n = NEXT.fetch_add(1, Ordering::Relaxed);
        if n >= MOST {
            return None;
        }
        let mut clock = 0;
        if unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut clock) } != 0 {
            return None;
        }
        let file = dir()
            .as_ref()
            .and_then(|d| File::create(d.join(format!("{n}"))).ok());
        *SLOTS[n].lock().unwrap() = Some(Slot {
            file,
            clock,
            beats: 0,
            busy: true,
        });
        i.set(Some(n));
        if !WATCHED.swap(true, Ordering::Relaxed) {
            std::thread::spawn(watch);
        }
        Some(n)
    })
}

/// The current thread begins with something
fn note(bytes: &[u8]) {
    let Some(n) = index() else { return };
    BEATS[n].fetch_add(1, Ordering::Relaxed);
    let mut slot = SLOTS[n].lock().unwrap();
    let Some(slot) = slot.as_mut() else { return };
    slot.busy = bytes[0] != 0;
    if let Some(f) = &slot.file {
        let mut all = (bytes.len() as u64).to_le_bytes().to_vec();
        all.extend_from_slice(bytes);
        let _ = f.write_all_at(&all, 0);
    }
}

/// ... with a generated case
pub fn case(phase: &str, c: &Case) {
    if dir().is_none() && WATCHED.load(Ordering::Relaxed) {
        if let Some(n) = index() {
            BEATS[n].fetch_add(1, Ordering::Relaxed);
        }
        return;
    }
    let mut out = Vec::with_capacity(4 * (c.syn.len() + c.lay.len() + c.alt.len()) + 64);
    out.push(1u8);
    out.extend((phase.len() as u32).to_le_bytes());
    out.extend(phase.as_bytes());
    for v in [&c.syn, &c.lay, &c.alt] {
        out.extend((v.len() as u32).to_le_bytes());
        for x in v {
            out.extend(x.to_le_bytes());
        }
    }
    note(&out);
}

/// ... with a fixed case
pub fn fixed(name: &str) {
    let mut out = vec![2u8];
    out.extend(name.as_bytes());
    note(&out);
}

/// The current thread is done with everything
pub fn idle() {
    note(&[0]);
}

/// Name of the variable with the file to write inputs of mofmt to
pub const DUMP: &str = "VERIF_DUMP";

static DUMP_TO: OnceLock<Option<PathBuf>> = OnceLock::new();

/// The current thread gives the text to mofmt
pub fn input(text: &str) {
    if let Some(p) = DUMP_TO.get_or_init(|| std::env::var_os(DUMP).map(PathBuf::from)) {
        let _ = std::fs::write(p, text);
    }
}

fn cpu(clock: libc::clockid_t) -> Option<Duration> {
    let mut t = libc::timespec {
        tv_sec: 0,
        tv_nsec: 0,
    };
    if unsafe { libc::clock_gettime(clock, &mut t) } != 0 {
        return None;
    }
    Some(Duration::new(t.tv_sec as u64, t.tv_nsec as u32))
}

fn watch() {
    let mut since = vec![(Instant::now(), Duration::ZERO); MOST];
    loop {
        std::thread::sleep(Duration::from_millis(200));
        for (n, slot) in SLOTS.iter().enumerate().take(NEXT.load(Ordering::Relaxed)) {
            let mut slot = slot.lock().unwrap();
            let Some(s) = slot.as_mut() else { continue };
            let Some(now) = cpu(s.clock) else {
                // The thread is gone
                *slot = None;
                continue;
            };
            let beats = BEATS[n].load(Ordering::Relaxed);
            if beats != s.beats || !s.busy {
                s.beats = beats;
                since[n] = (Instant::now(), now);
            } else if now.saturating_sub(since[n].1) > HANG_CPU || since[n].0.elapsed() > HANG_WALL
            {
                eprintln!("error: a case does not end");
                std::process::exit(HANGS);
            }
        }
    }
}

pub enum Note {
    Case(String, Case),
    Fixed(String),
}

/// What the threads of a worker were doing when it ended
pub fn read(dir: &Path) -> Vec<Note> {
    let mut out = Vec::new();
    for n in 0..MOST {
        let Ok(bytes) = std::fs::read(dir.join(format!("{n}"))) else {
            continue;
        };
        out.extend(parse(&bytes));
    }
    out
}

fn parse(bytes: &[u8]) -> Option<Note> {
    let len = u64::from_le_bytes(bytes.get(..8)?.try_into().ok()?) as usize;
    let bytes = bytes.get(8..8 + len)?;
    let mut at = 1;
    let mut number = || {
        let n = u32::from_le_bytes(bytes.get(at..at + 4)?.try_into().ok()?);
        at += 4;
        Some(n)
    };
    match bytes.first()? {
        1 => {
            let n = number()? as usize;
            let name = String::from_utf8(bytes.get(5..5 + n)?.to_vec()).ok()?;
            at = 5 + n;
            let mut number = || {
                let n = u32::from_le_bytes(bytes.get(at..at + 4)?.try_into().ok()?);
                at += 4;
                Some(n)
            };
            let mut list = || {
                let n = number()?;
                (0..n).map(|_| number()).collect::<Option<Vec<u32>>>()
            };
            Some(Note::Case(
                name,
                Case {
                    syn: list()?,
                    lay: list()?,
                    alt: list()?,
                },
            ))
        }
        2 => Some(Note::Fixed(String::from_utf8(bytes[1..].to_vec()).ok()?)),
        _ => None,
    }
}
