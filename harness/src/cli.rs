//! Checks of the binary on trees of files: C18-C21, C24, and a part of C14.
//! Everything happens in scratch directories; the binary runs as an
//! unprivileged user, so that permissions mean something.

use crate::accept::mutate;
use crate::dict;
use crate::engine::{Case, Info, Outcome};
use crate::gen::generate;
use crate::layout::{draw, render, FULL};
use crate::src::Src;
use crate::sut::{format, Fmt};
use mofmt::SyntaxKind;
use std::collections::{BTreeMap, BTreeSet};
use std::ffi::{OsStr, OsString};
use std::fs;
use std::os::fd::FromRawFd;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::fs::{symlink, MetadataExt, PermissionsExt};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::OnceLock;

const NOBODY: u32 = 65534;

pub struct Env {
    base: PathBuf,
    bin: PathBuf,
    /// Files belong to another user, who runs the binary
    drop: bool,
    /// Access times tell whether a file was read
    atime: bool,
}

static ENV: OnceLock<Env> = OnceLock::new();
static COUNTER: AtomicU64 = AtomicU64::new(0);

fn make_env() -> Option<Env> {
    let from = std::env::var_os("MOFMT_BIN").map(PathBuf::from)?;
    for root in [std::env::temp_dir(), PathBuf::from("/dev/shm")] {
        let base = root.join(format!("mofmt-verif-{}", std::process::id()));
        if fs::create_dir_all(&base).is_err() {
            continue;
        }
        let _ = fs::set_permissions(&base, fs::Permissions::from_mode(0o755));
        let bin = base.join("mofmt");
        if fs::copy(&from, &bin).is_err() {
            let _ = fs::remove_dir_all(&base);
            continue;
        }
        let _ = fs::set_permissions(&bin, fs::Permissions::from_mode(0o755));
        let mut env = Env {
            base,
            bin,
            drop: true,
            atime: false,
        };
        env.atime = access_times_work(&env).unwrap_or(false);
        env.drop = permissions_work(&env).unwrap_or(false);
        let works = env
            .command()
            .arg("--help")
            .output()
            .is_ok_and(|o| !matches!(o.status.code(), None | Some(97 | 98)));
        if works {
            return Some(env);
        }
        let _ = fs::remove_dir_all(&env.base);
    }
    None
}

/// Can the binary be run by another user, who must not read what is not theirs?
fn permissions_work(env: &Env) -> std::io::Result<bool> {
    let f = env.base.join("probe");
    fs::write(&f, "x")?;
    std::os::unix::fs::chown(&f, Some(NOBODY), Some(NOBODY))?;
    fs::set_permissions(&f, fs::Permissions::from_mode(0o000))?;
    // This process has to be able to restore everything
    let mine = fs::read(&f).is_ok();
    let mut c = Command::new("/bin/cat");
    c.arg(&f).uid(NOBODY).gid(NOBODY);
    c.stdout(Stdio::null()).stderr(Stdio::null());
    let theirs = c.status()?.success();
    fs::remove_file(&f)?;
    let runs = env.command().arg("--help").output()?;
    Ok(mine && !theirs && !matches!(runs.status.code(), None | Some(97 | 98)))
}

fn access_times_work(env: &Env) -> std::io::Result<bool> {
    let f = env.base.join("probe-atime");
    fs::write(&f, "x")?;
    age(&f);
    let old = fs::metadata(&f)?.atime();
    fs::read(&f)?;
    let new = fs::metadata(&f)?.atime();
    fs::remove_file(&f)?;
    Ok(old == OLD && new != OLD)
}

const OLD: i64 = 1_000_000_000;

/// Make the file look as if it was not read since it was written
fn age(p: &Path) {
    let p = std::ffi::CString::new(p.as_os_str().as_bytes()).unwrap();
    let times = [
        libc::timespec {
            tv_sec: OLD,
            tv_nsec: 0,
        },
        libc::timespec {
            tv_sec: 0,
            tv_nsec: libc::UTIME_OMIT,
        },
    ];
    unsafe {
        libc::utimensat(
            libc::AT_FDCWD,
            p.as_ptr(),
            times.as_ptr(),
            libc::AT_SYMLINK_NOFOLLOW,
        )
    };
}

impl Env {
    fn command(&self) -> Command {
        self.limited(None)
    }

    fn limited(&self, most: Option<u64>) -> Command {
        // Setting the user here would need a fork, which is slow
        let mut c = Command::new(std::env::current_exe().expect("own path"));
        c.arg(if self.drop { AS_NOBODY } else { AS_SELF });
        c.arg(most.map_or("-".to_string(), |n| n.to_string()))
            .arg(&self.bin);
        c.env_clear().stdin(Stdio::null());
        c.current_dir(&self.base);
        c
    }
}

fn env() -> &'static Env {
    ENV.get_or_init(|| match make_env() {
        Some(e) => e,
        None => {
            eprintln!("error: the binary (MOFMT_BIN) cannot be run in a scratch directory");
            std::process::exit(3);
        }
    })
}

const AS_NOBODY: &str = "--as-nobody";
const AS_SELF: &str = "--as-self";

/// `harness --as-nobody LIMIT PROGRAM ARGS`: run the program as an unprivileged
/// user, with limits on what it may use. LIMIT is the greatest size of files it
/// may write; writing more is an error then.
pub fn run_as_nobody() -> Option<i32> {
    let args: Vec<OsString> = std::env::args_os().collect();
    if args.len() < 4 || (args[1] != AS_NOBODY && args[1] != AS_SELF) {
        return None;
    }
    let limit = |what, most| unsafe {
        let l = libc::rlimit {
            rlim_cur: most,
            rlim_max: most,
        };
        libc::setrlimit(what, &l);
    };
    limit(libc::RLIMIT_CPU, 60);
    limit(libc::RLIMIT_AS, 6 << 30);
    let most = args[2].to_str().and_then(|t| t.parse().ok());
    limit(libc::RLIMIT_FSIZE, most.unwrap_or(1 << 30));
    if most.is_some() {
        unsafe { libc::signal(libc::SIGXFSZ, libc::SIG_IGN) };
    }
    limit(libc::RLIMIT_CORE, 0);
    unsafe { libc::alarm(300) };
    unsafe {
        if args[1] == AS_NOBODY && libc::setgroups(0, std::ptr::null()) != 0
            || args[1] == AS_NOBODY && libc::setgid(NOBODY) != 0
            || args[1] == AS_NOBODY && libc::setuid(NOBODY) != 0
        {
            return Some(97);
        }
    }
    let _ = Command::new(&args[3]).args(&args[4..]).exec();
    Some(98)
}

/// Remove what a process that ended early left behind
pub fn cleanup_after(pid: u32) {
    for root in [std::env::temp_dir(), PathBuf::from("/dev/shm")] {
        let _ = fs::remove_dir_all(root.join(format!("mofmt-verif-{pid}")));
    }
}

pub fn cleanup() {
    if let Some(e) = ENV.get() {
        let _ = fs::remove_dir_all(&e.base);
    }
}

/// Directory of a case, removed when dropped
struct Scratch(PathBuf);

impl Scratch {
    fn new() -> Self {
        let n = COUNTER.fetch_add(1, Ordering::Relaxed);
        let d = env().base.join(format!("w{n}"));
        fs::create_dir(&d).expect("scratch directory");
        own(&d);
        Scratch(d)
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

fn own(p: &Path) {
    if env().drop {
        std::os::unix::fs::lchown(p, Some(NOBODY), Some(NOBODY)).expect("chown");
    }
}

#[derive(Clone, Debug, PartialEq)]
struct Ran {
    /// `None`: ended by a signal
    code: Option<i32>,
    signal: Option<i32>,
    out: String,
    err: String,
}

impl Ran {
    fn lines(&self) -> impl Iterator<Item = &str> {
        self.out.lines().chain(self.err.lines())
    }
    /// Lines with the paths of their beginnings simplified
    fn paths(&self) -> Vec<String> {
        self.lines()
            .map(|l| {
                let mut l = l.to_string();
                for from in ["/./", "//"] {
                    while l.contains(from) {
                        l = l.replace(from, "/");
                    }
                }
                l
            })
            .collect()
    }
    fn show(&self) -> String {
        format!(
            "exit status {:?} (signal {:?})\n--- stdout\n{}\n--- stderr\n{}",
            self.code, self.signal, self.out, self.err
        )
    }
}

fn mofmt(dir: &Path, args: &[OsString]) -> Ran {
    run(env().command(), dir, args)
}

/// Run with a limit on the size of files
fn mofmt_limited(dir: &Path, args: &[OsString], most: u64) -> Ran {
    run(env().limited(Some(most)), dir, args)
}

/// What becomes of the reports
#[derive(Clone, Copy, Debug)]
enum Sink {
    Full,
    ClosedPipe,
}

fn sink(what: Sink) -> Stdio {
    match what {
        Sink::Full => fs::OpenOptions::new()
            .write(true)
            .open("/dev/full")
            .expect("/dev/full")
            .into(),
        Sink::ClosedPipe => {
            let mut ends = [0; 2];
            unsafe {
                assert_eq!(libc::pipe2(ends.as_mut_ptr(), libc::O_CLOEXEC), 0, "pipe");
                libc::close(ends[0]);
                Stdio::from(std::os::fd::OwnedFd::from_raw_fd(ends[1]))
            }
        }
    }
}

/// Run without anyone reading the reports
fn mofmt_unheard(dir: &Path, args: &[OsString], out: Sink, err: Option<Sink>) -> Ran {
    let status = env()
        .command()
        .current_dir(dir)
        .args(args)
        .stdout(sink(out))
        .stderr(err.map_or_else(Stdio::null, sink))
        .status()
        .expect("cannot run the binary");
    Ran {
        code: status.code(),
        signal: status.signal(),
        out: String::new(),
        err: String::new(),
    }
}

fn run(mut command: Command, dir: &Path, args: &[OsString]) -> Ran {
    let o = command
        .current_dir(dir)
        .args(args)
        .output()
        .expect("cannot run the binary");
    Ran {
        code: o.status.code(),
        signal: o.status.signal(),
        out: String::from_utf8_lossy(&o.stdout).into_owned(),
        err: String::from_utf8_lossy(&o.stderr).into_owned(),
    }
}

// Contents of files

#[derive(Clone, Debug)]
struct Content {
    bytes: Vec<u8>,
    what: &'static str,
}

/// What the binary has to make of the contents of a file
#[derive(Clone, Debug)]
enum Verdict {
    /// Formatted text with its final end of line
    Valid(Vec<u8>),
    /// Location of the first error
    Invalid(String),
    NotText,
}

fn judge(bytes: &[u8]) -> Result<Verdict, String> {
    let Ok(text) = std::str::from_utf8(bytes) else {
        return Ok(Verdict::NotText);
    };
    match format(text) {
        Fmt::Ok(out) => Ok(Verdict::Valid(format!("{out}\n").into_bytes())),
        Fmt::Errors(e) => {
            let at = e
                .first()
                .and_then(|e| e.strip_prefix("f.mo:"))
                .unwrap_or("");
            let at: Vec<&str> = at.splitn(3, ':').take(2).collect();
            Ok(Verdict::Invalid(format!(":{}:", at.join(":"))))
        }
        Fmt::Panic(e) => Err(e),
    }
}

fn program(s: &mut Src, lay: &mut Src) -> String {
    let most = *s.pick(&[25, 12, 60, 150]);
    let doc = generate(s, SyntaxKind::StoredDefinition, most);
    let texts = doc.texts();
    render(&texts, &draw(lay, &texts, FULL)).source
}

fn big_program(s: &mut Src) -> String {
    let n = *s.pick(&[300, 300, 3_000, 3_000, 3_000, 3_000, 3_000, 20_000]);
    (0..n)
        .map(|i| format!("model   M{i} Real x ;  \n\n\n equation x=1+ {i} ;end M{i} ;\n"))
        .collect()
}

struct Mix {
    formatted: usize,
    near: usize,
    invalid: usize,
    not_text: usize,
    big: usize,
}

fn content(k: &mut Src, s: &mut Src, lay: &mut Src, mix: &Mix) -> Content {
    let mk = |t: String, what| Content {
        bytes: t.into_bytes(),
        what,
    };
    if k.chance(mix.big, 2000) {
        let t = big_program(k);
        return mk(t, "big file");
    }
    let text = program(s, lay);
    let total = 16;
    let r = k.below(total);
    let (a, b) = (mix.formatted, mix.formatted + mix.near);
    let (c, d) = (b + mix.invalid, b + mix.invalid + mix.not_text);
    let formatted = |t: &str| match format(t) {
        Fmt::Ok(o) => format!("{o}\n"),
        _ => t.to_string(),
    };
    if r >= d {
        return mk(text, "unformatted file");
    }
    if r < a {
        return mk(formatted(&text), "formatted file");
    }
    if r < b {
        let mut t = formatted(&text);
        let spots: Vec<usize> = t.match_indices([' ', '\n', ';']).map(|m| m.0).collect();
        match k.below(11) {
            9 => t.insert(0, '\u{feff}'),
            10 => t.push('\0'),
            0 => {
                t.pop();
            }
            1 => t.push('\n'),
            2 => t.push(' '),
            3 => t = t.replace('\n', "\r\n"),
            4 => t.insert(0, '\n'),
            5 => t.insert(0, ' '),
            6 => {
                t.pop();
                t += "\r\n";
            }
            _ => {
                if !spots.is_empty() {
                    let i = *k.pick(&spots);
                    t.insert(i, *k.pick(&[' ', '\n', '\t']));
                }
            }
        }
        return mk(t, "nearly formatted file");
    }
    if r < c {
        let texts = [
            "model A",
            "model A equation x = ; end A;",
            "end A;",
            "\u{20ac}",
            "\"",
            "/*",
            "model A end B",
            "x",
        ];
        let t = if k.chance(6, 16) {
            k.pick(&texts).to_string()
        } else {
            let mut doc: Vec<_> = generate(s, SyntaxKind::StoredDefinition, 40)
                .toks
                .into_iter()
                .map(|t| (t.kind, t.text))
                .collect();
            mutate(k, &mut doc);
            let texts: Vec<&str> = doc.iter().map(|t| t.1.as_str()).collect();
            render(&texts, &draw(lay, &texts, FULL)).source
        };
        return mk(t, "mutated file");
    }
    let mut bytes = text.into_bytes();
    let bad: &[u8] = k.pick(&[
        &b"\xff"[..],
        b"\xc3",
        b"\xed\xa0\x80",
        b"\xfe\xffm\0",
        b"\xe2\x82",
    ]);
    let at = k.below(bytes.len() + 1);
    // Might fall inside of a character, which stays invalid
    bytes.splice(at..at, bad.iter().copied());
    if std::str::from_utf8(&bytes).is_ok() {
        bytes = b"model A end A;\xff".to_vec();
    }
    Content {
        bytes,
        what: "not UTF-8",
    }
}

// Trees

#[derive(Clone, Debug)]
enum Node {
    File {
        content: Content,
        mode: u32,
    },
    Dir {
        children: Vec<Entry>,
        mode: u32,
    },
    Dangling,
    /// Symbolic link to a file or directory at the top
    Link(Box<Entry>),
}

#[derive(Clone, Debug)]
struct Entry {
    name: OsString,
    /// Occurs in the name of this entry and nowhere else
    token: String,
    node: Node,
}

struct Params {
    mix: Mix,
    /// Probability (of 16) of each kind of fault
    faults: usize,
    dirs: usize,
    others: usize,
}

/// Token of what has a name that may occur in those of others
const NOWHERE: &str = "\u{1}nowhere\u{1}";

/// Text that may be a part of the name of a file
fn name_part(text: &str) -> String {
    let t: String = text
        .chars()
        .filter(|c| !c.is_control() && !c.is_whitespace() && !['/', ':'].contains(c))
        .take(20)
        .collect();
    t
}

struct Maker<'a, 'b> {
    /// Decides names, modes and nesting
    s: &'a mut Src<'b>,
    case: &'a Case,
    p: &'a Params,
    n: usize,
    /// Target of a link
    linked: Option<Entry>,
    left: usize,
    used: BTreeSet<&'static str>,
    /// Names from the last directory with a token of its own; empty at the top
    path: String,
    /// Paths in use that do not end with a token
    common: BTreeSet<String>,
}

impl Maker<'_, '_> {
    /// Every file reads the choices from another place
    fn content(&mut self) -> Content {
        fn from(v: &[u32], n: usize) -> Src<'_> {
            Src::new(if v.is_empty() {
                v
            } else {
                &v[n * 53 % v.len()..]
            })
        }
        let mut s = from(&self.case.syn, self.n);
        let mut lay = from(&self.case.lay, self.n);
        content(self.s, &mut s, &mut lay, &self.p.mix)
    }

    fn token(&mut self) -> String {
        self.n += 1;
        format!("q{:05}", self.n)
    }

    /// Name with a meaning elsewhere, once in a tree
    fn special(&mut self, names: &[&'static str]) -> Option<String> {
        let name = *self.s.pick(names);
        if !self.s.chance(1, 12) || !self.used.insert(name) {
            return None;
        }
        Some(name.to_string())
    }

    /// Name that occurs in many directories; the path is the token
    fn common(&mut self, names: &[&'static str]) -> Option<(String, String)> {
        let name = *self.s.pick(names);
        let token = format!("{}/{name}", self.path);
        if self.path.is_empty() || !self.s.chance(3, 16) || !self.common.insert(token.clone()) {
            return None;
        }
        Some((name.to_string(), token))
    }

    /// Name taken from the dictionary as it is, in a directory
    fn exact(&mut self) -> Option<String> {
        if self.path.is_empty() {
            return None;
        }
        let name = dict::text(self.s, 12).map(|t| name_part(&t))?;
        let path = format!("{}/{name}", self.path);
        let is_name = !["", ".", "..", ".mo", "mo"].contains(&name.as_str());
        (is_name && self.common.insert(path)).then_some(name)
    }

    /// Companion of a file, as other programs leave them
    fn sidecar(&mut self, of: &Entry) -> Option<Entry> {
        let name = of.name.to_str()?;
        let stem = name.strip_suffix(".mo").filter(|t| !t.is_empty())?;
        if name.len() > 200 || !self.s.chance(1, 8) {
            return None;
        }
        let suffix = match dict::text(self.s, 3).map(|t| name_part(&t)) {
            Some(t) => t,
            None => self
                .s
                .pick(&[
                    "lock", "bak", "orig", "tmp", "swp", "skip", "rej", "ignore", "new", "order",
                ])
                .to_string(),
        };
        let name = match self.s.below(7) {
            0 => format!("{name}.{suffix}"),
            1 => format!("{stem}.{suffix}"),
            2 => format!("{name}~"),
            3 => format!(".{name}.{suffix}"),
            4 => format!("{name}{suffix}"),
            5 => format!("{stem}{suffix}"),
            _ => stem.to_string(),
        };
        let path = format!("{}/{name}", self.path);
        if name.ends_with(".mo") || self.path.is_empty() || !self.common.insert(path) {
            return None;
        }
        Some(Entry {
            name: name.into(),
            token: NOWHERE.to_string(),
            node: Node::File {
                content: self.content(),
                mode: 0o644,
            },
        })
    }

    fn mo_name(&mut self, token: &str) -> OsString {
        if let Some(t) = dict::text(self.s, 6).map(|t| name_part(&t)) {
            let t = match self.s.below(4) {
                0 => format!("{t}{token}.mo"),
                1 => format!("{token}{t}.mo"),
                2 => format!("{token}.{t}.mo"),
                _ => format!("{t}{token}{t}.mo"),
            };
            return t.into();
        }
        let t = match self.s.below(24) {
            20 => format!("{token}:1:2: x.mo"),
            21 => format!("{}{token}.mo", self.printable()),
            22 => format!("{token}{}.mo", self.printable()),
            23 => format!("{}{token}{}.mo", self.printable(), self.printable()),
            16 => format!("{}{token}.mo", "a".repeat(246)),
            17 => format!("~{token}\t(copy).mo"),
            18 => format!("{token}_test.MO.mo"),
            19 => format!("{token}\\.mo"),
            9 => format!("-{token}.mo"),
            10 => format!("--{token} -h.mo"),
            0 => format!("{token} x.mo"),
            1 => format!("\u{105}{token}\u{20ac}.mo"),
            2 => format!(".{token}.mo"),
            3 => format!("{token}.x.mo"),
            4 => format!("{token}.mo.mo"),
            5 => format!("{token}-.mo"),
            6 => format!("{token}'\".mo"),
            7 => format!("{token}*$HOME.mo"),
            8 => {
                let mut v = format!("{token}\u{105}").into_bytes();
                v.pop();
                v.extend(b"\xff.mo");
                return OsString::from_vec(v);
            }
            _ => format!("{token}.mo"),
        };
        t.into()
    }

    /// Any characters a name may have
    fn printable(&mut self) -> String {
        let n = 1 + self.s.below(3);
        (0..n)
            .map(|_| match b' ' + self.s.below(96) as u8 {
                b'/' => '\u{e9}',
                c => c as char,
            })
            .collect()
    }

    fn other_name(&mut self, token: &str) -> OsString {
        if let Some(t) = dict::text(self.s, 6).map(|t| name_part(&t)) {
            let t = match self.s.below(4) {
                0 => format!("{token}{t}"),
                1 => format!("{token}.{t}"),
                2 => format!("{token}.mo{t}"),
                _ => format!("{token}.mo.{t}"),
            };
            // Not one of those after all
            return if t.ends_with(".mo") { t + "_" } else { t }.into();
        }
        let t = match self.s.below(16) {
            10 => format!("{token}.mo "),
            11 => format!("{token}.mo."),
            12 => format!(".mo{token}"),
            13 => format!("{token}.xmo"),
            14 => format!("{token}.mo.orig"),
            15 => format!("{token}.\u{43c}o"),
            0 => format!("{token}.txt"),
            1 => token.to_string(),
            2 => format!("{token}.MO"),
            3 => format!("{token}.mo.bak"),
            4 => format!("{token}.mo~"),
            5 => format!("{token}mo"),
            6 => format!("{token}.mos"),
            7 => format!("{token}.m"),
            8 => format!("mo.{token}"),
            _ => format!("{token}.Mo"),
        };
        t.into()
    }

    fn file(&mut self) -> Entry {
        let mut token = self.token();
        let mut name = self.mo_name(&token);
        if let Some(n) = self.special(&[
            "Package.mo",
            "Modelica.mo",
            "test.mo",
            ".hidden.mo",
            "index.mo",
        ]) {
            name = n.clone().into();
            token = n;
        } else if let Some((n, t)) = self.common(&["package.mo", "Tank.mo", "a.mo"]) {
            name = n.into();
            token = t;
        } else if let Some(n) = self.exact() {
            // Others may begin like that, but not end like that
            let n = n.trim_end_matches(".mo").to_string() + ".mo";
            let path = format!("{}/{n}", self.path);
            if n != ".mo" && self.common.insert(path.clone()) {
                name = n.into();
                token = path;
            }
        }
        self.left = self.left.saturating_sub(1);
        let content = self.content();
        let mut mode = [0o644, 0o600, 0o755, 0o666][self.s.below(4)];
        if self.s.chance(self.p.faults, 48) {
            mode = *self.s.pick(&[0o000, 0o444, 0o200]);
        }
        if self.s.chance(self.p.faults, 96) {
            return Entry {
                name,
                token,
                node: Node::Dangling,
            };
        }
        Entry {
            name,
            token,
            node: Node::File { content, mode },
        }
    }

    fn other(&mut self, depth: usize) -> Entry {
        let mut token = self.token();
        let mut name = self.other_name(&token);
        // Has no extension
        if depth > 0 {
            if let Some(n) = self.special(&[".mo", "mo"]) {
                name = n.into();
                token = NOWHERE.to_string();
            } else if let Some((n, t)) = self.common(&["package.order", "README", "a.MO"]) {
                name = n.into();
                token = t;
            } else if let Some(n) = self.exact().filter(|n| !n.ends_with(".mo")) {
                name = n.into();
                token = NOWHERE.to_string();
            }
        }
        self.left = self.left.saturating_sub(1);
        let content = self.content();
        let mode = *self.s.pick(&[0o644, 0o644, 0o444, 0o000]);
        Entry {
            name,
            token,
            node: Node::File { content, mode },
        }
    }

    fn dir(&mut self, depth: usize) -> Entry {
        let mut token = self.token();
        let mut name: OsString = match self.s.below(8) {
            0 => format!("{token}.mo"),
            1 => format!("{token} d"),
            2 => format!(".{token}"),
            3 => format!("{token}.d"),
            _ => token.clone(),
        }
        .into();
        if let Some(n) = self.special(&[
            ".git",
            "Resources",
            "node_modules",
            "build.d",
            ".svn",
            "target",
            "lost+found",
        ]) {
            name = n.clone().into();
            token = n;
        }
        let mut path = name.to_string_lossy().into_owned();
        if let Some(t) = dict::text(self.s, 6).map(|t| name_part(&t)) {
            name = match self.s.below(3) {
                0 => format!("{t}{token}"),
                1 => format!("{token}{t}"),
                _ => format!("{token}.{t}"),
            }
            .into();
            path = name.to_string_lossy().into_owned();
        } else if let Some((n, t)) = self.common(&["Examples", "a", "Lib.mo"]) {
            name = n.into();
            token = t.clone();
            path = t;
        } else if let Some(n) = self.exact() {
            path = format!("{}/{n}", self.path);
            name = n.into();
            token = path.clone();
        }
        let outer = std::mem::replace(&mut self.path, path);
        let mut mode = 0o755;
        if self.s.chance(self.p.faults, 96) {
            mode = *self.s.pick(&[0o000, 0o300]);
        }
        let n = self.s.below(5);
        let mut children = Vec::new();
        for _ in 0..n {
            if self.left == 0 {
                break;
            }
            let e = self.entry(depth + 1);
            let companion = self.sidecar(&e);
            children.push(e);
            children.extend(companion);
        }
        self.path = String::new();
        // A long chain of directories
        if depth == 0 && self.s.chance(1, 32) {
            let mut inner = vec![self.file()];
            let n = dict::number(self.s, 2, 2, 150).unwrap_or([30, 70, 140][self.s.below(3)]);
            for _ in 0..n {
                let token = self.token();
                inner = vec![Entry {
                    name: token.clone().into(),
                    token,
                    node: Node::Dir {
                        children: inner,
                        mode: 0o755,
                    },
                }];
            }
            children.append(&mut inner);
        }
        self.path = outer;
        Entry {
            name,
            token,
            node: Node::Dir { children, mode },
        }
    }

    /// Link with a name of its own to `e`
    fn link(&mut self, mut e: Entry) -> Entry {
        self.n += 1;
        if let (Node::File { .. }, Some(to)) = (&e.node, &self.linked) {
            if self.s.chance(6, 16) {
                e.node = Node::Link(Box::new(to.clone()));
                return e;
            }
        }
        let name = std::mem::replace(&mut e.name, format!("real-{}", self.n).into());
        let token = std::mem::replace(&mut e.token, format!("real-{}", self.n));
        if let Node::File { .. } = e.node {
            if self.s.chance(6, 16) {
                e.name.push(HARD);
                e.token += HARD;
            }
            self.linked = Some(e.clone());
        }
        Entry {
            name,
            token,
            node: Node::Link(Box::new(e)),
        }
    }

    /// Directory with hundreds of small files, mostly of the same sort
    fn crowd(&mut self, many: Option<usize>) -> Entry {
        let token = self.token();
        let sort = self.s.below(4);
        let n = match self.s.chance(1, 16) {
            true => [1_030, 2_050, 4_100, 5_000][self.s.below(4)],
            false => [256, 255, 257, 300][self.s.below(4)],
        };
        let n = many.unwrap_or(n);
        let children = (0..n)
            .map(|i| {
                let token = self.token();
                let (text, what) = match (sort, i) {
                    (0, _) => ("x", "crowd of invalid files"),
                    (1, _) => ("model A end A;", "crowd of unformatted files"),
                    (2, 1) => ("x", "crowd of unformatted files"),
                    (2, _) => ("model A  end A;", "crowd of unformatted files"),
                    (_, 1) => ("model  A end A;", "crowd of formatted files"),
                    _ => ("model A\n\nend A;\n", "crowd of formatted files"),
                };
                Entry {
                    name: format!("{token}.mo").into(),
                    token,
                    node: Node::File {
                        content: Content {
                            bytes: text.as_bytes().to_vec(),
                            what,
                        },
                        mode: 0o644,
                    },
                }
            })
            .collect();
        Entry {
            name: token.clone().into(),
            token,
            node: Node::Dir {
                children,
                mode: 0o755,
            },
        }
    }

    fn entry(&mut self, depth: usize) -> Entry {
        let e = self.real_entry(depth);
        let plain = matches!(e.node, Node::File { .. } | Node::Dir { .. });
        if plain && self.s.chance(1, 16) {
            return self.link(e);
        }
        e
    }

    fn real_entry(&mut self, depth: usize) -> Entry {
        let r = self.s.below(16);
        if r < self.p.dirs && depth < 5 {
            self.dir(depth)
        } else if r < self.p.dirs + self.p.others {
            self.other(depth)
        } else {
            self.file()
        }
    }
}

/// The end of names of files that have other names
const HARD: &str = "-hard";

fn is_hard(name: &OsStr) -> bool {
    name.as_bytes().ends_with(HARD.as_bytes())
}

fn has_dir_links(entries: &[Entry]) -> bool {
    entries.iter().any(|e| match &e.node {
        Node::Link(to) => matches!(to.node, Node::Dir { .. }),
        Node::Dir { children, .. } => has_dir_links(children),
        _ => false,
    })
}

fn build(at: &Path, entries: &[Entry]) {
    build_in(at, at, entries);
}

fn build_in(top: &Path, at: &Path, entries: &[Entry]) {
    for e in entries {
        let p = at.join(&e.name);
        match &e.node {
            Node::File { content, mode } => {
                fs::write(&p, &content.bytes).expect("write");
                fs::set_permissions(&p, fs::Permissions::from_mode(*mode)).expect("chmod");
            }
            Node::Dir { children, mode } => {
                fs::create_dir(&p).expect("mkdir");
                build_in(top, &p, children);
                fs::set_permissions(&p, fs::Permissions::from_mode(*mode)).expect("chmod");
            }
            Node::Dangling => symlink("missing-target", &p).expect("symlink"),
            Node::Link(to) => {
                let real = top.join(&to.name);
                if !real.exists() {
                    build_in(top, top, std::slice::from_ref(to));
                }
                if is_hard(&to.name) {
                    fs::hard_link(real, &p).expect("hard link");
                } else {
                    symlink(real, &p).expect("symlink");
                }
            }
        }
        own(&p);
    }
}

#[derive(Clone, Debug, PartialEq)]
struct Seen {
    kind: &'static str,
    content: Vec<u8>,
    mode: u32,
    inode: u64,
    changed: (i64, i64),
}

type Snapshot = BTreeMap<PathBuf, Seen>;

fn snapshot(at: &Path) -> Snapshot {
    let mut out = BTreeMap::new();
    collect(at, Path::new(""), &mut out);
    out
}

fn collect(base: &Path, rel: &Path, out: &mut Snapshot) {
    let p = base.join(rel);
    let meta = fs::symlink_metadata(&p).expect("metadata");
    let mut changed = (meta.mtime(), meta.mtime_nsec());
    let (kind, content) = if meta.is_file() && meta.nlink() > 1 && !is_hard(p.as_os_str()) {
        // Is looked at under its first name
        changed = (0, 0);
        ("hard link", Vec::new())
    } else if meta.is_dir() {
        ("directory", Vec::new())
    } else if meta.is_symlink() {
        (
            "link",
            fs::read_link(&p).expect("link").into_os_string().into_vec(),
        )
    } else {
        ("file", fs::read(&p).expect("read"))
    };
    if kind == "directory" {
        for e in fs::read_dir(&p).expect("read_dir") {
            collect(base, &rel.join(e.expect("entry").file_name()), out);
        }
    }
    out.insert(
        rel.to_path_buf(),
        Seen {
            kind,
            content,
            mode: meta.mode(),
            inode: meta.ino(),
            changed,
        },
    );
}

// Scenarios

#[derive(Clone, Debug)]
struct Target {
    /// Relative to the directory of the case; `None` for what does not exist
    rel: Option<PathBuf>,
    /// What leads to it: part of all reports
    shown: String,
    token: String,
    kind: TargetKind,
}

#[derive(Clone, Debug)]
enum TargetKind {
    Valid {
        formatted: Vec<u8>,
        same: bool,
        writable: bool,
    },
    Invalid(String),
    /// Cannot be processed at all
    Fault(&'static str),
}

struct Scenario {
    entries: Vec<Entry>,
    args: Vec<OsString>,
    targets: Vec<Target>,
    /// All tokens, to recognise what must not be reported
    tokens: Vec<String>,
    whats: BTreeSet<&'static str>,
}

fn all_tokens(entries: &[Entry], out: &mut Vec<String>) {
    for e in entries {
        out.push(e.token.clone());
        match &e.node {
            Node::Dir { children, .. } => all_tokens(children, out),
            Node::Link(to) => all_tokens(std::slice::from_ref(to), out),
            _ => (),
        }
    }
}

/// `rel`: the directory of the entry; `shown`: the path that leads there
fn targets_of(
    rel: &Path,
    shown: &Path,
    e: &Entry,
    direct: bool,
    out: &mut Vec<Target>,
    whats: &mut BTreeSet<&'static str>,
    link: Option<&Entry>,
) -> Result<(), String> {
    if let Node::Link(to) = &e.node {
        // As what the link points to, with the name of the link
        let mut n = Vec::new();
        targets_of(Path::new(""), shown, to, direct, &mut n, whats, Some(e))?;
        whats.insert(match is_hard(&to.name) {
            true => "hard link",
            false => "symbolic link",
        });
        out.append(&mut n);
        return Ok(());
    }
    let rel = rel.join(&e.name);
    let named = link.unwrap_or(e);
    let shown = shown.join(&named.name);
    let is_mo = named.name.as_bytes().ends_with(b".mo") && named.name != ".mo";
    let mut push = |kind, whats: &mut BTreeSet<&'static str>| {
        if let TargetKind::Fault(what) = &kind {
            whats.insert(what);
        }
        out.push(Target {
            rel: Some(rel.clone()),
            shown: shown.to_string_lossy().into_owned(),
            token: named.token.clone(),
            kind,
        });
    };
    let drop = env().drop;
    match &e.node {
        Node::File { content, mode } => {
            if !is_mo {
                if direct {
                    push(TargetKind::Fault("wrong extension"), whats);
                } else {
                    whats.insert("other file in a directory");
                }
                return Ok(());
            }
            if drop && mode & 0o400 == 0 {
                push(TargetKind::Fault("unreadable file"), whats);
                return Ok(());
            }
            let writable = !drop || mode & 0o200 != 0;
            match judge(&content.bytes)? {
                Verdict::Valid(formatted) => {
                    whats.insert(content.what);
                    let same = formatted == content.bytes;
                    if !writable {
                        whats.insert("read-only file");
                    }
                    push(
                        TargetKind::Valid {
                            formatted,
                            same,
                            writable,
                        },
                        whats,
                    );
                }
                Verdict::Invalid(at) => {
                    whats.insert("syntax errors");
                    push(TargetKind::Invalid(at), whats);
                }
                Verdict::NotText => push(TargetKind::Fault("not UTF-8"), whats),
            }
        }
        Node::Dir { children, mode } => {
            if drop && mode & 0o400 == 0 {
                push(TargetKind::Fault("unreadable directory"), whats);
                return Ok(());
            }
            for c in children {
                targets_of(&rel, &shown, c, false, out, whats, None)?;
            }
        }
        Node::Dangling => push(TargetKind::Fault("dangling link"), whats),
        Node::Link(_) => unreachable!("links to links"),
    }
    Ok(())
}

/// The entry, or now and then something in it, with the path to it
fn descend<'a>(s: &mut Src, e: &'a Entry) -> (PathBuf, &'a Entry) {
    let mut at = (PathBuf::new(), e);
    let mut odds = 3;
    while let Node::Dir {
        children,
        mode: 0o755,
    } = &at.1.node
    {
        if children.is_empty() || !s.chance(odds, 16) {
            break;
        }
        let next = s.pick(children);
        if next.token == NOWHERE {
            break;
        }
        at.0.push(&at.1.name);
        at.1 = next;
        odds = 12;
    }
    at
}

fn scenario(case: &Case, p: &Params, repeat: bool) -> Result<Scenario, String> {
    let mut alt = case.alt();
    let left = *alt.pick(&[5, 1, 2, 10, 25]);
    let top = 1 + alt.below(6);
    let mut maker = Maker {
        s: &mut alt,
        case,
        p,
        n: 0,
        linked: None,
        left,
        used: BTreeSet::new(),
        path: String::new(),
        common: BTreeSet::new(),
    };
    let mut entries = Vec::new();
    for _ in 0..top {
        let e = maker.entry(0);
        entries.push(e);
    }
    let mut silent = None;
    let many = dict::number(maker.s, 24, 2, 300).or_else(|| dict::number(maker.s, 200, 2, 2_000));
    if many.is_some() || maker.s.chance(1, 200) {
        // Just that number of files
        if many.is_some() && maker.s.chance(12, 16) {
            entries.clear();
        }
        let e = maker.crowd(many);
        entries.push(e);
    }
    // Named nowhere, but known to the program
    if let Some(t) = dict::text(maker.s, 6).map(|t| name_part(&t)) {
        let known = ["", ".", "..", ".mo", "mo"].contains(&t.as_str());
        let taken = |e: &Entry| e.name.to_string_lossy() == t;
        if !known && !t.starts_with("real-") && !t.ends_with(".mo") && !entries.iter().any(taken) {
            let content = maker.content();
            let node = match maker.s.chance(2, 16) {
                true => Node::Dir {
                    children: Vec::new(),
                    mode: 0o755,
                },
                false => Node::File {
                    content,
                    mode: 0o644,
                },
            };
            silent = Some(Entry {
                name: t.into(),
                token: NOWHERE.to_string(),
                node,
            });
        }
    }
    let mut n = maker.n;
    let mut args: Vec<OsString> = Vec::new();
    let mut targets = Vec::new();
    let mut whats = BTreeSet::new();
    // The whole directory
    if alt.chance(1, 16) && !has_dir_links(&entries) {
        args.push([".", "./", "\x01", "./."][alt.below(4)].into());
        for e in &entries {
            let here = Path::new("");
            targets_of(here, here, e, false, &mut targets, &mut whats, None)?;
        }
        whats.insert("directory");
        whats.insert("working directory");
    }
    let whole = !args.is_empty();
    // Directories that paths may lead through
    let round: Vec<&OsStr> = entries
        .iter()
        .filter(|e| matches!(e.node, Node::Dir { mode: 0o755, .. }))
        .map(|e| e.name.as_os_str())
        .filter(|n| !n.as_bytes().starts_with(b"-"))
        .collect();
    for e in entries.iter().filter(|_| !whole) {
        // Not named: must not be touched
        if alt.chance(2, 16) {
            continue;
        }
        if p.faults > 0 && alt.chance(p.faults, 32) {
            n += 1;
            let token = format!("q{n:05}");
            let (path, token, what) = match alt.below(5) {
                0 => (format!("{token}.mo"), token, "missing file"),
                1 => (token.clone(), token, "missing file"),
                2 => (format!("{token}/a.mo"), token, "missing file"),
                3 => (format!("{token}.txt"), token, "missing file"),
                _ => (String::new(), String::new(), "empty path"),
            };
            args.push(path.clone().into());
            whats.insert(what);
            targets.push(Target {
                rel: None,
                shown: path,
                token,
                kind: TargetKind::Fault(what),
            });
        }
        // Or what is in a directory instead
        let top = e;
        let (below, e) = descend(&mut alt, e);
        let is_dir = match &e.node {
            Node::Dir { .. } => true,
            Node::Link(to) => matches!(to.node, Node::Dir { .. }),
            _ => false,
        };
        let mut arg = OsString::new();
        match alt.below(7) {
            0 => arg.push("./"),
            1 => arg.push(".//"),
            2 => arg.push("\x01"),
            3 => arg.push("\x02"),
            // Would be an option
            _ if args.is_empty() && top.name.as_bytes().starts_with(b"-") => arg.push("./"),
            _ => (),
        }
        if !round.is_empty() && alt.chance(1, 16) {
            // There and back
            arg.push(round[alt.below(round.len())]);
            arg.push("/../");
            whats.insert("path through another directory");
        }
        if !below.as_os_str().is_empty() {
            arg.push(&below);
            arg.push(["/", "/", "/./", "//"][alt.below(4)]);
            whats.insert("path of what is in a directory");
        }
        arg.push(&e.name);
        if is_dir {
            whats.insert("directory");
            match alt.below(6) {
                0 => arg.push("/"),
                1 => arg.push("/."),
                _ => (),
            }
        }
        let here = below.as_path();
        if !is_dir && p.faults > 0 && alt.chance(p.faults, 128) {
            arg.push("/");
            whats.insert("file given as a directory");
            targets.push(Target {
                rel: None,
                shown: here.join(&e.name).to_string_lossy().into_owned(),
                token: e.token.clone(),
                kind: TargetKind::Fault("file given as a directory"),
            });
        } else {
            targets_of(here, here, e, true, &mut targets, &mut whats, None)?;
        }
        args.push(arg.clone());
        if repeat && alt.chance(1, 16) {
            args.push(arg);
            whats.insert("repeated path");
        }
    }
    entries.extend(silent);
    let mut tokens = Vec::new();
    all_tokens(&entries, &mut tokens);
    tokens.sort();
    Ok(Scenario {
        entries,
        args,
        targets,
        tokens,
        whats,
    })
}

impl Scenario {
    /// Arguments starting with 1 are absolute paths, those with 2 lead to
    /// the directory from outside
    fn args_in(&self, dir: &Path) -> Vec<OsString> {
        self.args
            .iter()
            .map(|a| {
                let mut p = match a.as_bytes().first() {
                    Some(b'\x01') => dir.as_os_str().to_os_string(),
                    Some(b'\x02') => Path::new("..").join(dir.file_name().unwrap()).into(),
                    _ => return a.clone(),
                };
                p.push("/");
                p.push(OsStr::from_bytes(&a.as_bytes()[1..]));
                p
            })
            .collect()
    }

    fn describe(&self, args: &[OsString]) -> String {
        let mut out = format!("mofmt {args:?}\n");
        fn list(at: &Path, entries: &[Entry], out: &mut String) {
            use std::fmt::Write;
            for e in entries {
                let p = at.join(&e.name);
                match &e.node {
                    Node::File { content, mode } => {
                        let t = String::from_utf8_lossy(&content.bytes);
                        let t: String = t.chars().take(300).collect();
                        let _ = writeln!(out, "{p:?} (mode {mode:o}, {}): {t:?}", content.what);
                    }
                    Node::Dir { children, mode } => {
                        let _ = writeln!(out, "{p:?} (directory, mode {mode:o})");
                        list(&p, children, out);
                    }
                    Node::Dangling => {
                        let _ = writeln!(out, "{p:?} -> nothing");
                    }
                    Node::Link(to) => {
                        let _ = writeln!(out, "{p:?} -> {:?}", to.name);
                        list(Path::new(""), std::slice::from_ref(to), out);
                    }
                }
            }
        }
        list(Path::new(""), &self.entries, &mut out);
        out
    }

    fn code(&self, check: bool) -> i32 {
        let fine = self.targets.iter().all(|t| match &t.kind {
            TargetKind::Valid { same, writable, .. } => {
                if check {
                    *same
                } else {
                    *writable
                }
            }
            _ => false,
        });
        !fine as i32
    }

    /// Contents expected after a run that formats files
    fn check_contents(&self, before: &Snapshot, after: &Snapshot) -> Result<(), String> {
        let mut want: BTreeMap<&Path, &[u8]> = before
            .iter()
            .map(|(p, s)| (p.as_path(), s.content.as_slice()))
            .collect();
        for t in &self.targets {
            if let (
                Some(p),
                TargetKind::Valid {
                    formatted,
                    writable: true,
                    ..
                },
            ) = (&t.rel, &t.kind)
            {
                want.insert(p, formatted);
            }
        }
        names_kept(before, after)?;
        for (p, s) in after {
            let w = want[p.as_path()];
            if s.content != w {
                return Err(format!(
                    "contents of {p:?} after the run:\n{:?}\n--- expected:\n{:?}",
                    String::from_utf8_lossy(&s.content),
                    String::from_utf8_lossy(w)
                ));
            }
        }
        Ok(())
    }

    /// Bad paths are reported together with their names
    fn check_reports(&self, ran: &Ran, check: bool) -> Result<(), String> {
        let all = ran.paths();
        for t in &self.targets {
            let mut lines = all
                .iter()
                .filter(|l| l.contains(&t.token) && l.contains(&t.shown));
            match &t.kind {
                TargetKind::Invalid(at) => {
                    let at = format!("{}{at}", t.shown);
                    if !lines.any(|l| l.contains(&at)) {
                        return Err(format!(
                            "syntax error at {at} of {:?} is not reported with the name of the file",
                            t.rel
                        ));
                    }
                }
                TargetKind::Fault(what) => {
                    if lines.next().is_none() {
                        return Err(format!("{what} {:?} ({}) is not reported", t.rel, t.token));
                    }
                }
                TargetKind::Valid { writable, .. } => {
                    if !check && !writable && lines.next().is_none() {
                        return Err(format!("read-only file {:?} is not reported", t.rel));
                    }
                }
            }
        }
        Ok(())
    }

    /// Every file is reported once, and nothing else is
    fn check_verdicts(&self, ran: &Ran) -> Result<(), String> {
        let (passed, failed) = (": check passed", ": check failed");
        let all = ran.paths();
        let verdicts: Vec<&String> = all
            .iter()
            .filter(|l| l.ends_with(passed) || l.ends_with(failed))
            .collect();
        let mut n = 0;
        for t in &self.targets {
            let TargetKind::Valid { same, .. } = t.kind else {
                continue;
            };
            n += 1;
            let mine: Vec<&&String> = verdicts.iter().filter(|l| mentions(l, &t.token)).collect();
            let want = if same { passed } else { failed };
            let report = format!("{}{want}", t.shown);
            if mine.len() != 1 || !mine[0].ends_with(&report) {
                return Err(format!(
                    "{:?} should be reported once as{want:?}, reported: {mine:?}",
                    t.rel
                ));
            }
        }
        if verdicts.len() != n {
            return Err(format!("{} verdicts for {n} valid files", verdicts.len()));
        }
        Ok(())
    }

    /// What was not named is not reported
    fn check_silence(&self, ran: &Ran, reported_fine: bool) -> Result<(), String> {
        let mut allowed: BTreeSet<&str> = BTreeSet::new();
        for t in &self.targets {
            let fine = matches!(t.kind, TargetKind::Valid { writable: true, .. });
            if !fine || reported_fine {
                allowed.insert(&t.token);
            }
        }
        for l in ran.lines() {
            for token in &self.tokens {
                // Directories occur in paths of their contents
                if mentions(l, token) && !allowed.contains(token.as_str()) && !self.is_dir(token) {
                    return Err(format!("{l:?} should not be reported"));
                }
            }
        }
        Ok(())
    }

    fn is_dir(&self, token: &str) -> bool {
        fn find(entries: &[Entry], token: &str) -> bool {
            entries.iter().any(|e| match &e.node {
                Node::Dir { children, .. } => e.token == token || find(children, token),
                // Only the contents of linked directories are reported
                Node::Link(to) => match &to.node {
                    Node::Dir { children, .. } => {
                        [&e.token, &to.token].contains(&&token.to_string()) || find(children, token)
                    }
                    _ => false,
                },
                _ => false,
            })
        }
        find(&self.entries, token)
    }

    fn info(&self, source: String, nontrivial: bool, checks: u64) -> Outcome {
        Outcome::Pass(Info {
            nontrivial,
            source,
            classes: self.whats.iter().copied().collect(),
            checks,
        })
    }
}

/// Is the token in the line? A path is not if it is the beginning of another.
fn mentions(line: &str, token: &str) -> bool {
    line.match_indices(token).any(|(at, _)| {
        let next = line[at + token.len()..].chars().next();
        !token.contains('/') || next.is_none_or(|c| ":/ '\"`,;)\\".contains(c))
    })
}

fn names_kept(before: &Snapshot, after: &Snapshot) -> Result<(), String> {
    let a: BTreeSet<_> = before.keys().collect();
    let b: BTreeSet<_> = after.keys().collect();
    if let Some(p) = a.symmetric_difference(&b).next() {
        return Err(format!("{p:?} was created or removed"));
    }
    for (p, s) in before {
        if s.kind != after[p].kind {
            return Err(format!("{p:?} was a {}, is a {}", s.kind, after[p].kind));
        }
    }
    Ok(())
}

fn untouched(before: &Snapshot, after: &Snapshot) -> Result<(), String> {
    names_kept(before, after)?;
    for (p, s) in before {
        if *s != after[p] {
            let t = |s: &Seen| {
                format!(
                    "mode {:o}, inode {}, modified {:?}, {:?}",
                    s.mode,
                    s.inode,
                    s.changed,
                    String::from_utf8_lossy(&s.content)
                )
            };
            return Err(format!("{p:?} was touched:\n{}\n{}", t(s), t(&after[p])));
        }
    }
    Ok(())
}

fn with_check(args: &[OsString]) -> Vec<OsString> {
    let mut v = vec![OsString::from("--check")];
    v.extend_from_slice(args);
    v
}

fn ended(ran: &Ran) -> Result<(), String> {
    match ran.code {
        Some(0 | 1) => Ok(()),
        _ => Err("the binary crashed".to_string()),
    }
}

fn status(ran: &Ran, want: i32) -> Result<(), String> {
    ended(ran)?;
    if ran.code != Some(want) {
        return Err(format!("exit status {:?} instead of {want}", ran.code));
    }
    Ok(())
}

macro_rules! prepare {
    ($case:expr, $params:expr, $repeat:expr) => {{
        let sc = match scenario($case, $params, $repeat) {
            Ok(s) => s,
            // C14
            Err(_) => return Outcome::Discard("the library panicked"),
        };
        if sc.args.is_empty() {
            return Outcome::Discard("no paths");
        }
        let dir = Scratch::new();
        build(&dir.0, &sc.entries);
        let args = sc.args_in(&dir.0);
        (sc, dir, args)
    }};
}

/// C18
pub fn check_mode(case: &Case) -> Outcome {
    let params = Params {
        mix: Mix {
            formatted: 4,
            near: 6,
            invalid: 1,
            not_text: 1,
            big: 1,
        },
        faults: [0, 0, 4][case.alt().below(3)],
        dirs: 4,
        others: 2,
    };
    let (sc, dir, args) = prepare!(case, &params, false);
    let before = snapshot(&dir.0);
    let checked = with_check(&args);
    let ran = mofmt(&dir.0, &checked);
    let after = snapshot(&dir.0);
    let what = sc.describe(&checked);
    let result = (|| {
        untouched(&before, &after)?;
        status(&ran, sc.code(true))?;
        sc.check_verdicts(&ran)
    })();
    if let Err(e) = result {
        return Outcome::fail(&what, format!("{e}\n{}", ran.show()));
    }
    // The verdict against what formatting really does
    let formatted = mofmt(&dir.0, &args);
    let last = snapshot(&dir.0);
    for t in &sc.targets {
        let (
            Some(p),
            TargetKind::Valid {
                writable: true,
                same,
                ..
            },
        ) = (&t.rel, &t.kind)
        else {
            continue;
        };
        let kept = last.get(p).map(|s| &s.content) == before.get(p).map(|s| &s.content);
        if kept != *same {
            return Outcome::fail(
                &what,
                format!(
                    "the verdict for {p:?} is {}, but formatting {} the file\n{}\n{}",
                    if *same { "passed" } else { "failed" },
                    if kept { "does not change" } else { "changes" },
                    ran.show(),
                    formatted.show()
                ),
            );
        }
    }
    let nontrivial = sc
        .targets
        .iter()
        .any(|t| matches!(t.kind, TargetKind::Valid { .. }));
    let n = sc.targets.len() as u64;
    sc.info(what, nontrivial, n)
}

/// C19
pub fn format_mode(case: &Case) -> Outcome {
    let params = Params {
        mix: Mix {
            formatted: 1,
            near: 2,
            invalid: 3,
            not_text: 2,
            big: 2,
        },
        faults: 0,
        dirs: 3,
        others: 3,
    };
    let (sc, dir, mut args) = prepare!(case, &params, true);
    // The order does not matter
    if case.alt().chance(8, 16) {
        args.reverse();
        // Would be an option
        if args[0].as_bytes().starts_with(b"-") {
            args[0] = Path::new(".").join(&args[0]).into();
        }
    }
    let before = snapshot(&dir.0);
    let ran = mofmt(&dir.0, &args);
    let after = snapshot(&dir.0);
    let what = sc.describe(&args);
    let result = (|| {
        sc.check_contents(&before, &after)?;
        status(&ran, sc.code(false))
    })();
    if let Err(e) = result {
        return Outcome::fail(&what, format!("{e}\n{}", ran.show()));
    }
    // Each file on its own
    let mut alone = 0;
    for t in sc.targets.iter().take(3) {
        let (Some(p), TargetKind::Valid { formatted, .. }) = (&t.rel, &t.kind) else {
            continue;
        };
        let d = Scratch::new();
        let f = d.0.join("a.mo");
        fs::write(&f, &before[p].content).expect("write");
        own(&f);
        let ran = mofmt(&d.0, &["a.mo".into()]);
        let got = fs::read(&f).unwrap_or_default();
        if got != *formatted || ran.code != Some(0) {
            return Outcome::fail(
                &what,
                format!(
                    "{p:?} is formatted otherwise on its own:\n{}\n--- in a run with other files:\n{}\n{}",
                    String::from_utf8_lossy(&got),
                    String::from_utf8_lossy(formatted),
                    ran.show()
                ),
            );
        }
        alone += 1;
    }
    let n = sc.targets.len() as u64;
    sc.info(what, n >= 2, n + alone)
}

/// C20
pub fn directories(case: &Case) -> Outcome {
    let params = Params {
        mix: Mix {
            formatted: 1,
            near: 1,
            invalid: 2,
            not_text: 1,
            big: 0,
        },
        faults: [0, 1][case.alt().below(2)],
        dirs: 7,
        others: 5,
    };
    let (sc, dir, args) = prepare!(case, &params, false);
    let before = snapshot(&dir.0);
    let checked = with_check(&args);
    let others: Vec<&PathBuf> = before
        .iter()
        .filter(|(p, s)| s.kind == "file" && !sc.targets.iter().any(|t| t.rel.as_ref() == Some(p)))
        .map(|(p, _)| p)
        .collect();
    for p in &others {
        age(&dir.0.join(p));
    }
    let ran = mofmt(&dir.0, &checked);
    let read = others
        .iter()
        .find(|p| env().atime && fs::metadata(dir.0.join(p)).is_ok_and(|m| m.atime() != OLD));
    let between = snapshot(&dir.0);
    let what = sc.describe(&args);
    let result = (|| {
        ended(&ran)?;
        if let Some(p) = read {
            return Err(format!("{p:?} was read"));
        }
        untouched(&before, &between)?;
        sc.check_verdicts(&ran)?;
        sc.check_reports(&ran, true)?;
        sc.check_silence(&ran, true)
    })();
    if let Err(e) = result {
        return Outcome::fail(&what, format!("with --check: {e}\n{}", ran.show()));
    }
    let ran = mofmt(&dir.0, &args);
    let after = snapshot(&dir.0);
    let result = (|| {
        ended(&ran)?;
        sc.check_contents(&before, &after)?;
        // What is not a target is not even rewritten with its own contents
        for (p, s) in &before {
            let target = sc
                .targets
                .iter()
                .any(|t| t.rel.as_ref() == Some(p) && matches!(t.kind, TargetKind::Valid { .. }));
            if !target && s.kind == "file" && *s != after[p] {
                return Err(format!("{p:?} was touched"));
            }
        }
        sc.check_reports(&ran, false)?;
        sc.check_silence(&ran, true)
    })();
    if let Err(e) = result {
        return Outcome::fail(&what, format!("{e}\n{}", ran.show()));
    }
    let n = sc.targets.len() as u64;
    let nontrivial = sc.whats.contains("directory") && n > 0;
    sc.info(what, nontrivial, n)
}

/// C21
pub fn faults(case: &Case) -> Outcome {
    let params = Params {
        mix: Mix {
            formatted: 2,
            near: 1,
            invalid: 3,
            not_text: 2,
            big: 0,
        },
        faults: 10,
        dirs: 4,
        others: 2,
    };
    let (sc, dir, args) = prepare!(case, &params, false);
    let bad = sc
        .targets
        .iter()
        .filter(|t| !matches!(t.kind, TargetKind::Valid { writable: true, .. }))
        .count();
    if bad == 0 {
        return Outcome::Discard("no fault");
    }
    let before = snapshot(&dir.0);
    let checked = with_check(&args);
    let ran = mofmt(&dir.0, &checked);
    let what = sc.describe(&args);
    let result = (|| {
        ended(&ran)?;
        sc.check_verdicts(&ran)?;
        sc.check_reports(&ran, true)?;
        status(&ran, sc.code(true))
    })();
    if let Err(e) = result {
        return Outcome::fail(&what, format!("with --check: {e}\n{}", ran.show()));
    }
    let ran = mofmt(&dir.0, &args);
    let after = snapshot(&dir.0);
    let result = (|| {
        ended(&ran)?;
        sc.check_contents(&before, &after)?;
        sc.check_reports(&ran, false)?;
        status(&ran, sc.code(false))
    })();
    if let Err(e) = result {
        return Outcome::fail(&what, format!("{e}\n{}", ran.show()));
    }
    // Reports that nobody reads do not keep files from being formatted
    let mut alt = Src::new(case.lay.get(7..).unwrap_or(&[]));
    if alt.chance(4, 16) {
        let sinks = [Sink::Full, Sink::ClosedPipe];
        let out = sinks[alt.below(2)];
        let err = [None, Some(Sink::Full), Some(Sink::ClosedPipe)][alt.below(3)];
        let dir = Scratch::new();
        build(&dir.0, &sc.entries);
        let args = sc.args_in(&dir.0);
        let before = snapshot(&dir.0);
        let checked = mofmt_unheard(&dir.0, &with_check(&args), out, err);
        let ran = mofmt_unheard(&dir.0, &args, out, err);
        let after = snapshot(&dir.0);
        let result = (|| {
            status(&checked, sc.code(true))?;
            status(&ran, sc.code(false))?;
            sc.check_contents(&before, &after)
        })();
        if let Err(e) = result {
            return Outcome::fail(
                &what,
                format!(
                    "with standard output {out:?} and standard error {err:?}: {e}\n{}",
                    ran.show()
                ),
            );
        }
    }
    let n = sc.targets.len() as u64;
    sc.info(what, n as usize > bad, n)
}

/// C25
pub fn failing_writes(case: &Case) -> Outcome {
    let params = Params {
        mix: Mix {
            formatted: 2,
            near: 3,
            invalid: 2,
            not_text: 1,
            big: 20,
        },
        faults: [0, 2][case.alt().below(2)],
        dirs: 4,
        others: 2,
    };
    let (sc, dir, args) = prepare!(case, &params, false);
    let before = snapshot(&dir.0);
    // Lengths of what is written, and of what is there
    let lengths: Vec<usize> = sc
        .targets
        .iter()
        .filter_map(|t| match (&t.kind, &t.rel) {
            (
                TargetKind::Valid {
                    formatted,
                    writable: true,
                    ..
                },
                Some(p),
            ) => Some([formatted.len(), before[p].content.len()]),
            _ => None,
        })
        .flatten()
        .collect();
    if lengths.is_empty() {
        return Outcome::Discard("nothing to write");
    }
    let mut alt = Src::new(case.lay.get(7..).unwrap_or(&[]));
    let near = *alt.pick(&lengths);
    let most = match alt.below(8) {
        0 => 0,
        1 => 1,
        2 | 3 => near.saturating_sub(1),
        4 => near + alt.below(3),
        5 => 4096 * alt.below(3),
        _ => alt.below(near + 1),
    };
    let ran = mofmt_limited(&dir.0, &args, most as u64);
    let after = snapshot(&dir.0);
    let what = format!("files are limited to {most} bytes\n{}", sc.describe(&args));
    let mut failing = 0;
    let mut unclear = false;
    let result: Result<(), String> = (|| {
        ended(&ran)?;
        let mut rest = Scenario {
            entries: Vec::new(),
            args: Vec::new(),
            targets: Vec::new(),
            tokens: sc.tokens.clone(),
            whats: BTreeSet::new(),
        };
        for t in &sc.targets {
            let mut t = t.clone();
            if let TargetKind::Valid {
                formatted,
                same,
                writable,
            } = &mut t.kind
            {
                if *writable && formatted.len() > most {
                    // Might not be written as it would not change
                    unclear |= *same;
                    failing += !*same as usize;
                    if *same {
                        continue;
                    }
                    *writable = false;
                }
            }
            rest.targets.push(t);
        }
        rest.check_contents(&before, &after)?;
        rest.check_reports(&ran, false)?;
        if !unclear || rest.code(false) == 1 {
            status(&ran, rest.code(false))?;
        }
        Ok(())
    })();
    if let Err(e) = result {
        return Outcome::fail(&what, format!("{e}\n{}", ran.show()));
    }
    let n = sc.targets.len() as u64;
    sc.info(what, failing > 0, n)
}

const OPTIONS: [&str; 5] = ["-h", "--help", "-v", "--version", "--check"];

/// Misspelt option
fn like_option(s: &mut Src) -> String {
    if let Some(t) = dict::text(s, 2) {
        let t = t.replace('\0', "");
        return match s.below(3) {
            0 => format!("-{t}"),
            1 if t.starts_with('-') => t,
            _ => format!("--{}", t.trim_start_matches('-')),
        };
    }
    let o = *s.pick(&OPTIONS);
    let mut v: Vec<char> = o.chars().collect();
    let i = 1 + s.below(v.len() - 1);
    let c = *s.pick(&[
        '-', 'h', 'e', 'l', 'p', 'c', 'k', 'v', 'n', 's', '=', ' ', 'C', '_', '1',
    ]);
    match s.below(8) {
        0 => v.insert(i, c),
        1 => _ = v.remove(i),
        2 => v[i] = c,
        3 => v.truncate(i),
        4 => v[i] = v[i].to_ascii_uppercase(),
        5 => {
            let tails = [
                "=true", "=1", "=a.mo", " ", "\t", "\n", "s", "ed", "=", ".mo", ",", "=false",
                "\u{105}",
            ];
            v.extend(s.pick(&tails).chars());
        }
        6 => v.extend(s.pick(&OPTIONS).chars()),
        _ => return o.to_uppercase(),
    }
    v.into_iter().collect()
}

/// C24
pub fn options(case: &Case) -> Outcome {
    let mut alt = case.alt();
    let dir = Scratch::new();
    const UNFORMATTED: &str = "model  A   Real x; end A;";
    for name in ["a.mo", "d/b.mo", "-x.mo", "d/--check", "c.txt", "--check"] {
        let p = dir.0.join(name);
        if let Some(d) = p.parent() {
            if !d.exists() {
                fs::create_dir(d).expect("mkdir");
                own(d);
            }
        }
        fs::write(&p, UNFORMATTED).expect("write");
        own(&p);
    }
    #[derive(PartialEq, Clone, Copy)]
    enum Want {
        Help,
        Version,
        Error,
        Check,
    }
    let mut args: Vec<OsString> = Vec::new();
    let mut rest = true;
    let (want, class) = match alt.below(10) {
        8 | 9 => {
            args.push("--check".into());
            (Want::Check, "--check and anything")
        }
        0 => (Want::Help, "--help"),
        1 => (Want::Version, "--version"),
        2 => {
            rest = false;
            (Want::Error, "no arguments")
        }
        3 => {
            rest = false;
            args.push("--check".into());
            (Want::Error, "--check without paths")
        }
        _ => (Want::Error, "unknown option"),
    };
    match (want, class) {
        (Want::Help, _) => args.push(["--help", "-h"][alt.below(2)].into()),
        (Want::Version, _) => args.push(["--version", "-v"][alt.below(2)].into()),
        (_, "unknown option") => {
            const BAD: [&str; 22] = [
                "-",
                "--",
                "-c",
                "-x",
                "--Check",
                "--checks",
                "--check=1",
                "-check",
                "--help=1",
                "-V",
                "-H",
                "-vh",
                "-hv",
                "--h",
                "--v",
                "-?",
                "---",
                "--check ",
                "-x.mo",
                "-a.mo",
                "--fix",
                "--versio",
            ];
            let o: OsString = match alt.below(12) {
                0 => OsString::from_vec(b"-\xff".to_vec()),
                1..=3 => {
                    let n = 1 + alt.below(8);
                    let t: String = (0..n)
                        .map(|_| {
                            *alt.pick(&[
                                '-', 'h', 'v', 'c', 'a', 'x', '.', '/', '=', ' ', '\u{105}', '0',
                            ])
                        })
                        .collect();
                    format!("-{t}").into()
                }
                4..=6 => like_option(&mut alt).into(),
                _ => (*alt.pick(&BAD)).into(),
            };
            if OPTIONS.iter().any(|k| o == *k) {
                return Outcome::Discard("known option");
            }
            args.push(o);
        }
        _ => (),
    }
    if rest {
        let n = alt.below(5).max((want == Want::Check) as usize);
        for _ in 0..n {
            if want == Want::Check && alt.chance(4, 16) {
                args.push(like_option(&mut alt).into());
                continue;
            }
            let a = *alt.pick(&[
                "a.mo",
                "d",
                "--check",
                "-h",
                "-v",
                "-x.mo",
                ".",
                "missing.mo",
                "c.txt",
                "--",
                "d/b.mo",
                "",
            ]);
            args.push(a.into());
        }
    }
    let before = snapshot(&dir.0);
    let ran = mofmt(&dir.0, &args);
    let after = snapshot(&dir.0);
    let what = format!("mofmt {args:?}");
    let usage = |t: &str| t.contains("Usage") && t.contains("--check") && t.contains("--help");
    let result = (|| {
        untouched(&before, &after)?;
        match want {
            Want::Help => {
                status(&ran, 0)?;
                if !usage(&ran.out) {
                    return Err("no usage on standard output".to_string());
                }
            }
            Want::Version => {
                status(&ran, 0)?;
                if !ran.out.contains(VERSION.get_or_init(version).as_str()) {
                    return Err(format!("version {} is not printed", VERSION.get().unwrap()));
                }
            }
            // None of the files is formatted
            Want::Check => {
                status(&ran, 1)?;
                for a in &args[1..] {
                    let a = a.to_string_lossy();
                    let files: &[&str] = match a.as_ref() {
                        "." => &["a.mo", "b.mo", "-x.mo"],
                        "d" => &["b.mo"],
                        a if a.ends_with(".mo") && dir.0.join(a).is_file() => &[a],
                        _ => &[],
                    };
                    for f in files {
                        let report = format!("{f}: check failed");
                        if !ran.out.lines().any(|l| l.ends_with(&report)) {
                            return Err(format!("{f:?} is not reported"));
                        }
                    }
                    if files.is_empty() && !(ran.out.contains(&*a) || ran.err.contains(&*a)) {
                        return Err(format!("the path {a:?} is not reported"));
                    }
                }
            }
            Want::Error => {
                status(&ran, 1)?;
                if !usage(&ran.err) {
                    return Err("no usage on standard error".to_string());
                }
                let first = ran.err.trim_start().lines().next().unwrap_or("");
                if first.starts_with("mofmt:") || first.starts_with("Usage") {
                    return Err("no error on standard error".to_string());
                }
            }
        }
        Ok(())
    })();
    if let Err(e) = result {
        return Outcome::fail(&what, format!("{e}\n{}", ran.show()));
    }
    Outcome::Pass(Info {
        nontrivial: true,
        source: what,
        classes: vec![class],
        checks: 1,
    })
}

static VERSION: OnceLock<String> = OnceLock::new();

/// Version of the package
fn version() -> String {
    let repo = std::env::var_os("MOFMT_REPO").unwrap_or_else(|| "/repo".into());
    let text = fs::read_to_string(Path::new(&repo).join("Cargo.toml")).unwrap_or_default();
    text.lines()
        .find_map(|l| l.strip_prefix("version"))
        .map(|l| l.trim_matches([' ', '=', '"']).to_string())
        .unwrap_or_default()
}

/// Run the binary on a file with the given contents: it must not crash.
/// Returns the signal, or the wrong exit status.
pub fn survives(contents: &[u8]) -> Result<(), (String, Option<i32>)> {
    let dir = Scratch::new();
    let f = dir.0.join("a.mo");
    fs::write(&f, contents).expect("write");
    own(&f);
    for args in [
        vec![OsString::from("--check"), "a.mo".into()],
        vec!["a.mo".into()],
    ] {
        let ran = mofmt(&dir.0, &args);
        if ended(&ran).is_err() {
            let err: String = ran.err.chars().take(500).collect();
            return Err((
                format!(
                    "mofmt {args:?}: exit status {:?}, signal {:?}: {err}",
                    ran.code, ran.signal
                ),
                ran.signal,
            ));
        }
    }
    Ok(())
}
