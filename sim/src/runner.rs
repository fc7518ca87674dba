//! Runs one check: shards its cases over worker processes, turns crashes, hangs and memory
//! exhaustion of the code under test into violations, and writes evidence and replay files.

use crate::explore::{self, Dfs};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Seek, SeekFrom, Write};
use std::os::fd::FromRawFd;
use std::panic::{self, AssertUnwindSafe};
use std::sync::atomic::{AtomicPtr, AtomicU32, AtomicU64, Ordering::SeqCst};
use std::time::Instant;

/// One registered check.
pub struct Spec {
    pub id: &'static str,
    pub level: &'static str,
    /// How cases are made and what makes one non-trivial.
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub run: fn(&mut Ctx),
}

const TEXT: usize = 8192;
const MAXC: usize = 4096;

/// Shared with the parent, so that it can tell what a dead worker was doing.
#[repr(C)]
struct Record {
    seq: AtomicU64,
    violated: AtomicU32,
    stop: AtomicU32,
    in_cut: AtomicU32,
    keeps: AtomicU32,
    idx: AtomicU64,
    nchoices: AtomicU32,
    space_len: AtomicU32,
    text_len: AtomicU32,
    sig_len: AtomicU32,
    msg_len: AtomicU32,
    space: [u8; 128],
    choices: [u16; MAXC],
    text: [u8; TEXT],
    sig: [u8; 512],
    msg: [u8; TEXT],
}

static RECORD: AtomicPtr<Record> = AtomicPtr::new(std::ptr::null_mut());

fn rec() -> Option<&'static mut Record> {
    let p = RECORD.load(SeqCst);
    if p.is_null() {
        None
    } else {
        Some(unsafe { &mut *p })
    }
}

fn put(dst: &mut [u8], len: &AtomicU32, src: &[u8]) {
    let n = src.len().min(dst.len());
    dst[..n].copy_from_slice(&src[..n]);
    len.store(n as u32, SeqCst);
}

fn get(src: &[u8], len: &AtomicU32) -> String {
    String::from_utf8_lossy(&src[..(len.load(SeqCst) as usize).min(src.len())]).into_owned()
}

pub(crate) fn note_choice(i: usize, c: u16) {
    if let Some(r) = rec() {
        if i < MAXC {
            r.choices[i] = c;
            r.nchoices.store(i as u32 + 1, SeqCst);
        }
    }
}

/// A case that consists of many runs is getting on with them.
pub fn alive() {
    if let Some(r) = rec() {
        r.seq.fetch_add(1, SeqCst);
    }
}

const EXIT_DIED: i32 = 77;

/// The code under test broke the property in a way that cannot return (called below it on the stack).
pub fn die_violation(sig: &str, msg: &str) -> ! {
    if let Some(r) = rec() {
        put(&mut r.sig, &r.sig_len, sig.as_bytes());
        put(&mut r.msg, &r.msg_len, msg.as_bytes());
    } else {
        eprintln!("violation outside a worker: {sig}: {msg}");
    }
    unsafe { libc::_exit(EXIT_DIED) }
}

/// An execution did not go as the same choices went before: the code under test keeps state from one
/// execution to the next (or is not deterministic).
fn note_keeps() {
    if let Some(r) = rec() {
        r.keeps.store(1, SeqCst);
    }
}

/// The checker itself is at fault or cannot go on.
pub fn die_engine(msg: &str) -> ! {
    let text = format!("ENGINE ERROR: {msg}\n");
    unsafe {
        libc::syscall(libc::SYS_write, 2, text.as_ptr(), text.len());
        libc::_exit(2)
    }
}

/// A property violation found in one case.
#[derive(Debug, Clone)]
pub struct Fail {
    pub sig: String,
    pub msg: String,
}

pub fn fail<T>(sig: impl Into<String>, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { sig: sig.into(), msg: msg.into() })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $sig:expr, $($arg:tt)*) => {
        if !($cond) {
            return $crate::runner::fail($sig, format!($($arg)*));
        }
    };
}

/// A panic of the code under test.
#[derive(Debug, Clone)]
pub struct Panicked {
    pub at: String,
    pub msg: String,
}

impl Panicked {
    pub fn fail(&self) -> Fail {
        Fail {
            sig: format!("panic at {}", self.at),
            msg: format!("panicked at {}: {}", self.at, self.msg),
        }
    }
}

thread_local! {
    static LAST_PANIC: RefCell<Option<Panicked>> = const { RefCell::new(None) };
}

fn in_harness(file: &str) -> bool {
    file.starts_with("src/") || file.contains("/verif/")
}

fn install_hook() {
    panic::set_hook(Box::new(|info| {
        crate::step::trap_off();
        crate::os::real(|| {
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "?".into()
            };
            let loc = info.location().unwrap();
            let in_cut = rec().map(|r| r.in_cut.load(SeqCst) > 0).unwrap_or(false);
            if in_harness(loc.file()) || !in_cut {
                die_engine(&format!("checker panicked at {loc}: {msg}\n{}", describe_current()));
            }
            LAST_PANIC.with(|p| {
                *p.borrow_mut() = Some(Panicked { at: format!("{}:{}", loc.file(), loc.line()), msg })
            });
        })
    }));
}

fn describe_current() -> String {
    rec()
        .map(|r| {
            format!(
                "space={} idx={} choices={:?} case={}",
                get(&r.space, &r.space_len),
                r.idx.load(SeqCst),
                &r.choices[..r.nchoices.load(SeqCst) as usize],
                get(&r.text, &r.text_len)
            )
        })
        .unwrap_or_default()
}

/// Runs code under test: its panics are returned, its crashes and hangs are charged to it.
pub fn cut<R>(f: impl FnOnce() -> R) -> Result<R, Panicked> {
    if let Some(r) = rec() {
        r.in_cut.fetch_add(1, SeqCst);
    }
    let r = panic::catch_unwind(AssertUnwindSafe(f));
    if let Some(r) = rec() {
        r.in_cut.fetch_sub(1, SeqCst);
    }
    r.map_err(|_| {
        LAST_PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or(Panicked { at: "?".into(), msg: "?".into() })
    })
}

/// The panic recorded last on this thread, if any (for panics caught by someone else).
pub fn take_panic() -> Option<Panicked> {
    LAST_PANIC.with(|p| p.borrow_mut().take())
}

// -------------------------------------------------------------------------------------- context

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Default)]
struct Tally {
    evaluations: u64,
    transitions: u64,
    states: HashSet<u64>,
    nontrivial: HashSet<u64>,
    outcomes: BTreeMap<String, u64>,
    spaces: BTreeMap<String, (u64, bool, String)>, // cases, complete, bound note
    samples: Vec<(String, u64, String)>,
    violations: Vec<Value>,
    conformance: u64,
}

/// What one case reports back besides its verdict.
#[derive(Default)]
pub struct Case {
    text: String,
    states: Vec<u64>,
    transitions: u64,
    nontrivial: Option<u64>,
    outcome: Option<String>,
    conformance: u64,
}

impl Case {
    /// Human-readable form of the case (also what a crash report shows).
    pub fn text(&mut self, t: impl Into<String>) {
        self.text = t.into();
        if let Some(r) = rec() {
            put(&mut r.text, &r.text_len, self.text.as_bytes());
        }
    }
    pub fn text_bytes(&self) -> &[u8] {
        self.text.as_bytes()
    }
    /// Takes over what another case recorded (for a body that ran on another thread).
    pub fn absorb(&mut self, o: Case) {
        self.states.extend(o.states);
        self.transitions += o.transitions;
        self.nontrivial = o.nontrivial.or(self.nontrivial);
        self.outcome = o.outcome;
        self.conformance += o.conformance;
    }
    /// A state the execution reached (fingerprint).
    pub fn state(&mut self, h: u64) {
        self.states.push(h);
    }
    pub fn steps(&mut self, n: u64) {
        self.transitions += n;
    }
    /// Marks the case as exercising the property for real; `h` identifies its distinct content.
    pub fn nontrivial(&mut self, h: u64) {
        self.nontrivial = Some(h);
    }
    pub fn outcome(&mut self, o: impl Into<String>) {
        self.outcome = Some(o.into());
    }
    pub fn conformance(&mut self, n: u64) {
        self.conformance += n;
    }
}

pub struct Ctx {
    pub tier: Tier,
    pub seed: u64,
    shard: usize,
    nshards: usize,
    tally: Tally,
    replay: Option<(String, u64, Vec<u16>)>,
    /// Every execution in a process of its own.
    isolated: bool,
    deadline: Option<Instant>,
    /// A directory only this worker uses; it is the current directory.
    pub scratch: String,
    max_violations: usize,
    /// Signatures of listed findings.
    known: Vec<String>,
}

impl Ctx {
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }

    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough() {
            thorough
        } else {
            quick
        }
    }

    fn begin(&mut self, space: &str, idx: u64) {
        if let Some(r) = rec() {
            r.seq.fetch_add(1, SeqCst);
            put(&mut r.space, &r.space_len, space.as_bytes());
            r.idx.store(idx, SeqCst);
            r.nchoices.store(0, SeqCst);
            r.text_len.store(0, SeqCst);
        }
    }

    fn out_of_time(&self) -> bool {
        rec().is_some_and(|r| r.stop.load(SeqCst) > 0) || self.deadline.map(|d| crate::os::real(Instant::now) > d).unwrap_or(false)
    }

    fn finish(&mut self, space: &str, idx: u64, choices: &[u16], case: Case, verdict: Result<(), Fail>) {
        let t = &mut self.tally;
        t.evaluations += 1;
        t.transitions += case.transitions + choices.len() as u64;
        t.conformance += case.conformance;
        t.states.extend(case.states);
        if let Some(h) = case.nontrivial {
            t.nontrivial.insert(h);
        }
        let e = t.spaces.entry(space.to_string()).or_insert((0, true, String::new()));
        e.0 += 1;
        let outcome = match &verdict {
            Ok(()) => case.outcome.unwrap_or_else(|| "ok".into()),
            Err(f) => format!("VIOLATION {}", f.sig),
        };
        let first_time = !t.outcomes.contains_key(&outcome);
        *t.outcomes.entry(outcome.clone()).or_insert(0) += 1;
        if (first_time || e.0 == 2) && t.samples.len() < 40 {
            let ch = if choices.is_empty() { String::new() } else { format!(" choices={choices:?}") };
            t.samples.push((
                space.to_string(),
                idx,
                format!("[{space}]{ch} {} => {}", clip(&case.text, 300), clip(&outcome, 160)),
            ));
        }
        if let Err(f) = verdict {
            if let Some(r) = rec().filter(|_| !self.known.contains(&f.sig)) {
                r.violated.store(1, SeqCst);
            }
            if self.replay.is_some() {
                eprintln!("case: {}\nviolation: {}: {}", case.text, f.sig, f.msg);
            }
            let dup = t.violations.iter().any(|v| v["sig"] == f.sig.as_str());
            if !dup && t.violations.len() < self.max_violations {
                t.violations.push(json!({
                    "sig": f.sig, "msg": f.msg, "space": space, "idx": idx,
                    "choices": choices, "case": case.text,
                }));
            }
        } else if self.replay.is_some() {
            eprintln!("case: {}\noutcome: {}", case.text, outcome);
        }
    }

    /// Runs every case 0..n of a finite space (this worker's share of it).
    pub fn enumerate(
        &mut self,
        space: &str,
        n: u64,
        mut f: impl FnMut(u64, &mut Case) -> Result<(), Fail>,
    ) {
        if let Some((s, i, _)) = self.replay.clone() {
            if s == space && i < n {
                let mut case = Case::default();
                self.begin(space, i);
                let v = f(i, &mut case);
                self.finish(space, i, &[], case, v);
            }
            return;
        }
        self.tally.spaces.entry(space.into()).or_insert((0, true, "all cases".into()));
        // contiguous blocks, spread over the workers by a fixed permutation
        let mut i = self.shard as u64;
        while i < n {
            if self.out_of_time() {
                let e = self.tally.spaces.get_mut(space).unwrap();
                e.1 = false;
                return;
            }
            let mut case = Case::default();
            self.begin(space, i);
            let v = f(i, &mut case);
            self.finish(space, i, &[], case, v);
            i += self.nshards as u64;
        }
    }

    /// Runs every choice sequence with at most `bound` deviations from the default answers.
    pub fn dfs(&mut self, space: &str, bound: u32, mut f: impl FnMut(&mut Case) -> Result<(), Fail>) {
        self.dfs_idx(space, 0, bound, &mut f)
    }

    /// `dfs` of one configuration `idx` of a family.
    pub fn dfs_idx(
        &mut self,
        space: &str,
        idx: u64,
        bound: u32,
        f: &mut dyn FnMut(&mut Case) -> Result<(), Fail>,
    ) {
        let mut one = |me: &mut Self, prefix: &[u16]| {
            me.begin(space, idx);
            let (case, v, mut res) = match me.isolated {
                true => apart(prefix, &mut *f),
                false => {
                    let mut case = Case::default();
                    let (v, res) = explore::run_with(prefix, || f(&mut case));
                    (case, v, res)
                }
            };
            let choices: Vec<u16> = res.trace.iter().map(|p| p.chosen).collect();
            res.diverged |= choices.len() < prefix.len();
            if res.diverged {
                // what this execution did counts, but it is not the one that was meant
                note_keeps();
                if let Some(e) = me.tally.spaces.get_mut(space) {
                    e.1 = false;
                    e.2 = "the same choices did not always lead to the same execution".into();
                }
            }
            (case, v, res, choices)
        };
        if let Some((s, i, c)) = self.replay.clone() {
            if s == space && i == idx {
                let (case, v, _, choices) = one(self, &c);
                self.finish(space, idx, &choices, case, v);
            }
            return;
        }
        self.tally
            .spaces
            .entry(space.into())
            .or_insert((0, true, format!("<= {bound} deviations")));
        let mut dfs = Dfs::new(bound, self.shard, self.nshards, 1);
        while let Some(prefix) = dfs.next_prefix() {
            if self.out_of_time() {
                self.tally.spaces.get_mut(space).unwrap().1 = false;
                return;
            }
            let owned = dfs.owned(&prefix);
            let (case, v, res, choices) = one(self, &prefix);
            if res.cap_hit {
                let e = self.tally.spaces.get_mut(space).unwrap();
                e.1 = false;
                e.2 = "choice-point cap hit".into();
            }
            dfs.expand(&prefix, &res);
            if owned {
                let short = trim(&choices);
                self.finish(space, idx, short, case, v);
            }
        }
    }

    /// Splits work by configuration instead of by choice: true if this worker runs configuration i.
    pub fn mine(&self, i: u64) -> bool {
        if self.replay.is_some() {
            return true;
        }
        i as usize % self.nshards == self.shard
    }

    /// `dfs` of configurations 0..n, each explored wholly by one worker.
    pub fn dfs_family(
        &mut self,
        space: &str,
        n: u64,
        bound: u32,
        mut f: impl FnMut(u64, &mut Case) -> Result<(), Fail>,
    ) {
        for i in 0..n {
            if !self.mine(i) {
                continue;
            }
            let (sh, ns) = (self.shard, self.nshards);
            self.shard = 0;
            self.nshards = 1;
            self.dfs_idx(space, i, bound, &mut |c| f(i, c));
            self.shard = sh;
            self.nshards = ns;
        }
    }
}

/// Runs one execution in a process of its own, which starts from the state of this one.
fn apart(prefix: &[u16], f: &mut dyn FnMut(&mut Case) -> Result<(), Fail>) -> (Case, Result<(), Fail>, explore::RunResult) {
    let fd = unsafe { libc::memfd_create(c"execution".as_ptr(), 0) };
    let pid = unsafe { libc::fork() };
    if fd < 0 || pid < 0 {
        die_engine("cannot isolate an execution");
    }
    if pid == 0 {
        unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
        let mut case = Case::default();
        let (v, res) = explore::run_with(prefix, || f(&mut case));
        let out = json!({
            "text": case.text, "states": case.states, "transitions": case.transitions, "nontrivial": case.nontrivial,
            "outcome": case.outcome, "conformance": case.conformance,
            "fail": v.err().map(|f| [f.sig, f.msg]),
            "trace": res.trace.iter().map(|p| (p.n, p.chosen, p.cost)).collect::<Vec<_>>(),
            "diverged": res.diverged, "cap_hit": res.cap_hit,
        });
        let ok = unsafe { std::fs::File::from_raw_fd(fd) }.write_all(out.to_string().as_bytes()).is_ok();
        unsafe { libc::_exit(if ok { 0 } else { 2 }) }
    }
    let mut file = unsafe { std::fs::File::from_raw_fd(fd) };
    let mut st = 0;
    while unsafe { libc::waitpid(pid, &mut st, 0) } != pid {}
    if !libc::WIFEXITED(st) || libc::WEXITSTATUS(st) != 0 {
        // this process ends as that one did
        unsafe {
            if libc::WIFSIGNALED(st) {
                libc::signal(libc::WTERMSIG(st), libc::SIG_DFL);
                libc::raise(libc::WTERMSIG(st));
            }
            libc::_exit(if libc::WIFEXITED(st) { libc::WEXITSTATUS(st) } else { 2 })
        }
    }
    let mut text = String::new();
    let v: Value = match file.seek(SeekFrom::Start(0)).and_then(|_| file.read_to_string(&mut text)).map(|_| serde_json::from_str(&text)) {
        Ok(Ok(v)) => v,
        _ => die_engine("an isolated execution told nothing"),
    };
    let num = |v: &Value| v.as_u64().unwrap_or(0);
    let string = |v: &Value| v.as_str().unwrap_or("").to_string();
    let case = Case {
        text: string(&v["text"]),
        states: v["states"].as_array().map(|a| a.iter().map(num).collect()).unwrap_or_default(),
        transitions: num(&v["transitions"]),
        nontrivial: v["nontrivial"].as_u64(),
        outcome: v["outcome"].as_str().map(Into::into),
        conformance: num(&v["conformance"]),
    };
    let verdict = match &v["fail"] {
        Value::Null => Ok(()),
        f => fail(string(&f[0]), string(&f[1])),
    };
    let trace = v["trace"].as_array().map(|a| a.iter().map(|p| explore::Point { n: num(&p[0]) as u16, chosen: num(&p[1]) as u16, cost: num(&p[2]) as u8 }).collect()).unwrap_or_default();
    (case, verdict, explore::RunResult { trace, diverged: v["diverged"] == true, cap_hit: v["cap_hit"] == true })
}

fn trim(c: &[u16]) -> &[u16] {
    let n = c.iter().rposition(|x| *x != 0).map(|p| p + 1).unwrap_or(0);
    &c[..n]
}

fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.into()
    } else {
        format!("{}...", s.chars().take(n).collect::<String>())
    }
}

// --------------------------------------------------------------------------------------- parent

fn nobody() -> (u32, u32) {
    (65534, 65534)
}

fn make_scratch() -> String {
    for base in ["/dev/shm", "/tmp"] {
        let p = format!("{base}/rbv-{}", std::process::id());
        if std::fs::create_dir(&p).is_ok() {
            return p;
        }
    }
    die_engine("cannot create a scratch directory")
}

fn remove_scratch(p: &str) {
    if p.starts_with("/dev/shm/rbv-") || p.starts_with("/tmp/rbv-") {
        let _ = std::fs::remove_dir_all(p);
    }
}

fn cpu_ms(pid: i32) -> u64 {
    let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).unwrap_or_default();
    let rest = s.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = rest.split_whitespace().collect();
    if f.len() < 14 {
        return 0;
    }
    (f[11].parse::<u64>().unwrap_or(0) + f[12].parse::<u64>().unwrap_or(0)) * 10
}

struct Worker {
    pid: i32,
    rec: *mut Record,
    fd: i32,
    done: bool,
    last_seq: u64,
    seq_cpu: u64,
    seq_wall: Instant,
    idle_cpu: u64,
    idle_wall: Instant,
}

/// How long the workers go on (for further and shorter violations) once one is found.
const AFTER_VIOLATION_S: u64 = 20;
/// Per-case limits for code under test.
const CASE_CPU_MS: u64 = 20_000;
const CASE_IDLE_S: u64 = 90;
const MEM_LIMIT: u64 = 2 << 30;

pub fn main(specs: &[Spec]) -> ! {
    std::hint::black_box(crate::os::linked());
    unsafe { libc::mallopt(libc::M_ARENA_MAX, 1) };
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).cloned().unwrap_or_default();
    let spec = match specs.iter().find(|s| s.id == id) {
        Some(s) => s,
        None => {
            eprintln!("unknown check {id}; known: {:?}", specs.iter().map(|s| s.id).collect::<Vec<_>>());
            std::process::exit(2)
        }
    };
    let mut tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let mut replay = None;
    let mut workers = std::env::var("VERIF_JOBS").ok().and_then(|v| v.parse().ok()).unwrap_or(8usize);
    let mut i = 2;
    while i < args.len() {
        match args[i].as_str() {
            "--tier" => {
                i += 1;
                tier = if args[i] == "thorough" { Tier::Thorough } else { Tier::Quick };
            }
            "--replay" => {
                i += 1;
                let v: Value = serde_json::from_str(&std::fs::read_to_string(&args[i]).expect("replay file"))
                    .expect("replay json");
                if v["tier"] == "thorough" {
                    tier = Tier::Thorough;
                }
                replay = Some((
                    v["space"].as_str().unwrap_or("").to_string(),
                    v["idx"].as_u64().unwrap_or(0),
                    v["choices"]
                        .as_array()
                        .map(|a| a.iter().map(|x| x.as_u64().unwrap_or(0) as u16).collect())
                        .unwrap_or_default(),
                ));
            }
            _ => {}
        }
        i += 1;
    }
    if replay.is_some() {
        workers = 1;
    }
    let seed = std::env::var("VERIF_SEED").ok().and_then(|v| v.parse().ok()).unwrap_or(1u64);
    let verif = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    let start = Instant::now();
    let limit_s: u64 = std::env::var("VERIF_LIMIT_S").ok().and_then(|v| v.parse().ok()).unwrap_or(
        match tier {
            Tier::Quick => 300,
            Tier::Thorough => 3000,
        },
    );
    let deadline = start + std::time::Duration::from_secs(limit_s);

    let known: Vec<String> = known_findings(&verif, spec.id).into_iter().map(|k| k.0).collect();
    let mut got = pass(spec, tier, seed, workers, &replay, deadline, &known, std::env::var("VERIF_ISOLATED").is_ok());
    let fresh = got.violations.iter().any(|v| !known.iter().any(|k| v["sig"] == k.as_str()));
    if got.keeps && fresh {
        println!("The code keeps state from one execution to the next; a violation may need those before it.");
    } else if got.keeps && got.engine_error.is_none() && replay.is_none() {
        println!("The code keeps state from one execution to the next: once more, with a process for each.");
        let deadline = Instant::now() + std::time::Duration::from_secs(limit_s / 2);
        got = pass(spec, tier, seed, workers, &replay, deadline, &known, true);
    }
    let Pass { merged, violations, engine_error, .. } = got;

    let code = report(spec, tier, seed, &verif, start, merged, violations, engine_error, replay.is_some());
    std::process::exit(code)
}

/// What the workers found.
struct Pass {
    merged: Tally,
    violations: Vec<Value>,
    engine_error: Option<String>,
    keeps: bool,
}

/// Runs the check once, spread over worker processes.
#[allow(clippy::too_many_arguments)]
fn pass(
    spec: &Spec,
    tier: Tier,
    seed: u64,
    workers: usize,
    replay: &Option<(String, u64, Vec<u16>)>,
    deadline: Instant,
    known: &[String],
    isolated: bool,
) -> Pass {
    // A watchdog on our own life: scratch is removed whatever happens to the workers.
    let scratch = make_scratch();
    let mut ws: Vec<Worker> = vec![];
    for k in 0..workers {
        let dir = format!("{scratch}/w{k}");
        std::fs::create_dir(&dir).expect("scratch");
        let (rec_p, fd) = unsafe {
            let p = libc::mmap(
                std::ptr::null_mut(),
                std::mem::size_of::<Record>(),
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED | libc::MAP_ANONYMOUS,
                -1,
                0,
            );
            let fd = libc::memfd_create(c"result".as_ptr(), 0);
            if p == libc::MAP_FAILED || fd < 0 {
                die_engine("mmap/memfd failed");
            }
            (p as *mut Record, fd)
        };
        let pid = unsafe { libc::fork() };
        if pid < 0 {
            die_engine("fork failed");
        }
        if pid == 0 {
            unsafe {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                if libc::getuid() == 0 {
                    let (u, g) = nobody();
                    let c = std::ffi::CString::new(dir.clone()).unwrap();
                    libc::chown(c.as_ptr(), u, g);
                    libc::setgroups(0, std::ptr::null());
                    libc::setgid(g);
                    libc::setuid(u);
                    libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                }
                let lim = libc::rlimit { rlim_cur: MEM_LIMIT, rlim_max: MEM_LIMIT };
                libc::setrlimit(libc::RLIMIT_AS, &lim);
                let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                libc::setrlimit(libc::RLIMIT_CORE, &core);
            }
            std::env::set_current_dir(&dir).expect("chdir");
            std::env::set_var("RUST_BACKTRACE", "0");
            RECORD.store(rec_p, SeqCst);
            install_hook();
            let mut ctx = Ctx {
                tier,
                seed,
                shard: k,
                nshards: workers,
                tally: Tally::default(),
                replay: replay.clone(),
                isolated,
                deadline: Some(deadline),
                scratch: dir,
                max_violations: 10,
                known: known.to_vec(),
            };
            // A big stack for the checker; code under test that needs a thread's usual stack asks
            // for one (see `small_stack`).
            (spec.run)(&mut ctx);
            write_result(fd, ctx.tally);
            unsafe { libc::_exit(0) }
        }
        let now = Instant::now();
        ws.push(Worker {
            pid,
            rec: rec_p,
            fd,
            done: false,
            last_seq: 0,
            seq_cpu: 0,
            seq_wall: now,
            idle_cpu: 0,
            idle_wall: now,
        });
    }

    let mut violations: Vec<Value> = vec![];
    let mut engine_error: Option<String> = None;
    let mut left = ws.len();
    let mut merged = Tally::default();
    let mut found: Option<Instant> = None;
    while left > 0 {
        std::thread::sleep(std::time::Duration::from_millis(20));
        let fresh = violations.iter().any(|v| !known.iter().any(|k| v["sig"] == k.as_str()));
        if found.is_none() && (fresh || ws.iter().any(|w| unsafe { &*w.rec }.violated.load(SeqCst) > 0)) {
            found = Some(Instant::now());
        }
        if found.is_some_and(|t| t.elapsed().as_secs() >= AFTER_VIOLATION_S) {
            for w in &ws {
                unsafe { &*w.rec }.stop.store(1, SeqCst);
            }
        }
        for w in ws.iter_mut().filter(|w| !w.done) {
            let mut st = 0;
            let r = unsafe { libc::waitpid(w.pid, &mut st, libc::WNOHANG) };
            let record = unsafe { &*w.rec };
            let here = |sig: String, msg: String| {
                json!({
                    "sig": sig, "msg": msg,
                    "space": get(&record.space, &record.space_len),
                    "idx": record.idx.load(SeqCst),
                    "choices": trim(&record.choices[..record.nchoices.load(SeqCst) as usize]),
                    "case": get(&record.text, &record.text_len),
                })
            };
            if r == w.pid {
                w.done = true;
                left -= 1;
                if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0 {
                    read_result(w.fd, &mut merged, &mut violations);
                } else if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == EXIT_DIED {
                    violations.push(here(get(&record.sig, &record.sig_len), get(&record.msg, &record.msg_len)));
                } else if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 2 {
                    engine_error = Some("worker reported an engine error (see above)".into());
                } else {
                    let how = if libc::WIFSIGNALED(st) {
                        format!("signal {}", libc::WTERMSIG(st))
                    } else {
                        format!("exit status {}", libc::WEXITSTATUS(st))
                    };
                    let killed = libc::WIFSIGNALED(st) && libc::WTERMSIG(st) == libc::SIGKILL;
                    if record.in_cut.load(SeqCst) > 0 && !killed {
                        violations.push(here(
                            format!("process died ({how})"),
                            format!("the code under test ended the whole process: {how} (stack overflow, abort or out of memory)"),
                        ));
                    } else {
                        engine_error = Some(format!("worker ended by {how} outside the code under test"));
                    }
                }
                continue;
            }
            let seq = record.seq.load(SeqCst);
            let cpu = cpu_ms(w.pid);
            if seq != w.last_seq {
                w.last_seq = seq;
                w.seq_cpu = cpu;
                w.seq_wall = Instant::now();
                w.idle_cpu = cpu;
                w.idle_wall = Instant::now();
                continue;
            }
            if cpu > w.idle_cpu + 100 {
                w.idle_cpu = cpu;
                w.idle_wall = Instant::now();
            }
            let stuck = if cpu.saturating_sub(w.seq_cpu) > CASE_CPU_MS {
                Some("still computing")
            } else if w.idle_wall.elapsed().as_secs() > CASE_IDLE_S {
                Some("blocked")
            } else {
                None
            };
            if let Some(why) = stuck {
                unsafe {
                    libc::kill(w.pid, libc::SIGKILL);
                    libc::waitpid(w.pid, &mut st, 0);
                }
                w.done = true;
                left -= 1;
                if record.in_cut.load(SeqCst) > 0 {
                    violations.push(here(
                        format!("never returns ({why})"),
                        format!("the code under test did not return within {CASE_CPU_MS} ms of processor time / {CASE_IDLE_S} s: {why}"),
                    ));
                } else {
                    engine_error = Some(format!("checker stuck outside the code under test: {why}"));
                }
            }
        }
        if engine_error.is_some() || Instant::now() > deadline + std::time::Duration::from_secs(120) {
            for w in ws.iter_mut().filter(|w| !w.done) {
                unsafe {
                    libc::kill(w.pid, libc::SIGKILL);
                    let mut st = 0;
                    libc::waitpid(w.pid, &mut st, 0);
                }
                w.done = true;
            }
            if engine_error.is_none() {
                engine_error = Some("workers did not stop in time".into());
            }
            break;
        }
    }
    remove_scratch(&scratch);
    let keeps = ws.iter().any(|w| unsafe { &*w.rec }.keeps.load(SeqCst) > 0);
    Pass { merged, violations, engine_error, keeps }
}

fn write_result(fd: i32, t: Tally) {
    let v = json!({
        "evaluations": t.evaluations,
        "transitions": t.transitions,
        "conformance": t.conformance,
        "outcomes": t.outcomes,
        "spaces": t.spaces,
        "samples": t.samples,
        "violations": t.violations,
    });
    let mut f = unsafe { std::fs::File::from_raw_fd(fd) };
    let text = v.to_string();
    let mut out: Vec<u8> = vec![];
    out.extend((text.len() as u64).to_le_bytes());
    out.extend(text.as_bytes());
    for set in [&t.states, &t.nontrivial] {
        out.extend((set.len() as u64).to_le_bytes());
        for h in set {
            out.extend(h.to_le_bytes());
        }
    }
    if f.write_all(&out).is_err() {
        die_engine("cannot hand over results");
    }
    let _ = f.flush();
}

fn read_result(fd: i32, m: &mut Tally, violations: &mut Vec<Value>) {
    let mut f = unsafe { std::fs::File::from_raw_fd(fd) };
    let mut b = vec![];
    f.seek(SeekFrom::Start(0)).expect("seek");
    f.read_to_end(&mut b).expect("read");
    let mut pos = 0;
    let mut word = |b: &[u8]| -> u64 {
        let v = u64::from_le_bytes(b[pos..pos + 8].try_into().unwrap());
        pos += 8;
        v
    };
    let n = word(&b) as usize;
    let v: Value = serde_json::from_slice(&b[8..8 + n]).expect("json");
    pos = 8 + n;
    let mut word = |b: &[u8]| -> u64 {
        let v = u64::from_le_bytes(b[pos..pos + 8].try_into().unwrap());
        pos += 8;
        v
    };
    let k = word(&b);
    for _ in 0..k {
        m.states.insert(word(&b));
    }
    let k = word(&b);
    for _ in 0..k {
        m.nontrivial.insert(word(&b));
    }
    m.evaluations += v["evaluations"].as_u64().unwrap();
    m.transitions += v["transitions"].as_u64().unwrap();
    m.conformance += v["conformance"].as_u64().unwrap();
    for (k, n) in v["outcomes"].as_object().unwrap() {
        *m.outcomes.entry(k.clone()).or_insert(0) += n.as_u64().unwrap();
    }
    for (k, s) in v["spaces"].as_object().unwrap() {
        let e = m.spaces.entry(k.clone()).or_insert((0, true, s[2].as_str().unwrap().into()));
        e.0 += s[0].as_u64().unwrap();
        e.1 &= s[1].as_bool().unwrap();
        if e.2.is_empty() {
            e.2 = s[2].as_str().unwrap().into();
        }
    }
    for s in v["samples"].as_array().unwrap() {
        m.samples.push((
            s[0].as_str().unwrap().into(),
            s[1].as_u64().unwrap(),
            s[2].as_str().unwrap().into(),
        ));
    }
    violations.extend(v["violations"].as_array().unwrap().iter().cloned());
}

fn known_findings(verif: &str, id: &str) -> Vec<(String, String)> {
    let text = std::fs::read_to_string(format!("{verif}/KNOWN_FINDINGS.txt")).unwrap_or_default();
    text.lines()
        .filter_map(|l| {
            // known: property=<id> sig=<<signature>> <what fails>
            let rest = l.strip_prefix("known: property=")?;
            let (p, rest) = rest.split_once(" sig=<<")?;
            let (sig, what) = rest.split_once(">>")?;
            (p == id).then(|| (sig.to_string(), what.trim().to_string()))
        })
        .collect()
}

#[allow(clippy::too_many_arguments)]
fn report(
    spec: &Spec,
    tier: Tier,
    seed: u64,
    verif: &str,
    start: Instant,
    m: Tally,
    violations: Vec<Value>,
    engine_error: Option<String>,
    replaying: bool,
) -> i32 {
    let known = known_findings(verif, spec.id);
    let mut fresh: BTreeMap<String, Value> = BTreeMap::new();
    let mut seen_known: HashSet<String> = HashSet::new();
    for v in violations {
        let sig = v["sig"].as_str().unwrap_or("").to_string();
        if let Some((s, _)) = known.iter().find(|(s, _)| *s == sig) {
            seen_known.insert(s.clone());
            continue;
        }
        let size = |v: &Value| {
            (
                v["choices"].as_array().map(|a| a.iter().filter(|x| x.as_u64() != Some(0)).count()).unwrap_or(0),
                v["case"].as_str().map(|s| s.len()).unwrap_or(0),
            )
        };
        match fresh.get(&sig) {
            Some(old) if size(old) <= size(&v) => {}
            _ => {
                fresh.insert(sig, v);
            }
        }
    }
    let tier_s = if tier == Tier::Quick { "quick" } else { "thorough" };
    let exhaustive = m.spaces.values().all(|s| s.1) && engine_error.is_none();
    println!(
        "{} {}: {} executions, {} states, {} transitions, {} distinct non-trivial, {:.1} s{}",
        spec.id,
        tier_s,
        m.evaluations,
        m.states.len(),
        m.transitions,
        m.nontrivial.len(),
        start.elapsed().as_secs_f64(),
        if exhaustive { "" } else { " (NOT complete within the bounds)" }
    );
    for (k, s) in &m.spaces {
        println!("  space {k}: {} executions, {}{}", s.0, s.2, if s.1 { "" } else { ", cut short" });
    }
    for (o, n) in m.outcomes.iter().take(25) {
        println!("  outcome {} x{}", clip(o, 150), n);
    }
    for (sig, what) in &known {
        // listed findings are announced whether or not this tier's bounds reach them
        println!("KNOWN-FINDING: property={} {} [{}]", spec.id, what, clip(sig, 120));
    }
    let mut samples: Vec<String> = vec![];
    let mut sorted = m.samples.clone();
    sorted.sort();
    let mut per: BTreeMap<String, usize> = BTreeMap::new();
    for (space, _, s) in sorted {
        let c = per.entry(space).or_insert(0);
        if *c < 4 && samples.len() < 40 {
            *c += 1;
            samples.push(s);
        }
    }
    if !replaying {
        let mut coverage = json!({
            "rule": spec.rule,
            "samples": samples,
            "exhaustive": exhaustive,
            "spaces": m.spaces.iter().map(|(k, s)| json!({"space": k, "executions": s.0, "bound": s.2, "complete": s.1})).collect::<Vec<_>>(),
            "outcomes": m.outcomes,
        });
        let c = coverage.as_object_mut().unwrap();
        if spec.level == "model_checking" {
            c.insert("states".into(), json!(m.states.len()));
            c.insert("transitions".into(), json!(m.transitions));
            c.insert("traces_validated_against_impl".into(), json!(m.evaluations));
            if m.conformance > 0 {
                c.insert("environment_conformance_traces".into(), json!(m.conformance));
            }
        } else {
            c.insert("evaluations".into(), json!(m.evaluations));
            c.insert("distinct_nontrivial".into(), json!(m.nontrivial.len()));
            if m.transitions > 0 {
                c.insert("choice_points".into(), json!(m.transitions));
            }
        }
        let ev = json!({
            "property": spec.id,
            "tier": tier_s,
            "seed": seed,
            "level": spec.level,
            "coverage": coverage,
            "assumptions": spec.assumptions,
            "wall_s": start.elapsed().as_secs_f64(),
            "violations": fresh.len(),
        });
        let _ = std::fs::create_dir_all(format!("{verif}/evidence"));
        if std::fs::write(
            format!("{verif}/evidence/{}.json", spec.id),
            serde_json::to_string_pretty(&ev).unwrap() + "\n",
        )
        .is_err()
        {
            eprintln!("cannot write evidence");
            return 2;
        }
    }
    if !fresh.is_empty() {
        let _ = std::fs::create_dir_all(format!("{verif}/replays"));
        for (n, (sig, mut v)) in fresh.into_iter().enumerate() {
            if n >= 5 {
                break;
            }
            let path = format!("{verif}/replays/{}-{}.json", spec.id, n);
            v["property"] = json!(spec.id);
            v["tier"] = json!(tier_s);
            v["how_to_replay"] = json!(format!("./check {} --replay {}", spec.id, path));
            let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap() + "\n");
            println!("  {}: {}", clip(&sig, 200), clip(v["msg"].as_str().unwrap_or(""), 600));
            println!("  case: {}", clip(v["case"].as_str().unwrap_or(""), 600));
            println!("VIOLATION property={} replay={}", spec.id, path);
        }
        return 1;
    }
    if let Some(e) = engine_error {
        eprintln!("ENGINE ERROR: {e}");
        return 2;
    }
    0
}

/// Runs `f` on a thread with the stack size Rust gives its threads by default (2 MiB), which is
/// what the client's own worker threads have.
pub fn on_thread<R: Send>(f: impl FnOnce() -> R + Send) -> R {
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(2 << 20)
            .spawn_scoped(s, f)
            .expect("thread")
            .join()
            .unwrap_or_else(|_| die_engine("checker thread panicked"))
    })
}
