//! Exhaustive stateless exploration: choice recording, depth-first search,
//! worker processes, confirmation of violations, evidence.

use std::collections::HashSet;
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::SeqCst};
use std::time::Instant;

use crate::raw;

// ---------------------------------------------------------------- choices

pub struct Point {
    n: u16,
    chosen: u16,
    /// Alternatives below this bound are ours to explore
    limit: u16,
    label: &'static str,
}

pub struct Exec {
    trace: Vec<Point>,
    /// Entries of `trace` below this were given to us by another worker
    given: usize,
    pos: usize,
    dev_used: u32,
    pub bound: u32,
    /// No more choices are recorded; defaults are taken
    frozen: bool,
    steps: u64,
    states: HashSet<u64, BuildHasherDefault<IdHasher>>,
    outcomes: HashSet<u64, BuildHasherDefault<IdHasher>>,
    states_capped: bool,
    log: Option<Vec<String>>,
    pub slot: usize,
    pub job: usize,
    quiet: bool,
}

#[derive(Default)]
pub struct IdHasher(u64);
impl Hasher for IdHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, n: u64) {
        self.0 = n;
    }
}

static mut EXEC: Option<Exec> = None;
static mut SHARED: *mut Shared = std::ptr::null_mut();
/// Whether violations are delivered to a parent (otherwise printed)
static mut REPLAYING: bool = false;

#[allow(static_mut_refs)]
pub fn exec() -> &'static mut Exec {
    unsafe { EXEC.as_mut().expect("no execution") }
}

fn shared() -> Option<&'static Shared> {
    unsafe { SHARED.as_ref() }
}

fn pick(n: usize, label: &'static str) -> usize {
    let ex = exec();
    if n <= 1 || ex.frozen {
        return 0;
    }
    let i = ex.pos;
    ex.pos += 1;
    if i < ex.trace.len() {
        let p = &mut ex.trace[i];
        if p.n == 0 {
            p.n = n as u16;
            p.label = label;
        }
        if p.n as usize != n || p.label != label || p.chosen as usize >= n {
            engine_error(&format!(
                "replay diverged at choice {}: expected {} of {}, found {} of {}",
                i, p.label, p.n, label, n
            ));
        }
        let c = p.chosen as usize;
        if let Some(sh) = shared() {
            sh.workers[ex.slot].beat.fetch_add(1, SeqCst);
        }
        return c;
    }
    if i >= MAX_CHOICES {
        violation("livelock", "no end after thousands of choices in one execution");
    }
    ex.trace.push(Point { n: n as u16, chosen: 0, limit: n as u16, label });
    if let Some(sh) = shared() {
        let w = &sh.workers[ex.slot];
        w.set_choice(i, 0);
        w.len.store(i as u32 + 1, SeqCst);
        w.beat.fetch_add(1, SeqCst);
    }
    0
}

/// A free choice among `n` alternatives; all are explored.
pub fn choose(n: usize, label: &'static str) -> usize {
    let c = pick(n, label);
    if n > 1 && exec().log.is_some() {
        log(&format!("  choice {} = {} of {}", label, c, n));
    }
    c
}

/// Alternative 0 is the normal case; any other costs one deviation.
pub fn deviate(n: usize, label: &'static str) -> usize {
    let ex = exec();
    if ex.dev_used >= ex.bound {
        return 0;
    }
    let c = pick(n, label);
    if c != 0 {
        exec().dev_used += 1;
        if exec().log.is_some() {
            log(&format!("  deviation {} = {} of {}", label, c, n));
        }
    }
    c
}

pub fn deviations_left() -> bool {
    let ex = exec();
    !ex.frozen && ex.dev_used < ex.bound
}

pub fn choose_of<'a, T>(v: &'a [T], label: &'static str) -> &'a T {
    &v[choose(v.len(), label)]
}

/// Counts a transition of the explored system.
pub fn step() {
    let ex = exec();
    ex.steps += 1;
    if ex.steps & 0xff == 0 {
        if let Some(sh) = shared() {
            sh.workers[ex.slot].beat.fetch_add(1, SeqCst);
        }
    }
}

/// Counts many transitions at once.
pub fn steps(n: u64) {
    exec().steps += n;
    if let Some(sh) = shared() {
        sh.workers[exec().slot].beat.fetch_add(1, SeqCst);
    }
}

pub fn hash_of<T: Hash>(t: &T) -> u64 {
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// Registers a visited state of the explored system.
pub fn state<T: Hash>(t: &T) {
    let ex = exec();
    if ex.states.len() < 3_000_000 {
        ex.states.insert(hash_of(t));
    } else {
        ex.states_capped = true;
    }
}

/// Registers the observable outcome of an execution.
pub fn outcome<T: Hash>(t: &T) {
    let ex = exec();
    if ex.outcomes.len() < 1_000_000 {
        ex.outcomes.insert(hash_of(t));
    }
}

pub fn log(s: &str) {
    let ex = exec();
    if let Some(ref mut l) = ex.log {
        if l.len() < 5000 {
            l.push(s.to_string());
        }
    }
}

pub fn logging() -> bool {
    unsafe {
        #[allow(static_mut_refs)]
        EXEC.as_ref().map_or(false, |e| e.log.is_some())
    }
}

#[macro_export]
macro_rules! trace {
    ($($t:tt)*) => { if $crate::engine::logging() { $crate::engine::log(&format!($($t)*)); } }
}

/// Reports a property violation if the condition is false.
#[macro_export]
macro_rules! check {
    ($cond:expr, $sig:expr, $($t:tt)*) => {
        if !$cond { $crate::engine::violation($sig, &format!($($t)*)); }
    }
}

/// Ends the program: the property does not hold in the current execution.
pub fn violation(sig: &str, msg: &str) -> ! {
    finish(1, sig, msg)
}

/// Findings listed in known_findings.txt: property, signature, description
static mut KNOWN: Vec<(String, String, String)> = Vec::new();

pub fn read_known(root: &str) {
    let text = std::fs::read_to_string(format!("{}/known_findings.txt", root)).unwrap_or_default();
    let mut v = Vec::new();
    for l in text.lines() {
        if let Some(l) = l.strip_prefix("known: property=") {
            let mut f = l.splitn(3, ' ');
            if let (Some(p), Some(s), Some(d)) = (f.next(), f.next(), f.next()) {
                if let Some(s) = s.strip_prefix("sig=") {
                    v.push((p.to_string(), s.to_string(), d.to_string()));
                }
            }
        }
    }
    unsafe { KNOWN = v }
}

/// The property does not hold; a violation unless the finding is listed as known.
#[allow(static_mut_refs)]
pub fn known_or_violation(property: &str, sig: &str, msg: &str) {
    let k = unsafe { KNOWN.iter().position(|k| k.0 == property && k.1 == sig) };
    match (k, shared()) {
        (None, _) => violation(sig, msg),
        (Some(k), Some(sh)) => {
            sh.known.fetch_or(1 << k, SeqCst);
        }
        (Some(_), None) => (),
    }
}

/// Runs something that is not to appear in the log.
pub fn quietly<T>(f: impl FnOnce() -> T) -> T {
    let log = exec().log.take();
    let r = f();
    exec().log = log;
    r
}

/// Ends the program: the machinery itself failed.
pub fn engine_error(msg: &str) -> ! {
    finish(2, "engine", msg)
}

fn finish(kind: u32, sig: &str, msg: &str) -> ! {
    crate::world::disarm();
    unsafe {
        #[allow(static_mut_refs)]
        let ex = EXEC.as_mut();
        if let (false, Some(sh), Some(ex)) = (REPLAYING, shared(), ex) {
            sh.lock();
            if sh.verdict.load(SeqCst) == 0 {
                sh.set_text(&format!("{}\n{}", sig, msg));
                sh.v_job.store(ex.job as u32, SeqCst);
                for (i, p) in ex.trace.iter().enumerate().take(ex.pos) {
                    sh.v_choices[i].store(p.chosen as u32, SeqCst);
                }
                sh.v_len.store(ex.pos.min(ex.trace.len()) as u32, SeqCst);
                sh.verdict.store(kind, SeqCst);
                sh.stop.store(1, SeqCst);
            }
            sh.unlock();
            raw::exit(10 + kind as i32);
        }
        // Confirmation or replay run: tell what happened
        #[allow(static_mut_refs)]
        if let Some(ex) = EXEC.as_mut() {
            if let Some(l) = ex.log.take() {
                for s in l {
                    raw::put(REPLAY_OUT, &s);
                    raw::put(REPLAY_OUT, "\n");
                }
            }
        }
        raw::put(REPLAY_OUT, &format!("RESULT kind={} sig={}\n{}\n", kind, sig, msg));
        raw::exit(10 + kind as i32);
    }
}

static mut REPLAY_OUT: i32 = 1;

// ---------------------------------------------------------------- shared memory

const MAX_CHOICES: usize = 6000;
const UNIT_CHOICES: usize = 252;
const QUEUE: usize = 1024;
const MAX_WORKERS: usize = 32;

struct Unit {
    job: AtomicU32,
    len: AtomicU32,
    choices: [AtomicU32; UNIT_CHOICES],
}

struct WSlot {
    beat: AtomicU64,
    job: AtomicU32,
    active: AtomicU32,
    len: AtomicU32,
    choices: [AtomicU32; MAX_CHOICES],
}

impl WSlot {
    fn set_choice(&self, i: usize, c: u32) {
        self.choices[i].store(c, SeqCst);
    }
}

struct Shared {
    lk: AtomicU32,
    stop: AtomicU32,
    deadline: AtomicU32,
    next_job: AtomicU32,
    idle: AtomicU32,
    qlen: AtomicU32,
    verdict: AtomicU32,
    v_job: AtomicU32,
    v_len: AtomicU32,
    text_len: AtomicU32,
    /// Known findings that were seen, by number
    known: AtomicU64,
    v_choices: [AtomicU32; MAX_CHOICES],
    text: [AtomicU32; 16384],
    queue: [Unit; QUEUE],
    workers: [WSlot; MAX_WORKERS],
}

impl Shared {
    fn lock(&self) {
        while self.lk.compare_exchange(0, 1, SeqCst, SeqCst).is_err() {
            unsafe { raw::sched_yield() };
        }
    }
    fn unlock(&self) {
        self.lk.store(0, SeqCst);
    }
    fn set_text(&self, s: &str) {
        let b = s.as_bytes();
        let n = b.len().min(self.text.len());
        for i in 0..n {
            self.text[i].store(b[i] as u32, SeqCst);
        }
        self.text_len.store(n as u32, SeqCst);
    }
    fn get_text(&self) -> String {
        let n = self.text_len.load(SeqCst) as usize;
        let v: Vec<u8> = (0..n).map(|i| self.text[i].load(SeqCst) as u8).collect();
        String::from_utf8_lossy(&v).into_owned()
    }
}

// ---------------------------------------------------------------- jobs

pub struct Job {
    pub name: String,
    pub bound: u32,
    pub body: Box<dyn Fn()>,
}

pub fn job(name: &str, bound: u32, body: impl Fn() + 'static) -> Job {
    Job { name: name.to_string(), bound, body: Box::new(body) }
}

pub struct Check {
    pub id: &'static str,
    pub jobs: Vec<Job>,
    /// What is enumerated, for the evidence file
    pub rule: &'static str,
    pub assumptions: Vec<&'static str>,
}

fn new_exec(slot: usize) -> Exec {
    Exec {
        trace: Vec::new(),
        given: 0,
        pos: 0,
        dev_used: 0,
        bound: 0,
        frozen: false,
        steps: 0,
        states: Default::default(),
        outcomes: Default::default(),
        states_capped: false,
        log: None,
        slot,
        job: 0,
        quiet: false,
    }
}

fn run_once(jobs: &[Job]) {
    let ex = exec();
    ex.pos = 0;
    ex.dev_used = 0;
    ex.frozen = false;
    let j = &jobs[ex.job];
    ex.bound = j.bound;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (j.body)()));
    crate::world::disarm();
    if r.is_err() {
        engine_error("a panic reached the explorer");
    }
    let ex = exec();
    if ex.pos < ex.trace.len() {
        engine_error(&format!("replay diverged: execution ended after {} of {} choices", ex.pos, ex.trace.len()));
    }
}

fn worker(slot: usize, jobs: &[Job], fd: i32) -> ! {
    let sh = shared().unwrap();
    let w = &sh.workers[slot];
    unsafe {
        EXEC = Some(new_exec(slot));
    }
    crate::pin(slot);
    let mut execs: Vec<u64> = vec![0; jobs.len()];
    let mut steps_by: Vec<u64> = vec![0; jobs.len()];
    let mut samples: Vec<String> = Vec::new();
    let mut complete = true;
    let mut deepest = 0usize;
    'units: loop {
        // Take a unit of work
        let mut idle = false;
        let unit = loop {
            if sh.stop.load(SeqCst) != 0 {
                break 'units;
            }
            if sh.deadline.load(SeqCst) != 0 {
                complete = false;
                break 'units;
            }
            sh.lock();
            let q = sh.qlen.load(SeqCst);
            let got = if q > 0 {
                let u = &sh.queue[q as usize - 1];
                let n = u.len.load(SeqCst) as usize;
                let v = (0..n).map(|i| u.choices[i].load(SeqCst) as u16).collect::<Vec<_>>();
                sh.qlen.store(q - 1, SeqCst);
                Some((u.job.load(SeqCst) as usize, v))
            } else {
                let j = sh.next_job.load(SeqCst) as usize;
                if j < jobs.len() {
                    sh.next_job.store(j as u32 + 1, SeqCst);
                    Some((j, Vec::new()))
                } else {
                    None
                }
            };
            if got.is_some() && idle {
                sh.idle.fetch_sub(1, SeqCst);
            }
            if got.is_none() && !idle {
                idle = true;
                sh.idle.fetch_add(1, SeqCst);
            }
            let all_idle = sh.idle.load(SeqCst) as usize >= nworkers();
            sh.unlock();
            if let Some(g) = got {
                break g;
            }
            if all_idle {
                break 'units;
            }
            w.beat.fetch_add(1, SeqCst);
            raw::sleep_us(200);
        };

        let ex = exec();
        ex.job = unit.0;
        ex.given = unit.1.len();
        ex.trace = unit.1.iter().map(|&c| Point { n: 0, chosen: c, limit: c + 1, label: "" }).collect();
        w.job.store(unit.0 as u32, SeqCst);
        loop {
            let ex = exec();
            for i in 0..ex.trace.len() {
                w.set_choice(i, ex.trace[i].chosen as u32);
            }
            w.len.store(ex.trace.len() as u32, SeqCst);
            let sample = execs[ex.job] == 0 && ex.given == 0 && samples.len() < 4;
            ex.log = if sample { Some(Vec::new()) } else { None };
            let before = ex.steps;
            w.active.store(1, SeqCst);
            run_once(jobs);
            w.active.store(0, SeqCst);
            let ex = exec();
            execs[ex.job] += 1;
            steps_by[ex.job] += ex.steps - before;
            deepest = deepest.max(ex.trace.len());
            if let Some(l) = ex.log.take() {
                let mut s = format!("{}: {}", jobs[ex.job].name, l.join("; "));
                if s.len() > 1500 {
                    let mut e = 1500;
                    while !s.is_char_boundary(e) {
                        e -= 1;
                    }
                    s.truncate(e);
                    s.push_str("...");
                }
                samples.push(s);
            }
            if sh.stop.load(SeqCst) != 0 {
                break 'units;
            }
            if sh.deadline.load(SeqCst) != 0 {
                complete = false;
                break 'units;
            }
            // Give away work if others are idle
            if sh.idle.load(SeqCst) > 0 {
                donate(sh, ex);
            }
            // Next execution
            loop {
                match ex.trace.last_mut() {
                    None => continue 'units,
                    Some(p) => {
                        if p.chosen + 1 < p.limit {
                            p.chosen += 1;
                            break;
                        }
                        ex.trace.pop();
                    }
                }
            }
        }
    }
    // Deliver statistics
    let ex = exec();
    let mut out = String::new();
    out.push_str(&format!("{} {} {} {}\n", ex.steps, complete as u32, ex.states_capped as u32, deepest));
    for (a, b) in execs.iter().zip(&steps_by) {
        out.push_str(&format!("{} {} ", a, b));
    }
    out.push('\n');
    out.push_str(&format!("{}\n", samples.len()));
    for s in &samples {
        out.push_str(&s.replace('\n', " / "));
        out.push('\n');
    }
    let mut bytes = out.into_bytes();
    bytes.extend((ex.states.len() as u64).to_le_bytes());
    bytes.extend((ex.outcomes.len() as u64).to_le_bytes());
    for &h in &ex.states {
        bytes.extend(h.to_le_bytes());
    }
    for &h in &ex.outcomes {
        bytes.extend(h.to_le_bytes());
    }
    raw::write_all(fd, &bytes);
    w.beat.store(u64::MAX, SeqCst);
    unsafe { raw::exit(0) }
}

fn donate(sh: &Shared, ex: &mut Exec) {
    for i in 0..ex.trace.len().min(UNIT_CHOICES) {
        if ex.trace[i].chosen + 1 < ex.trace[i].limit {
            let (from, to) = (ex.trace[i].chosen + 1, ex.trace[i].limit);
            sh.lock();
            let mut q = sh.qlen.load(SeqCst) as usize;
            let mut given = to;
            // Last alternatives first, so that they are taken in order
            for alt in (from..to).rev() {
                if q >= QUEUE {
                    break;
                }
                let u = &sh.queue[q];
                u.job.store(ex.job as u32, SeqCst);
                u.len.store(i as u32 + 1, SeqCst);
                for k in 0..i {
                    u.choices[k].store(ex.trace[k].chosen as u32, SeqCst);
                }
                u.choices[i].store(alt as u32, SeqCst);
                q += 1;
                given = alt;
            }
            sh.qlen.store(q as u32, SeqCst);
            sh.unlock();
            ex.trace[i].limit = given;
            return;
        }
    }
}

pub fn nworkers() -> usize {
    static N: AtomicU32 = AtomicU32::new(0);
    let n = N.load(SeqCst);
    if n != 0 {
        return n as usize;
    }
    let n = std::env::var("MC_WORKERS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get()))
        .clamp(1, MAX_WORKERS);
    N.store(n as u32, SeqCst);
    n
}

enum Confirm {
    Result(i32, String, String),
    Ended,
}

/// Runs one execution with the given choices in a child process. It hangs if it does so on
/// three processors; one of them may have been suspended.
fn confirm(jobs: &[Job], job: usize, choices: &[u32], secs: u64) -> Confirm {
    let mut r = confirm_on(jobs, job, choices, secs, 0);
    for cpu in [3, 6] {
        match r {
            Confirm::Result(1, ref sig, _) if sig == "hang" => r = confirm_on(jobs, job, choices, secs, cpu),
            _ => break,
        }
    }
    r
}

fn confirm_on(jobs: &[Job], job: usize, choices: &[u32], secs: u64, cpu: usize) -> Confirm {
    unsafe {
        let fd = libc::memfd_create(c"mc-log".as_ptr(), 0);
        let pid = libc::fork();
        if pid == 0 {
            REPLAYING = true;
            REPLAY_OUT = fd;
            SHARED = std::ptr::null_mut();
            let mut ex = new_exec(0);
            ex.job = job;
            ex.given = choices.len();
            ex.trace =
                choices.iter().map(|&c| Point { n: 0, chosen: c as u16, limit: c as u16 + 1, label: "" }).collect();
            ex.log = Some(Vec::new());
            EXEC = Some(ex);
            crate::pin(cpu);
            run_once(jobs);
            let l = exec().log.take().unwrap_or_default();
            raw::write_all(fd, l.join("\n").as_bytes());
            raw::write_all(fd, b"\nRESULT kind=0 sig=none\nno violation\n");
            raw::exit(0);
        }
        let start = Instant::now();
        let mut status = 0;
        let mut hung = false;
        // The machine may have been suspended: count what was really waited for as well
        let mut polls = 0;
        loop {
            polls += 1;
            let r = libc::waitpid(pid, &mut status, libc::WNOHANG);
            if r == pid {
                break;
            }
            if start.elapsed().as_secs() >= secs && polls >= secs * 300 && polls % 500 == 0 {
                let (t, wants) = cpu_time(pid);
                if wants && t < secs * 50 && start.elapsed().as_secs() < secs * 4 {
                    continue;
                }
                hung = true;
                libc::kill(pid, libc::SIGKILL);
                libc::waitpid(pid, &mut status, 0);
                break;
            }
            raw::sleep_us(1000);
        }
        let text = raw::read_all(fd);
        libc::close(fd);
        let log = String::from_utf8_lossy(&text).into_owned();
        if hung {
            return Confirm::Result(1, "hang".into(), format!("{}\nexecution makes no progress\n", log));
        }
        if libc::WIFSIGNALED(status) {
            let s = libc::WTERMSIG(status);
            return Confirm::Result(1, format!("crash-signal-{}", s), format!("{}\nprocess killed by signal {}\n", log, s));
        }
        if let Some(i) = log.rfind("RESULT kind=") {
            let rest = &log[i + 12..];
            let kind: i32 = rest[..1].parse().unwrap_or(2);
            let sig = rest[2..].lines().next().unwrap_or("").trim_start_matches("sig=").to_string();
            if kind == 0 {
                return Confirm::Ended;
            }
            return Confirm::Result(kind, sig, log);
        }
        Confirm::Result(2, "engine".into(), format!("{}\nconfirmation run ended with status {:x}", log, status))
    }
}

/// Ticks a process has run, and whether one of its threads runs or wants to.
fn cpu_time(pid: i32) -> (u64, bool) {
    let (mut t, mut runs) = (0, false);
    if let Ok(dir) = std::fs::read_dir(format!("/proc/{}/task", pid)) {
        for d in dir.flatten() {
            let stat = std::fs::read_to_string(d.path().join("stat")).unwrap_or_default();
            let f: Vec<&str> = stat.rsplit(')').next().unwrap_or("").split_whitespace().collect();
            t += f.get(11).and_then(|s| s.parse::<u64>().ok()).unwrap_or(0);
            t += f.get(12).and_then(|s| s.parse::<u64>().ok()).unwrap_or(0);
            runs |= f.first().map_or(false, |s| *s == "R");
        }
    }
    (t, runs)
}

/// State, times (user, system) and processor of each thread of a worker.
fn thread_states(pid: i32) -> String {
    let mut v = Vec::new();
    if let Ok(dir) = std::fs::read_dir(format!("/proc/{}/task", pid)) {
        for d in dir.flatten() {
            let stat = std::fs::read_to_string(d.path().join("stat")).unwrap_or_default();
            let wchan = std::fs::read_to_string(d.path().join("wchan")).unwrap_or_default();
            let call = std::fs::read_to_string(d.path().join("syscall")).unwrap_or_default();
            let f: Vec<&str> = stat.rsplit(')').next().unwrap_or("").split_whitespace().collect();
            let g = |i: usize| f.get(i).cloned().unwrap_or("?");
            v.push(format!("{} {}+{} cpu {} {} {}", g(0), g(11), g(12), g(36), wchan, call.trim()));
        }
    }
    v.join("; ")
}

/// Prints the end of a text, shortened.
fn show(text: &str) {
    let tail: Vec<&str> = text.lines().rev().take(14).collect();
    for l in tail.iter().rev() {
        println!("  {}", l.chars().take(160).collect::<String>());
    }
}

pub fn run_check(check: Check, tier: &str, seed: i64, root: &str) -> i32 {
    let start = Instant::now();
    let Check { id, jobs, rule, assumptions } = check;
    let only = std::env::var("MC_JOB").ok();
    let jobs: Vec<Job> =
        jobs.into_iter().filter(|j| only.as_ref().map_or(true, |o| j.name.contains(o.as_str()))).collect();
    let deadline: u64 = std::env::var("MC_DEADLINE")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(if tier == "quick" { 600 } else { 840 });
    let n = nworkers();
    let mut pids = Vec::new();
    let mut fds = Vec::new();
    unsafe {
        SHARED = libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<Shared>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        ) as *mut Shared;
        for _ in 0..n {
            fds.push(libc::memfd_create(c"mc-stats".as_ptr(), 0));
        }
        for i in 0..n {
            let pid = libc::fork();
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                worker(i, &jobs, fds[i]);
            }
            pids.push(pid);
        }
    }
    let sh = shared().unwrap();
    let mut alive = vec![true; n];
    let mut last = vec![(0u64, Instant::now(), 0u32, None::<u64>, 0); n];
    // (job, choices, why) of executions that ended a worker
    let mut suspect: Option<(usize, Vec<u32>, String)> = None;
    while alive.iter().any(|&a| a) {
        raw::sleep_us(2000);
        if start.elapsed().as_secs() >= deadline {
            sh.deadline.store(1, SeqCst);
        }
        for i in 0..n {
            if !alive[i] {
                continue;
            }
            let mut status = 0;
            let r = unsafe { libc::waitpid(pids[i], &mut status, libc::WNOHANG) };
            let w = &sh.workers[i];
            if r == pids[i] {
                alive[i] = false;
                if libc::WIFSIGNALED(status) {
                    // It may have held the lock
                    sh.unlock();
                    sh.stop.store(1, SeqCst);
                    if suspect.is_none() {
                        suspect = Some((
                            w.job.load(SeqCst) as usize,
                            (0..w.len.load(SeqCst) as usize).map(|k| w.choices[k].load(SeqCst)).collect(),
                            format!("worker killed by signal {}", libc::WTERMSIG(status)),
                        ));
                    }
                }
                continue;
            }
            let b = w.beat.load(SeqCst);
            if b != last[i].0 {
                last[i] = (b, Instant::now(), 0, None, 0);
                continue;
            }
            last[i].2 += 1;
            if w.active.load(SeqCst) == 1 && last[i].1.elapsed().as_secs() >= 5 && last[i].3.is_none() {
                last[i].3 = Some(cpu_time(pids[i]).0);
            }
            if w.active.load(SeqCst) == 1 && last[i].1.elapsed().as_secs() >= 45 && last[i].2 >= 9000 {
                let (job, choices): (usize, Vec<u32>) = (
                    w.job.load(SeqCst) as usize,
                    (0..w.len.load(SeqCst) as usize).map(|k| w.choices[k].load(SeqCst)).collect(),
                );
                // A processor may be suspended for long: the worker has not run, but wants to
                let (t, wants) = cpu_time(pids[i]);
                let starved = wants && t.saturating_sub(last[i].3.unwrap_or(0)) < 1500;
                if suspect.is_none() && last[i].4 < 4 && w.beat.load(SeqCst) == b {
                    if starved && start.elapsed().as_secs() < deadline {
                        last[i].1 = Instant::now();
                        last[i].2 = 0;
                        last[i].4 += 1;
                        eprintln!("{}: worker {} does not get to run: {}", id, i, thread_states(pids[i]));
                        continue;
                    }
                    match confirm(&jobs, job, &choices, 20) {
                        Confirm::Result(1, _, _) => (),
                        _ => {
                            eprintln!("{}: worker {} makes no progress, but its execution ends", id, i);
                            last[i].1 = Instant::now();
                            last[i].2 = 0;
                            last[i].4 += 1;
                            continue;
                        }
                    }
                }
                sh.stop.store(1, SeqCst);
                if suspect.is_none() {
                    suspect = Some((job, choices, "worker makes no progress".to_string()));
                }
                eprintln!("{}: worker {} makes no progress: {}", id, i, thread_states(pids[i]));
                unsafe {
                    libc::kill(pids[i], libc::SIGKILL);
                    libc::waitpid(pids[i], &mut status, 0);
                }
                alive[i] = false;
            }
        }
    }

    // Collect statistics
    let mut steps = 0u64;
    let mut execs = vec![0u64; jobs.len()];
    let mut jsteps = vec![0u64; jobs.len()];
    let mut complete = true;
    let mut capped = false;
    let mut deepest = 0;
    let mut samples: Vec<String> = Vec::new();
    let mut states: HashSet<u64, BuildHasherDefault<IdHasher>> = Default::default();
    let mut outcomes: HashSet<u64, BuildHasherDefault<IdHasher>> = Default::default();
    for &fd in &fds {
        let b = raw::read_all(fd);
        if b.is_empty() {
            complete = false;
            continue;
        }
        let mut pos = 0;
        let mut line = || {
            let e = b[pos..].iter().position(|&c| c == b'\n').unwrap();
            let s = String::from_utf8_lossy(&b[pos..pos + e]).into_owned();
            pos += e + 1;
            s
        };
        let h: Vec<u64> = line().split_whitespace().map(|x| x.parse().unwrap()).collect();
        steps += h[0];
        complete &= h[1] == 1;
        capped |= h[2] == 1;
        deepest = deepest.max(h[3]);
        let v: Vec<u64> = line().split_whitespace().map(|x| x.parse().unwrap()).collect();
        for (i, c) in v.chunks(2).enumerate() {
            execs[i] += c[0];
            jsteps[i] += c[1];
        }
        let ns: usize = line().parse().unwrap();
        for _ in 0..ns {
            samples.push(line());
        }
        let u = |p: usize| u64::from_le_bytes(b[p..p + 8].try_into().unwrap());
        let (a, c) = (u(pos) as usize, u(pos + 8) as usize);
        pos += 16;
        for k in 0..a {
            states.insert(u(pos + 8 * k));
        }
        pos += 8 * a;
        for k in 0..c {
            outcomes.insert(u(pos + 8 * k));
        }
    }

    // Verdict
    let mut violations = 0;
    let mut code = 0;
    let verdict = sh.verdict.load(SeqCst);
    let found = if verdict != 0 {
        let len = sh.v_len.load(SeqCst) as usize;
        Some((
            sh.v_job.load(SeqCst) as usize,
            (0..len).map(|i| sh.v_choices[i].load(SeqCst)).collect::<Vec<u32>>(),
            sh.get_text(),
        ))
    } else {
        suspect
    };
    if let Some((j, choices, why)) = found {
        complete = false;
        if verdict == 2 {
            eprintln!("ENGINE ERROR in {} job {}: {}", id, jobs[j].name, why);
            eprintln!("choices: {:?}", &choices[..choices.len().min(200)]);
            if let Confirm::Result(_, _, text) = confirm(&jobs, j, &choices, 20) {
                show(&text);
            }
            code = 2;
        } else {
            match confirm(&jobs, j, &choices, 20) {
                Confirm::Result(1, sig, text) => {
                    let dir = format!("{}/replays", root);
                    let _ = std::fs::create_dir_all(&dir);
                    let path = format!("{}/{}-{:016x}.txt", dir, id, hash_of(&(j, &choices, &sig)));
                    let body = format!(
                        "check={}\ntier={}\njob={}\nchoices={}\nsignature={}\n\nfirst report: {}\n\nconfirmation run:\n{}\n",
                        id,
                        tier,
                        jobs[j].name,
                        choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(","),
                        sig,
                        why,
                        text
                    );
                    let _ = std::fs::write(&path, &body);
                    show(&text);
                    println!("job: {}", jobs[j].name);
                    println!("VIOLATION property={} replay={}", id, path);
                    violations = 1;
                    code = 1;
                }
                Confirm::Result(_, sig, text) => {
                    eprintln!("ENGINE ERROR in {}: confirmation of {:?} ended with {}", id, why, sig);
                    show(&text);
                    code = 2;
                }
                // A worker was not scheduled for long: start again
                Confirm::Ended if verdict == 0 && std::env::var("MC_RETRY").map_or(true, |s| s.len() < 2) => {
                    use std::os::unix::process::CommandExt;
                    eprintln!("{}: {}, though the execution ends; starting again", id, why);
                    let e = std::process::Command::new("/proc/self/exe").args(std::env::args_os().skip(1)).env("MC_RETRY", std::env::var("MC_RETRY").unwrap_or_default() + "1").exec();
                    eprintln!("cannot start again: {}", e);
                    code = 2;
                }
                Confirm::Ended => {
                    eprintln!(
                        "ENGINE ERROR in {} job {}: not reproducible: {} choices {:?}",
                        id, jobs[j].name, why, &choices[..choices.len().min(200)]
                    );
                    code = 2;
                }
            }
        }
    }

    let known = sh.known.load(SeqCst);
    #[allow(static_mut_refs)]
    for (i, k) in unsafe { KNOWN.iter().enumerate() } {
        if known & 1 << i != 0 && code == 0 {
            println!("KNOWN-FINDING: property={} {}", k.0, k.2);
        }
    }

    let total: u64 = execs.iter().sum();
    let mut js = String::new();
    js.push_str("{\n");
    js.push_str(&format!("  \"property\": {},\n  \"tier\": {},\n  \"seed\": {},\n", q(id), q(tier), seed));
    js.push_str("  \"level\": \"model_checking\",\n  \"coverage\": {\n");
    js.push_str(&format!("    \"states\": {},\n", states.len()));
    js.push_str(&format!("    \"states_count_capped\": {},\n", capped));
    js.push_str(&format!("    \"transitions\": {},\n", steps));
    js.push_str(&format!("    \"traces_validated_against_impl\": {},\n", total));
    js.push_str(&format!("    \"distinct_outcomes\": {},\n", outcomes.len()));
    js.push_str(&format!("    \"longest_choice_sequence\": {},\n", deepest));
    js.push_str(&format!("    \"rule\": {},\n", q(rule)));
    js.push_str(&format!("    \"exhaustive\": {},\n", complete && code == 0));
    js.push_str("    \"jobs\": [\n");
    for (i, j) in jobs.iter().enumerate() {
        js.push_str(&format!(
            "      {{\"name\": {}, \"deviation_bound\": {}, \"executions\": {}, \"transitions\": {}}}{}\n",
            q(&j.name),
            j.bound,
            execs[i],
            jsteps[i],
            if i + 1 < jobs.len() { "," } else { "" }
        ));
    }
    js.push_str("    ],\n    \"samples\": [\n");
    samples.truncate(8);
    for (i, s) in samples.iter().enumerate() {
        js.push_str(&format!("      {}{}\n", q(s), if i + 1 < samples.len() { "," } else { "" }));
    }
    js.push_str("    ]\n  },\n  \"assumptions\": [\n");
    for (i, s) in assumptions.iter().enumerate() {
        js.push_str(&format!("    {}{}\n", q(s), if i + 1 < assumptions.len() { "," } else { "" }));
    }
    js.push_str(&format!(
        "  ],\n  \"wall_s\": {:.2},\n  \"violations\": {}\n}}\n",
        start.elapsed().as_secs_f64(),
        violations
    ));
    let _ = std::fs::create_dir_all(format!("{}/evidence", root));
    if only.is_none() {
        if let Err(e) = std::fs::write(format!("{}/evidence/{}.json", root, id), js) {
            eprintln!("cannot write evidence: {}", e);
            code = 2;
        }
    }
    println!(
        "{} {}: {} executions, {} transitions, {} states, {} outcomes, {} jobs, exhaustive={}, {:.1}s",
        id,
        tier,
        total,
        steps,
        states.len(),
        outcomes.len(),
        jobs.len(),
        complete && code == 0,
        start.elapsed().as_secs_f64()
    );
    if std::env::var_os("MC_JOBS").is_some() {
        for (i, j) in jobs.iter().enumerate() {
            println!("  {:40} bound {} executions {} transitions {}", j.name, j.bound, execs[i], jsteps[i]);
        }
    }
    code
}

/// Re-executes a replay file.
pub fn replay(check: Check, job: &str, choices: &[u32]) -> i32 {
    let j = match check.jobs.iter().position(|j| j.name == job) {
        Some(j) => j,
        None => {
            eprintln!("no job {}", job);
            return 2;
        }
    };
    match confirm(&check.jobs, j, choices, 60) {
        Confirm::Result(k, sig, text) => {
            println!("{}\nkind {} signature {}", text, k, sig);
            k
        }
        Confirm::Ended => {
            println!("no violation");
            0
        }
    }
}

fn q(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

// ---------------------------------------------------------------- panics

/// Payload of panics that a driver raises on purpose.
pub struct Expected;

thread_local! {
    static ALLOW: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        if info.payload().is::<Expected>() {
            return;
        }
        if ALLOW.with(|a| a.get()) > 0 {
            return;
        }
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "(unknown payload)".into()
        };
        let loc = info.location().map_or("?".to_string(), |l| format!("{}:{}", l.file(), l.line()));
        unsafe {
            #[allow(static_mut_refs)]
            if EXEC.is_none() {
                raw::put(2, &format!("engine panic at {}: {}\n", loc, msg));
                raw::exit(2);
            }
        }
        if loc.starts_with("harness/") {
            engine_error(&format!("panic in the harness at {}: {}", loc, msg));
        }
        violation("panic", &format!("panic at {}: {}", loc, msg));
    }));
}

/// Runs code that is allowed to panic.
pub fn may_panic<T>(f: impl FnOnce() -> T) -> Result<T, ()> {
    ALLOW.with(|a| a.set(a.get() + 1));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    ALLOW.with(|a| a.set(a.get() - 1));
    r.map_err(|_| ())
}
