//! C15 contiguous writes, C16 deadlock freedom, C17 sequential equivalence of a Screen.

use std::collections::HashMap;
use std::sync::TryLockError;
use std::time::Duration;

use mortal::unix::TerminalExt;
use mortal::{
    Color, CursorMode, Event, PrepareConfig, Screen, SignalSet, Style, Terminal, Theme,
};
use mortal::{term_write, term_writeln};

use crate::engine::{
    choose, choose_of, hash_of, job, known_or_violation, outcome, quietly, state, Check, Expected, Job,
};
use crate::sched::{self, after_lock, after_unlock, run_scoped, Flag};
use crate::term::{ok, open, set};
use crate::world::{apply, arm, deliver, w, Stim};

const NOW: Option<Duration> = Some(Duration::from_millis(0));

type Body<'a> = Box<dyn FnOnce() + Send + 'a>;

/// What an operation is done with.
struct Cx {
    /// Number of the thread
    t: usize,
    /// Executed alone: waiting is pointless
    seq: bool,
}

impl Cx {
    fn wait(&self) -> Option<Duration> {
        if self.seq {
            NOW
        } else {
            None
        }
    }
    fn s<'a>(&self, v: [&'a str; 3]) -> &'a str {
        v[self.t]
    }
    fn c(&self) -> Color {
        [Color::Red, Color::Green, Color::Blue][self.t]
    }
}

fn r<T: std::fmt::Debug>(x: std::io::Result<T>) -> String {
    match x {
        Ok(v) => format!("{:?}", v),
        Err(e) => format!("error {:?}", e.raw_os_error()),
    }
}

/// Operation: name and effect. A result of "wait" tells that it would have to wait.
type Op<D> = (&'static str, fn(&D, &Cx) -> String);

// ---------------------------------------------------------------- sequential orders

struct Case<'a, D> {
    make: &'a dyn Fn() -> D,
    threads: Vec<Vec<Op<D>>>,
    script: Vec<Stim>,
    finish: &'a dyn Fn(&D) -> String,
    /// Options of the device
    setup: &'a dyn Fn(),
}

type Outcome = (Vec<Vec<String>>, Vec<u64>, String, String);

fn collect<D>(case: &Case<D>, d: D, results: Vec<Vec<String>>) -> Outcome {
    let end = (case.finish)(&d);
    let snaps = std::mem::take(&mut w().snaps);
    drop(d);
    let out = w().out_str();
    w().log_snaps = false;
    if !case.script.is_empty() && case.threads.iter().flatten().any(|o| o.0 == "guard-refresh") {
        // The device may be resized between two writes of one operation.
        return (results, vec![], String::new(), end);
    }
    let resized = case.script.iter().any(|s| matches!(s, Stim::Resize(..)));
    // An operation may use several writes, and the device may be resized between them.
    (results, if resized { vec![] } else { snaps }, out, end)
}

fn sequential<D>(case: &Case<D>) -> Vec<Outcome> {
    let n = case.threads.len();
    let mut lens: Vec<usize> = case.threads.iter().map(|t| t.len()).collect();
    lens.push(case.script.len());
    // The handler of a signal may run at any time after the signal was sent.
    let signals: Vec<usize> = (0..case.script.len()).filter(|&k| !matches!(case.script[k], Stim::Input(_))).collect();
    lens.extend(signals.iter().map(|_| 1));
    let mut orders = Vec::new();
    fn rec(lens: &mut Vec<usize>, cur: &mut Vec<usize>, all: &mut Vec<Vec<usize>>) {
        if lens.iter().all(|&l| l == 0) {
            all.push(cur.clone());
            return;
        }
        for i in 0..lens.len() {
            if lens[i] > 0 {
                lens[i] -= 1;
                cur.push(i);
                rec(lens, cur, all);
                cur.pop();
                lens[i] += 1;
            }
        }
    }
    rec(&mut lens, &mut Vec::new(), &mut orders);
    let mut v: Vec<Outcome> = Vec::new();
    'order: for o in orders {
        let d = start(case);
        let mut pos = vec![0; n + 1 + signals.len()];
        let mut res: Vec<Vec<String>> = vec![Vec::new(); n];
        for i in o {
            let k = pos[i];
            pos[i] += 1;
            if i == n {
                match case.script[k] {
                    Stim::Resize(l, c) => {
                        w().size = (l, c);
                        w().vt.resize(l as usize, c as usize);
                    }
                    ref s => {
                        apply(s.clone());
                    }
                }
                continue;
            }
            if i > n {
                if pos[n] <= signals[i - n - 1] {
                    continue 'order;
                }
                deliver(libc::SIGWINCH);
                continue;
            }
            let s = (case.threads[i][k].1)(&d, &Cx { t: i, seq: true });
            if s == "wait" {
                continue 'order;
            }
            res[i].push(s);
        }
        let x = collect(case, d, res);
        if !v.contains(&x) {
            v.push(x);
        }
    }
    v
}

fn start<D>(case: &Case<D>) -> D {
    arm(3, 8);
    let d = (case.make)();
    (case.setup)();
    let wd = w();
    wd.out.clear();
    wd.log_snaps = true;
    wd.writes = 0;
    wd.horizon = 50_000;
    d
}

static mut CACHE: Option<HashMap<u64, Vec<Outcome>>> = None;

/// Runs the threads of the case concurrently; the outcome must be one of some sequential order.
fn concurrent<D: Sync>(key: u64, case: &Case<D>) {
    #[allow(static_mut_refs)]
    let cache = unsafe { CACHE.get_or_insert_with(HashMap::new) };
    if cache.len() > 5000 {
        cache.clear();
    }
    let allowed = cache.entry(key).or_insert_with(|| quietly(|| sequential(case)));
    let d = start(case);
    w().script = case.script.iter().cloned().collect();
    let mut res: Vec<Vec<String>> = vec![Vec::new(); case.threads.len()];
    let bodies: Vec<Body> = res
        .iter_mut()
        .zip(&case.threads)
        .enumerate()
        .map(|(t, (out, ops))| {
            let d = &d;
            let f: Body = Box::new(move || {
                for op in ops {
                    trace!("thread {}: {}", t, op.0);
                    let s = (op.1)(d, &Cx { t, seq: false });
                    trace!("thread {}: {} = {}", t, op.0, s);
                    out.push(s);
                }
            });
            f
        })
        .collect();
    run_scoped(bodies);
    while let Some(s) = w().script.pop_front() {
        apply(s);
    }
    let x = collect(case, d, res);
    outcome(&hash_of(&(key, &x)));
    state(&hash_of(&x));
    if !allowed.contains(&x) {
        let names: Vec<Vec<&str>> = case.threads.iter().map(|t| t.iter().map(|o| o.0).collect()).collect();
        let mut s = String::new();
        for a in allowed.iter().take(4) {
            s.push_str(&format!("\n  allowed: {:?} output {:?} end {:?} snaps {:x?}", a.0, a.2, a.3, a.1));
        }
        crate::engine::violation(
            "not-sequential",
            &format!(
                "threads {:?}: no sequential order of the operations has this outcome: {:?} output {:?} end {:?} snaps {:x?}{}",
                names, x.0, x.2, x.3, x.1, s
            ),
        );
    }
}

fn pick<D>(ops: &'static [Op<D>], n: usize) -> Vec<Op<D>> {
    (0..n).map(|_| *choose_of(ops, "op")).collect()
}

/// Operations of all threads. Three threads with one operation each: in every combination, not
/// in every order, as it does not matter which thread is which.
fn picks<D>(ops: &'static [Op<D>], shape: &[usize], unordered: bool) -> Vec<Vec<Op<D>>> {
    if !unordered {
        return shape.iter().map(|&n| pick(ops, n)).collect();
    }
    let mut from = 0;
    shape
        .iter()
        .map(|_| {
            from += choose(ops.len() - from, "op");
            vec![ops[from]]
        })
        .collect()
}

fn key<D>(name: &str, threads: &[Vec<Op<D>>], extra: usize) -> u64 {
    let names: Vec<Vec<&str>> = threads.iter().map(|t| t.iter().map(|o| o.0).collect()).collect();
    hash_of(&(name, names, extra))
}

// ---------------------------------------------------------------- C15

const BIG: usize = 8192 + 700;

fn big(t: usize) -> String {
    ["A", "B", "C"][t].repeat(BIG)
}

fn theme(c: Color) -> Theme {
    Theme::new(c, Color::White, Style::UNDERLINE)
}

const WRITES: &[Op<Terminal>] = &[
    ("write_str", |d, x| r(d.write_str(x.s(["ab", "cd", "ef"])))),
    ("write_styled", |d, x| r(d.write_styled(x.c(), Color::Black, Style::BOLD, x.s(["st", "uv", "wx"])))),
    ("guard", |d, x| {
        let mut g = d.lock_write().unwrap();
        let a = g.set_fg(x.c());
        let b = g.write_str(x.s(["gh", "ij", "kl"]));
        let c = g.write_char('!');
        r(a.and(b).and(c))
    }),
    ("guard-flush", |d, x| {
        let mut g = d.lock_write().unwrap();
        let a = g.write_str(x.s(["mn", "op", "qr"]));
        let b = g.flush();
        let c = g.add_style(Style::REVERSE);
        let e = g.write_str(x.s(["MN", "OP", "QR"]));
        r(a.and(b).and(c).and(e))
    }),
    ("macro", |d, x| r(term_write!(d, [fg = x.c()] "m" [bold] (: x.s(["0", "1", "2"])) [reset] "n"))),
    ("write!", |d, x| r(write!(d, "<{}{}>", x.t, x.s(["y", "z", "-"])))),
    // The elements above are used for several threads and steps, too.
    ("macro-line", |d, x| r(term_writeln!(d, [underline] (: x.s(["7", "8", "9"])) [!underline]))),
    ("write_char", |d, x| r(d.write_char(['\u{e9}', '\u{4e00}', 'c'][x.t]))),
    ("set_fg", |d, x| r(d.set_fg(x.c()))),
    ("set_bg", |d, x| r(d.set_bg(x.c()))),
    ("add_style", |d, _| r(d.add_style(Style::REVERSE))),
    ("remove_style", |d, _| r(d.remove_style(Style::REVERSE))),
    ("set_style", |d, _| r(d.set_style(Style::UNDERLINE))),
    ("set_theme", |d, x| r(d.set_theme(theme(x.c())))),
    ("clear_attributes", |d, _| r(d.clear_attributes())),
    ("clear_screen", |d, _| r(d.clear_screen())),
    ("clear_to_line_end", |d, _| r(d.clear_to_line_end())),
    ("clear_to_screen_end", |d, _| r(d.clear_to_screen_end())),
    ("move_up", |d, _| r(d.move_up(1))),
    ("move_down", |d, _| r(d.move_down(2))),
    ("move_left", |d, _| r(d.move_left(1))),
    ("move_right", |d, _| r(d.move_right(3))),
    ("first_column", |d, _| r(d.move_to_first_column())),
    ("cursor_mode", |d, x| {
        r(d.set_cursor_mode([CursorMode::Invisible, CursorMode::Overwrite, CursorMode::Normal][x.t]))
    }),
    ("size", |d, _| r(d.size())),
    ("prepare-restore", |d, _| {
        let mut c = PrepareConfig::default();
        c.enable_mouse = true;
        let mut g = d.lock_read().unwrap();
        let mut h = d.lock_write().unwrap();
        let s = g.prepare_with_lock(&mut h, c);
        r(s.and_then(|s| g.restore_with_lock(&mut h, s)))
    }),
    ("prepare", |d, _| {
        let mut c = PrepareConfig::default();
        c.enable_mouse = true;
        r(d.prepare(c).map(std::mem::forget))
    }),
];

const BIGS: &[Op<Terminal>] = &[
    ("big", |d, x| r(d.write_str(&big(x.t)))),
    ("guard-big", |d, x| {
        let mut g = d.lock_write().unwrap();
        let a = g.set_fg(x.c());
        let b = g.write_str("(");
        let c = g.write_str(&big(x.t));
        let e = g.write_str(")");
        r(a.and(b).and(c).and(e))
    }),
    ("styled-big", |d, x| r(d.write_styled(x.c(), Color::Black, Style::BOLD, &big(x.t)))),
    ("styled-70000", |d, x| r(d.write_styled(x.c(), None, None, &x.s(["D", "E", "F"]).repeat(70_000)))),
    ("write!-big", |d, x| r(write!(d, "{}-{:400}{}{}", &big(x.t)[..300], x.t, x.s(["d", "e", "f"]), big(x.t)))),
    ("set_fg", |d, x| r(d.set_fg(x.c()))),
    ("pieces", |d, x| r(write!(d, "{}{}{}{}{}{}{}{}", x.t, "a", x.t, "b", x.t, "c", &big(x.t)[..100], "d"))),
    ("macro-big", |d, x| {
        let b = big(x.t);
        r(term_write!(d, [fg = x.c()] (: b) [reset] "."))
    }),
];

fn write_case(name: &'static str, ops: &'static [Op<Terminal>], shape: &'static [usize], fault: bool, max: &'static [usize]) {
    let threads: Vec<Vec<Op<Terminal>>> = picks(ops, shape, shape == [1, 1, 1]);
    let m = choose(max.len(), "write-size");
    let fail = if fault { 1 + choose(3, "fails") } else { 0 };
    let big = threads.iter().flatten().any(|o| o.0.contains("big"));
    let case = Case {
        make: &open,
        threads,
        script: vec![],
        finish: &|_| String::new(),
        setup: &|| {
            let wd = w();
            wd.write_max = max[m];
            wd.fail_write_at = fail;
            wd.no_vt = big;
        },
    };
    let k = key(name, &case.threads, m * 8 + fail);
    concurrent(k, &case);
}

fn keys(s: &str) -> Stim {
    Stim::Input(s.as_bytes().to_vec())
}

fn prepared() -> Terminal {
    let t = open();
    let mut c = PrepareConfig::default();
    c.block_signals = false;
    c.enable_mouse = true;
    c.report_signals = SignalSet::all();
    std::mem::forget(ok(t.prepare(c), "prepare"));
    t
}

fn reader(t: &Terminal, kind: usize) -> String {
    match kind {
        0 => r(t.read_event(None)),
        1 => r(t.lock_read().unwrap().read_event(None)),
        2 => {
            let mut b = [0; 1];
            let x = t.lock_read().unwrap().read_raw(&mut b, None);
            format!("{} {:?}", r(x), b[0] as char)
        }
        _ => r(t.wait_event(None)),
    }
}

/// A thread waits for input which another one supplies after it has written.
fn write_while_reading(all: bool) {
    set("xterm");
    arm(3, 8);
    let t = prepared();
    let (kind, op) = if all {
        (choose(4, "reader"), choose_of(WRITES, "op"))
    } else {
        (choose(4, "reader"), choose_of(&WRITES[..6], "op"))
    };
    if op.0.starts_with("prepare") {
        // Uses both locks
        return;
    }
    let mut got = String::new();
    run_scoped(vec![
        Box::new(|| got = reader(&t, kind)),
        Box::new(|| {
            trace!("{}", op.0);
            (op.1)(&t, &Cx { t: 1, seq: false });
            apply(keys("k"));
            sched::poke_all();
        }),
    ]);
    let want = ["Some(Key(Char('k')))", "Some(Key(Char('k')))", "Some(Raw(1)) 'k'", "true"][kind];
    check!(got == want, "reader", "reader {} got {} while {} wrote", kind, got, op.0);
    outcome(&(kind, op.0));
}

/// A thread reads everything while another one holds the write lock.
fn read_while_writing() {
    set("xterm");
    arm(3, 8);
    let t = prepared();
    let kind = choose(4, "reader");
    let (stim, want) = match choose(6, "event") {
        0 => (keys("k"), "Key(Char('k'))"),
        1 => (keys("\x1b[<0;3;2M"), "Mouse("),
        2 => (Stim::Resize(5, 9), "Resize(Size { lines: 5, columns: 9 })"),
        3 => (Stim::Sig(libc::SIGINT), "Signal(Interrupt)"),
        4 => (Stim::Sig(libc::SIGTSTP), "Signal(Suspend)"),
        _ => (Stim::Sig(libc::SIGQUIT), "Signal(Quit)"),
    };
    let is_input = matches!(stim, Stim::Input(_));
    w().script.push_back(stim);
    let read = Flag::new();
    let mut got = String::new();
    w().out.clear();
    run_scoped(vec![
        Box::new(|| {
            let mut g = t.lock_write().unwrap();
            ok(g.write_str("one"), "write");
            read.wait();
            ok(g.write_str("two"), "write");
        }),
        Box::new(|| {
            got = reader(&t, kind);
            read.set();
        }),
    ]);
    let good = match kind {
        3 => got == "true",
        2 if is_input => got.starts_with("Some(Raw(1))"),
        _ => got.contains(want),
    };
    check!(good, "reader", "reader {} got {} for {}", kind, got, want);
    check!(w().out_str() == "onetwo", "interleaved", "the output is {:?}", w().out_str());
    outcome(&(kind, want));
}

/// Several readers: each event goes to exactly one.
fn readers(n: usize, each: usize) {
    set("xterm");
    arm(3, 8);
    let t = prepared();
    let total = n * each;
    let kinds: Vec<usize> = (0..n).map(|_| choose(3, "reader")).collect();
    // How the input is divided into chunks
    let cut = choose(total, "chunks");
    let text: String = "abcdefghi"[..total].to_string();
    if cut > 0 {
        w().script.push_back(keys(&text[..cut]));
    }
    w().script.push_back(keys(&text[cut..]));
    let mut got: Vec<Vec<String>> = vec![Vec::new(); n];
    let bodies = got
        .iter_mut()
        .zip(&kinds)
        .map(|(g, &k)| {
            let t = &t;
            let f: Body = Box::new(move || {
                for _ in 0..each {
                    g.push(reader(t, k));
                }
            });
            f
        })
        .collect();
    run_scoped(bodies);
    let mut seen = Vec::new();
    for (g, &k) in got.iter().zip(&kinds) {
        let mine: Vec<char> = g
            .iter()
            .map(|s| {
                let c = if k == 2 { s.strip_prefix("Some(Raw(1)) '") } else { s.strip_prefix("Some(Key(Char('") };
                c.and_then(|s| s.chars().next()).unwrap_or('?')
            })
            .collect();
        check!(mine.windows(2).all(|p| p[0] < p[1]), "order", "a reader received {:?} of input {:?}", g, text);
        seen.extend(mine);
    }
    seen.sort();
    let all: String = seen.iter().collect();
    check!(all == text, "events-lost", "of the input {:?}, the readers received {:?}", text, got);
    outcome(&(kinds, got));
}

pub fn c15(t: bool) -> Check {
    const ALL: u32 = 1000;
    let mut jobs: Vec<Job> = vec![
        job("all pairs of operations", ALL, || write_case("pairs", WRITES, &[1, 1], false, &[0, 3])),
        job("all pairs, a write fails", ALL, || write_case("fault", WRITES, &[1, 1], true, &[0])),
        job("long texts", ALL, || write_case("long", BIGS, &[1, 1], false, &[0])),
        job("write while reading", ALL, || write_while_reading(true)),
        job("read while writing", ALL, read_while_writing),
        job("two readers", ALL, || readers(2, 1)),
    ];
    if t {
        jobs.push(job("all triples of operations", ALL, || write_case("triples", &WRITES[..12], &[1, 1, 1], false, &[0])));
        jobs.push(job("three and one", ALL, || write_case("three-one", &WRITES[..8], &[3, 1], false, &[0])));
        jobs.push(job("two and two", ALL, || write_case("two-two", &WRITES[..8], &[2, 2], false, &[0, 4])));
        jobs.push(job("three readers", 3, || readers(3, 1)));
        jobs.push(job("two readers, two events each", 4, || readers(2, 2)));
    } else {
        jobs.push(job("triples of operations", ALL, || write_case("triples", &WRITES[..6], &[1, 1, 1], false, &[0])));
        jobs.push(job("two and one", ALL, || write_case("two-one", &WRITES[..8], &[2, 1], false, &[0])));
        jobs.push(job("two readers, two events each", 2, || readers(2, 2)));
    }
    Check {
        id: "C15",
        jobs,
        rule: "in every interleaving of the threads at every lock operation, atomic operation and device call, results and bytes at the device equal those of the real code executing the operations one at a time in some order; readers and writers complete while the other side is in use; each event reaches one reader",
        assumptions: vec![
            "Interleavings are explored at lock operations, atomic operations and system calls; data races between these are excluded by the type system.",
        ],
    }
}

// ---------------------------------------------------------------- C17

const DRAWS: &[Op<Screen>] = &[
    ("write_str", |d, x| {
        d.write_str(x.s(["ab", "cde", "f"]));
        String::new()
    }),
    ("write_at", |d, x| {
        d.write_at((x.t, 1), x.s(["gh", "i", "jkl"]));
        String::new()
    }),
    ("styled", |d, x| {
        d.write_styled(x.c(), Color::Black, Style::BOLD, x.s(["st", "uv", "wx"]));
        String::new()
    }),
    ("refresh", |d, _| r(d.refresh())),
    ("guard", |d, x| {
        let mut g = d.lock_write().unwrap();
        g.set_cursor((1, 2));
        g.set_fg(x.c());
        g.write_str(x.s(["mn", "op", "qr"]));
        format!("{:?}", g.cursor())
    }),
    ("macro", |d, x| {
        term_write!(d, [fg = x.c()] "m" [bold] (: x.s(["0", "1", "2"])) [reset] "n");
        String::new()
    }),
    ("guard-refresh", |d, x| {
        let mut g = d.lock_write().unwrap();
        g.write_str(x.s(["x", "y", "z"]));
        let a = r(g.refresh());
        g.write_str("-");
        a
    }),
    ("write!", |d, x| {
        write!(d, "<{}{}>", x.t, x.s(["y", "z", "-"]));
        String::new()
    }),
    ("set_cursor", |d, x| {
        d.set_cursor((2, x.t));
        String::new()
    }),
    ("clear_screen", |d, _| {
        d.clear_screen();
        String::new()
    }),
    ("styled_at", |d, x| {
        d.write_styled_at((1, 6), x.c(), None, Style::UNDERLINE, x.s(["ST", "UV", "\u{4e00}"]));
        String::new()
    }),
    ("write_char", |d, x| {
        d.write_char(['\u{e9}', '\u{4e00}', 'c'][x.t]);
        String::new()
    }),
    ("set_fg", |d, x| {
        d.set_fg(x.c());
        String::new()
    }),
    ("set_bg", |d, x| {
        d.set_bg(x.c());
        String::new()
    }),
    ("add_style", |d, _| {
        d.add_style(Style::REVERSE);
        String::new()
    }),
    ("set_style", |d, _| {
        d.set_style(Style::UNDERLINE);
        String::new()
    }),
    ("remove_style", |d, _| {
        d.remove_style(Style::REVERSE);
        String::new()
    }),
    ("set_theme", |d, x| {
        d.set_theme(theme(x.c()));
        String::new()
    }),
    ("clear_attributes", |d, _| {
        d.clear_attributes();
        String::new()
    }),
    ("next_line", |d, x| {
        d.next_line(x.t);
        String::new()
    }),
    ("size", |d, _| format!("{:?}", d.size())),
    ("cursor", |d, _| format!("{:?}", d.cursor())),
    ("macro-line", |d, x| {
        term_writeln!(d, [underline] (: x.s(["7", "8", "9"])) [!underline]);
        String::new()
    }),
    ("cursor_mode", |d, x| {
        r(d.set_cursor_mode([CursorMode::Invisible, CursorMode::Overwrite, CursorMode::Normal][x.t]))
    }),
    ("try_write", |d, x| match sched::trying(|| d.try_lock_write()) {
        Ok(mut g) => {
            g.write_str(x.s(["T", "U", "V"]));
            "ok".into()
        }
        Err(TryLockError::WouldBlock) => "busy".into(),
        Err(TryLockError::Poisoned(_)) => "poisoned".into(),
    }),
];

/// A text that goes back to the start of its line all the time
fn again(x: &Cx, n: usize) -> String {
    format!("{}{}", x.s(["K\r", "L\r", "M\r"]).repeat(n), x.s(["kk", "ll", "mm"]))
}

const LONGS: &[Op<Screen>] = &[
    ("long-str", |d, x| {
        d.write_str(&again(x, 5000));
        String::new()
    }),
    ("long-at", |d, x| {
        d.write_at((x.t, 1), &again(x, 200));
        String::new()
    }),
    ("long-styled", |d, x| {
        d.write_styled(x.c(), Color::Black, Style::BOLD, &again(x, 70));
        String::new()
    }),
    ("long-styled-at", |d, x| {
        d.write_styled_at((x.t, 0), None, x.c(), Style::UNDERLINE, &again(x, 600));
        String::new()
    }),
    ("long-write!", |d, x| {
        write!(d, "{}{}{:300}\r{}{}", again(x, 20), x.t, x.t, again(x, 30), "\r<");
        String::new()
    }),
    ("long-macro", |d, x| {
        let s = again(x, 300);
        term_write!(d, [fg = x.c()] (: s) [bold] (: s) [reset] "\r" (: s) "n");
        String::new()
    }),
    ("long-guard", |d, x| {
        let mut g = d.lock_write().unwrap();
        for i in 0..300 {
            g.set_fg(x.c());
            g.write_at((i % 3, i % 5), x.s(["A", "B", "C"]));
        }
        format!("{:?}", g.cursor())
    }),
    ("set_cursor", |d, x| {
        d.set_cursor((2, x.t));
        String::new()
    }),
    ("set_fg", |d, x| {
        d.set_fg(x.c());
        String::new()
    }),
    ("refresh", |d, _| r(d.refresh())),
    ("clear_screen", |d, _| {
        d.clear_screen();
        String::new()
    }),
    ("write_str", |d, x| {
        d.write_str(x.s(["ab", "cde", "f"]));
        String::new()
    }),
];

fn read_op(e: std::io::Result<Option<Event>>, x: &Cx) -> String {
    match e {
        Ok(None) if x.seq => "wait".into(),
        e => r(e),
    }
}

const READS: &[Op<Screen>] = &[
    ("read_event", |d, x| read_op(d.read_event(x.wait()), x)),
    ("guard-read", |d, x| read_op(d.lock_read().unwrap().read_event(x.wait()), x)),
    ("read_raw", |d, x| {
        let mut b = [0; 1];
        let e = d.lock_read().unwrap().read_raw(&mut b, x.wait());
        read_op(e, x)
    }),
];

fn drawn(term: &'static str, threads: Vec<Vec<Op<Screen>>>, script: Vec<Stim>, name: &str, max: usize, fail: usize) {
    set(term);
    let k = key(name, &threads, max * 16 + fail + script.len() * 1024);
    let case = Case {
        make: &|| {
            let s = ok(Screen::with_terminal(open(), PrepareConfig::default()), "opening a screen");
            s.write_at((0, 0), "0123456");
            s.write_at((2, 3), "xyz");
            s.set_cursor((0, 5));
            ok(s.refresh(), "refresh");
            s
        },
        threads,
        script,
        finish: &|s| {
            w().write_max = 0;
            w().fail_write_at = 0;
            let g = s.refresh();
            format!("{} {:?} {:?}\n{}", r(g), s.size(), s.cursor(), w().vt.dump())
        },
        setup: &|| {
            let wd = w();
            wd.write_max = max;
            wd.fail_write_at = fail;
        },
    };
    concurrent(k, &case);
}

fn draw_case(name: &'static str, ops: &'static [Op<Screen>], shape: &'static [usize], max: &'static [usize], fails: bool) {
    let threads = picks(ops, shape, shape == [1, 1, 1]);
    let m = max[choose(max.len(), "write-size")];
    let fail = if fails { 1 + choose(3, "fails") } else { 0 };
    drawn("xterm", threads, vec![], name, m, fail);
}

/// One thread reads a resize, and possibly a key; the others draw.
fn resize_case(name: &'static str, ops: &'static [Op<Screen>], shape: &'static [usize], key: bool) {
    let mut threads: Vec<Vec<Op<Screen>>> = vec![vec![*choose_of(READS, "reader")]];
    let mut script = vec![*choose_of(&[(2, 4), (4, 9)], "size")]
        .into_iter()
        .map(|(l, c)| Stim::Resize(l, c))
        .collect::<Vec<_>>();
    if key {
        let e = threads[0][0];
        threads[0].push(e);
        let at = choose(2, "key-first");
        script.insert(1 - at, keys("k"));
    }
    threads.extend(shape.iter().map(|&n| pick(ops, n)));
    let k = match script[0] {
        Stim::Resize(l, _) => l as usize,
        _ => 100,
    } * 100
        + match script.last() {
            Some(Stim::Resize(l, _)) => *l as usize,
            _ => 7,
        };
    let name = format!("{}-{}", name, k);
    drawn("xterm", threads, script, &name, 0, 0);
}

pub fn c17(t: bool) -> Check {
    const ALL: u32 = 1000;
    const MOST: &[Op<Screen>] = {
        let (a, _) = DRAWS.split_at(24);
        a
    };
    let mut jobs: Vec<Job> = vec![
        job("all pairs of operations", ALL, || draw_case("pairs", MOST, &[1, 1], &[0, 7], false)),
        job("all pairs, a write fails", ALL, || draw_case("fault", MOST, &[1, 1], &[0, 7], true)),
        job("long texts", ALL, || draw_case("long", LONGS, &[1, 1], &[0], false)),
        job("resize and one operation", if t { ALL } else { 4 }, || resize_case("resize-1", MOST, &[1], false)),
    ];
    if t {
        jobs.push(job("triples of operations", ALL, || draw_case("triples", &MOST[..12], &[1, 1, 1], &[0], false)));
        jobs.push(job("two and two", ALL, || draw_case("two-two", &MOST[..10], &[2, 2], &[0], false)));
        jobs.push(job("two and one, small writes", ALL, || draw_case("small", MOST, &[2, 1], &[5], false)));
        jobs.push(job("resize and two operations", 5, || resize_case("resize-2", &MOST[..12], &[2], false)));
        jobs.push(job("resize and two threads", 4, || resize_case("resize-11", &MOST[..8], &[1, 1], false)));
        jobs.push(job("resize, key and one operation", 5, || resize_case("resize-key", MOST, &[1], true)));
    } else {
        jobs.push(job("triples of operations", ALL, || draw_case("triples", &MOST[..6], &[1, 1, 1], &[0], false)));
        jobs.push(job("two and one", ALL, || draw_case("two-one", &MOST[..10], &[2, 1], &[0], false)));
        jobs.push(job("resize and two operations", 2, || resize_case("resize-2", &MOST[..8], &[2], false)));
        jobs.push(job("resize, key and one operation", 2, || resize_case("resize-key", &MOST[..8], &[1], true)));
    }
    Check {
        id: "C17",
        jobs,
        rule: "in every interleaving of the threads, the results of all operations, the sequence of displays after each write, and display, size and cursor after a last refresh equal those of the real code executing the operations (and environment events) one at a time in some order",
        assumptions: vec![
            "The sequential behaviour itself is what C01, C02, C03, C06 and C21 check.",
            "Interleavings are explored at lock operations, atomic operations and system calls; data races between these are excluded by the type system.",
        ],
    }
}

// ---------------------------------------------------------------- C16

enum Any {
    T(Terminal),
    S(Screen),
}

macro_rules! both {
    ($d:expr, $t:ident => $e:expr) => {
        match $d {
            Any::T($t) => $e,
            Any::S($t) => $e,
        }
    };
}

impl Any {
    fn open(screen: bool) -> Any {
        let mut c = PrepareConfig::default();
        c.block_signals = false;
        c.enable_mouse = true;
        c.report_signals = SignalSet::all();
        if screen {
            Any::S(ok(Screen::with_terminal(open(), c), "opening a screen"))
        } else {
            let t = open();
            std::mem::forget(ok(t.prepare(c), "prepare"));
            Any::T(t)
        }
    }
    fn text(&self, s: &str) {
        match self {
            Any::T(t) => ok(t.write_str(s), "write"),
            Any::S(t) => t.write_str(s),
        }
    }
}

const USES: &[Op<Any>] = &[
    ("write", |d, _| {
        d.text("ab");
        String::new()
    }),
    ("write-guard", |d, _| {
        match d {
            Any::T(t) => ok(t.lock_write().unwrap().write_str("cd"), "write"),
            Any::S(t) => t.lock_write().unwrap().write_str("cd"),
        }
        String::new()
    }),
    ("read", |d, _| both!(d, t => r(t.read_event(None)))),
    ("both-guards", |d, _| match d {
        Any::T(t) => {
            let mut g = t.lock_read().unwrap();
            let mut h = t.lock_write().unwrap();
            ok(h.write_str("ef"), "write");
            let s = ok(g.prepare_with_lock(&mut h, PrepareConfig::default()), "prepare");
            r(g.restore_with_lock(&mut h, s))
        }
        Any::S(t) => {
            let g = t.lock_read().unwrap();
            let mut h = t.lock_write().unwrap();
            h.write_str("ef");
            let x = r(h.refresh());
            drop(h);
            drop(g);
            x
        }
    }),
    ("cursor-mode", |d, _| both!(d, t => r(t.set_cursor_mode(CursorMode::Invisible)))),
    ("refresh", |d, _| match d {
        Any::T(t) => {
            let s = ok(t.prepare(PrepareConfig::default()), "prepare");
            r(t.restore(s))
        }
        Any::S(t) => r(t.refresh()),
    }),
    ("try-read", |d, _| both!(d, t => sched::trying(|| t.try_lock_read()).is_ok().to_string())),
    ("try-write", |d, _| both!(d, t => sched::trying(|| t.try_lock_write()).is_ok().to_string())),
    ("try-both", |d, _| both!(d, t => {
        let a = sched::trying(|| t.try_lock_read()).is_ok();
        let g = t.lock_read().unwrap();
        let b = sched::trying(|| t.try_lock_write()).is_ok();
        drop(g);
        format!("{} {}", a, b)
    })),
    ("read-guard", |d, _| match d {
        Any::T(t) => {
            let mut g = t.lock_read().unwrap();
            let e = r(g.read_event(None));
            ok(t.write_str("gh"), "write");
            e
        }
        Any::S(t) => {
            let mut g = t.lock_read().unwrap();
            let e = r(g.read_event(None));
            t.write_str("gh");
            e + &r(t.refresh())
        }
    }),
    ("wait", |d, _| both!(d, t => r(t.wait_event(None)))),
    ("raw", |d, _| {
        let mut b = [0; 1];
        match d {
            Any::T(t) => r(t.lock_read().unwrap().read_raw(&mut b, None)),
            Any::S(t) => r(t.lock_read().unwrap().read_raw(&mut b, None)),
        }
    }),
    ("macro", |d, _| {
        match d {
            Any::T(t) => ok(term_write!(t, [red] "x" (: 1) [reset]), "macro"),
            Any::S(t) => term_write!(t, [red] "x" (: 1) [reset]),
        }
        String::new()
    }),
    ("size", |d, _| match d {
        Any::T(t) => r(t.size()),
        Any::S(t) => format!("{:?} {:?}", t.size(), t.cursor()),
    }),
    ("timed-read", |d, _| both!(d, t => r(t.read_event(Some(Duration::from_millis(5)))))),
    ("format", |d, _| {
        match d {
            Any::T(t) => ok(write!(t, "<{}>", Uses(d)), "write"),
            Any::S(t) => write!(t, "<{}>", Uses(d)),
        }
        String::new()
    }),
];

/// A value whose formatting uses the terminal itself
struct Uses<'a>(&'a Any);

impl<'a> std::fmt::Display for Uses<'a> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        self.0.text("in");
        match self.0 {
            Any::T(t) => write!(f, "{:?} {:?}", t.name(), t.size().is_ok()),
            Any::S(t) => write!(f, "{:?} {:?}", t.name(), t.size()),
        }
    }
}

const SCRIPTS: &[&[u8]] = &[b"", b"r", b"c", b"i", b"rc", b"ci"];

/// Threads use the interface; all must end, and leave nothing locked.
fn usage(ops: &'static [Op<Any>], shape: &'static [usize], scripts: &'static [&'static [u8]], unlock: bool) {
    set("xterm");
    arm(3, 8);
    w().horizon = 50_000;
    let screen = choose(2, "screen") == 1;
    let threads = picks(ops, shape, shape.iter().all(|&n| n == 1));
    let reads =
        threads.iter().flatten().any(|o| o.0.contains("read") && !o.0.starts_with("try") || o.0 == "wait" || o.0 == "raw");
    let sc = if reads { *choose_of(scripts, "events") } else { &b""[..] };
    let d = Any::open(screen);
    for c in sc {
        w().script.push_back(match c {
            b'r' => Stim::Resize(4, 7),
            b'c' => Stim::Continue,
            _ => Stim::Sig(libc::SIGINT),
        });
    }
    if reads {
        // As much input as there are readers
        w().script.push_back(keys(&"k".repeat(threads.iter().flatten().count())));
    }
    let bodies: Vec<Body> = threads
        .iter()
        .enumerate()
        .map(|(t, ops)| {
            let d = &d;
            let f: Body = Box::new(move || {
                for op in ops {
                    trace!("thread {}: {}", t, op.0);
                    let s = (op.1)(d, &Cx { t, seq: false });
                    trace!("thread {}: {} = {}", t, op.0, s);
                }
            });
            f
        })
        .collect();
    after_unlock(unlock);
    run_scoped(bodies);
    after_unlock(false);
    w().script.clear();
    state(&(w().out_str(), w().vt.hash(), w().now));
    free(&d);
    outcome(&(threads.iter().map(|t| t.iter().map(|o| o.0).collect::<Vec<_>>()).collect::<Vec<_>>(), w().out_str()));
}

/// All locks can be obtained.
fn free(d: &Any) {
    both!(d, t => {
        let a = sched::trying(|| t.try_lock_read());
        check!(a.is_ok(), "left-locked", "the read lock is held although no thread uses it");
        let b = sched::trying(|| t.try_lock_write());
        check!(b.is_ok(), "left-locked", "the write lock is held although no thread uses it");
    });
    d.text("end");
}

#[derive(Copy, Clone, Debug, PartialEq)]
enum Hold {
    Nothing,
    Read,
    Write,
    Both,
    /// Only the device side of a screen, in the middle of a write
    Device,
}

const HOLDS: [Hold; 5] = [Hold::Nothing, Hold::Read, Hold::Write, Hold::Both, Hold::Device];

fn hold(d: &Any, h: Hold, held: &Flag, release: &Flag) {
    both!(d, t => {
        let a = if h == Hold::Read || h == Hold::Both { Some(t.lock_read().unwrap()) } else { None };
        let b = if h == Hold::Write || h == Hold::Both { Some(t.lock_write().unwrap()) } else { None };
        held.set();
        release.wait();
        drop(b);
        drop(a);
    });
}

fn tries(d: &Any, h: Hold, who: &str) {
    let n = 1 + choose(3, "tries");
    for _ in 0..n {
        let write = choose(2, "try") == 1;
        let taken = match h {
            Hold::Both => true,
            Hold::Read => !write,
            Hold::Write | Hold::Device => write,
            Hold::Nothing => false,
        };
        let got = both!(d, t => if write {
            match sched::trying(|| t.try_lock_write()) {
                Ok(_) => 0,
                Err(TryLockError::WouldBlock) => 1,
                Err(TryLockError::Poisoned(_)) => 2,
            }
        } else {
            match sched::trying(|| t.try_lock_read()) {
                Ok(_) => 0,
                Err(TryLockError::WouldBlock) => 1,
                Err(TryLockError::Poisoned(_)) => 2,
            }
        });
        let name = if write { "try_lock_write" } else { "try_lock_read" };
        check!(
            got == taken as i32,
            "try-lock",
            "{} with {:?} held by {} {}",
            name,
            h,
            who,
            ["succeeds", "fails", "reports poison"][got as usize]
        );
        outcome(&(who.len(), write, taken));
    }
}

/// Tries with locks held by another thread, or the same one.
fn try_held() {
    set("xterm");
    arm(3, 8);
    let screen = choose(2, "screen") == 1;
    let h = *choose_of(&HOLDS[..4], "held");
    let same = choose(2, "same-thread") == 1;
    let d = Any::open(screen);
    if same {
        both!(&d, t => {
            let a = if h == Hold::Read || h == Hold::Both { Some(t.lock_read().unwrap()) } else { None };
            let b = if h == Hold::Write || h == Hold::Both { Some(t.lock_write().unwrap()) } else { None };
            tries(&d, h, "this thread");
            drop(b);
            drop(a);
        });
    } else {
        let (held, release) = (Flag::new(), Flag::new());
        run_scoped(vec![
            Box::new(|| hold(&d, h, &held, &release)),
            Box::new(|| {
                held.wait();
                tries(&d, h, "another thread");
                release.set();
            }),
        ]);
    }
    free(&d);
}

/// Tries while another thread is in the middle of an operation; after a failure, the data of a
/// screen can be used.
fn try_during() {
    set("xterm");
    arm(3, 8);
    w().horizon = 50_000;
    let screen = choose(2, "screen") == 1;
    let d = Any::open(screen);
    let op = *choose_of(
        &[
            "cursor-mode",
            "refresh",
            "write-guard",
            "write",
        ],
        "op",
    );
    let f = USES.iter().find(|o| o.0 == op).unwrap().1;
    let write = choose(2, "try") == 1;
    let inside = Flag::new();
    let done = Flag::new();
    after_unlock(true);
    after_lock(true);
    run_scoped(vec![
        Box::new(|| {
            inside.set();
            f(&d, &Cx { t: 0, seq: false });
            done.set();
        }),
        Box::new(|| {
            let before = inside.is_set();
            let was_done = done.is_set();
            let res = both!(&d, t => if write { sched::trying(|| t.try_lock_write()).is_ok() } else { sched::trying(|| t.try_lock_read()).is_ok() });
            if !res {
                check!(inside.is_set() && !was_done, "try-lock", "a try fails although nothing is locked");
                if let Any::S(s) = &d {
                    // Not locked by the failed attempt
                    s.write_str("q");
                }
                trace!("failed; before {}", before);
            }
            outcome(&(op, write, res));
        }),
    ]);
    after_unlock(false);
    after_lock(false);
    free(&d);
}

/// A thread panics with a lock held.
fn poisoned() {
    set("xterm");
    arm(3, 8);
    let screen = choose(2, "screen") == 1;
    let h = *choose_of(&HOLDS[1..4], "held");
    let attempt = choose(2, "attempt");
    let d = Any::open(screen);
    run_scoped(vec![
        Box::new(|| {
            both!(&d, t => {
                let a = if h != Hold::Write { Some(t.lock_read().unwrap()) } else { None };
                let b = if h != Hold::Read { Some(t.lock_write().unwrap()) } else { None };
                if a.is_some() || b.is_some() {
                    std::panic::panic_any(Expected);
                }
            });
        }),
        Box::new(|| {
            // Waits for the locks, or tries
            both!(&d, t => if attempt == 0 {
                let a = t.lock_read().is_err();
                let b = t.lock_write().is_err();
                let _ = (a, b);
            } else {
                let _ = sched::trying(|| t.try_lock_read()).is_err();
                let _ = sched::trying(|| t.try_lock_write()).is_err();
            });
        }),
    ]);
    both!(&d, t => {
        let (pr, pw) = (h != Hold::Write, h != Hold::Read);
        for _ in 0..2 {
            match sched::trying(|| t.try_lock_read()) {
                Ok(_) => check!(!pr, "poison", "the read lock is not poisoned"),
                Err(TryLockError::Poisoned(p)) => {
                    check!(pr, "poison", "the read lock is poisoned");
                    ok(p.into_inner().wait_event(NOW), "waiting");
                }
                Err(TryLockError::WouldBlock) => crate::engine::violation("left-locked", "the read lock remains locked after a panic"),
            }
            match sched::trying(|| t.try_lock_write()) {
                Ok(_) => check!(!pw, "poison", "the write lock is not poisoned"),
                Err(TryLockError::Poisoned(p)) => {
                    check!(pw, "poison", "the write lock is poisoned");
                    ok(p.into_inner().set_cursor_mode(CursorMode::Invisible), "set_cursor_mode");
                }
                Err(TryLockError::WouldBlock) => crate::engine::violation("left-locked", "the write lock remains locked after a panic"),
            }
            match t.lock_read() {
                Ok(_) => (),
                Err(p) => {
                    ok(p.into_inner().wait_event(NOW), "waiting");
                }
            };
            match t.lock_write() {
                Ok(_) => (),
                Err(p) => ok(p.into_inner().set_cursor_mode(CursorMode::Normal), "set_cursor_mode"),
            };
        }
    });
    outcome(&(screen, h as usize, attempt));
}

/// A thread holding both locks, taken in the documented order, reads.
fn read_with_both() {
    set("xterm");
    arm(3, 8);
    let screen = choose(2, "screen") == 1;
    let raw = choose(2, "raw") == 1;
    let what = choose(5, "event");
    let d = Any::open(screen);
    let (stim, sig) = match what {
        0 => (keys("k"), "input"),
        1 => (Stim::Sig(libc::SIGINT), "interrupt"),
        2 => (Stim::Sig(libc::SIGTSTP), "suspend"),
        3 => (Stim::Resize(4, 7), "resize"),
        _ => (Stim::Continue, "continue"),
    };
    w().script.push_back(stim);
    let mut x = String::new();
    let ended = sched::alone(Box::new(|| {
        both!(&d, t => {
            let mut g = t.lock_read().unwrap();
            let h = t.lock_write().unwrap();
            x = if raw {
                r(g.read_raw(&mut [0; 1], None))
            } else {
                r(g.read_event(None))
            };
            drop(h);
            drop(g);
        })
    }));
    if ended {
        let want = match what {
            0 if raw => "Some(Raw(1))",
            0 => "Some(Key(Char('k')))",
            1 => "Some(Signal(Interrupt))",
            2 => "Some(Signal(Suspend))",
            3 => "Some(Resize(Size { lines: 4, columns: 7 }))",
            _ => "Some(Signal(Continue))",
        };
        check!(x == want, "reader", "the event {} is read as {}", sig, x);
        free(&d);
    } else {
        std::mem::forget(d);
        let kind = if screen { "screen" } else { "terminal" };
        known_or_violation(
            "C16",
            &format!("both-locks-{}-{}", kind, sig),
            &format!("a thread holding the read and the write lock of a {} waits for itself when it reads ({})", kind, sig),
        );
    }
    outcome(&(screen, raw, what));
}

pub fn c16(t: bool) -> Check {
    const ALL: u32 = 1000;
    let mut jobs: Vec<Job> = vec![
        job("locks held", ALL, try_held),
        job("tries during operations", ALL, try_during),
        job("panic with a lock held", ALL, poisoned),
        job("reading with both locks held", ALL, read_with_both),
    ];
    if t {
        jobs.push(job("all pairs of operations", 5, || usage(USES, &[1, 1], SCRIPTS, false)));
        jobs.push(job("all pairs, also after unlocking", 3, || usage(USES, &[1, 1], SCRIPTS, true)));
        jobs.push(job("two and one", 3, || usage(&USES[..12], &[2, 1], &SCRIPTS[..3], false)));
        jobs.push(job("triples of operations", 3, || usage(&USES[..10], &[1, 1, 1], &SCRIPTS[..3], false)));
    } else {
        jobs.push(job("all pairs of operations", 2, || usage(USES, &[1, 1], &SCRIPTS[..3], false)));
        jobs.push(job("pairs, also after unlocking", 1, || usage(USES, &[1, 1], &SCRIPTS[..2], true)));
        jobs.push(job("triples of operations", 1, || usage(&USES[..6], &[1, 1, 1], &SCRIPTS[..2], false)));
    }
    Check {
        id: "C16",
        jobs,
        rule: "in every interleaving within the preemption bound of each job (events of the environment included), all threads end and leave nothing locked; try_lock fails exactly if the lock is held, for every combination of held locks, and never waits, whatever another thread is doing",
        assumptions: vec![
            "Interleavings are explored at lock operations, atomic operations and system calls.",
            "A thread that holds the write lock does not acquire the read lock, as documented.",
        ],
    }
}
