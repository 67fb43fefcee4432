//! C13 signals and resizes are reported.

use std::time::Duration;

use mortal::{Event, Key, PrepareConfig, PrepareState, Screen, Signal, SignalSet, Size, Terminal};

use crate::engine::{choose, choose_of, job, outcome, step, violation, Check, Job};
use crate::sched::{preempt_handlers, run_scoped};
use crate::term::{ok, open, set};
use crate::world::{apply, arm, deliver, foreign_handler, w, SigAct, Stim, DFL};

const NOW: Option<Duration> = Some(Duration::from_millis(0));

/// The signals a terminal can be asked to report
pub const SIGS: [(i32, Signal); 4] = [
    (libc::SIGINT, Signal::Interrupt),
    (libc::SIGQUIT, Signal::Quit),
    (libc::SIGTSTP, Signal::Suspend),
    (libc::SIGCONT, Signal::Continue),
];

pub fn set_of(bits: usize) -> SignalSet {
    let mut s = SignalSet::new();
    for (i, (_, sig)) in SIGS.iter().enumerate() {
        if bits & 1 << i != 0 {
            s.insert(*sig);
        }
    }
    if bits & 16 != 0 {
        s.insert(Signal::Resize);
    }
    s
}

pub enum Dev {
    T(Terminal),
    S(Screen),
}

impl Dev {
    pub fn open(screen: bool, cfg: PrepareConfig) -> Dev {
        if screen {
            Dev::S(ok(Screen::with_terminal(open(), cfg), "opening a screen"))
        } else {
            let t = open();
            // The state is not needed; it has no destructor.
            std::mem::forget(ok(t.prepare(cfg), "prepare"));
            Dev::T(t)
        }
    }
    pub fn event(&self, d: Option<Duration>) -> std::io::Result<Option<Event>> {
        match self {
            Dev::T(t) => t.read_event(d),
            Dev::S(t) => t.read_event(d),
        }
    }
    pub fn wait(&self, d: Option<Duration>) -> std::io::Result<bool> {
        match self {
            Dev::T(t) => t.wait_event(d),
            Dev::S(t) => t.wait_event(d),
        }
    }
    pub fn raw(&mut self, buf: &mut [u8], d: Option<Duration>) -> std::io::Result<Option<Event>> {
        use mortal::unix::TerminalExt;
        match self {
            Dev::T(t) => t.read_raw(buf, d),
            Dev::S(t) => t.read_raw(buf, d),
        }
    }
}

#[derive(Copy, Clone, Debug, PartialEq)]
enum Read {
    Event(Option<Duration>),
    Raw(Option<Duration>),
    Wait(Option<Duration>),
}

/// What arrived and what was reported.
struct Watch {
    dev: Dev,
    set: usize,
    /// For INT, QUIT, TSTP, CONT, WINCH: deliveries to the crate, seen so far
    seen: [usize; 5],
    reported: [usize; 5],
    /// Arrived, and not reported since
    due: [bool; 5],
    key_sent: bool,
    key_read: bool,
    handled: usize,
    foreign: usize,
    size: Size,
    sizes: Vec<Size>,
}

fn index(sig: i32) -> Option<usize> {
    SIGS.iter().position(|s| s.0 == sig).or(if sig == libc::SIGWINCH { Some(4) } else { None })
}

impl Watch {
    fn new(dev: Dev, set: usize) -> Watch {
        Watch {
            dev,
            set,
            seen: [0; 5],
            reported: [0; 5],
            due: [false; 5],
            key_sent: false,
            key_read: false,
            handled: 0,
            foreign: 0,
            size: cur(),
            sizes: vec![],
        }
    }

    fn asked(&self, i: usize) -> bool {
        i == 4 || self.set & 1 << i != 0
    }

    /// Looks at what arrived since.
    fn look(&mut self) {
        let wd = w();
        for k in self.handled..wd.handled.len() {
            let sig = wd.handled[k];
            if wd.foreign.get(self.foreign) == Some(&sig) {
                self.foreign += 1;
                if let Some(i) = index(sig) {
                    check!(!self.asked(i), "not-intercepted", "a signal {} which is to be reported goes to the previous handler", sig);
                }
                continue;
            }
            if let Some(i) = index(sig) {
                self.seen[i] += 1;
                if self.asked(i) {
                    self.due[i] = true;
                }
            }
        }
        self.handled = wd.handled.len();
        if !self.key_sent && wd.script.is_empty() {
            self.key_sent = true;
        }
    }

    /// Whether the device had this size during the call.
    fn between(&self, size: Size) -> bool {
        // Scripts only have growing sizes, apart from the first one.
        let from = if self.size.lines == 8 { 0 } else { self.size.lines };
        size.columns == size.lines + 1 && from <= size.lines && size.lines <= cur().lines
    }

    fn anything_due(&self) -> bool {
        self.due.iter().any(|&d| d) || self.key_sent && !self.key_read
    }

    fn report(&mut self, e: Event) {
        let i = match e {
            Event::Key(Key::Char('k')) | Event::Raw(1) => {
                check!(self.key_sent && !self.key_read, "input", "{:?} comes from nowhere", e);
                self.key_read = true;
                return;
            }
            Event::Signal(s) => match SIGS.iter().position(|x| x.1 == s) {
                Some(i) => i,
                None => violation("unrequested", &format!("{:?} is reported", e)),
            },
            Event::Resize(size) => {
                self.sizes.push(size);
                check!(
                    size == cur() || size == self.size || self.between(size),
                    "resize-size",
                    "a resize reports {:?}; the size was {:?} before the call and is {:?} after it",
                    size,
                    self.size,
                    cur()
                );
                4
            }
            e => violation("invented", &format!("{:?} is read", e)),
        };
        check!(self.asked(i), "unrequested", "{:?} is reported without having been requested", e);
        self.reported[i] += 1;
        self.due[i] = false;
        check!(
            self.reported[i] <= self.seen[i],
            "invented",
            "{:?} is reported {} times; it arrived {} times",
            e,
            self.reported[i],
            self.seen[i]
        );
    }

    fn call(&mut self, r: Read) {
        self.look();
        self.size = cur();
        let due = self.anything_due();
        let before: usize = self.seen.iter().sum();
        let key_before = self.key_sent;
        trace!("{:?}", r);
        let mut waited = None;
        let res = match r {
            Read::Event(d) => ok(self.dev.event(d), "read_event"),
            Read::Raw(d) => ok(self.dev.raw(&mut [0; 4], d), "read_raw"),
            Read::Wait(d) => {
                let b = ok(self.dev.wait(d), "wait_event");
                waited = Some(b);
                trace!("= {}", b);
                None
            }
        };
        if waited.is_none() {
            trace!("= {:?}", res);
        }
        self.look();
        let quiet = self.seen.iter().sum::<usize>() == before && key_before == self.key_sent;
        if let Some(b) = waited {
            check!(!due || b, "missed", "waiting does not see what has arrived: {:?}", self.due);
            // What is due is read without waiting
            if b {
                return self.call(Read::Event(NOW));
            }
            return;
        }
        if let Some(e) = res {
            self.report(e);
        } else if due && quiet {
            // A signal that is not reported may end a read
            let cont = !self.asked(3) && self.seen[3] > 0;
            check!(cont, "missed", "{:?} returns nothing although something arrived before: {:?}", r, self.due);
        }
    }

    fn end(&mut self) {
        self.look();
        w().any_time = false;
        let mut idle = 0;
        while idle < 3 {
            self.look();
            let before = self.reported.iter().sum::<usize>() + self.key_read as usize;
            self.call(Read::Event(NOW));
            idle = if self.reported.iter().sum::<usize>() + self.key_read as usize > before { 0 } else { idle + 1 };
        }
        check!(!self.due.iter().any(|&d| d), "lost", "these signals are never reported: {:?}", self.due);
        check!(!self.key_sent || self.key_read, "lost", "the input is never read");
        if let Some(&s) = self.sizes.last() {
            check!(s == cur(), "resize-size", "the last resize reports {:?}; the size is {:?}", s, cur());
        }
        if let Dev::S(s) = &self.dev {
            check!(s.size() == cur(), "screen-size", "the screen has size {:?} instead of {:?}", s.size(), cur());
        }
    }
}

fn cur() -> Size {
    Size { lines: w().size.0 as usize, columns: w().size.1 as usize }
}

/// Signals that are not requested have a handler of someone else, so that they have no default action.
fn before() {
    set("xterm");
    arm(8, 8);
    w().no_vt = true;
    for s in [libc::SIGINT, libc::SIGQUIT, libc::SIGTSTP, libc::SIGUSR1] {
        w().sig[s as usize] = SigAct { handler: foreign_handler as *const () as usize, ..DFL };
    }
}

fn config(set: usize) -> PrepareConfig {
    PrepareConfig { block_signals: false, report_signals: set_of(set), ..PrepareConfig::default() }
}

/// Signal `i` (INT, QUIT, TSTP, CONT, WINCH, USR1), on the reading thread or another one; the n-th of the script.
fn stim(i: usize, other: bool, n: u16) -> Stim {
    let sig = match i {
        4 if other => return Stim::ResizeOther(4 + n, 5 + n),
        4 => return Stim::Resize(4 + n, 5 + n),
        3 if other => return Stim::ContinueOther,
        3 => return Stim::Continue,
        5 => libc::SIGUSR1,
        i => SIGS[i].0,
    };
    if other {
        Stim::SigOther(sig)
    } else {
        Stim::Sig(sig)
    }
}

const READS: [Read; 6] = [
    Read::Event(None),
    Read::Raw(None),
    Read::Wait(None),
    Read::Event(NOW),
    Read::Raw(NOW),
    Read::Wait(NOW),
];

/// `n` signals at any moments while reading. `late`: they may also arrive while a call is running
/// and not only while it waits, at most that often.
fn arrivals(n: usize, late: u32, sets: &'static [usize], kinds: usize) -> Job {
    job(&format!("{} signals, {} request sets, {} kinds, {} at any moment", n, sets.len(), kinds, late), late, move || {
        before();
        let set = *choose_of(sets, "requested");
        let screen = choose(2, "screen") == 1;
        let dev = Dev::open(screen, config(set));
        let mut wt = Watch::new(dev, set);
        let how = *choose_of(&READS, "reads");
        for k in 0..n {
            let i = choose(kinds, "signal");
            let other = choose(2, "thread") == 1;
            w().script.push_back(stim(i, other, k as u16));
        }
        w().script.push_back(Stim::Input(b"k".to_vec()));
        w().any_time = true;
        // Calls that return at once, before anything arrived
        let block = matches!(how, Read::Event(None) | Read::Raw(None) | Read::Wait(None));
        step();
        let mut calls = 0;
        loop {
            wt.look();
            if block && !wt.anything_due() && w().script.is_empty() {
                break;
            }
            if !block && calls > n {
                break;
            }
            calls += 1;
            wt.call(how);
        }
        // What has not arrived yet arrives now
        w().any_time = false;
        while let Some(s) = w().script.pop_front() {
            apply(s);
        }
        wt.end();
        outcome(&(set, wt.reported, wt.seen, format!("{:?}", wt.sizes)));
    })
}

/// Many signals, some of them before they are read, and many reads.
fn many(thorough: bool) -> Job {
    job("many arrivals and reads", 0, move || {
        before();
        let set = *choose_of(&[31, 0, 17, 8], "requested");
        let screen = choose(2, "screen") == 1;
        let dev = Dev::open(screen, config(set));
        let mut wt = Watch::new(dev, set);
        let how = *choose_of(&READS[3..], "reads");
        let kinds: Vec<usize> = (0..2 + thorough as usize).map(|_| choose(6, "signal")).collect();
        let other = choose(2, "thread") == 1;
        // (signals, reads) per round, and rounds
        let (sigs, reads, rounds) =
            *choose_of(&[(1, 1, 150), (3, 1, 50), (1, 3, 50), (2, 4, 50), (400, 8, 2), (70_000, 8, 2)][..5 + thorough as usize], "rhythm");
        w().horizon = w().horizon.max(1 << 20);
        // The key arrives after all of them
        w().any_time = false;
        w().script.push_back(Stim::Input(b"k".to_vec()));
        let mut k = 0;
        for r in 0..rounds {
            for _ in 0..sigs {
                apply(stim(kinds[k % kinds.len()], other, r as u16));
                k += 1;
            }
            for _ in 0..reads {
                wt.call(how);
            }
        }
        // A read that blocks is woken by the next one all the same
        w().script.push_front(stim(kinds[0], other, 200));
        wt.call(Read::Event(None));
        while let Some(s) = w().script.pop_front() {
            apply(s);
        }
        wt.end();
        outcome(&(set, wt.reported, wt.seen, format!("{:?}", wt.sizes)));
    })
}

/// Signals while a screen or terminal is being prepared or restored.
fn during_setup(n: usize, late: u32) -> Job {
    job(&format!("{} signals around prepare, {} at any moment", n, late), late, move || {
        before();
        let set = *choose_of(&[31, 0, 1, 8], "requested");
        let screen = choose(2, "screen") == 1;
        for k in 0..n {
            let i = choose(5, "signal");
            w().script.push_back(stim(i, false, k as u16));
        }
        w().any_time = true;
        let mut cfg = config(set);
        cfg.enable_mouse = true;
        let dev = if screen {
            Dev::open(true, cfg)
        } else {
            let t = open();
            std::mem::forget(ok(t.prepare(cfg), "prepare"));
            Dev::T(t)
        };
        let left = w().script.len();
        let mut wt = Watch::new(dev, set);
        // Before they are intercepted, signals go where they went before.
        wt.foreign = w().foreign.len();
        for sig in w().handled.clone() {
            if let Some(i) = index(sig) {
                wt.seen[i] += 1;
                wt.due[i] = wt.asked(i);
            }
        }
        for sig in w().foreign.clone() {
            if let Some(i) = index(sig) {
                wt.seen[i] -= 1;
                wt.due[i] &= wt.seen[i] > 0;
            }
        }
        wt.handled = w().handled.len();
        w().script.clear();
        w().any_time = false;
        wt.key_read = true;
        wt.end();
        outcome(&(set, left, wt.reported));
    })
}

/// Signals that are not read at once, while other things are done with terminals.
fn unread(depth: usize) -> Job {
    job(&format!("unread signals, {} operations", depth), 0, move || {
        before();
        w().any_time = false;
        let screen = choose(2, "screen") == 1;
        let dev = Dev::open(screen, config(31));
        let mut others: Vec<(Terminal, Option<PrepareState>)> = vec![];
        let mut nested: Vec<PrepareState> = vec![];
        let mut sent = [0; 5];
        for n in 0..depth {
            step();
            match choose(13, "operation") {
                i @ 0..=4 => {
                    apply(stim(i, false, n as u16 + 1));
                    sent[i] += 1;
                }
                5 => {
                    trace!("open another");
                    others.push((open(), None));
                }
                6 => match others.last_mut() {
                    Some((t, s @ None)) => {
                        trace!("prepare another");
                        *s = Some(ok(t.prepare(config(31)), "prepare"));
                    }
                    _ => return,
                },
                7 => match others.last_mut() {
                    Some((t, s @ Some(_))) => {
                        trace!("restore another");
                        ok(t.restore(s.take().unwrap()), "restore");
                    }
                    _ => return,
                },
                8 => match others.pop() {
                    Some((_, Some(_))) | None => return,
                    Some(t) => {
                        trace!("drop another");
                        drop(t);
                    }
                },
                9 => match (&dev, others.iter().any(|o| o.1.is_some())) {
                    (Dev::T(t), false) => {
                        trace!("prepare again");
                        nested.push(ok(t.prepare(config(31)), "prepare"));
                    }
                    _ => return,
                },
                10 => match (&dev, nested.pop()) {
                    (Dev::T(t), Some(s)) => {
                        trace!("restore");
                        ok(t.restore(s), "restore");
                    }
                    _ => return,
                },
                11 => {
                    trace!("output");
                    match &dev {
                        Dev::T(t) => ok(t.write_str("x"), "write_str"),
                        Dev::S(t) => {
                            t.write_str("x");
                            ok(t.refresh(), "refresh");
                        }
                    }
                }
                _ => {
                    let any = sent.iter().any(|&n| n > 0);
                    if let Some((t, _)) = others.last() {
                        trace!("wait on another");
                        ok(t.wait_event(NOW), "wait_event");
                    }
                    let r = ok(dev.wait(NOW), "wait_event");
                    check!(r == any, "wait", "waiting says {} with {:?} sent", r, sent);
                }
            }
        }
        let mut got = [0; 5];
        let mut quiet = 0;
        while quiet < 3 {
            step();
            match ok(dev.event(NOW), "read_event") {
                None => quiet += 1,
                Some(Event::Resize(s)) => {
                    check!(s == cur(), "size", "{:?} is read instead of {:?}", s, cur());
                    got[4] += 1;
                }
                Some(Event::Signal(s)) => match SIGS.iter().position(|x| x.1 == s) {
                    Some(i) => got[i] += 1,
                    None => violation("invented", &format!("{:?} is read", s)),
                },
                Some(e) => violation("invented", &format!("{:?} is read", e)),
            }
        }
        for i in 0..5 {
            check!(got[i] <= sent[i] && (got[i] > 0) == (sent[i] > 0), "lost", "{:?} are sent and {:?} are read", sent, got);
        }
        outcome(&(sent, got, screen));
    })
}

/// Reads until it is told a signal.
fn next_signal(d: &Dev) -> Signal {
    for _ in 0..8 {
        match ok(d.event(None), "read_event") {
            Some(Event::Signal(s)) => return s,
            // What was sent to wake this read was taken by another one
            None => (),
            Some(e) => violation("invented", &format!("{:?} is read", e)),
        }
    }
    violation("missed", "a read that waits for any event returns nothing again and again");
}

/// Two threads, each reading from a terminal of its own, and as many signals.
fn two_readers(late: u32) -> Job {
    job(&format!("two terminals read by two threads, {} preemptions", late), late, || {
        before();
        w().any_time = false;
        let kinds = [(choose(2, "screen") == 1), false];
        let sigs = *choose_of(&[[0, 1], [1, 2], [3, 0], [2, 3]], "signals");
        let set = sigs.iter().fold(0, |a, &i| a | 1 << i);
        let devs: Vec<Dev> = kinds.iter().map(|&s| Dev::open(s, config(set))).collect();
        let got = std::sync::Mutex::new(vec![]);
        for i in sigs {
            w().script.push_back(stim(i, false, 0));
        }
        preempt_handlers(true);
        run_scoped(
            devs.iter()
                .map(|d| {
                    let got = &got;
                    let f: Box<dyn FnOnce() + Send> = Box::new(move || {
                        let s = next_signal(d);
                        got.lock().unwrap().push(s);
                    });
                    f
                })
                .collect(),
        );
        preempt_handlers(false);
        told(got.into_inner().unwrap(), &sigs);
    })
}

fn told(mut got: Vec<Signal>, sigs: &[usize]) {
    let n = |s: &Signal| SIGS.iter().position(|x| x.1 == *s);
    got.sort_by_key(n);
    let mut want: Vec<Signal> = sigs.iter().map(|&i| SIGS[i].1).collect();
    want.sort_by_key(n);
    check!(got == want, "lost", "the signals {:?} arrive and {:?} are reported", want, got);
    outcome(&(format!("{:?}", got), w().now));
}

/// Handlers of signals that run on several threads at once, each interrupted anywhere by others,
/// while one thread reads.
fn handlers_at_once(late: u32, kinds: &'static [[usize; 3]]) -> Job {
    job(&format!("{} sets of signals handled by threads at once, {} preemptions", kinds.len(), late), late, move || {
        before();
        let screen = choose(2, "screen") == 1;
        let sigs = *choose_of(kinds, "signals");
        // The third one on the thread of the second, or none
        let n = 2 + choose(2, "third");
        let dev = Dev::open(screen, config(15));
        let got = std::sync::Mutex::new(vec![]);
        preempt_handlers(true);
        run_scoped(vec![
            Box::new(|| {
                for _ in 0..n {
                    let s = next_signal(&dev);
                    got.lock().unwrap().push(s);
                }
            }),
            Box::new(|| {
                deliver(SIGS[sigs[0]].0);
            }),
            Box::new(|| {
                for &i in &sigs[1..n] {
                    deliver(SIGS[i].0);
                }
            }),
        ]);
        preempt_handlers(false);
        told(got.into_inner().unwrap(), &sigs[..n]);
        for _ in 0..2 {
            check!(ok(dev.event(NOW), "read_event").is_none(), "invented", "an event is read after all signals");
        }
    })
}

pub fn c13(thorough: bool) -> Check {
    const ALL: &[usize] = &[31];
    const SOME: &[usize] = &[31, 0, 1, 23];
    const EVERY: &[usize] = &[
        0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31,
    ];
    let mut jobs = vec![arrivals(1, 1, EVERY, 6), arrivals(2, 2, SOME, 6), arrivals(3, 1, SOME, 5), during_setup(1, 1), during_setup(2, 2), many(thorough)];
    let t = thorough as u32;
    jobs.push(unread(4 + t as usize));
    jobs.push(two_readers(2 + t));
    jobs.push(handlers_at_once(3 + t, &[[0, 1, 2], [1, 0, 3], [3, 2, 0]]));
    if thorough {
        jobs.push(arrivals(2, 1, EVERY, 6));
        jobs.push(arrivals(3, 2, ALL, 5));
        jobs.push(during_setup(3, 3));
    }
    Check {
        id: "C13",
        jobs,
        rule: "one, two or three signals out of Interrupt, Quit, Suspend, Continue, window change and one that is not the crate's, each interrupting the reading thread or another one, at every system call and atomic operation (as many of them as the job says; the rest while the program waits or between calls), with every set of requested signals, on a prepared terminal and a screen, while reading events or raw input or waiting, blocking or not. The same while the terminal is being prepared or the screen opened. Histories of 100 to 140,000 signals of every combination of kinds, read in several rhythms. Signals read only after every sequence of other operations (output, waiting, nested preparation, preparing, restoring, opening and dropping another terminal). Two terminals read by two threads while two signals arrive, and signals handled by two threads at once while a third one reads, in every interleaving at system calls and atomic operations, also within the handlers, within the preemption bound.",
        assumptions: vec!["atomic operations are sequentially consistent", "handlers run at system calls and atomic operations of the crate; no other code shares state with them"],
    }
}
