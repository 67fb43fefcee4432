//! C25: device descriptors are owned and closed correctly.

use std::time::Duration;

use mortal::unix::{OpenTerminalExt, TerminalExt};
use mortal::{CursorMode, PrepareConfig, Screen, Size, Terminal};

use crate::engine::{choose, choose_of, job, outcome, state, step, Check, Job};
use crate::term::{open, set};
use crate::world::{apply, arm, w, Call, Stim, DEVICE};

#[derive(Copy, Clone, Debug, PartialEq)]
enum Way {
    Path,
    Stdout,
    Stderr,
}
const WAYS: [Way; 3] = [Way::Path, Way::Stdout, Way::Stderr];

fn start(lines: u16, cols: u16, way: Way) {
    arm(lines, cols);
    let wd = w();
    wd.log_ops = true;
    match way {
        Way::Path => (),
        Way::Stdout => wd.std_dev = [true, true, false],
        Way::Stderr => wd.std_dev = [true, false, true],
    }
}

fn terminal(way: Way) -> std::io::Result<Terminal> {
    match way {
        Way::Path => Terminal::from_path(DEVICE),
        Way::Stdout => Terminal::new(),
        Way::Stderr => Terminal::stderr(),
    }
}

fn screen(way: Way, c: PrepareConfig) -> std::io::Result<Screen> {
    match way {
        Way::Path => Terminal::from_path(DEVICE).and_then(|t| Screen::with_terminal(t, c)),
        Way::Stdout => Screen::new(c),
        Way::Stderr => Screen::stderr(c),
    }
}

/// Every device call used the right descriptor; at the end nothing is left open.
fn verify(way: Way, live: usize) {
    let wd = w();
    check!(wd.bad_fd.is_empty(), "descriptor", "{:?}: wrong use of descriptors: {:?}", way, wd.bad_fd);
    check!(wd.open_fds() == live, "descriptor", "{:?}: {} device descriptors are open instead of {}", way, wd.open_fds(), live);
    for &(c, fd) in &wd.ops {
        let right = match (way, c) {
            (_, Call::SigAction) | (_, Call::Open) => true,
            (Way::Path, _) => fd > 2,
            (_, Call::Close) => false,
            (_, Call::Read) | (_, Call::Wait) | (_, Call::TcGet) | (_, Call::TcSet) => fd == 0,
            (Way::Stdout, _) => fd == 1,
            (Way::Stderr, _) => fd == 2,
        };
        check!(right, "descriptor", "{:?}: {:?} on descriptor {}", way, c, fd);
    }
    if way == Way::Path {
        let n = wd.ops.iter().filter(|o| o.0 == Call::Close).count();
        let o = wd.ops.iter().filter(|o| o.0 == Call::Open).count();
        check!(n <= o, "descriptor", "{} closes after {} opens", n, o);
    }
    state(&(format!("{:?}", wd.ops), live));
}

const OPS: usize = 9;

fn use_terminal(t: &mut Terminal, op: usize) {
    step();
    let zero = Some(Duration::from_millis(0));
    // Whether these succeed under faults is the matter of other checks
    match op {
        0 => drop(t.write_str("text")),
        1 => drop(t.read_event(zero)),
        2 => drop(t.wait_event(zero)),
        3 => drop(t.read_raw(&mut [0; 4], zero)),
        4 => {
            if let Ok(s) = t.prepare(PrepareConfig::default()) {
                drop(t.restore(s));
            }
        }
        5 => drop(t.size()),
        6 => drop(t.set_cursor_mode(CursorMode::Invisible)),
        7 => drop(t.write_str(&"long ".repeat(2000))),
        _ => {
            let mut r = t.lock_read().unwrap();
            let mut g = t.lock_write().unwrap();
            if let Ok(s) = r.prepare_with_lock(&mut g, PrepareConfig::default()) {
                drop(r.restore_with_lock(&mut g, s));
            }
            drop(g.flush());
        }
    }
}

fn terminals(bound: u32) -> Job {
    job("terminal: open, operations, drop, faults anywhere", bound, || {
        let way = *choose_of(&WAYS, "way");
        let term = *choose_of(&["xterm", "mc-unknown", "mc-corrupt", "linux"], "TERM");
        set(term);
        start(4, 20, way);
        w().fail_calls = true;
        w().input.extend(b"input");
        let t = terminal(way);
        match t {
            Ok(mut t) => {
                check!(!term.starts_with("mc-"), "open", "opening with TERM={} succeeded", term);
                check!(t.name() == term, "name", "name is {:?} with TERM={}", t.name(), term);
                verify(way, (way == Way::Path) as usize);
                for _ in 0..2 {
                    use_terminal(&mut t, choose(OPS, "op"));
                    verify(way, (way == Way::Path) as usize);
                }
                let boxed = Box::new(t);
                verify(way, (way == Way::Path) as usize);
                drop(boxed);
            }
            Err(e) => {
                trace!("open: {:?}", e);
                check!(
                    w().injected > 0 || term.starts_with("mc-"),
                    "open",
                    "opening with TERM={} failed: {}",
                    term,
                    e
                );
            }
        }
        verify(way, 0);
        if way == Way::Path {
            let opens = w().ops.iter().filter(|o| o.0 == Call::Open).count() - (w().last_fault.map_or(false, |f| f.0 == Call::Open)) as usize;
            let closes = w().ops.iter().filter(|o| o.0 == Call::Close).count();
            check!(opens == closes, "descriptor", "{} opens but {} closes", opens, closes);
        }
        outcome(&format!("{:?}", w().ops));
    })
}

fn screens(bound: u32) -> Job {
    job("screen: open, operations, drop, faults anywhere", bound, || {
        let way = *choose_of(&WAYS, "way");
        let term = *choose_of(&["xterm", "mc-unknown", "ansi", "mc-dumb"], "TERM");
        set(term);
        start(4, 20, way);
        w().fail_calls = true;
        w().input.extend(b"in");
        let zero = Some(Duration::from_millis(0));
        match screen(way, PrepareConfig::default()) {
            Ok(mut s) => {
                check!(term == "xterm", "open", "opening a screen with TERM={} succeeded", term);
                check!(s.name() == term, "name", "name is {:?} with TERM={}", s.name(), term);
                check!(s.size() == Size { lines: 4, columns: 20 }, "size", "size is {:?}", s.size());
                s.write_str("text");
                match choose(5, "op") {
                    0 => drop(s.refresh()),
                    1 => drop(s.read_event(zero)),
                    2 => drop(s.read_raw(&mut [0; 4], zero)),
                    3 => {
                        apply(Stim::Resize(3, 9));
                        if let Ok(Some(_)) = s.read_event(zero) {
                            check!(s.size() == Size { lines: 3, columns: 9 }, "size", "size is {:?} after a resize", s.size());
                        }
                    }
                    _ => {
                        let mut g = s.lock_write().unwrap();
                        g.write_str("more");
                        drop(g.refresh());
                    }
                }
                verify(way, (way == Way::Path) as usize);
                drop(s);
            }
            Err(e) => {
                check!(w().injected > 0 || term != "xterm", "open", "opening with TERM={} failed: {}", term, e);
            }
        }
        verify(way, 0);
        drain();
        outcome(&format!("{:?}", w().ops));
    })
}

/// Leaves no signal noted in the process behind.
fn drain() {
    w().fail_calls = false;
    set("xterm");
    let t = open();
    let mut idle = 0;
    while idle < 2 {
        match t.read_event(Some(Duration::from_millis(0))) {
            Ok(Some(_)) => idle = 0,
            _ => idle += 1,
        }
    }
}

/// Several terminals at once: each closes its own.
fn several() -> Job {
    job("several terminals at once", 0, || {
        set("xterm");
        arm(4, 20);
        let mut ts: Vec<Option<Terminal>> = Vec::new();
        for _ in 0..5 {
            let live: Vec<usize> = (0..ts.len()).filter(|&i| ts[i].is_some()).collect();
            let n = live.len();
            match choose(1 + 2 * n, "op") {
                0 => ts.push(Some(open())),
                k if k <= n => ts[live[k - 1]] = None,
                k => use_terminal(ts[live[k - n - 1]].as_mut().unwrap(), 0),
            }
            verify(Way::Path, ts.iter().flatten().count());
        }
        drop(ts);
        verify(Way::Path, 0);
        outcome(&w().out.len());
    })
}

/// Name and size are those of the environment and the device.
fn facts() -> Job {
    job("names and sizes", 0, || {
        let way = *choose_of(&WAYS, "way");
        let name = *choose_of(super::line::REAL, "TERM");
        set(name);
        let sizes = [0, 1, 2, 24, 80, 255, 256, 32767, 32768, 65535];
        let (l, c) = (*choose_of(&sizes, "lines"), *choose_of(&sizes, "columns"));
        start(1, 1, way);
        w().no_vt = true;
        w().size = (l, c);
        let t = terminal(way).expect("open");
        check!(t.name() == name, "name", "name is {:?} with TERM={}", t.name(), name);
        let want = Size { lines: l as usize, columns: c as usize };
        for (size, what) in [(t.size(), "direct"), (t.lock_write().unwrap().size(), "guard")] {
            check!(size.as_ref().ok() == Some(&want), "size", "size ({}) is {:?} instead of {:?}", what, size, want);
        }
        // It is asked each time
        w().size = (c, l);
        let want = Size { lines: c as usize, columns: l as usize };
        let size = t.size();
        check!(size.as_ref().ok() == Some(&want), "size", "size is {:?} instead of {:?} after a change", size, want);
        drop(t);
        verify(way, 0);
        outcome(&(l, c));
    })
}

pub fn c25(thorough: bool) -> Check {
    Check {
        id: "C25",
        jobs: vec![terminals(if thorough { 3 } else { 2 }), screens(if thorough { 4 } else { 3 }), several(), facts()],
        rule: "Every way of opening a Terminal and Screen (path, standard output, standard error; known, unknown, corrupt and insufficient terminal descriptions), pairs of all operations, drop; up to the stated number of failing system calls anywhere. Every device call is on the right descriptor; an opened device is closed exactly once, at the end, and standard streams never. Several terminals open and closed in all orders. Names and sizes over boundary values.",
        assumptions: vec!["A failing close(2) is not simulated."],
    }
}
