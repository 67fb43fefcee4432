//! C07 restore, C08 prepared modes, C09 every exit path gives the terminal back.

use std::time::Duration;

use mortal::{term_write, Color, CursorMode, Event, PrepareConfig, PrepareState, Screen, Style, Terminal};

use super::input::has_mouse;
use super::signals::{set_of, SIGS};
use crate::engine::{choose, choose_of, job, may_panic, outcome, state, step, Check, Job};
use crate::term::{ok, open, set};
use crate::vt::Modes;
use crate::world::{apply, arm, base_termios, foreign_handler, foreign_handler2, tio_eq, tio_str, w, SigAct, Stim, World, DFL, IGN};

const NOW: Option<Duration> = Some(Duration::from_millis(0));

fn config(block: bool, flow: bool, keypad: bool, mouse: bool, motion: bool, report: usize) -> PrepareConfig {
    PrepareConfig {
        block_signals: block,
        enable_control_flow: flow,
        enable_keypad: keypad,
        enable_mouse: mouse,
        always_track_motion: motion,
        report_signals: set_of(report),
    }
}

fn any_config() -> (PrepareConfig, usize) {
    let b = |l| choose(2, l) == 1;
    let r = choose(32, "report");
    (config(b("block"), b("flow"), b("keypad"), b("mouse"), b("motion"), r), r)
}

/// Original device modes
const TIOS: usize = 6;

fn tio(n: usize) -> libc::termios {
    let mut t = base_termios();
    match n {
        1 => {
            t.c_iflag = 0;
            t.c_oflag = 0;
            t.c_lflag = 0;
            t.c_cc[libc::VMIN] = 5;
            t.c_cc[libc::VTIME] = 7;
        }
        2 => {
            t.c_iflag = 0o77777;
            t.c_oflag = 0o177777;
            t.c_lflag = 0o177777;
            t.c_cc[libc::VTIME] = 255;
        }
        3 => {
            t.c_iflag |= libc::INLCR | libc::IGNCR | libc::IXOFF | libc::ISTRIP;
            t.c_iflag &= !(libc::IXON | libc::ICRNL);
            t.c_lflag &= !libc::ISIG;
            t.c_lflag |= libc::ECHONL | libc::NOFLSH | libc::TOSTOP;
            t.c_cc[libc::VMIN] = 0;
        }
        4 => {
            t.c_cflag = libc::CS7 | libc::PARENB | libc::CREAD | libc::B9600;
            for (i, c) in t.c_cc.iter_mut().enumerate() {
                *c = 100 + i as u8;
            }
        }
        5 => {
            t.c_lflag &= !(libc::ICANON | libc::ECHO);
            t.c_cc[libc::VINTR] = 0;
        }
        _ => (),
    }
    t
}

fn expected(mut t: libc::termios, c: &PrepareConfig) -> libc::termios {
    t.c_iflag &= !(libc::ICRNL | libc::INLCR);
    t.c_lflag &= !(libc::ICANON | libc::ECHO);
    if c.block_signals {
        t.c_lflag &= !libc::ISIG;
    } else {
        t.c_lflag |= libc::ISIG;
    }
    if c.enable_control_flow {
        t.c_iflag |= libc::IXON;
    } else {
        t.c_iflag &= !libc::IXON;
    }
    t.c_cc[libc::VMIN] = 0;
    t.c_cc[libc::VTIME] = 0;
    t
}

fn foreign() -> usize {
    foreign_handler as *const () as usize
}

fn dispositions(n: usize) {
    let f = SigAct { handler: foreign(), flags: libc::SA_RESTART | libc::SA_NODEFER, mask: 0x55, restorer: 0 };
    let g = SigAct { handler: foreign_handler2 as *const () as usize, flags: libc::SA_SIGINFO, mask: 0, restorer: 0 };
    let all: [i32; 7] =
        [libc::SIGINT, libc::SIGQUIT, libc::SIGTSTP, libc::SIGCONT, libc::SIGWINCH, libc::SIGTERM, libc::SIGUSR1];
    for (i, s) in all.iter().enumerate() {
        w().sig[*s as usize] = match n {
            0 => DFL,
            1 => IGN,
            2 => f,
            _ => [f, IGN, g, DFL][i % 4],
        };
    }
}

fn has_keypad(term: &str) -> bool {
    !matches!(term, "linux" | "mc-min" | "ansi" | "mc-keys" | "mc-pad")
}

/// What is reported: on all terminals the same, or else (10000 + xterm) and
/// what is where the modes are independent of each other.
fn mouse_mode(m: &Modes) -> u32 {
    let apart = match m.apart {
        (_, true) => 1003,
        (true, _) => 1002,
        _ => 0,
    };
    match m.mouse_sgr {
        true if apart == m.mouse => m.mouse,
        true => (10_000 + m.mouse) * 10_000 + apart,
        false => 0,
    }
}

const TERMS: [&str; 5] = ["xterm", "xterm-256color", "linux", "tmux", "mc-min"];

/// While the program was stopped, a shell set its own modes.
fn shell(wd: &mut World) {
    wd.tio = tio(0);
    wd.vt.modes = Modes { alt: wd.vt.modes.alt, cursor_hidden: wd.vt.modes.cursor_hidden, ..wd.vt.modes.clone() };
    wd.vt.modes.keypad = false;
    wd.vt.modes.app_cursor = false;
    wd.vt.modes.mouse = 0;
    wd.vt.modes.apart = (false, false);
    wd.vt.modes.mouse_sgr = false;
}
fn shell_odd(wd: &mut World) {
    shell(wd);
    wd.tio = tio(3);
}
/// It left everything alone.
fn no_shell(_: &mut World) {}

fn requested(report: usize) -> Vec<i32> {
    let mut v = vec![libc::SIGCONT, libc::SIGWINCH];
    for (i, s) in SIGS.iter().enumerate() {
        if report & 1 << i != 0 && !v.contains(&s.0) {
            v.push(s.0);
        }
    }
    v
}

fn verify_mode(what: &str, term: &str, from: libc::termios, c: &PrepareConfig) {
    let want = expected(from, c);
    check!(tio_eq(&w().tio, &want), "tio", "{}: device modes {} instead of {}", what, tio_str(&w().tio), tio_str(&want));
    let m = &w().vt.modes;
    let keypad = c.enable_keypad && has_keypad(term);
    check!(
        m.keypad == keypad && m.app_cursor == keypad,
        "keypad",
        "{}: keypad mode {} {} instead of {}",
        what,
        m.keypad,
        m.app_cursor,
        keypad
    );
    let mouse = match (c.enable_mouse && has_mouse(term), c.always_track_motion) {
        (false, _) => 0,
        (_, true) => 1003,
        _ => 1002,
    };
    check!(mouse_mode(m) == mouse, "mouse", "{}: mouse reporting {} instead of {}", what, mouse_mode(m), mouse);
    check!(w().vt.garbage.is_empty(), "garbage", "{}: unknown output {:?}", what, w().vt.garbage);
}

fn verify_handlers(what: &str, orig: &[SigAct], report: usize) {
    let req = requested(report);
    for s in 1..65 {
        let a = w().sig[s];
        if req.contains(&(s as i32)) {
            check!(a.handler > 1 && a.handler != foreign(), "handler", "{}: signal {} is not intercepted", what, s);
            check!(a.flags & libc::SA_RESETHAND == 0, "handler", "{}: signal {} is intercepted only once", what, s);
        } else {
            check!(a == orig[s], "disposition", "{}: the disposition of signal {} changed", what, s);
        }
    }
}

enum Dev {
    T(Terminal),
    S(Screen),
}

fn prepared(terms: &'static [&'static str], tios: usize, disps: &'static [usize], hows: &'static [usize], stops: usize) -> Job {
    job(&format!("all configurations, {} terminals, {} modes, {} dispositions, {} ways, {} suspensions", terms.len(), tios, disps.len(), hows.len(), stops), 0, move || {
        let term = *choose_of(terms, "terminal");
        let (c, report) = any_config();
        let t0 = choose(tios, "device modes");
        let d0 = *choose_of(disps, "dispositions");
        let how = *choose_of(hows, "how");
        set(term);
        arm(4, 6);
        w().tio = tio(t0);
        dispositions(d0);
        let orig = w().sig.clone();
        let t = open();
        step();
        let dev = match how {
            0 => {
                std::mem::forget(ok(t.prepare(c), "prepare"));
                Dev::T(t)
            }
            1 => {
                std::mem::forget(ok(t.lock_read().unwrap().prepare(c), "prepare"));
                Dev::T(t)
            }
            2 => {
                {
                    let mut r = t.lock_read().unwrap();
                    let mut wr = t.lock_write().unwrap();
                    std::mem::forget(ok(r.prepare_with_lock(&mut wr, c), "prepare_with_lock"));
                }
                Dev::T(t)
            }
            _ => {
                w().no_vt = false;
                match Screen::with_terminal(t, c) {
                    Ok(s) => Dev::S(s),
                    Err(_) => {
                        // This terminal has no screens.
                        check!(term == "mc-min", "open", "a screen cannot be opened on {}", term);
                        return;
                    }
                }
            }
        };
        verify_mode("prepared", term, tio(t0), &c);
        verify_handlers("prepared", &orig, report);
        let n = choose(stops + 1, "suspensions");
        let mut from = tio(t0);
        for _ in 0..n {
            let k = choose(3, "shell");
            let f: fn(&mut World) = [shell, shell_odd, no_shell][k];
            from = match k {
                0 => tio(0),
                1 => tio(3),
                _ => from,
            };
            w().on_stop = Some(f);
            // Other signals may arrive at the same time
            let also = if k == 0 { choose(3, "also") } else { 0 };
            if also == 1 {
                apply(Stim::Resize(4, 6));
            }
            apply(Stim::Continue);
            if also == 2 {
                apply(Stim::Resize(4, 6));
                for &s in requested(report).iter().filter(|&&s| s != libc::SIGCONT) {
                    apply(Stim::Sig(s));
                }
            }
            for _ in 0..2 + 3 * also {
                let e = match &dev {
                    Dev::T(t) => ok(t.read_event(NOW), "read"),
                    Dev::S(t) => ok(t.read_event(NOW), "read"),
                };
                let _ = e;
            }
            verify_mode("continued", term, from, &c);
            verify_handlers("continued", &orig, report);
        }
        outcome(&(format!("{:?}", c), t0));
    })
}

/// Device modes differing from usual ones in any one or two bits, one control character, or the
/// limits of reads: prepared, continued with the same modes, and restored.
fn any_tio(pairs: bool, values: &'static [u8]) -> Job {
    job(&format!("original modes: {} flags, {} values", if pairs { "all pairs of" } else { "single" }, values.len()), 0, move || {
        let mut t0 = tio([0, 3][choose(2, "usual modes")]);
        let flip = |t: &mut libc::termios, n: usize| {
            let f = [&mut t.c_iflag, &mut t.c_oflag, &mut t.c_lflag, &mut t.c_cflag];
            *f.into_iter().nth(n / 16).unwrap() ^= 1 << (n % 16);
        };
        let kind = choose(3, "differs");
        match kind {
            0 => {
                let a = choose(64, "flag");
                flip(&mut t0, a);
                if pairs && a > 0 {
                    let b = choose(a + 1, "another flag");
                    if b != a {
                        flip(&mut t0, b);
                    }
                }
            }
            1 => {
                let k = choose(19, "control character");
                t0.c_cc[k] = *choose_of(values, "value");
            }
            _ => {
                t0.c_cc[libc::VMIN] = *choose_of(values, "min");
                t0.c_cc[libc::VTIME] = *choose_of(values, "time");
            }
        }
        let c = config(choose(2, "block") == 1, choose(2, "flow") == 1, true, false, false, 0);
        let screen = choose(2, "screen") == 1;
        set("xterm");
        arm(4, 6);
        w().tio = t0;
        let orig = original();
        let t = open();
        step();
        let (dev, st) = if screen {
            (Dev::S(ok(Screen::with_terminal(t, c), "opening a screen")), None)
        } else {
            let s = ok(t.prepare(c), "prepare");
            (Dev::T(t), Some(s))
        };
        verify_mode("prepared", "xterm", t0, &c);
        w().on_stop = Some(no_shell);
        apply(Stim::Continue);
        for _ in 0..2 {
            match &dev {
                Dev::T(t) => ok(t.read_event(NOW), "read"),
                Dev::S(t) => ok(t.read_event(NOW), "read"),
            };
        }
        verify_mode("continued", "xterm", t0, &c);
        if let (Dev::T(t), Some(s)) = (&dev, st) {
            ok(t.restore(s), "restore");
            given_back("restored", &orig);
        }
        drop(dev);
        given_back("closed", &orig);
        outcome(&(kind, tio_str(&t0)));
    })
}

const EVERY: &[u8] = &{
    let mut a = [0; 256];
    let mut i = 0;
    while i < 256 {
        a[i] = i as u8;
        i += 1;
    }
    a
};
const VALUES: &[u8] = &[0, 1, 2, 3, 4, 5, 7, 8, 10, 16, 17, 19, 26, 28, 63, 64, 100, 126, 127, 128, 129, 200, 254, 255];

// ---------------------------------------------------------------- C07

fn configs() -> Vec<(PrepareConfig, usize)> {
    let c = |b, f, k, m, a, r| (config(b, f, k, m, a, r), r);
    vec![
        (PrepareConfig::default(), 0),
        c(false, false, false, true, false, 1),
        c(false, true, true, true, true, 31),
        c(false, true, false, false, false, 0),
        c(true, false, true, false, true, 12),
        c(false, false, true, true, false, 2),
    ]
}

#[derive(Clone)]
struct Snapshot {
    tio: libc::termios,
    sig: Vec<SigAct>,
    modes: Modes,
    reported: Vec<(i32, bool)>,
}

/// Which signals are reported: tried out. Continue is not tried; it has other effects.
fn reported(t: &Terminal) -> Vec<(i32, bool)> {
    let mut v = vec![];
    for &(s, sig) in &SIGS {
        if s == libc::SIGCONT || !w().has_handler(s) || w().sig[s as usize].handler == foreign() {
            continue;
        }
        apply(Stim::Sig(s));
        let mut hit = false;
        for _ in 0..2 {
            match ok(t.read_event(NOW), "read") {
                Some(Event::Signal(x)) if x == sig => hit = true,
                Some(e) => crate::engine::violation("invented", &format!("{:?} is read after signal {}", e, s)),
                None => (),
            }
        }
        v.push((s, hit));
    }
    v
}

fn snapshot(t: &Terminal) -> Snapshot {
    let r = reported(t);
    Snapshot { tio: w().tio, sig: w().sig.clone(), modes: w().vt.modes.clone(), reported: r }
}

fn same(what: &str, a: &Snapshot, b: &Snapshot) {
    check!(tio_eq(&a.tio, &b.tio), "tio", "{}: device modes {} instead of {}", what, tio_str(&b.tio), tio_str(&a.tio));
    for s in 1..65 {
        check!(a.sig[s] == b.sig[s], "disposition", "{}: the disposition of signal {} differs", what, s);
    }
    check!(
        a.modes.keypad == b.modes.keypad && a.modes.app_cursor == b.modes.app_cursor,
        "keypad",
        "{}: keypad mode {} instead of {}",
        what,
        b.modes.keypad,
        a.modes.keypad
    );
    check!(
        mouse_mode(&a.modes) == mouse_mode(&b.modes),
        "mouse",
        "{}: mouse reporting {} instead of {}",
        what,
        mouse_mode(&b.modes),
        mouse_mode(&a.modes)
    );
    check!(a.reported == b.reported, "reported", "{}: signals reported {:?} instead of {:?}", what, b.reported, a.reported);
}

fn prepare(t: &Terminal, how: usize, c: PrepareConfig) -> PrepareState {
    match how {
        0 => ok(t.prepare(c), "prepare"),
        1 => ok(t.lock_read().unwrap().prepare(c), "prepare"),
        _ => {
            let mut r = t.lock_read().unwrap();
            let mut wr = t.lock_write().unwrap();
            ok(r.prepare_with_lock(&mut wr, c), "prepare_with_lock")
        }
    }
}

fn restore(t: &Terminal, how: usize, s: PrepareState) {
    match how {
        0 => ok(t.restore(s), "restore"),
        1 => ok(t.lock_read().unwrap().restore(s), "restore"),
        _ => {
            let mut r = t.lock_read().unwrap();
            let mut wr = t.lock_write().unwrap();
            ok(r.restore_with_lock(&mut wr, s), "restore_with_lock")
        }
    }
}

/// Suspends and continues. The modes of the emulated terminal must be the same again.
fn suspend(t: &Terminal, f: fn(&mut World)) {
    let before = w().vt.modes.clone();
    let sig = w().sig.clone();
    w().on_stop = Some(f);
    apply(Stim::Continue);
    for _ in 0..2 {
        match ok(t.read_event(NOW), "read") {
            None | Some(Event::Signal(mortal::Signal::Continue)) => (),
            Some(e) => crate::engine::violation("invented", &format!("{:?} is read after continuing", e)),
        }
    }
    let m = &w().vt.modes;
    check!(
        m.keypad == before.keypad && mouse_mode(m) == mouse_mode(&before),
        "continued",
        "after continuing, keypad mode is {} and mouse reporting {} instead of {} and {}",
        m.keypad,
        mouse_mode(m),
        before.keypad,
        mouse_mode(&before)
    );
    check!(sig == w().sig, "continued", "after continuing, signal dispositions have changed");
    // Until then, other software may have changed the modes.
}

fn nested(depth: usize, form: bool, stops: bool, terms: &'static [&'static str], tios: usize, disps: &'static [usize]) -> Job {
    let cs = configs();
    job(&format!("{} levels, {} terminals, {} modes, {} dispositions, suspensions {}", depth, terms.len(), tios, disps.len(), stops), 0, move || {
        let term = *choose_of(terms, "terminal");
        set(term);
        arm(4, 6);
        let t0 = choose(tios, "device modes");
        w().tio = tio(t0);
        dispositions(*choose_of(disps, "dispositions"));
        let t = open();
        let how = if form { choose(3, "how") } else { 0 };
        let stop = |lvl: usize| {
            if stops && lvl > 0 {
                match choose(3, "suspension") {
                    1 => {
                        suspend(&t, shell);
                        true
                    }
                    2 => {
                        suspend(&t, no_shell);
                        true
                    }
                    _ => false,
                }
            } else {
                false
            }
        };
        let mut saved: Vec<(Snapshot, PrepareState)> = vec![];
        // A properly nested history: up to `depth` levels, twice at most at each
        let mut budget = depth;
        loop {
            stop(saved.len());
            let up = budget > 0 && (saved.is_empty() || choose(2, "prepare") == 1);
            step();
            if up {
                budget -= 1;
                let s = snapshot(&t);
                let c = choose_of(&cs, "config").0;
                trace!("prepare {:?}", c);
                let p = prepare(&t, how, c);
                saved.push((s, p));
            } else if let Some((s, p)) = saved.pop() {
                trace!("restore");
                restore(&t, how, p);
                let now = snapshot(&t);
                same(&format!("after restoring level {}", saved.len() + 1), &s, &now);
                state(&(saved.len(), tio_str(&now.tio), now.modes.keypad, now.modes.mouse, &now.reported));
            } else {
                break;
            }
        }
        check!(w().vt.garbage.is_empty(), "garbage", "unknown output {:?}", w().vt.garbage);
        outcome(&(mouse_mode(&w().vt.modes), t0));
    })
}

/// Many levels, many times over.
fn deep(thorough: bool) -> Job {
    let cs = configs();
    job("many levels and rounds", 0, move || {
        let term = *choose_of(&["xterm", "linux", "tmux"][..2 + thorough as usize], "terminal");
        set(term);
        arm(4, 6);
        w().tio = tio(choose(2, "device modes"));
        dispositions(*choose_of(&[0, 3], "dispositions"));
        let t = open();
        let how = choose(3, "how");
        let c: Vec<PrepareConfig> = (0..2 + thorough as usize).map(|_| choose_of(&cs, "config").0).collect();
        let (levels, rounds) = *choose_of(&[(1, 40), (12, 2), (3, 10)], "levels and rounds");
        let stop = choose(3, "suspension");
        w().horizon = w().horizon.max(1 << 20);
        for r in 0..rounds {
            let mut saved: Vec<(Snapshot, PrepareState)> = vec![];
            for l in 0..levels {
                let s = snapshot(&t);
                saved.push((s, prepare(&t, how, c[(l + r) % c.len()])));
                if stop > 0 && (l + r) % 5 == 2 {
                    suspend(&t, [shell, no_shell][stop - 1]);
                }
            }
            while let Some((s, p)) = saved.pop() {
                restore(&t, how, p);
                same(&format!("after restoring level {} for the {}. time", saved.len() + 1, r + 1), &s, &snapshot(&t));
            }
            w().calls = 0;
        }
        check!(w().vt.garbage.is_empty(), "garbage", "unknown output {:?}", w().vt.garbage);
        outcome(&(mouse_mode(&w().vt.modes), levels));
    })
}

/// Two terminals of one process, prepared and restored in a nested way. (Keypad and mouse modes are
/// not compared: no terminal knows what another one set.)
fn two_terminals(depth: usize) -> Job {
    let cs = configs();
    job(&format!("two terminals, {} prepares", depth), 0, move || {
        set("xterm");
        arm(4, 6);
        w().tio = tio(choose(2, "device modes"));
        dispositions(*choose_of(&[0, 3], "dispositions"));
        let ts = [open(), open()];
        let mut saved: Vec<(usize, Snapshot, PrepareState)> = vec![];
        for n in 0..depth {
            let k = choose(2, "terminal");
            let c = choose_of(&cs, "config").0;
            trace!("prepare {} {:?}", k, c);
            step();
            let s = snapshot(&ts[k]);
            let p = prepare(&ts[k], 0, c);
            saved.push((k, s, p));
            let back = if n + 1 == depth { saved.len() } else { choose(saved.len() + 1, "restores") };
            for _ in 0..back {
                let (k, mut s, p) = saved.pop().unwrap();
                trace!("restore {}", k);
                restore(&ts[k], 0, p);
                let now = snapshot(&ts[k]);
                s.modes = now.modes.clone();
                same(&format!("after restoring terminal {}", k), &s, &now);
            }
        }
        outcome(&tio_str(&w().tio));
    })
}

/// A screen is opened and closed on a prepared terminal... as a whole it changes nothing.
fn screens() -> Job {
    let cs = configs();
    job("screens", 0, move || {
        let term = *choose_of(&["xterm", "linux", "tmux"], "terminal");
        set(term);
        arm(4, 6);
        w().tio = tio(choose(TIOS, "device modes"));
        dispositions(choose(4, "dispositions"));
        let (tio0, sig0) = (w().tio, w().sig.clone());
        for _ in 0..1 + choose(2, "again") {
            let s = ok(Screen::with_terminal(open(), choose_of(&cs, "config").0), "opening a screen");
            match choose(4, "use") {
                1 => {
                    w().on_stop = Some(shell);
                    apply(Stim::Continue);
                    let _ = ok(s.read_event(NOW), "read");
                }
                2 => {
                    s.write_str("text");
                    ok(s.refresh(), "refresh");
                    ok(s.set_cursor_mode(CursorMode::Invisible), "set_cursor_mode");
                }
                3 => {
                    s.set_fg(Color::Red);
                    s.add_style(Style::BOLD);
                    s.write_at((1, 1), "x");
                    apply(Stim::Resize(3, 3));
                    let _ = ok(s.read_event(NOW), "read");
                }
                _ => (),
            }
            drop(s);
            check!(tio_eq(&tio0, &w().tio), "tio", "after closing a screen: device modes {} instead of {}", tio_str(&w().tio), tio_str(&tio0));
            check!(sig0 == w().sig, "disposition", "after closing a screen: signal dispositions differ");
            let m = &w().vt.modes;
            check!(
                !m.keypad && !m.app_cursor && mouse_mode(m) == 0 && m.mouse == 0 && m.apart == (false, false) && !m.cursor_hidden && !m.alt,
                "modes",
                "after closing a screen: {:?}",
                m
            );
        }
        outcome(&0);
    })
}

pub fn c07(thorough: bool) -> Check {
    let mut jobs = vec![
        screens(),
        super::counts::rounds(),
        deep(thorough),
        two_terminals(3 + thorough as usize),
        nested(1, true, true, &TERMS, TIOS, &[0, 1, 2, 3]),
        nested(2, true, true, &["xterm", "linux"], 2, &[0, 3]),
        nested(3, false, true, &["xterm"], 1, &[2]),
        nested(4, false, false, &["xterm"], 1, &[0]),
    ];
    if thorough {
        jobs.push(nested(3, true, true, &["xterm", "tmux"], 2, &[0, 3]));
        jobs.push(nested(4, false, true, &["xterm"], 1, &[0]));
        jobs.push(nested(5, false, false, &["xterm"], 1, &[0]));
    }
    Check {
        id: "C07",
        jobs,
        rule: "every properly nested history of up to four prepares and restores over six configurations, with suspensions (a shell resets the modes, or not) before any of them, through each form of the interface; six original device modes, four sets of dispositions, five terminals. After each restore: device modes, all dispositions, keypad and mouse modes and the set of signals reported (tried out) equal those before the matching prepare. Up to 12 levels and 66,000 rounds. Two terminals nested in one another. Screens opened and closed.",
        assumptions: vec!["while stopped, others change only device modes and keypad and mouse modes"],
    }
}

pub fn c08(thorough: bool) -> Check {
    let mut jobs = vec![
        prepared(&TERMS, TIOS, &[0, 1, 2, 3], &[0, 1, 2, 3], 0),
        prepared(&["xterm", "linux"], 2, &[3], &[0, 3], 2),
        any_tio(true, VALUES),
    ];
    if thorough {
        jobs.push(prepared(&TERMS, TIOS, &[0, 1, 2, 3], &[0, 1, 2, 3], 2));
        jobs.push(prepared(&["xterm"], 1, &[0], &[0, 3], 5));
        jobs.push(any_tio(false, EVERY));
    }
    Check {
        id: "C08",
        jobs,
        rule: "all 1024 combinations of options and reported signals on five terminals, six original device modes, four sets of signal dispositions, through prepare on a terminal, on a guard, with both guards, and by opening a screen; up to two suspensions, with a shell that resets the modes, that sets others, or none. Original device modes that differ from usual ones in any one or two of 64 flags, any one control character, or any minimum and time of reads (out of 24 values), prepared, continued and restored.",
        assumptions: vec!["mouse reporting is supported by terminals named xterm"],
    }
}

// ---------------------------------------------------------------- C09

struct Original {
    tio: libc::termios,
    sig: Vec<SigAct>,
    modes: Modes,
}

fn original() -> Original {
    Original { tio: w().tio, sig: w().sig.clone(), modes: w().vt.modes.clone() }
}

/// Everything is as before, except where the last attempt to set it failed.
fn given_back(what: &str, o: &Original) {
    let wd = w();
    if !wd.tio_failed {
        check!(tio_eq(&o.tio, &wd.tio), "tio", "{}: device modes {} instead of {}", what, tio_str(&wd.tio), tio_str(&o.tio));
    }
    for s in 1..65 {
        if wd.sig_failed & 1 << s == 0 {
            check!(o.sig[s] == wd.sig[s], "disposition", "{}: the disposition of signal {} was not restored", what, s);
        }
    }
    if !wd.write_failed {
        let (a, m) = (&o.modes, &wd.vt.modes);
        check!(a.keypad == m.keypad && a.app_cursor == m.app_cursor, "keypad", "{}: keypad mode is {}", what, m.keypad);
        check!(mouse_mode(a) == mouse_mode(m), "mouse", "{}: mouse reporting is {}", what, mouse_mode(m));
        check!(a.cursor_hidden == m.cursor_hidden, "cursor", "{}: the cursor is {}", what, if m.cursor_hidden { "hidden" } else { "shown" });
        check!(a.alt == m.alt, "alternate-screen", "{}: the alternate screen is {}", what, if m.alt { "shown" } else { "left" });
    }
    state(&(what, tio_str(&wd.tio), m_str(&wd.vt.modes), wd.tio_failed, wd.write_failed, wd.sig_failed));
}

fn m_str(m: &Modes) -> String {
    format!("{} {} {} {}", m.keypad, mouse_mode(m), m.cursor_hidden, m.alt)
}

fn full() -> PrepareConfig {
    config(false, true, true, true, true, 31)
}

fn draw(s: &Screen) {
    s.set_fg(Color::Green);
    s.write_str("text");
    s.write_at((2, 0), "more");
}

/// What is done with an open screen
fn session(s: &Screen, n: usize) {
    match n {
        0 => (),
        1 => {
            draw(s);
            let _ = s.refresh();
        }
        2 => {
            let _ = s.set_cursor_mode(CursorMode::Invisible);
        }
        3 => {
            w().on_stop = Some(shell);
            apply(Stim::Continue);
            let _ = s.read_event(NOW);
        }
        4 => {
            let mut g = s.lock_write().unwrap();
            g.write_at((0, 0), "guard");
            let _ = g.set_cursor_mode(CursorMode::Overwrite);
            let _ = g.refresh();
        }
        5 => {
            draw(s);
            // Not shown
        }
        6 => {
            apply(Stim::Sig(libc::SIGINT));
            apply(Stim::Resize(3, 5));
            let _ = s.read_event(NOW);
            let _ = s.read_event(NOW);
        }
        _ => {
            let _ = s.set_cursor_mode(CursorMode::Invisible);
            draw(s);
            let _ = s.refresh();
            w().on_stop = Some(no_shell);
            apply(Stim::Continue);
            let _ = s.read_event(NOW);
        }
    }
}

fn begin(term: &str) -> Original {
    set(term);
    arm(4, 6);
    dispositions(3);
    original()
}

/// Sessions in which calls fail.
fn failures(bound: u32, sessions: usize, terms: &'static [&'static str]) -> Job {
    let cs = configs();
    job(&format!("sessions of {} kinds on {} terminals with up to {} failing calls", sessions, terms.len(), bound), bound, move || {
        let o = begin(*choose_of(terms, "terminal"));
        let k = choose(cs.len() + 1, "config");
        let c = if k < cs.len() { cs[k].0 } else { full() };
        let n = choose(sessions, "session");
        w().fail_calls = true;
        if let Ok(t) = <Terminal as mortal::unix::OpenTerminalExt>::from_path(crate::world::DEVICE) {
            step();
            match Screen::with_terminal(t, c) {
                Ok(s) => {
                    session(&s, n);
                    drop(s);
                    given_back("after closing the screen", &o);
                }
                Err(_) => given_back("after opening the screen failed", &o),
            }
        }
        check!(w().open_fds() == 0, "descriptor", "{} descriptors are left open", w().open_fds());
        outcome(&(n, w().injected));
    })
}

/// The device goes away for good, or refuses output for good.
fn dead() -> Job {
    job("device gone", 0, || {
        begin("xterm");
        let at = choose(4, "when");
        let n = choose(8, "session");
        let e = *choose_of(&[libc::EIO, libc::EBADF, libc::EPIPE, libc::ENOSPC], "errno");
        let all = choose(2, "also other calls") == 1;
        let die = |k: usize| {
            if k == at {
                w().dead = Some(e);
                w().dead_all = all;
            }
        };
        die(0);
        if let Ok(t) = <Terminal as mortal::unix::OpenTerminalExt>::from_path(crate::world::DEVICE) {
            die(1);
            step();
            if let Ok(s) = Screen::with_terminal(t, full()) {
                die(2);
                session(&s, n);
                die(3);
                drop(s);
            }
        }
        check!(w().open_fds() == 0, "descriptor", "{} descriptors are left open", w().open_fds());
        outcome(&(at, n, e));
    })
}

struct Bomb;
impl std::fmt::Display for Bomb {
    fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result {
        panic!("bomb")
    }
}

const PANICS: usize = 12;

/// Panics with locks held.
fn explode(s: &Screen, k: usize, gone: bool) {
    let _r;
    let mut wr;
    let die = || {
        if gone {
            w().dead = Some(libc::EIO);
        }
    };
    match k {
        0 => (),
        1 => _r = s.lock_read().unwrap(),
        2 => {
            wr = s.lock_write().unwrap();
            wr.write_str("a");
        }
        3 => {
            _r = s.lock_read().unwrap();
            wr = s.lock_write().unwrap();
            wr.write_at((1, 1), "b");
        }
        4 => {
            _r = s.try_lock_read().unwrap();
            wr = s.try_lock_write().unwrap();
            let _ = wr.refresh();
        }
        5 => {
            die();
            let _ = write!(s, "x{}y", Bomb);
        }
        6 => {
            wr = s.lock_write().unwrap();
            die();
            let _ = write!(wr, "x{}y", Bomb);
        }
        7 => {
            wr = s.lock_write().unwrap();
            die();
            term_write!(wr, [red] "x" ("{}", Bomb));
        }
        8 => {
            die();
            term_write!(s, [red] "x" ("{}", Bomb));
        }
        9 => {
            let mut r = s.lock_read().unwrap();
            apply(Stim::Resize(3, 3));
            let _ = r.read_event(NOW);
            _r = r;
        }
        10 => {
            wr = s.lock_write().unwrap();
            let _ = wr.set_cursor_mode(CursorMode::Invisible);
            wr.write_str("\u{301}");
        }
        _ => {
            // The innermost first
            let _w2 = s.lock_write().unwrap();
            _r = s.lock_read().unwrap();
            die();
            panic!("boom");
        }
    }
    die();
    panic!("boom");
}

fn panics(bound: u32, cfgs: usize) -> Job {
    let cs = configs();
    job(&format!("panics, {} configurations, {} failing calls", cfgs, bound), bound, move || {
        let o = begin(*choose_of(&["xterm", "linux"], "terminal"));
        let k = choose(cfgs, "config");
        let c = if k == 0 { full() } else { cs[k - 1].0 };
        let s = ok(Screen::with_terminal(open(), c), "opening a screen");
        draw(&s);
        let _ = s.set_cursor_mode(CursorMode::Invisible);
        if choose(2, "shown") == 1 {
            let _ = s.refresh();
        }
        let k = choose(PANICS, "panic");
        let gone = choose(2, "device gone") == 1;
        let how = choose(4, "where");
        w().fail_calls = true;
        match how {
            0 => {
                let _ = may_panic(|| explode(&s, k, gone));
                drop(s);
            }
            1 => {
                // The screen is dropped by the panic
                let _ = may_panic(move || {
                    let s = s;
                    explode(&s, k, gone);
                });
            }
            2 => {
                // Twice
                let _ = may_panic(|| explode(&s, k, gone));
                let k2 = choose(3, "second");
                let _ = may_panic(|| match k2 {
                    0 => drop(s.lock_read().unwrap()),
                    1 => drop(s.lock_write().unwrap()),
                    _ => s.write_str("x"),
                });
                drop(s);
            }
            _ => {
                // A real thread; nothing else runs meanwhile
                let _ = std::thread::scope(|sc| sc.spawn(|| may_panic(|| explode(&s, k, gone))).join());
                drop(s);
            }
        }
        if !gone {
            given_back("after a panic", &o);
        }
        check!(w().open_fds() == 0, "descriptor", "{} descriptors are left open", w().open_fds());
        outcome(&(k, how, w().injected));
    })
}

/// Terminals without a screen
fn terminal_panics() -> Job {
    job("panics on a terminal", 1, || {
        let o = begin("xterm");
        let t = open();
        let prep = choose(2, "prepared") == 1;
        let st = if prep { Some(ok(t.prepare(full()), "prepare")) } else { None };
        let _ = t.set_cursor_mode(CursorMode::Invisible);
        let k = choose(6, "panic");
        let r = may_panic(|| {
            let _r;
            let wr;
            match k {
                0 => _r = t.lock_read().unwrap(),
                1 => wr = t.lock_write().unwrap(),
                2 => {
                    _r = t.lock_read().unwrap();
                    wr = t.lock_write().unwrap();
                    let _ = wr.size();
                }
                3 => {
                    let _ = write!(t, "{}", Bomb);
                }
                4 => {
                    let _ = term_write!(t, [bold] "a" ("{}", Bomb));
                }
                _ => (),
            }
            panic!("boom");
        });
        check!(r.is_err(), "panic", "no panic");
        w().fail_calls = true;
        if let Some(st) = st {
            // Poisoned locks can be used
            let mut r = t.lock_read().unwrap_or_else(|e| e.into_inner());
            let mut wr = t.lock_write().unwrap_or_else(|e| e.into_inner());
            let n = w().injected;
            let res = r.restore_with_lock(&mut wr, st);
            check!(res.is_ok() == (w().injected == n), "error", "restore says {:?} after {} failures", res, w().injected - n);
        }
        drop(t);
        given_back("after a panic", &o);
        check!(w().open_fds() == 0, "descriptor", "{} descriptors are left open", w().open_fds());
        outcome(&(k, prep, w().injected));
    })
}

/// A prepare that fails changes nothing; a restore that fails in one step does the others.
fn part_way(bound: u32, nest: bool) -> Job {
    let cs = configs();
    job(&format!("prepare and restore with {} failing calls{}", bound, if nest { ", nested" } else { "" }), bound, move || {
        begin(*choose_of(&["xterm", "linux"], "terminal"));
        let t = open();
        let how = choose(3, "how");
        let o0 = original();
        let outer = if nest {
            Some(prepare(&t, 0, choose_of(&cs, "outer").0))
        } else {
            None
        };
        let k = choose(cs.len() + 1, "config");
        let c = if k < cs.len() { cs[k].0 } else { full() };
        let rep0 = reported(&t);
        let o1 = original();
        w().fail_calls = true;
        let n = w().injected;
        step();
        let r = match how {
            0 => t.prepare(c),
            1 => t.lock_read().unwrap().prepare(c),
            _ => {
                let mut r = t.lock_read().unwrap();
                let mut wr = t.lock_write().unwrap();
                r.prepare_with_lock(&mut wr, c)
            }
        };
        match r {
            Ok(st) => {
                check!(w().injected == n, "error", "prepare succeeds although {} calls failed", w().injected - n);
                let r = match how {
                    0 => t.restore(st),
                    1 => t.lock_read().unwrap().restore(st),
                    _ => {
                        let mut r = t.lock_read().unwrap();
                        let mut wr = t.lock_write().unwrap();
                        r.restore_with_lock(&mut wr, st)
                    }
                };
                check!(r.is_ok() == (w().injected == n), "error", "restore says {:?} after {} failures", r, w().injected - n);
                given_back("after restoring", &o1);
            }
            Err(_) => {
                check!(w().injected > n, "error", "prepare fails although no call failed");
                given_back("after prepare failed", &o1);
            }
        }
        let clean = !w().tio_failed && w().sig_failed == 0 && !w().write_failed;
        w().fail_calls = false;
        if clean {
            let rep = reported(&t);
            check!(rep == rep0, "reported", "signals reported {:?} instead of {:?}", rep, rep0);
        }
        if let Some(st) = outer {
            ok(t.restore(st), "restore");
            given_back("after restoring the outer one", &o0);
        }
        outcome(&(k, w().injected));
    })
}

/// Prepare and restore with a write guard whose buffer is nearly full, so that it is sent in
/// the middle of the steps.
fn full_buffer(bound: u32, kinds: usize) -> Job {
    let cs = configs();
    job(&format!("prepare and restore with output waiting and {} failing calls", bound), bound, move || {
        begin("xterm");
        let t = open();
        let k = choose(kinds.min(cs.len()) + 1, "config");
        let c = if k > 0 { cs[k - 1].0 } else { full() };
        // Sequences of 7 to 8 bytes each; the buffer takes 8192
        let left = choose(45, "room");
        let when = choose(3, "filled");
        let o = original();
        let text = "a".repeat(8192 - left);
        {
            let mut r = t.lock_read().unwrap();
            let mut g = t.lock_write().unwrap();
            if when != 1 {
                ok(g.write_str(&text), "write_str");
            }
            w().fail_calls = true;
            let n = w().injected;
            step();
            match r.prepare_with_lock(&mut g, c) {
                Ok(st) => {
                    check!(w().injected == n, "error", "prepare succeeds although {} calls failed", w().injected - n);
                    if when != 0 {
                        w().fail_calls = false;
                        ok(g.flush(), "flush");
                        ok(g.write_str(&text), "write_str");
                        w().fail_calls = true;
                    }
                    step();
                    let r = r.restore_with_lock(&mut g, st);
                    check!(r.is_ok() == (w().injected == n), "error", "restore says {:?} after {} failures", r, w().injected - n);
                }
                Err(_) => check!(w().injected > n, "error", "prepare fails although no call failed"),
            }
            w().fail_calls = false;
            // What is left in the buffer goes out
            let _ = g.flush();
        }
        // The step whose output could not be sent may be lost with it, but only that one
        if w().injected == 0 {
            given_back("after restoring", &o);
        } else if w().injected == 1 {
            let m = &w().vt.modes;
            let keypad = m.keypad != o.modes.keypad;
            let mouse = mouse_mode(m) != mouse_mode(&o.modes);
            check!(!(keypad && mouse), "modes", "after one failure both the keypad mode and mouse reporting are left on");
            check!(w().tio_failed || tio_eq(&o.tio, &w().tio), "tio", "device modes {} instead of {}", tio_str(&w().tio), tio_str(&o.tio));
        }
        outcome(&(k, left, w().injected));
    })
}

pub fn c09(thorough: bool) -> Check {
    let t = thorough as u32;
    let mut jobs = vec![
        failures(1, 8, &["xterm", "linux", "tmux", "mc-min"]),
        failures(2, 8, &["xterm", "linux", "tmux", "mc-min"]),
        dead(),
        panics(0, 7),
        panics(1, 7),
        panics(2, 2),
        terminal_panics(),
        part_way(2, true),
        part_way(2, false),
        full_buffer(1, 7),
    ];
    if thorough {
        jobs.push(failures(2 + t, 8, &["xterm"]));
        jobs.push(failures(4, 3, &["xterm"]));
        jobs.push(panics(3, 2));
        jobs.push(part_way(3, true));
        jobs.push(part_way(3, false));
    }
    Check {
        id: "C09",
        jobs,
        rule: "sessions of eight kinds with seven configurations in which any one, or any two, system calls fail (open, attributes, window size, signal actions, reads, waits, writes), while opening, using and closing a screen; a device that is gone from any moment on; panics at twelve places with each combination of locks, in the same thread, in one that owns the screen, twice, or in another thread, with one failing call; prepare and restore with one or two failing calls, also nested, and with a write guard whose output buffer becomes full in the middle of them. Everything must be restored except what the last attempt at setting it failed for.",
        assumptions: vec!["a failed call changes nothing"],
    }
}
