//! Histories longer than what 16 bits count, for several properties.

use std::time::Duration;

use mortal::unix::TerminalExt;
use mortal::{Color, Event, Key, PrepareConfig, Screen, Size, Style, Terminal};

use super::screen::rig;
use crate::engine::{choose, choose_of, job, outcome, step, violation, Job};
use crate::model::Op;
use crate::term::{attrs, ok, open, open_screen, set};
use crate::world::{apply, arm, tio_eq, tio_str, w, Stim};

const NOW: Option<Duration> = Some(Duration::from_secs(0));

/// Rounds
const N: usize = 66_000;

/// What grows with every call is forgotten.
fn forget() {
    step();
    let wd = w();
    wd.calls = 0;
    wd.out.clear();
    wd.handled.clear();
    wd.foreign.clear();
    wd.stderr.clear();
}

/// C01
pub fn refreshes() -> Job {
    job("66,000 refreshes", 0, || {
        set("xterm");
        let mut r = rig(2, 3);
        let how = choose(4, "changes");
        r.op(&Op::StyledAt(0, 0, attrs(Some(1), None, 0), "ab".into()));
        // Whatever is done in a certain round is done at each place
        let shift = if how == 0 { 0 } else { choose(6, "shift") };
        // Refreshing through a Screen may refresh again as its guard is dropped
        if how == 1 && choose(2, "one more") == 1 {
            drop(r.s.lock_write());
        }
        for i in shift..shift + N {
            match how {
                0 => (),
                1 => r.op(&Op::At(i % 2, i % 3, ["x", "y", "z", "w"][i / 3 % 4].into())),
                2 => r.op(&Op::Cursor(i % 2, i % 3)),
                _ => {
                    if i % 4 == 0 {
                        r.op(&Op::Clear);
                    }
                    r.op(&Op::StyledAt(i % 2, i % 3, attrs(Some((i % 8) as u8), None, (i % 16) as u8), "q".into()));
                }
            }
            ok(r.s.refresh(), "refresh");
            if let Some(d) = r.m.diff(&w().vt) {
                violation("display", &format!("after refresh {}: {}", i - shift + 1, d));
            }
            forget();
        }
        outcome(&how);
    })
}

/// C03
pub fn resizes() -> Job {
    job("66,000 resizes", 0, || {
        set("xterm");
        let mut r = rig(2, 3);
        let drawn = choose(2, "draw") == 1;
        for i in 0..N {
            let (l, c) = [(2, 4), (3, 2), (2, 3), (1, 1)][i % 4];
            apply(Stim::Resize(l as u16, c as u16));
            w().vt.g.wrap = false;
            let e = ok(r.s.read_event(NOW), "read");
            check!(
                e == Some(Event::Resize(Size { lines: l, columns: c })),
                "event",
                "event {:?} after the {}. resize, to {}x{}",
                e,
                i + 1,
                l,
                c
            );
            r.m.resize(l, c);
            w().vt.garbage.clear();
            w().vt.scrolls = 0;
            if drawn {
                r.op(&Op::At(0, 0, ["x", "y", "z", "w", "v"][i % 5].into()));
            }
            ok(r.s.refresh(), "refresh");
            if let Some(d) = r.m.diff(&w().vt) {
                violation("display", &format!("after resize {}: {}", i + 1, d));
            }
            forget();
        }
        outcome(&drawn);
    })
}

/// C04
pub fn attributes() -> Job {
    job("66,000 changes of attributes", 0, || {
        set(*choose_of(&["xterm", "linux"], "terminal"));
        arm(2, 5);
        w().vt.junk();
        let how = choose(3, "how");
        let t = open();
        for i in 0..N {
            let (f, b) = ([Color::Red, Color::Green, Color::Blue][i % 3], [None, Some(Color::Cyan)][i / 3 % 2]);
            let st = [Style::BOLD, Style::empty(), Style::UNDERLINE, Style::REVERSE | Style::BOLD][i % 4];
            let mut want = attrs(Some(crate::term::num(f)), b.map(crate::term::num), 0);
            for (k, s) in [(crate::vt::BOLD, Style::BOLD), (crate::vt::UNDERLINE, Style::UNDERLINE), (crate::vt::REVERSE, Style::REVERSE)] {
                if st.contains(s) {
                    want.style |= k;
                }
            }
            let res = match how {
                0 => t.set_fg(f).and_then(|_| t.set_bg(b)).and_then(|_| t.set_style(st)).and_then(|_| t.write_str("m\r")),
                1 => t.write_styled(f, b, st, "m").and_then(|_| t.write_str("\r")),
                _ => {
                    let mut g = t.lock_write().unwrap();
                    g.set_theme(mortal::Theme { fg: Some(f), bg: b, style: st }).and_then(|_| g.write_str("m\r"))
                }
            };
            ok(res, "writing");
            let c = &w().vt.g.cells[0][0];
            check!(
                c.text == "m" && c.attrs == want,
                "attributes",
                "the {}. text is written as {:?} with {:?} instead of {:?}",
                i + 1,
                c.text,
                c.attrs,
                want
            );
            forget();
        }
        outcome(&how);
    })
}

/// C05
pub fn writes() -> Job {
    job("66,000 writes", 0, || {
        set("xterm");
        arm(3, 8);
        w().no_vt = true;
        let how = choose(3, "how");
        let t = open();
        let mut sent: Vec<u8> = vec![];
        for i in 0..N {
            let text = format!("{}é", i % 10);
            // Written at once, at a flush, or at the end of a guard
            match how {
                0 => ok(t.write_str(&text), "write_str"),
                1 => {
                    let mut g = t.lock_write().unwrap();
                    ok(g.write_str(&text), "write_str");
                    ok(g.flush(), "flush");
                }
                _ => ok(t.lock_write().unwrap().write_str(&text), "write_str"),
            }
            sent.extend_from_slice(text.as_bytes());
            check!(w().out == sent, "content", "after {} writes, the device received {:?}", i + 1, w().out_str());
            forget();
            sent.clear();
        }
        // And all with one guard
        let mut g = t.lock_write().unwrap();
        for i in 0..N {
            let text = [b"0123456789"[i % 10], b'\r', b'\n'];
            ok(g.write_str(std::str::from_utf8(&text[..1 + i % 3]).unwrap()), "write_str");
            sent.extend_from_slice(&text[..1 + i % 3]);
            w().calls = 0;
        }
        ok(g.flush(), "flush");
        check!(w().out == sent, "content", "{} writes with a guard are not what the device received", N);
        drop(g);
        outcome(&how);
    })
}

/// C06
pub fn failures() -> Job {
    job("66,000 failed refreshes", 0, || {
        set("xterm");
        let mut r = rig(2, 3);
        let fail = *choose_of(&[0, 1, 2], "failing write");
        w().write_max = choose(2, "device takes") * 4;
        for i in 0..N {
            r.op(&Op::StyledAt(i % 2, i % 3, attrs(Some((i % 8) as u8), None, 0), ["q", "r"][i / 2 % 2].into()));
            if fail == 0 {
                w().dead = Some(libc::EIO);
            } else {
                w().fail_write_at = w().writes + fail;
            }
            let said = r.s.refresh().is_ok();
            w().dead = None;
            w().fail_write_at = 0;
            if !said {
                ok(r.s.refresh(), "refresh");
            }
            if let Some(d) = r.m.diff(&w().vt) {
                violation("display", &format!("after failed refresh {} and a successful one: {}", i + 1, d));
            }
            forget();
        }
        outcome(&fail);
    })
}

/// C07
pub fn rounds() -> Job {
    job("66,000 prepares and restores", 0, || {
        set("xterm");
        arm(2, 5);
        let how = choose(3, "what");
        let mut cfg = PrepareConfig { enable_mouse: true, block_signals: false, ..PrepareConfig::default() };
        cfg.report_signals.insert(mortal::Signal::Interrupt);
        let (tio, sig, modes) = (w().tio, w().sig.clone(), w().vt.modes.clone());
        let term = open();
        for i in 0..N {
            match how {
                0 => {
                    let s = ok(term.prepare(cfg), "prepare");
                    ok(term.restore(s), "restore");
                }
                1 => {
                    let s = ok(term.prepare(cfg), "prepare");
                    apply(Stim::Continue);
                    for _ in 0..2 {
                        ok(term.read_event(NOW), "read");
                    }
                    ok(term.restore(s), "restore");
                }
                _ => {
                    // Opening reads the terminal description
                    if i > N / 32 {
                        break;
                    }
                    drop(open_screen(cfg));
                }
            }
            let wd = w();
            check!(tio_eq(&tio, &wd.tio), "tio", "after {} rounds, device modes {}", i + 1, tio_str(&wd.tio));
            check!(sig == wd.sig, "disposition", "after {} rounds, dispositions of signals differ", i + 1);
            let m = &wd.vt.modes;
            check!(
                (m.keypad, m.app_cursor, m.mouse, m.alt, m.cursor_hidden)
                    == (modes.keypad, modes.app_cursor, modes.mouse, modes.alt, modes.cursor_hidden),
                "modes",
                "after {} rounds, the modes of the terminal differ",
                i + 1
            );
            wd.fds.retain(|f| f.open);
            forget();
        }
        outcome(&how);
    })
}

/// C10, C11 (mouse reports), C12 (raw reads)
pub fn reads(kind: usize) -> Job {
    job(["66,000 keys", "66,000 mouse reports", "66,000 raw reads"][kind], 0, move || {
        set("xterm");
        arm(70, 70);
        w().no_vt = true;
        let t = open();
        ok(t.prepare(PrepareConfig { enable_mouse: true, ..PrepareConfig::default() }), "prepare");
        // As much at once, and how long the read waits
        let chunk = *choose_of(&[1, 3, 40], "chunk");
        let wait = [None, NOW][choose(2, "timeout")];
        let screen = choose(2, "screen") == 1;
        enum D {
            T(Terminal),
            S(Screen),
        }
        let mut d = if screen { D::S(ok(Screen::with_terminal(t, PrepareConfig { enable_mouse: true, ..PrepareConfig::default() }), "screen")) } else { D::T(t) };
        let mut i = 0;
        while i < N {
            let item = |k: usize| -> (Vec<u8>, Option<Event>) {
                if kind == 1 {
                    let (l, c) = (k % 60, k % 59);
                    let e = mortal::MouseEvent {
                        position: mortal::Cursor { line: l, column: c },
                        input: mortal::MouseInput::ButtonPressed(mortal::MouseButton::Left),
                        modifiers: mortal::ModifierState::empty(),
                    };
                    return (format!("\x1b[<0;{};{}M", c + 1, l + 1).into_bytes(), Some(Event::Mouse(e)));
                }
                match k % 4 {
                    0 => (b"\x1b[24~".to_vec(), Some(Event::Key(Key::F(12)))),
                    1 => ("é".into(), Some(Event::Key(Key::Char('é')))),
                    2 => ("あ".into(), Some(Event::Key(Key::Char('あ')))),
                    _ => (b"q".to_vec(), Some(Event::Key(Key::Char('q')))),
                }
            };
            let items: Vec<_> = (i..i + chunk).map(item).collect();
            let all: Vec<u8> = items.iter().flat_map(|x| x.0.iter().cloned()).collect();
            apply(Stim::Input(all.clone()));
            if kind == 2 {
                let mut got = vec![];
                while got.len() < all.len() {
                    let mut b = [0; 7];
                    let e = match &mut d {
                        D::T(t) => ok(t.read_raw(&mut b, wait), "read_raw"),
                        D::S(t) => ok(t.read_raw(&mut b, wait), "read_raw"),
                    };
                    match e {
                        Some(Event::Raw(n)) => got.extend_from_slice(&b[..n]),
                        e => violation("raw", &format!("a raw read returns {:?} at round {}", e, i)),
                    }
                }
                check!(got == all, "raw", "raw reads return {:?} instead of {:?} at round {}", got, all, i);
            } else {
                for (_, want) in items {
                    let e = match &d {
                        D::T(t) => ok(t.read_event(wait), "read_event"),
                        D::S(t) => ok(t.read_event(wait), "read_event"),
                    };
                    check!(e == want, "event", "at round {}, {:?} is read instead of {:?}", i, e, want);
                }
            }
            i += chunk;
            forget();
        }
        outcome(&chunk);
    })
}

/// C14
pub fn waits() -> Job {
    job("66,000 waits", 0, || {
        set("xterm");
        arm(2, 5);
        w().no_vt = true;
        let how = choose(3, "how");
        let mut t = open();
        let d = *choose_of(&[0, 1, 250], "milliseconds");
        for i in 0..N {
            let from = w().now;
            let d = Duration::from_millis(d);
            let got = match how {
                0 => ok(t.wait_event(Some(d)), "wait_event"),
                1 => ok(t.read_event(Some(d)), "read_event").is_some(),
                _ => ok(t.read_raw(&mut [0; 4], Some(d)), "read_raw").is_some(),
            };
            let el = w().now - from;
            check!(!got, "invented", "wait {} ends with an event", i + 1);
            check!(
                el >= d.as_micros() as u64 && el <= d.as_micros() as u64 + 1000,
                "timeout",
                "wait {} of {:?} ends after {} us",
                i + 1,
                d,
                el
            );
            forget();
            w().waits.clear();
        }
        outcome(&how);
    })
}
