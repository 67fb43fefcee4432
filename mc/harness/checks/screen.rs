//! C01 refresh convergence, C02 text layout, C03 resize, C06 failed refreshes.

use std::time::Duration;

use mortal::unix::TerminalExt;
use mortal::{Event, PrepareConfig, Screen, Size};

use crate::engine::{choose, choose_of, job, outcome, state, step, Check, Job};
use crate::model::{draw, draw_guard, Op, ScreenModel};
use crate::term::{attrs, ok, open_screen, set};
use crate::vt::{Attrs, Cell, BOLD, ITALIC, REVERSE, UNDERLINE};
use crate::world::{apply, arm, w, Stim, WriteFault};

const W: char = 'あ';
const W2: char = '漢';
const MARK: char = '\u{301}';

pub struct Rig {
    pub s: Screen,
    pub m: ScreenModel,
}

pub fn rig(lines: usize, cols: usize) -> Rig {
    arm(lines as u16, cols as u16);
    w().vt.junk();
    let s = open_screen(PrepareConfig::default());
    Rig { s, m: ScreenModel::new(lines, cols) }
}

impl Rig {
    pub fn op(&mut self, op: &Op) {
        step();
        trace!("{:?}", op);
        draw(&self.s, op);
        self.m.apply(op);
        let c = self.s.cursor();
        check!(
            (c.line, c.column) == self.m.cur,
            "cursor",
            "after {:?} the cursor is at {:?} instead of {:?}",
            op,
            (c.line, c.column),
            self.m.cur
        );
    }

    pub fn refresh(&mut self) {
        step();
        trace!("refresh");
        // As Screen::refresh does; the end of the guard refreshes once more
        let mut g = self.s.lock_write().unwrap();
        ok(g.refresh(), "refresh");
        self.compare();
        drop(g);
        self.shows();
    }

    fn compare(&self) {
        if let Some(d) = self.m.diff(&w().vt) {
            crate::engine::violation("display", &format!("after a refresh: {}", d));
        }
    }

    pub fn shows(&self) {
        self.compare();
        state(&(&self.m, w().vt.hash()));
    }
}

/// Refreshes, directly or through a guard. Whether it reports success: the end of the guard, which
/// refreshes too, reports failure on standard error. What is displayed must be right then.
fn try_refresh(r: &Rig, guard: bool) -> bool {
    let said = w().stderr.len();
    let res = if guard {
        let mut g = r.s.lock_write().unwrap();
        let res = g.refresh();
        if res.is_ok() {
            r.shows();
        }
        res
    } else {
        r.s.refresh()
    };
    trace!("refresh: {:?}", res);
    if w().stderr.len() > said {
        return false;
    }
    r.shows();
    res.is_ok()
}

fn s(x: &str) -> String {
    x.to_string()
}

// ---------------------------------------------------------------- C02

/// Every text over an alphabet, written from every cursor position.
fn texts(name: &str, lines: usize, cols: usize, alphabet: Vec<char>, len: usize, everywhere: bool, prefill: bool) -> Job {
    let name = format!("{} {}x{} length {}", name, lines, cols, len);
    job(&name, 0, move || {
        set("xterm");
        let mut r = rig(lines, cols);
        if prefill {
            // Wide characters everywhere they fit, from a chosen offset
            let off = choose(2, "prefill");
            for l in 0..lines {
                let mut c = off;
                while c + 2 <= cols {
                    r.op(&Op::StyledAt(l, c, attrs(Some(1), None, 0), s("漢")));
                    c += 2;
                }
            }
            r.op(&Op::Cursor(0, 0));
        }
        if everywhere {
            let k = choose((lines + 1) * (cols + 1), "cursor");
            r.op(&Op::Cursor(k / (cols + 1), k % (cols + 1)));
        }
        r.op(&Op::Fg(Some(2)));
        let n = choose(len, "length") + 1;
        if choose(2, "as-string") == 0 {
            for _ in 0..n {
                let ch = *choose_of(&alphabet, "char");
                r.op(&Op::Ch(ch));
            }
        } else {
            let t: String = (0..n).map(|_| *choose_of(&alphabet, "char")).collect();
            r.op(&Op::Str(t));
        }
        r.refresh();
        outcome(&r.m);
    })
}

fn layout_ops(lines: usize, cols: usize) -> Vec<Op> {
    let st = attrs(Some(1), Some(4), BOLD);
    let mut v = vec![
        Op::Ch('a'),
        Op::Ch(W),
        Op::Ch(MARK),
        Op::Ch('\n'),
        Op::Ch('\r'),
        Op::Str(s("xyz\tあ\nb")),
        Op::Styled(st, s("s")),
        Op::Styled(st, s("長い文字列です long enough to overflow any of these screens")),
        Op::StyledAt(0, cols - 1, st, s("あq")),
        Op::StyledAt(lines, 0, st, s("never")),
        Op::At(0, cols, s("never")),
        Op::At(lines - 1, cols - 1, s("ab")),
        Op::At(lines - 1, 0, s("漢漢漢")),
        Op::NextLine(1),
        Op::NextLine(usize::MAX),
        Op::Cursor(usize::MAX, usize::MAX),
        Op::Cursor(usize::MAX, 0),
        Op::Cursor(0, usize::MAX),
        Op::Cursor(lines, 0),
        Op::AddStyle(UNDERLINE),
        Op::Clear,
    ];
    for l in 0..lines {
        for c in 0..cols {
            v.push(Op::Cursor(l, c));
        }
    }
    v
}

fn layout(lines: usize, cols: usize, depth: usize) -> Job {
    job(&format!("operations {}x{} depth {}", lines, cols, depth), 0, move || {
        set("xterm");
        let mut r = rig(lines, cols);
        let ops = layout_ops(lines, cols);
        for _ in 0..depth {
            let op = choose_of(&ops, "op");
            r.op(op);
        }
        r.refresh();
        outcome(&r.m);
    })
}

/// Long texts on screens of realistic sizes, from places next to every edge.
fn long_texts(lines: usize, cols: usize) -> Job {
    job(&format!("long texts {}x{}", lines, cols), 0, move || {
        set("xterm-256color");
        let mut lens = vec![1, 2, 7, 8, 9, 100, 127, 128, 255, 256, 257, 512, 1024, 4096];
        for k in [cols, 2 * cols, lines * cols] {
            lens.extend([k - 1, k, k + 1]);
        }
        lens.sort();
        lens.dedup();
        let n = *choose_of(&lens, "length");
        let kind = choose(5, "text");
        let (l, c) = [(0, 0), (0, cols - 1), (lines / 2, cols / 2), (lines - 1, 0), (lines - 1, cols - 1)][choose(5, "start")];
        let way = choose(4, "how");
        let t: String = (0..n)
            .map(|i| match kind {
                0 => (b'!' + (i % 93) as u8) as char,
                1 => char::from_u32(0x4e00 + (i % 3000) as u32).unwrap(),
                2 => ['a', 'あ', MARK, 'b', MARK, MARK, 'c'][i % 7],
                3 => ['a', '\t', 'b', 'c', 'あ', '\t', 'd', 'e', 'f', 'g', 'h', 'i'][i % 12],
                _ => match i % 29 {
                    7 => '\n',
                    19 => '\r',
                    k => (b'a' + (k % 26) as u8) as char,
                },
            })
            .collect();
        let mut r = rig(lines, cols);
        match way {
            0 => r.op(&Op::At(l, c, t)),
            1 => r.op(&Op::StyledAt(l, c, attrs(Some(1), None, BOLD), t)),
            2 => {
                r.op(&Op::Cursor(l, c));
                r.op(&Op::Str(t));
            }
            _ => {
                r.op(&Op::Cursor(l, c));
                for ch in t.chars() {
                    draw(&r.s, &Op::Ch(ch));
                    r.m.apply(&Op::Ch(ch));
                }
                r.op(&Op::Ch('|'));
            }
        }
        r.op(&Op::Ch('$'));
        r.refresh();
        outcome(&r.m);
    })
}

pub fn c02(thorough: bool) -> Check {
    let t = thorough as usize;
    let small = vec!['a', W, MARK, '\n', '\r'];
    let full = vec!['a', W, MARK, '\n', '\r', '\t', '\x07'];
    let mut jobs = Vec::new();
    for (l, c) in [(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (2, 3), (3, 2), (1, 4), (2, 5)] {
        jobs.push(texts("text", l, c, full.clone(), 5 + t, false, false));
        jobs.push(texts("text anywhere", l, c, small.clone(), 3 + t, true, false));
        jobs.push(texts("text over wide", l, c, small.clone(), 3 + t, true, true));
    }
    for c in [7, 8, 9, 15, 16, 17, 20] {
        jobs.push(texts("tabs", 2, c, vec!['a', '\t', W, '\r'], 3 + t, true, false));
    }
    for (l, c) in [(1, 1), (1, 2), (2, 1), (2, 2), (2, 3)] {
        jobs.push(layout(l, c, 3 + t));
    }
    for (l, c) in [(24, 80), (5, 131), (2, 300), (70, 3)] {
        jobs.push(long_texts(l, c));
    }
    if thorough {
        jobs.push(long_texts(60, 257));
    }
    Check {
        id: "C02",
        jobs,
        rule: "long texts of five kinds with lengths around each size on screens of realistic sizes; every text up to the stated length over a narrow, a wide, a combining, tab, newline, carriage-return and control character, written as one string and character by character from every cursor position (inside and outside) of every listed screen size, onto blank and wide-filled screens; every sequence of drawing operations to the stated depth; each compared with the layout model by cursor and by the emulated display after a refresh",
        assumptions: vec![
            "screens have at least one line and column, as the terminal driver guarantees once a size is set",
            "the emulated terminal wraps, overwrites and combines like xterm; character widths from the unicode-width crate",
        ],
    }
}

// ---------------------------------------------------------------- C01

#[derive(Clone)]
enum Act {
    Op(Op),
    Refresh,
}

fn history(name: &str, lines: usize, cols: usize, term: &'static str, ops: Vec<Op>, depth: usize) -> Job {
    job(&format!("{} {}x{} {} depth {}", name, lines, cols, term, depth), 0, move || {
        set(term);
        let mut r = rig(lines, cols);
        let mut acts: Vec<Act> = vec![Act::Refresh];
        acts.extend(ops.iter().cloned().map(Act::Op));
        let mut fresh = false;
        for _ in 0..depth {
            match *choose_of(&acts, "op") {
                Act::Refresh => {
                    r.refresh();
                    fresh = true;
                }
                Act::Op(ref op) => {
                    r.op(op);
                    fresh = false;
                }
            }
        }
        let _ = fresh;
        r.refresh();
        outcome(&r.m);
    })
}

/// Places next to which something may change: edges, tab stops, and powers of two
fn places(n: usize) -> Vec<usize> {
    let mut v: Vec<usize> =
        [0, 1, 2, 7, 8, 15, 16, 31, 32, 63, 64, 99, 100, 127, 128, 129, 254, 255, 256, 257].iter().cloned().filter(|&x| x < n).collect();
    v.extend([n - 1, n.saturating_sub(2), n / 2]);
    v.sort();
    v.dedup();
    v
}

/// Fills the screen, by lines, in one of several ways.
fn fill(r: &mut Rig, how: usize, shift: usize) {
    let (lines, cols) = (r.m.lines, r.m.cols);
    for l in 0..lines {
        let text: String = match how {
            0 => (0..cols).map(|c| (b'!' + ((l * 7 + c + shift) % 90) as u8) as char).collect(),
            1 => {
                let mut t = String::new();
                let mut c = (l + shift) % 2;
                t.push_str(&"."[..c]);
                while c + 2 <= cols {
                    t.push(char::from_u32(0x4e00 + ((l * 31 + c + shift) % 5000) as u32).unwrap());
                    c += 2;
                }
                t
            }
            _ => (0..cols).map(|c| if c % 5 == 0 { "e\u{301}".to_string() } else { ((b'a' + ((l + c + shift) % 26) as u8) as char).to_string() }).collect(),
        };
        let a = match how {
            0 => attrs(None, None, 0),
            1 => attrs(Some((l % 8) as u8), None, 0),
            _ => attrs(None, Some((l / 2 % 8) as u8), ((l + shift) % 16) as u8),
        };
        let op = Op::StyledAt(l, 0, a, text);
        draw(&r.s, &op);
        r.m.apply(&op);
    }
}

/// A change at every interesting place of a filled screen of a realistic size, and another one next to it.
fn realistic(lines: usize, cols: usize, fills: usize, second: bool) -> Job {
    realistic_at(lines, cols, fills, second, places(lines), places(cols))
}

fn realistic_at(lines: usize, cols: usize, fills: usize, second: bool, at_lines: Vec<usize>, at_cols: Vec<usize>) -> Job {
    job(&format!("filled screen {}x{}", lines, cols), 0, move || {
        set("xterm-256color");
        let how = choose(fills, "filling");
        let l = *choose_of(&at_lines, "line");
        let c = *choose_of(&at_cols, "column");
        let mut r = rig(lines, cols);
        fill(&mut r, how, 0);
        r.refresh();
        let edits = |l: usize, c: usize| {
            vec![
                Op::At(l, c, s("x")),
                Op::At(l, c, s("漢")),
                Op::StyledAt(l, c, attrs(Some(3), Some(4), BOLD), s("yあ\tz")),
                Op::StyledAt(l, c, attrs(None, None, 0), s("u\u{301}\nv")),
                Op::Cursor(l, c),
            ]
        };
        r.op(choose_of(&edits(l, c), "change"));
        r.refresh();
        if second {
            match choose(3, "then") {
                0 => (),
                1 => {
                    let e = edits((l + 1) % lines, (c + 1) % cols);
                    r.op(choose_of(&e, "change"));
                }
                _ => fill(&mut r, how, 1),
            }
            r.refresh();
        }
        outcome(&r.m);
    })
}

/// A Screen made from a Terminal that was used before, or after another Screen.
fn used_terminal(term: &'static str, depth: usize) -> Job {
    job(&format!("a used terminal {} depth {}", term, depth), 0, move || {
        set(term);
        arm(2, 4);
        w().vt.junk();
        if choose(2, "an earlier screen") == 1 {
            let e = open_screen(PrepareConfig::default());
            e.set_fg(mortal::Color::Green);
            e.write_styled(None, mortal::Color::Blue, mortal::Style::UNDERLINE, "earlier");
            ok(e.refresh(), "refresh");
            let _ = e.set_cursor_mode(mortal::CursorMode::Invisible);
        }
        let t = crate::term::open();
        for _ in 0..depth {
            step();
            let k = choose(13, "before");
            trace!("before: {}", k);
            match k {
                0 => (),
                1 => ok(t.set_fg(mortal::Color::Red), "set_fg"),
                2 => ok(t.set_bg(mortal::Color::Blue), "set_bg"),
                3 => ok(t.add_style(mortal::Style::BOLD | mortal::Style::UNDERLINE), "add_style"),
                4 => ok(t.reverse(), "reverse"),
                5 => ok(t.write_str("some text, more than the screen has room for"), "write_str"),
                6 => {
                    // Not flushed
                    let mut g = t.lock_write().unwrap();
                    ok(g.set_bg(mortal::Color::Green), "set_bg");
                    ok(g.write_str("xyz"), "write_str");
                }
                // Not every terminal can do these
                7 => {
                    let _ = t.move_down(1);
                }
                8 => {
                    let _ = t.set_cursor_mode(mortal::CursorMode::Invisible);
                }
                9 => {
                    ok(t.prepare(PrepareConfig { enable_mouse: true, ..PrepareConfig::default() }), "prepare");
                }
                10 => {
                    let p = ok(t.prepare(PrepareConfig::default()), "prepare");
                    ok(t.restore(p), "restore");
                }
                11 => {
                    w().dead = Some(libc::EIO);
                    let _ = t.write_styled(mortal::Color::Cyan, None, mortal::Style::REVERSE, "failed");
                    w().dead = None;
                }
                _ => {
                    let _ = t.clear_screen();
                }
            }
        }
        let s0 = match Screen::with_terminal(t, PrepareConfig::default()) {
            Ok(s0) => s0,
            Err(e) => crate::engine::violation("open-failed", &format!("opening the screen failed: {}", e)),
        };
        // What the terminal printed before may have scrolled
        w().vt.scrolls = 0;
        let mut r = Rig { s: s0, m: ScreenModel::new(2, 4) };
        match choose(4, "draw") {
            0 => (),
            1 => r.op(&Op::Str(s("ab\nあ"))),
            2 => {
                r.op(&Op::Fg(Some(1)));
                r.op(&Op::Ch('c'));
            }
            _ => r.op(&Op::StyledAt(1, 1, attrs(Some(3), Some(4), REVERSE), s("d"))),
        }
        r.refresh();
        r.op(&Op::At(0, 2, s("e")));
        r.op(&Op::StyledAt(1, 3, attrs(None, Some(1), 0), s("f")));
        r.refresh();
        outcome(&r.m);
    })
}

pub fn c01(thorough: bool) -> Check {
    let t = thorough as usize;
    let red = attrs(Some(1), None, 0);
    let mut jobs = Vec::new();
    // Overlapping wide and narrow characters on one line
    let overlap = |cols: usize| -> Vec<Op> {
        let mut v = Vec::new();
        for c in 0..cols {
            v.push(Op::At(0, c, s("a")));
            v.push(Op::At(0, c, s("あ")));
        }
        v.push(Op::At(0, 1, s("\u{301}")));
        v.push(Op::Clear);
        v
    };
    jobs.push(history("overlap", 1, 3, "xterm", overlap(3), 5 + t));
    jobs.push(history("overlap", 1, 4, "xterm", overlap(4), 4 + t));
    jobs.push(history("overlap", 2, 2, "xterm", overlap(2), 5 + t));
    // Texts of the same length, and texts that begin or end alike
    let marks = vec![
        Op::At(0, 0, s("a")),
        Op::At(0, 0, s("a\u{301}")),
        Op::At(0, 0, s("a\u{300}")),
        Op::At(0, 0, s("e\u{301}")),
        Op::At(0, 0, s("a\u{301}\u{300}")),
        Op::At(0, 0, s("a\u{301}\u{302}")),
        Op::At(0, 0, s("a\u{300}\u{302}")),
        Op::At(0, 0, s("é\u{301}")),
        Op::At(0, 0, s("あ\u{301}")),
        Op::At(0, 0, s("い\u{301}")),
        Op::At(0, 0, s("a\u{301}\u{300}\u{302}\u{303}\u{304}\u{305}")),
        Op::At(0, 0, s("a\u{301}\u{300}\u{302}\u{303}\u{304}\u{306}")),
        Op::At(0, 1, s("\u{306}")),
    ];
    jobs.push(history("marks", 1, 3, "xterm", marks, 3 + t));
    // Same text in different attributes, and back
    let styles = vec![
        Op::StyledAt(0, 0, red, s("a")),
        Op::StyledAt(0, 0, attrs(None, Some(1), 0), s("a")),
        Op::StyledAt(0, 0, attrs(None, None, BOLD), s("a")),
        Op::StyledAt(0, 0, attrs(None, None, ITALIC | UNDERLINE), s("a")),
        Op::At(0, 0, s("a")),
        Op::StyledAt(0, 1, attrs(Some(1), Some(2), REVERSE), s("あ")),
        Op::StyledAt(0, 1, attrs(None, Some(2), REVERSE), s("あ")),
        Op::StyledAt(0, 2, attrs(None, Some(3), 0), s(" ")),
        Op::Clear,
    ];
    for term in ["xterm", "xterm-color", "mc-min", "linux", "tmux", "mc-reset", "mc-nohome", "vt100", "screen", "rxvt-unicode", "mc-pad"] {
        if term == "mc-nohome" {
            // Has neither attributes nor a home sequence: entering a screen must fail cleanly
            continue;
        }
        // What it cannot show cannot be compared there
        let caps = crate::model::caps(term);
        let st: Vec<Op> = styles
            .iter()
            .map(|o| match o {
                Op::StyledAt(l, c, a, t) => Op::StyledAt(*l, *c, crate::model::visible(*a, caps), t.clone()),
                o => o.clone(),
            })
            .collect();
        jobs.push(history("attributes", 1, 3, term, st, 3 + t + (term == "xterm") as usize));
    }
    // Pieces of everything, over more than one line
    let mixed = vec![
        Op::Str(s("ab")),
        Op::Ch(W2),
        Op::Ch('\n'),
        Op::Ch(MARK),
        Op::Cursor(0, 0),
        Op::Cursor(1, 1),
        Op::Cursor(0, 2),
        Op::Cursor(9, 9),
        Op::Clear,
        Op::Fg(Some(3)),
        Op::Bg(Some(5)),
        Op::SetStyle(BOLD | UNDERLINE),
        Op::RemStyle(BOLD),
        Op::ClearAttrs,
        Op::Theme(attrs(None, Some(6), ITALIC)),
        Op::StyledAt(1, 0, attrs(Some(7), None, REVERSE), s("漢z")),
        Op::NextLine(1),
    ];
    jobs.push(history("mixed", 2, 3, "xterm", mixed.clone(), 4 + t));
    jobs.push(history("mixed", 1, 1, "xterm", mixed.clone(), 3 + t));
    jobs.push(history("mixed", 3, 2, "xterm", mixed.clone(), 3 + t));
    jobs.push(history("mixed", 2, 5, "xterm-256color", mixed, 3 + t));
    for (l, c) in [(24, 80), (3, 300), (270, 4)] {
        jobs.push(realistic(l, c, 3, l == 24 || thorough));
    }
    // More than 65536 cells
    jobs.push(realistic_at(260, 260, 1, true, vec![0, 251, 252, 253, 259], vec![0, 15, 16, 258, 259]));
    if thorough {
        jobs.push(realistic(50, 132, 3, true));
        jobs.push(realistic(260, 260, 1, false));
    }
    for term in ["xterm", "linux", "tmux", "mc-reset"] {
        jobs.push(used_terminal(term, 1 + (term == "xterm" || thorough) as usize));
    }
    // More refreshes than anything small would count
    jobs.push(super::counts::refreshes());
    jobs.push(job("many refreshes", 0, move || {
        set("xterm");
        let mut r = rig(2, 5);
        let a = choose(5, "first");
        let b = choose(5, "step");
        for i in 0..300 {
            let k = a + i * (b + 1);
            match k % 7 {
                0 => r.op(&Op::At(k / 7 % 2, k % 5, s("ab"))),
                1 => r.op(&Op::At(k / 5 % 2, k % 4, s("漢"))),
                2 => r.op(&Op::StyledAt(k % 2, k / 3 % 5, attrs(Some((k % 8) as u8), None, (k % 16) as u8), s("q"))),
                3 => r.op(&Op::Str(s("xyz"))),
                4 => r.op(&Op::Cursor(k % 3, k % 6)),
                5 => r.op(&Op::Fg(Some((k % 8) as u8))),
                _ => r.op(if k % 3 == 0 { &Op::Clear } else { &Op::Ch('\u{301}') }),
            }
            if k % 3 != 1 {
                r.refresh();
            }
        }
        r.refresh();
        outcome(&r.m);
    }));
    Check {
        id: "C01",
        jobs,
        rule: "a change at every edge, tab stop and power of two of filled screens of realistic sizes; every sequence of drawing operations and refreshes to the stated depth on the listed screen sizes and terminal descriptions; after every refresh the emulated display must equal the model cell by cell, with the cursor in place and no attribute left on; 66,000 refreshes in a row",
        assumptions: vec![
            "the emulated terminal stands for every terminal that follows its description",
            "double-width characters occupy two cells and overwriting one half erases the other, as in xterm",
        ],
    }
}

// ---------------------------------------------------------------- C03

const NOW: Option<Duration> = Some(Duration::from_secs(0));

#[derive(Clone, Debug)]
enum RAct {
    Op(Op),
    Refresh,
    /// Take one event
    Read,
    Resize(usize, usize),
}

fn size(l: usize, c: usize) -> Size {
    Size { lines: l, columns: c }
}

impl Rig {
    /// Reads one event in one of the ways there are; the size it reports.
    fn read_resize(&mut self, how: usize) -> Option<Size> {
        step();
        let mut buf = [0; 8];
        let r = match how {
            0 => self.s.read_event(NOW),
            1 => self.s.lock_read().unwrap().read_event(NOW),
            2 => self.s.read_raw(&mut buf, NOW),
            _ => {
                check!(ok(self.s.wait_event(NOW), "wait"), "wait", "no event although a resize is pending");
                self.s.read_event(NOW)
            }
        };
        trace!("event: {:?}", r);
        match ok(r, "read") {
            None => None,
            Some(Event::Resize(s)) => Some(s),
            Some(e) => crate::engine::violation("event", &format!("event {:?} out of nowhere", e)),
        }
    }
}

/// What terminals do to their display when their size changes.
fn terminal_resized(l: usize, c: usize, kind: usize) {
    apply(Stim::Resize(l as u16, c as u16));
    let vt = &mut w().vt;
    if kind == 1 {
        // Anything may be on the display, and the cursor anywhere
        for row in &mut vt.g.cells {
            for x in row {
                *x = Cell { text: "~".into(), attrs: Attrs { fg: Some(6), bg: Some(5), style: 0 } };
            }
        }
        vt.g.line = l.saturating_sub(1);
        vt.g.col = 0;
    }
    vt.g.wrap = false;
}

fn resizes(
    name: &str,
    term: &'static str,
    sizes: Vec<(usize, usize)>,
    kinds: usize,
    how: usize,
    ops: Vec<Op>,
    depth: usize,
) -> Job {
    job(&format!("{} {} depth {}", name, term, depth), 0, move || {
        set(term);
        let (l, c) = *choose_of(&sizes, "initial size");
        let mut r = rig(l, c);
        let kind = choose(kinds, "terminal behavior");
        let mut acts = vec![RAct::Refresh, RAct::Read];
        acts.extend(sizes.iter().map(|&(l, c)| RAct::Resize(l, c)));
        acts.extend(ops.iter().cloned().map(RAct::Op));
        let mut now = (l, c);
        let mut pending = false;
        for _ in 0..depth {
            match *choose_of(&acts, "action") {
                RAct::Op(ref op) => r.op(op),
                RAct::Refresh => {
                    if !pending && (r.m.lines, r.m.cols) == now {
                        r.refresh();
                    } else {
                        step();
                        ok(r.s.refresh(), "refresh");
                    }
                }
                RAct::Resize(l, c) => {
                    terminal_resized(l, c, kind);
                    now = (l, c);
                    pending = true;
                }
                RAct::Read => {
                    read(&mut r, &mut pending, now, how);
                }
            }
        }
        while pending {
            read(&mut r, &mut pending, now, how);
        }
        w().vt.garbage.clear();
        w().vt.scrolls = 0;
        r.refresh();
        r.refresh();
        outcome(&r.m);
    })
}

fn read(r: &mut Rig, pending: &mut bool, now: (usize, usize), how: usize) {
    if !*pending && how == 3 {
        return;
    }
    let got = r.read_resize(how);
    if *pending {
        check!(got == Some(size(now.0, now.1)), "event", "event {:?} after the terminal was resized to {:?}", got, now);
        r.m.resize(now.0, now.1);
        *pending = false;
        // Whatever the old size did to the display does not matter now
        w().vt.garbage.clear();
        w().vt.scrolls = 0;
    } else {
        check!(got.is_none(), "event", "event {:?} out of nowhere", got);
    }
    let s = r.s.size();
    check!(s == size(r.m.lines, r.m.cols), "size", "screen size {:?} after {:?}", s, got);
}

pub fn c03(thorough: bool) -> Check {
    let t = thorough as usize;
    let ops = |n: usize| -> Vec<Op> {
        vec![
            Op::Str(s("abcde")),
            Op::At(0, 1, s("あ")),
            Op::StyledAt(1, 0, attrs(Some(1), Some(4), BOLD), s("漢x")),
            Op::Cursor(1, 1),
            Op::Bg(Some(3)),
            Op::Clear,
        ][..n]
            .to_vec()
    };
    let sizes = vec![(1, 1), (1, 3), (2, 2), (3, 1)];
    let big = vec![(2, 3), (3, 4), (1, 2), (2, 5)];
    let mut jobs = vec![
        resizes("small sizes", "xterm", sizes.clone(), 2, 0, ops(5), 4 + t),
        resizes("large sizes", "xterm", big.clone(), 2, 0, ops(5), 4 + t),
        resizes("read guard", "xterm", sizes.clone(), 1, 1, ops(3), 3 + t),
        resizes("raw reads", "xterm", sizes.clone(), 1, 2, ops(3), 3 + t),
        resizes("waits", "xterm", big.clone(), 1, 3, ops(3), 3 + t),
        resizes("resizing only", "xterm", vec![(1, 1), (1, 2), (2, 1), (2, 3), (3, 2)], 1, 0, ops(2), 5 + t),
    ];
    for term in ["xterm-256color", "linux", "tmux", "mc-min", "xterm-color", "mc-pad"] {
        jobs.push(resizes("sizes", term, big[..3].to_vec(), 2, 0, ops(5), 3 + t));
    }
    // A terminal whose size is not known has none
    jobs.push(resizes(
        "empty sizes",
        "xterm",
        vec![(0, 0), (0, 3), (2, 0), (2, 2)],
        2,
        0,
        vec![
            Op::Str(s("a\u{301}")),
            Op::At(0, 0, s("漢")),
            Op::Cursor(1, 0),
            Op::Str(s("\t\u{302}\nb")),
        ],
        4 + t,
    ));
    jobs.push(job("realistic sizes", 0, move || {
        set("xterm-256color");
        let v = [(24, 80), (10, 132), (60, 21), (258, 3), (3, 258), (1, 1)];
        let (l, c) = *choose_of(&v[..5], "initial size");
        let how = choose(3, "filling");
        let mut r = rig(l, c);
        fill(&mut r, how, 0);
        r.refresh();
        for k in 0..2 + t {
            let (l, c) = *choose_of(&v, "size");
            let kind = choose(2, "terminal behavior");
            terminal_resized(l, c, kind);
            let mut pending = true;
            read(&mut r, &mut pending, (l, c), 0);
            w().vt.garbage.clear();
            w().vt.scrolls = 0;
            if choose(2, "draw") == 1 {
                fill(&mut r, (how + k) % 3, k);
            }
            r.refresh();
        }
        r.op(&Op::At(r.m.lines - 1, r.m.cols - 1, s("x")));
        r.refresh();
        outcome(&r.m);
    }));
    // Around 65536 cells
    jobs.push(job("large sizes", 0, move || {
        set("xterm-256color");
        let v = [(255, 257), (256, 256), (257, 256), (300, 300), (2, 33_000), (33_000, 2), (24, 80)];
        let (l, c) = *choose_of(&v[..if thorough { 7 } else { 4 }], "initial size");
        let mut r = rig(l, c);
        fill(&mut r, 0, 0);
        r.refresh();
        let (l, c) = *choose_of(&v, "size");
        terminal_resized(l, c, choose(2, "terminal behavior"));
        let mut pending = true;
        read(&mut r, &mut pending, (l, c), 0);
        w().vt.garbage.clear();
        w().vt.scrolls = 0;
        r.refresh();
        r.op(&Op::At(r.m.lines - 1, r.m.cols - 1, s("x")));
        r.op(&Op::At(r.m.lines - 1, 0, s("漢")));
        r.refresh();
        outcome(&r.m);
    }));
    jobs.push(super::counts::resizes());
    jobs.push(job("many resizes", 0, move || {
        set("xterm");
        let mut r = rig(3, 4);
        let a = choose(4, "first");
        let b = choose(6, "step");
        for i in 0..150 {
            let k = a + i * (b + 1);
            let (l, c) = (1 + k % 5, 1 + k / 3 % 7);
            r.op(&Op::At(k % r.m.lines, k % r.m.cols, s("あx\u{301}")));
            terminal_resized(l, c, k % 2);
            let mut pending = true;
            read(&mut r, &mut pending, (l, c), k % 3);
            if k % 4 != 1 {
                w().vt.garbage.clear();
                w().vt.scrolls = 0;
                r.refresh();
            }
        }
        outcome(&r.m);
    }));
    Check {
        id: "C03",
        jobs,
        rule: "filled screens of realistic sizes resized to each other, and of sizes around 65536 cells and 33000 columns; 150 resizes in a row, and 66,000 of a small screen; every sequence of drawing operations, refreshes, terminal resizes among the listed sizes and event reads to the stated depth, with the terminal keeping or destroying its display at each resize; the reported event and the screen size are compared with the terminal, and content and display with the model, after every refresh and at the end; sizes include those of no lines or no columns, of which nothing is shown but nothing may fail",
        assumptions: vec![
            "a terminal resets its scroll region when its size changes, as xterm does",
        ],
    }
}

// ---------------------------------------------------------------- C06

const FAULTS: &[WriteFault] = &[
    WriteFault::Errno(libc::EIO),
    WriteFault::Short(1),
    WriteFault::Half,
    WriteFault::AllButOne,
    WriteFault::Zero,
    WriteFault::Errno(libc::EAGAIN),
    WriteFault::Errno(libc::EINTR),
];

/// Refreshes until one reports success, at most `n` times with faults and then once without.
fn recover(r: &mut Rig, n: usize) {
    for i in 0..n {
        step();
        if i + 1 == n {
            w().write_faults = &[];
        }
        let guard = choose(2, "how") == 1;
        if try_refresh(r, guard) {
            return;
        }
    }
    crate::engine::violation("refresh", "a refresh fails although the device accepts all output");
}

fn failures(name: &str, lines: usize, cols: usize, ops: Vec<Op>, draws: usize, rounds: usize, bound: u32) -> Job {
    job(&format!("{} {}x{} draws {} rounds {}", name, lines, cols, draws, rounds), bound, move || {
        set("xterm");
        let mut r = rig(lines, cols);
        for _ in 0..rounds {
            for _ in 0..draws {
                let op = choose_of(&ops, "op");
                r.op(op);
            }
            w().write_faults = FAULTS;
            step();
            let done = try_refresh(&r, true);
            w().write_faults = &[];
            if !done {
                if choose(2, "draw-between") == 1 {
                    let op = choose_of(&ops, "op");
                    r.op(op);
                    if choose(2, "redraw") == 1 {
                        // Through a guard, whose end refreshes
                        w().write_faults = FAULTS;
                        let mut g = r.s.lock_write().unwrap();
                        draw_guard(&mut g, op);
                        r.m.apply(op);
                        drop(g);
                    }
                }
            }
        }
        w().write_faults = FAULTS;
        recover(&mut r, 3);
        outcome(&r.m);
    })
}

/// Content whose display takes more than one buffer of output
fn heavy(lines: usize, cols: usize, bound: u32, faults: &'static [WriteFault], resized: bool, marks: usize) -> Job {
    let name = format!(
        "more than one buffer {}x{}{}{}",
        lines,
        cols,
        match marks {
            0 => "",
            1..=999 => " plain",
            _ => " in each cell",
        },
        if resized { " after a resize" } else { "" }
    );
    job(&name, bound, move || {
        set("xterm");
        let mut r = rig(lines, cols);
        let paint = |r: &mut Rig, k: usize| {
            for l in 0..lines {
                let mut c = 0;
                let mut i = l + k;
                while c < cols {
                    let a = if marks > 0 {
                        // Nearly all output is text, so that buffers end inside of it
                        attrs(Some(k as u8), None, 0)
                    } else {
                        attrs(Some((i % 7) as u8), Some((i / 2 % 5) as u8), (i % 15) as u8)
                    };
                    // What a character longer than the buffer leaves is not one that is cut off
                    let wide = i % 5 == 0 && c + 1 < cols && marks < 1000;
                    let ch = if wide { '漢' } else { (b'a' + (i % 26) as u8) as char };
                    let op = Op::StyledAt(l, c, a, format!("{}{}", ch, "\u{301}".repeat(marks)));
                    draw(&r.s, &op);
                    r.m.apply(&op);
                    c += if wide { 2 } else { 1 };
                    i += 1;
                }
            }
        };
        paint(&mut r, 0);
        if resized {
            w().vt.controls.clear();
            terminal_resized(lines, cols, 1);
            let e = r.read_resize(0);
            check!(e == Some(size(lines, cols)), "event", "event {:?}", e);
        }
        w().write_faults = faults;
        step();
        if !try_refresh(&r, true) {
            if choose(2, "repaint") == 1 {
                paint(&mut r, 1);
            }
            if !try_refresh(&r, true) {
                w().write_faults = &[];
                ok(r.s.refresh(), "refresh");
                r.shows();
            }
        }
        w().write_faults = &[];
        r.refresh();
        outcome(&w().out.len());
    })
}

/// More failures, and more refreshes in between, than anybody would count.
fn many_failures() -> Job {
    job("many failures", 0, move || {
        set("xterm");
        let mut r = rig(3, 6);
        let n = *choose_of(&[3, 5, 17, 70, 300], "failures");
        let stride = choose(3, "stride") + 1;
        // The number of the write of each refresh that fails, after how many bytes per write
        let nth = choose(4, "failing write");
        let take = *choose_of(&[0, 1, 5, 16], "device takes");
        let good = *choose_of(&[usize::MAX, 1, 4], "success after");
        let guard = choose(2, "guard") == 1;
        w().horizon = w().horizon.max(1 << 20);
        for i in 0..n {
            let k = i * stride;
            let op = match k % 6 {
                0 => Op::StyledAt(k / 6 % 3, k % 5, attrs(Some((k % 8) as u8), None, (k % 16) as u8), s("qあ")),
                1 => Op::At(k % 3, k % 6, s("漢")),
                2 => Op::Bg(Some((k % 8) as u8)),
                3 => Op::Str(s("xyz")),
                4 => Op::At(k / 7 % 3, k % 6, s("u")),
                _ => {
                    if i % 10 == 9 {
                        Op::Clear
                    } else {
                        Op::Cursor(k % 3, k % 6)
                    }
                }
            };
            r.op(&op);
            w().write_max = take;
            if good == usize::MAX || i % (good + 1) != good {
                if nth == 0 {
                    w().dead = Some(libc::EIO);
                } else {
                    w().fail_write_at = w().writes + nth;
                }
            }
            try_refresh(&r, guard);
            w().dead = None;
            w().fail_write_at = 0;
            w().write_max = 0;
        }
        r.refresh();
        r.op(&Op::At(2, 5, s("$")));
        r.refresh();
        outcome(&r.m);
    })
}

pub fn c06(thorough: bool) -> Check {
    let t = thorough as usize;
    let ops = vec![
        Op::StyledAt(0, 0, attrs(Some(1), None, BOLD), s("ab")),
        Op::At(0, 1, s("あ")),
        Op::StyledAt(1, 0, attrs(None, Some(4), REVERSE), s("漢x")),
        Op::Str(s("z")),
        Op::Clear,
    ];
    let mut jobs = vec![
        failures("small", 2, 3, ops.clone(), 1, 2, 2 + t as u32),
        failures("small", 2, 2, ops.clone(), 2, 1, 2 + t as u32),
        failures("small", 1, 2, ops.clone(), 1, 3, 2 + t as u32),
        many_failures(),
        super::counts::failures(),
    ];
    jobs.push(heavy(12, 60, 3 + t as u32, FAULTS, false, 0));
    jobs.push(heavy(12, 60, 3 + t as u32, FAULTS, true, 0));
    jobs.push(heavy(12, 60, 3 + t as u32, FAULTS, false, 12));
    jobs.push(heavy(12, 60, 3 + t as u32, FAULTS, true, 12));
    jobs.push(heavy(25, 80, 2 + t as u32, FAULTS, false, 0));
    // With two of these no character is cut off
    const WHOLE: &[WriteFault] = &[WriteFault::Errno(libc::EIO), WriteFault::Short(1)];
    jobs.push(heavy(1, 3, 2, WHOLE, false, 4200));
    jobs.push(heavy(2, 2, 2, WHOLE, true, 4200));
    Check {
        id: "C06",
        jobs,
        rule: "every drawing history listed, with every assignment of at most the stated number of write faults (error, temporary error, interruption, zero, and partial writes of 1 byte, half, all but one) to the device writes of its refreshes, and histories of up to 66,000 failures; after the next refresh that reports success the emulated display must equal the model",
        assumptions: vec!["a failed write takes no bytes; a partial write takes a prefix"],
    }
}
