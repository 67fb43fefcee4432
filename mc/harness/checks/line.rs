//! C04 attributes, C22 cursor and erase operations, of a line terminal.

use mortal::{CursorMode, Terminal, TerminalWriteGuard};

use crate::engine::{choose, choose_of, job, outcome, state, step, violation, Check, Job};
use crate::model::{caps, theme, visible, Op};
use crate::term::{attrs, col, ok, open, set, style};
use crate::vt::{Attrs, Cell, BOLD, ITALIC, REVERSE, UNDERLINE};
use crate::world::{arm, w};

macro_rules! tdraw {
    ($t:expr, $op:expr) => {
        match *$op {
            Op::Ch(ch) => $t.write_char(ch),
            Op::Str(ref s) => $t.write_str(s),
            Op::Styled(a, ref s) => $t.write_styled(col(a.fg), col(a.bg), style(a.style), s),
            Op::Clear => $t.clear_screen(),
            Op::ClearAttrs => $t.clear_attributes(),
            Op::AddStyle(b) => $t.add_style(style(b)),
            Op::RemStyle(b) => $t.remove_style(style(b)),
            Op::SetStyle(b) => $t.set_style(style(b)),
            Op::Fg(c) => $t.set_fg(col(c)),
            Op::Bg(c) => $t.set_bg(col(c)),
            Op::Theme(a) => $t.set_theme(theme(a)),
            _ => unreachable!(),
        }
    };
}

pub fn tdraw(t: &Terminal, op: &Op) -> std::io::Result<()> {
    tdraw!(t, op)
}

pub fn tdraw_guard(t: &mut TerminalWriteGuard, op: &Op) -> std::io::Result<()> {
    tdraw!(t, op)
}

/// What the operation makes of the requested attributes.
pub fn request(a: &mut Attrs, op: &Op) {
    match *op {
        Op::Styled(..) | Op::ClearAttrs => *a = Attrs::default(),
        Op::AddStyle(b) => a.style |= b,
        Op::RemStyle(b) => a.style &= !b,
        Op::SetStyle(b) => a.style = b,
        Op::Fg(c) => a.fg = c,
        Op::Bg(c) => a.bg = c,
        Op::Theme(t) => *a = t,
        _ => (),
    }
}

/// The device end of everything printed so far: text with attributes.
fn printed() -> Vec<(char, Attrs)> {
    if let Some(g) = w().vt.garbage.first() {
        violation("garbage", &format!("the terminal received something meaningless: {:?}", g));
    }
    if w().vt.mid_sequence() {
        violation("garbage", "the terminal received a truncated sequence");
    }
    std::mem::take(&mut w().vt.printed)
}

/// All terminal descriptions used; the second list only have what a screen needs or less.
pub const REAL: &[&str] = &["xterm", "xterm-256color", "xterm-color", "xterm-r6", "linux", "tmux", "ansi", "vt100", "screen", "rxvt-unicode"];
pub const MADE: &[&str] = &["mc-min", "mc-reset", "mc-pad", "mc-noitm", "mc-mono", "mc-nohome", "mc-dumb"];

fn all_terms() -> Vec<&'static str> {
    REAL.iter().chain(MADE).cloned().collect()
}

// ---------------------------------------------------------------- C04

fn any_attrs(colors: &[Option<u8>]) -> Attrs {
    attrs(*choose_of(colors, "fg"), *choose_of(colors, "bg"), choose(16, "style") as u8)
}

/// Every operation from every attribute state.
fn every(term: &'static str, colors: Vec<Option<u8>>, targets: Vec<Attrs>) -> Job {
    job(&format!("every operation from every state, {}, {} colors", term, colors.len()), 0, move || {
        set(term);
        arm(3, 40);
        w().vt.log_print = true;
        let t = open();
        let from = any_attrs(&colors);
        let mut a = from;
        match choose(3, "setup") {
            0 => ok(t.set_theme(theme(from)), "set_theme"),
            1 => {
                ok(t.set_fg(col(from.fg)), "set_fg");
                ok(t.set_bg(col(from.bg)), "set_bg");
                ok(t.set_style(style(from.style)), "set_style");
            }
            _ => {
                // One by one, in the other order
                for b in [UNDERLINE, REVERSE, ITALIC, BOLD] {
                    if from.style & b != 0 {
                        ok(t.add_style(style(b)), "add_style");
                    }
                }
                ok(t.set_bg(col(from.bg)), "set_bg");
                ok(t.set_fg(col(from.fg)), "set_fg");
            }
        }
        step();
        state(&(term, from));
        ok(t.write_char('0'), "write_char");
        expect(&[('0', from)], term);
        let op = match choose(8, "op") {
            0 => Op::ClearAttrs,
            1 => Op::Fg(*choose_of(&colors, "to")),
            2 => Op::Bg(*choose_of(&colors, "to")),
            3 => Op::AddStyle(choose(16, "to") as u8),
            4 => Op::RemStyle(choose(16, "to") as u8),
            5 => Op::SetStyle(choose(16, "to") as u8),
            6 => Op::Theme(*choose_of(&targets, "to")),
            _ => Op::Styled(*choose_of(&targets, "to"), "x".into()),
        };
        trace!("{:?}", op);
        ok(tdraw(&t, &op), "operation");
        step();
        if let Op::Styled(s, _) = op {
            expect(&[('x', s)], term);
        } else {
            expect(&[], term);
        }
        request(&mut a, &op);
        ok(t.write_str("p"), "write_str");
        expect(&[('p', a)], term);
        // What is left can be removed
        ok(t.clear_attributes(), "clear_attributes");
        ok(t.write_str("q"), "write_str");
        expect(&[('q', Attrs::default())], term);
        state(&(term, a));
        outcome(&(term, a));
    })
}

fn expect(text: &[(char, Attrs)], term: &str) {
    let want: Vec<_> = text.iter().map(|&(c, a)| (c, visible(a, caps(term)))).collect();
    let got = printed();
    check!(got == want, "attributes", "on {} the text appears as {:?} instead of {:?}", term, got, want);
}

/// All sequences of operations, each directly or through a guard.
fn sequences(term: &'static str, depth: usize) -> Job {
    job(&format!("sequences of {} operations, {}", depth, term), 0, move || {
        set(term);
        arm(3, 40);
        w().vt.log_print = true;
        let t = open();
        let mut a = Attrs::default();
        let ops = [
            Op::Fg(Some(1)),
            Op::Fg(None),
            Op::Bg(Some(4)),
            Op::Bg(None),
            Op::AddStyle(BOLD),
            Op::AddStyle(ITALIC | UNDERLINE),
            Op::RemStyle(BOLD | ITALIC),
            Op::RemStyle(UNDERLINE),
            Op::RemStyle(ITALIC),
            Op::SetStyle(REVERSE | ITALIC),
            Op::SetStyle(UNDERLINE),
            Op::Theme(attrs(Some(2), None, ITALIC)),
            Op::Theme(attrs(None, Some(1), BOLD)),
            Op::Styled(attrs(Some(3), None, UNDERLINE), "s".into()),
            Op::ClearAttrs,
        ];
        for i in 0..depth {
            let op = choose_of(&ops, "op");
            trace!("{:?}", op);
            step();
            let styled = match *op {
                Op::Styled(s, _) => Some(s),
                _ => None,
            };
            if i == 0 || choose(2, "guard") == 0 {
                ok(tdraw(&t, op), "operation");
                request(&mut a, op);
                expect(&styled.map_or(vec![], |s| vec![('s', s)]), term);
                ok(t.write_char('p'), "write_char");
                expect(&[('p', a)], term);
            } else {
                // The same, text and all, under one lock
                let mut g = t.lock_write().unwrap();
                ok(tdraw_guard(&mut g, op), "operation");
                ok(g.write_char('p'), "write_char");
                drop(g);
                request(&mut a, op);
                let mut want = styled.map_or(vec![], |s| vec![('s', s)]);
                want.push(('p', a));
                expect(&want, term);
            }
            state(&(term, a));
        }
        outcome(&(term, a));
    })
}

fn spread(n: usize) -> Vec<Attrs> {
    // Every number of styles, colors on and off
    let mut v = Vec::new();
    for s in 0..16u8 {
        for (f, b) in [(None, None), (Some(1), None), (None, Some(4)), (Some(6), Some(2))] {
            v.push(attrs(f, b, s));
        }
    }
    if n == 0 {
        for f in 0..9 {
            for b in 0..9 {
                v.push(attrs(if f == 8 { None } else { Some(f) }, if b == 8 { None } else { Some(b) }, (f * 7 + b) & 15));
            }
        }
    }
    v
}

/// Texts of all sizes keep their attributes from the first to the last character.
fn long_texts(term: &'static str) -> Job {
    job(&format!("texts of every size, {}", term), 0, move || {
        set(term);
        arm(3, 40);
        w().vt.log_print = true;
        w().horizon = w().horizon.max(1 << 20);
        let t = open();
        let a = *choose_of(&[attrs(Some(1), None, 0), attrs(None, None, BOLD | UNDERLINE), attrs(Some(2), Some(3), REVERSE), attrs(None, Some(4), 0)], "attributes");
        let n = *choose_of(&[0, 1, 2, 100, 255, 256, 1000, 4096, 8170, 8180, 8190, 8191, 8192, 8193, 16384, 20_000, 65_536, 70_000], "length");
        let s: String = ['a', 'b', 'é', 'c', 'あ'].iter().cycle().take(n).collect();
        let pre = *choose_of(&[0, 1, 8180, 8192], "buffered");
        let fill = "-".repeat(pre);
        let mut want: Vec<(char, Attrs)> = fill.chars().map(|c| (c, Attrs::default())).collect();
        want.extend(s.chars().map(|c| (c, a)));
        let op = match choose(4, "way") {
            k @ 0..=1 => {
                let op = Op::Styled(a, s.clone());
                if k == 0 {
                    ok(tdraw(&t, &Op::Str(fill)), "write_str");
                    ok(tdraw(&t, &op), "write_styled");
                } else {
                    let mut g = t.lock_write().unwrap();
                    ok(tdraw_guard(&mut g, &Op::Str(fill)), "write_str");
                    ok(tdraw_guard(&mut g, &op), "write_styled");
                }
                op
            }
            k => {
                let mut g = t.lock_write().unwrap();
                ok(tdraw_guard(&mut g, &Op::Str(fill)), "write_str");
                ok(g.set_theme(theme(a)), "set_theme");
                if k == 2 {
                    ok(g.write_str(&s), "write_str");
                } else {
                    for ch in s.chars() {
                        ok(g.write_char(ch), "write_char");
                    }
                }
                Op::Theme(a)
            }
        };
        let mut now = Attrs::default();
        request(&mut now, &op);
        ok(t.write_char('p'), "write_char");
        want.push(('p', now));
        let got = printed();
        let want: Vec<_> = want.into_iter().map(|(c, a)| (c, visible(a, caps(term)))).collect();
        if got != want {
            let k = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
            violation("attributes", &format!("on {} character {} of {} appears as {:?} instead of {:?}", term, k, want.len(), got.get(k), want.get(k)));
        }
        step();
        state(&(term, n, a));
        outcome(&(term, n, a));
    })
}

/// Other operations, and failures of the device, leave the attributes as they are.
fn others(term: &'static str, depth: usize) -> Job {
    job(&format!("other operations in between, {}, {} times", term, depth), 0, move || {
        use crate::world::{apply, Stim};
        use std::time::Duration;
        set(term);
        arm(3, 40);
        w().vt.log_print = true;
        let t = open();
        let mut a = Attrs::default();
        let sets = [
            Op::Theme(attrs(Some(1), Some(2), BOLD)),
            Op::AddStyle(UNDERLINE | REVERSE),
            Op::Fg(Some(4)),
            Op::Bg(None),
            Op::RemStyle(BOLD),
            Op::ClearAttrs,
        ];
        let mut saved = vec![];
        for _ in 0..depth {
            let op = choose_of(&sets, "attributes");
            trace!("{:?}", op);
            ok(tdraw(&t, op), "operation");
            request(&mut a, op);
            let k = choose(14, "other");
            trace!("other {}", k);
            step();
            match k {
                0 => (),
                1 => drop(t.clear_screen()),
                2 => drop(t.clear_to_line_end()),
                3 => drop(t.clear_to_screen_end()),
                4 => drop(t.move_up(1).and(t.move_left(2))),
                5 => drop(t.move_right(1)),
                6 => drop(t.set_cursor_mode(CursorMode::Invisible)),
                7 => saved.push(ok(t.prepare(mortal::PrepareConfig { enable_mouse: true, ..Default::default() }), "prepare")),
                8 => {
                    if let Some(s) = saved.pop() {
                        ok(t.restore(s), "restore");
                    }
                }
                9 => {
                    apply(Stim::Input(b"k".to_vec()));
                    ok(t.read_event(Some(Duration::from_millis(0))), "read");
                }
                10 => drop(t.move_to_first_column()),
                11 => drop(t.set_cursor_mode(CursorMode::Normal)),
                12 => {
                    apply(Stim::Resize(4, 41));
                    ok(t.read_event(Some(Duration::from_millis(0))), "read");
                }
                _ => {
                    // Fails, and is delivered later
                    w().dead = Some(libc::EAGAIN);
                    drop(t.set_fg(col(a.fg)));
                    w().dead = None;
                }
            }
            ok(t.write_char('p'), "write_char");
            expect(&[('p', a)], term);
            state(&(term, a));
        }
        outcome(&(term, a));
    })
}

pub fn c04(thorough: bool) -> Check {
    let all: Vec<Option<u8>> = std::iter::once(None).chain((0..8).map(Some)).collect();
    let few = vec![None, Some(1), Some(4)];
    let mut jobs = Vec::new();
    for term in all_terms() {
        let colors = if term == "xterm" || thorough { all.clone() } else { few.clone() };
        let targets = if thorough { spread(0) } else { spread(1).into_iter().step_by(if term == "xterm" { 3 } else { 1 }).collect() };
        jobs.push(every(term, colors, targets));
        jobs.push(others(term, 2 + (term == "xterm" || term == "mc-reset" || thorough) as usize));
        if term == "xterm" || term == "mc-reset" || thorough {
            jobs.push(long_texts(term));
        }
        let main = ["xterm", "mc-min", "mc-reset", "mc-noitm"].contains(&term);
        jobs.push(sequences(term, if thorough { 5 } else if main { 4 } else { 3 }));
    }
    jobs.push(super::counts::attributes());
    Check {
        id: "C04",
        jobs,
        rule: "Every attribute state (all 9x9x16 on xterm, 3x3x16 elsewhere in the quick tier), reached in three ways, followed by every operation and two probe characters; every sequence of operations to a depth over 15 representative operations, each directly or through a guard; with other operations, events and failures in between; texts to 70,000 characters; 66,000 changes in a row; each character the emulated terminal prints carries exactly the requested attributes as far as the description supports them.",
        assumptions: vec![
            "Terminal descriptions: 7 real ones (xterm family, linux, tmux, ansi) and 6 made to lack or share capabilities.",
            "Colors other than 8 ANSI ones do not exist in the interface.",
        ],
    }
}

// ---------------------------------------------------------------- C22

const LINES: usize = 4;
const COLS: usize = 6;

#[derive(Copy, Clone, Debug)]
enum Cur {
    Up(usize),
    Down(usize),
    Left(usize),
    Right(usize),
    First,
    Clear,
    LineEnd,
    ScreenEnd,
    Mode(CursorMode),
    Text,
}

macro_rules! cdo {
    ($t:expr, $op:expr) => {
        match $op {
            Cur::Up(n) => $t.move_up(n),
            Cur::Down(n) => $t.move_down(n),
            Cur::Left(n) => $t.move_left(n),
            Cur::Right(n) => $t.move_right(n),
            Cur::First => $t.move_to_first_column(),
            Cur::Clear => $t.clear_screen(),
            Cur::LineEnd => $t.clear_to_line_end(),
            Cur::ScreenEnd => $t.clear_to_screen_end(),
            Cur::Mode(m) => $t.set_cursor_mode(m),
            Cur::Text => $t.write_str("t"),
        }
    };
}

#[derive(Clone, Hash)]
struct Grid {
    cells: Vec<Vec<char>>,
    pos: (usize, usize),
    hidden: bool,
}

#[derive(Copy, Clone)]
struct Can {
    moves: bool,
    erase: bool,
    clear: bool,
    modes: bool,
}

fn can(term: &str) -> Can {
    Can {
        moves: REAL.contains(&term),
        erase: REAL.contains(&term),
        clear: term != "mc-dumb",
        modes: ["xterm", "xterm-256color", "linux", "tmux", "screen", "rxvt-unicode"].contains(&term),
    }
}

impl Grid {
    fn apply(&mut self, op: Cur, can: Can) -> Result<(), ()> {
        let (l, c) = self.pos;
        let need = match op {
            Cur::Up(n) | Cur::Down(n) | Cur::Left(n) | Cur::Right(n) => n == 0 || can.moves,
            Cur::Clear => can.clear,
            Cur::LineEnd | Cur::ScreenEnd => can.erase,
            _ => true,
        };
        if !need {
            return Err(());
        }
        match op {
            Cur::Up(n) => self.pos.0 = l.saturating_sub(n),
            Cur::Down(n) => self.pos.0 = l.saturating_add(n).min(LINES - 1),
            Cur::Left(n) => self.pos.1 = c.saturating_sub(n),
            Cur::Right(n) => self.pos.1 = c.saturating_add(n).min(COLS - 1),
            Cur::First => self.pos.1 = 0,
            Cur::Clear => {
                self.cells = vec![vec![' '; COLS]; LINES];
                self.pos = (0, 0);
            }
            Cur::LineEnd => self.cells[l][c..].fill(' '),
            Cur::ScreenEnd => {
                self.cells[l][c..].fill(' ');
                for row in &mut self.cells[l + 1..] {
                    row.fill(' ');
                }
            }
            Cur::Mode(m) => {
                if can.modes {
                    self.hidden = m == CursorMode::Invisible
                }
            }
            Cur::Text => {
                self.cells[l][c] = 't';
                self.pos.1 += 1;
            }
        }
        Ok(())
    }
}

struct Line {
    t: Terminal,
    m: Grid,
    can: Can,
    term: &'static str,
}

/// Pairwise different content, so that whatever moves is seen.
fn fill(pos: (usize, usize), attr: Attrs) -> Grid {
    let mut cells = vec![vec![' '; COLS]; LINES];
    let mut ch = b'A';
    for (l, row) in cells.iter_mut().enumerate() {
        for (c, x) in row.iter_mut().enumerate() {
            *x = ch as char;
            w().vt.g.cells[l][c] = Cell { text: x.to_string(), attrs: attr };
            ch += 1;
        }
    }
    w().vt.g.line = pos.0;
    w().vt.g.col = pos.1;
    w().vt.g.wrap = false;
    Grid { cells, pos, hidden: false }
}

impl Line {
    fn new(term: &'static str, pos: (usize, usize)) -> Line {
        set(term);
        arm(LINES as u16, COLS as u16);
        let t = open();
        w().out.clear();
        let m = fill(pos, Attrs::default());
        Line { t, m, can: can(term), term }
    }

    fn op(&mut self, op: Cur, guard: bool) {
        trace!("{:?}", op);
        step();
        let sent = w().out.len();
        let r = if guard {
            let mut g = self.t.lock_write().unwrap();
            cdo!(g, op)
        } else {
            cdo!(self.t, op)
        };
        let want = self.m.apply(op, self.can);
        check!(
            r.is_ok() == want.is_ok(),
            "result",
            "on {} {:?} returned {:?}, {} supported",
            self.term,
            op,
            r,
            if want.is_ok() { "but it is" } else { "but it is not" }
        );
        let silent = match op {
            Cur::Up(0) | Cur::Down(0) | Cur::Left(0) | Cur::Right(0) => true,
            Cur::Mode(_) => !self.can.modes,
            _ => want.is_err(),
        };
        check!(!silent || w().out.len() == sent, "output", "on {} {:?} sent {:?}", self.term, op, String::from_utf8_lossy(&w().out[sent..]));
        let v = &w().vt;
        check!(v.garbage.is_empty() && !v.mid_sequence(), "garbage", "on {} {:?} sent something meaningless: {:?}", self.term, op, v.garbage);
        check!(
            (v.g.line, v.g.col) == self.m.pos,
            "position",
            "on {} after {:?} the cursor is at {:?} instead of {:?}",
            self.term,
            op,
            (v.g.line, v.g.col),
            self.m.pos
        );
        for l in 0..LINES {
            let row = v.row_text(l);
            let want: String = self.m.cells[l].iter().collect();
            check!(row == want, "content", "on {} after {:?} line {} is {:?} instead of {:?}", self.term, op, l, row, want);
        }
        check!(v.scrolls == 0, "scroll", "on {} {:?} scrolled the display", self.term, op);
        check!(v.modes.cursor_hidden == self.m.hidden, "mode", "on {} after {:?} the cursor is {}", self.term, op, if self.m.hidden { "visible" } else { "hidden" });
        state(&(self.term, &self.m));
    }
}

const COUNTS: &[usize] = &[
    0,
    1,
    2,
    3,
    4,
    5,
    6,
    7,
    100,
    32767,
    32768,
    65535,
    65536,
    i32::MAX as usize,
    i32::MAX as usize + 1,
    u32::MAX as usize - 1,
    u32::MAX as usize,
    u32::MAX as usize + 1,
    u32::MAX as usize + 2,
    (1 << 33) + 1,
    usize::MAX - 1,
    usize::MAX,
];

const MODES: [CursorMode; 3] = [CursorMode::Normal, CursorMode::Invisible, CursorMode::Overwrite];

fn any_move(n: usize) -> Cur {
    match choose(4, "direction") {
        0 => Cur::Up(n),
        1 => Cur::Down(n),
        2 => Cur::Left(n),
        _ => Cur::Right(n),
    }
}

fn positions(term: &'static str) -> Job {
    job(&format!("every operation at every position, {}", term), 0, move || {
        let p = choose(LINES * COLS, "position");
        let mut r = Line::new(term, (p / COLS, p % COLS));
        let guard = choose(2, "guard") == 1;
        let op = match choose(6, "op") {
            0 => any_move(*choose_of(COUNTS, "count")),
            1 => Cur::First,
            2 => Cur::Clear,
            3 => Cur::LineEnd,
            4 => Cur::ScreenEnd,
            _ => Cur::Mode(*choose_of(&MODES, "mode")),
        };
        r.op(op, guard);
        // Moving again still goes by the count
        r.op(any_move(1), guard);
        outcome(&(term, &r.m));
    })
}

fn walks(term: &'static str, depth: usize) -> Job {
    job(&format!("sequences of {} cursor operations, {}", depth, term), 0, move || {
        let p = *choose_of(&[(0, 0), (1, 2), (3, 5)], "position");
        let mut r = Line::new(term, p);
        for _ in 0..depth {
            let op = match choose(12, "op") {
                0 => Cur::Up(1),
                1 => Cur::Up(2),
                2 => Cur::Down(1),
                3 => Cur::Down(3),
                4 => Cur::Left(1),
                5 => Cur::Left(usize::MAX),
                6 => Cur::Right(1),
                7 => Cur::Right(2),
                8 => Cur::First,
                9 => Cur::LineEnd,
                10 => Cur::Mode(CursorMode::Invisible),
                _ if r.m.pos.1 + 1 < COLS => Cur::Text,
                _ => Cur::ScreenEnd,
            };
            r.op(op, choose(2, "guard") == 1);
        }
        outcome(&(term, &r.m));
    })
}

/// The cursor is made visible again when the terminal is dropped.
fn dropped(term: &'static str) -> Job {
    job(&format!("cursor mode after drop, {}", term), 0, move || {
        let mut r = Line::new(term, (1, 1));
        for _ in 0..choose(3, "ops") {
            r.op(Cur::Mode(*choose_of(&MODES, "mode")), choose(2, "guard") == 1);
        }
        drop(r.t);
        check!(!w().vt.modes.cursor_hidden, "mode", "on {} the cursor is hidden after the terminal was dropped", term);
        outcome(&(term, w().vt.hash()));
    })
}

pub fn c22(thorough: bool) -> Check {
    let mut jobs = Vec::new();
    for term in all_terms() {
        jobs.push(positions(term));
        jobs.push(dropped(term));
    }
    for &term in REAL {
        jobs.push(walks(term, if thorough { 5 } else { 3 }));
    }
    Check {
        id: "C22",
        jobs,
        rule: "On a 4x6 display with pairwise different cells: every start position, every operation with counts from 0 to usize::MAX (directly and through a guard), then another move; sequences of operations; on 13 terminal descriptions. After each operation the emulated terminal's cursor, content, scroll count and cursor visibility equal the model's, and unsupported operations fail without output.",
        assumptions: vec![
            "The emulated terminal takes a numeric parameter beyond its range as its largest value, as xterm does.",
            "The cursor is not in the pending-wrap state before a move.",
        ],
    }
}
