//! Reference models, kept as plain as possible.

use unicode_width::UnicodeWidthChar;

use crate::term::{col, num, style};
use crate::vt::{Attrs, Vt, BOLD, ITALIC, REVERSE, UNDERLINE};
use mortal::{Color, Cursor, Screen, ScreenWriteGuard, Style, Theme};

// ---------------------------------------------------------------- screen

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct MCell {
    /// Empty for the right half of a wide character
    pub text: String,
    pub a: Attrs,
}

impl MCell {
    fn blank() -> MCell {
        MCell { text: " ".into(), a: Attrs::default() }
    }
    fn wide(&self) -> bool {
        self.text.chars().next().and_then(|c| c.width()) == Some(2)
    }
    fn right(&self) -> bool {
        self.text.is_empty()
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct ScreenModel {
    pub lines: usize,
    pub cols: usize,
    pub cells: Vec<Vec<MCell>>,
    pub cur: (usize, usize),
    pub a: Attrs,
}

type R = Result<(), ()>;

impl ScreenModel {
    pub fn new(lines: usize, cols: usize) -> ScreenModel {
        ScreenModel { lines, cols, cells: vec![vec![MCell::blank(); cols]; lines], cur: (0, 0), a: Attrs::default() }
    }

    fn inside(&self, p: (usize, usize)) -> bool {
        p.0 < self.lines && p.1 < self.cols
    }

    /// Removes whatever wide character has a half at this place, before the place is written.
    fn put(&mut self, l: usize, c: usize, cell: MCell) {
        let old = self.cells[l][c].clone();
        if old.right() && c > 0 {
            self.cells[l][c - 1] = MCell::blank();
        }
        if old.wide() && c + 1 < self.cols && self.cells[l][c + 1].right() {
            // What is left of the character is a blank in its attributes
            self.cells[l][c + 1] = MCell { text: " ".into(), a: old.a };
        }
        self.cells[l][c] = cell;
    }

    fn advance(&mut self, n: usize) {
        self.cur.1 += n;
        if self.cur.1 >= self.cols {
            self.cur = (self.cur.0.saturating_add(1), 0);
        }
    }

    pub fn write_char(&mut self, ch: char) -> R {
        match ch {
            '\n' => self.cur = (self.cur.0.saturating_add(1), 0),
            '\r' => self.cur.1 = 0,
            '\t' => {
                if !self.inside(self.cur) {
                    return Err(());
                }
                let n = (8 - self.cur.1 % 8).min(self.cols - self.cur.1);
                for _ in 0..n {
                    self.write_char(' ')?;
                }
            }
            ch if is_mark(ch) => {
                let p = match self.cur {
                    (0, 0) => return Ok(()),
                    (l, 0) => (l - 1, self.cols.saturating_sub(1)),
                    (l, c) => (l, c - 1),
                };
                if !self.inside(p) {
                    return Err(());
                }
                let c = if self.cells[p.0][p.1].right() { p.1 - 1 } else { p.1 };
                self.cells[p.0][c].text.push(ch);
            }
            ch => {
                let wd = ch.width().unwrap_or(0);
                if wd == 0 {
                    return Ok(());
                }
                if !self.inside(self.cur) || wd > self.cols {
                    return Err(());
                }
                while self.cur.1 + wd > self.cols {
                    // Does not fit on the line
                    let (l, c) = self.cur;
                    self.put(l, c, MCell { text: " ".into(), a: self.a });
                    self.advance(1);
                    if self.cur.1 == 0 {
                        break;
                    }
                }
                if !self.inside(self.cur) {
                    return Err(());
                }
                let (l, c) = self.cur;
                let a = self.a;
                if wd == 2 {
                    self.put(l, c + 1, MCell { text: " ".into(), a });
                }
                self.put(l, c, MCell { text: ch.into(), a });
                if wd == 2 {
                    self.cells[l][c + 1] = MCell { text: String::new(), a };
                }
                self.advance(wd);
            }
        }
        Ok(())
    }

    pub fn write_str(&mut self, s: &str) -> R {
        for ch in s.chars() {
            self.write_char(ch)?;
        }
        Ok(())
    }

    pub fn clear(&mut self) {
        for row in &mut self.cells {
            for c in row {
                *c = MCell::blank();
            }
        }
    }

    pub fn resize(&mut self, lines: usize, cols: usize) {
        self.cells.resize(lines, vec![MCell::blank(); cols]);
        for row in &mut self.cells {
            row.resize(cols, MCell::blank());
            if let Some(last) = row.last_mut() {
                if last.wide() {
                    *last = MCell::blank();
                }
            }
        }
        self.lines = lines;
        self.cols = cols;
    }

    pub fn apply(&mut self, op: &Op) {
        use Op::*;
        match *op {
            Ch(ch) => {
                let _ = self.write_char(ch);
            }
            Str(ref s) => {
                let _ = self.write_str(s);
            }
            At(l, c, ref s) => {
                if self.inside((l, c)) {
                    self.cur = (l, c);
                    let _ = self.write_str(s);
                }
            }
            Styled(a, ref s) => {
                self.a = a;
                let _ = self.write_str(s);
                self.a = Attrs::default();
            }
            StyledAt(l, c, a, ref s) => {
                if self.inside((l, c)) {
                    self.cur = (l, c);
                    self.a = a;
                    let _ = self.write_str(s);
                    self.a = Attrs::default();
                }
            }
            Cursor(l, c) => self.cur = (l, c),
            NextLine(c) => self.cur = (self.cur.0.saturating_add(1), c),
            Clear => self.clear(),
            ClearAttrs => self.a = Attrs::default(),
            AddStyle(s) => self.a.style |= s,
            RemStyle(s) => self.a.style &= !s,
            SetStyle(s) => self.a.style = s,
            Fg(c) => self.a.fg = c,
            Bg(c) => self.a.bg = c,
            Theme(a) => self.a = a,
        }
    }

    /// Where the terminal's cursor is to be after a refresh.
    pub fn shown_cursor(&self) -> (usize, usize) {
        if self.inside(self.cur) {
            self.cur
        } else {
            (self.lines - 1, self.cols - 1)
        }
    }

    /// Compares with what the terminal shows.
    pub fn diff(&self, vt: &Vt) -> Option<String> {
        if !vt.garbage.is_empty() {
            return Some(format!("the terminal received something meaningless: {:?}", vt.garbage));
        }
        if vt.mid_sequence() {
            return Some("the terminal received a truncated sequence".into());
        }
        if self.lines == 0 || self.cols == 0 {
            // There is nothing to show
            return match vt.attrs == Attrs::default() {
                true => None,
                false => Some(format!("attributes {:?} left set on the terminal", vt.attrs)),
            };
        }
        if (vt.lines, vt.cols) != (self.lines, self.cols) {
            return Some(format!("size {:?} instead of {:?}", (self.lines, self.cols), (vt.lines, vt.cols)));
        }
        for l in 0..self.lines {
            for c in 0..self.cols {
                let (m, v) = (&self.cells[l][c], &vt.g.cells[l][c]);
                if m.text != v.text || m.a != v.attrs {
                    return Some(format!(
                        "cell ({},{}) shows {:?} {:?} instead of {:?} {:?}\ndisplay:\n{}expected:\n{}",
                        l,
                        c,
                        v.text,
                        v.attrs,
                        m.text,
                        m.a,
                        vt.dump(),
                        self.dump()
                    ));
                }
            }
        }
        if (vt.g.line, vt.g.col) != self.shown_cursor() {
            return Some(format!("terminal cursor at {:?} instead of {:?}", (vt.g.line, vt.g.col), self.shown_cursor()));
        }
        if vt.g.wrap {
            return Some("terminal cursor left in the pending-wrap state".into());
        }
        if vt.attrs != Attrs::default() {
            return Some(format!("attributes {:?} left set on the terminal", vt.attrs));
        }
        if vt.scrolls != 0 {
            return Some("the display was scrolled".into());
        }
        None
    }

    pub fn dump(&self) -> String {
        let mut s = String::new();
        for row in &self.cells {
            s.push('|');
            for c in row {
                s.push_str(if c.right() { ">" } else { &c.text });
                if c.a != Attrs::default() {
                    s.push_str(&format!(
                        "{{{}/{}/{:x}}}",
                        c.a.fg.map_or("-".into(), |x| x.to_string()),
                        c.a.bg.map_or("-".into(), |x| x.to_string()),
                        c.a.style
                    ));
                }
            }
            s.push_str("|\n");
        }
        s
    }
}

/// Marks that join the character before them (U+0300 block; the only ones our alphabets use).
pub fn is_mark(ch: char) -> bool {
    ('\u{300}'..='\u{36f}').contains(&ch)
}

/// A drawing operation of a Screen.
#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Ch(char),
    Str(String),
    At(usize, usize, String),
    Styled(Attrs, String),
    StyledAt(usize, usize, Attrs, String),
    Cursor(usize, usize),
    NextLine(usize),
    Clear,
    ClearAttrs,
    AddStyle(u8),
    RemStyle(u8),
    SetStyle(u8),
    Fg(Option<u8>),
    Bg(Option<u8>),
    Theme(Attrs),
}

pub fn theme(a: Attrs) -> Theme {
    Theme::new(col(a.fg), col(a.bg), style(a.style))
}

macro_rules! draw {
    ($s:expr, $op:expr) => {
        match *$op {
            Op::Ch(ch) => $s.write_char(ch),
            Op::Str(ref t) => $s.write_str(t),
            Op::At(l, c, ref t) => $s.write_at((l, c), t),
            Op::Styled(a, ref t) => $s.write_styled(col(a.fg), col(a.bg), style(a.style), t),
            Op::StyledAt(l, c, a, ref t) => $s.write_styled_at((l, c), col(a.fg), col(a.bg), style(a.style), t),
            Op::Cursor(l, c) => $s.set_cursor((l, c)),
            Op::NextLine(c) => $s.next_line(c),
            Op::Clear => $s.clear_screen(),
            Op::ClearAttrs => $s.clear_attributes(),
            Op::AddStyle(b) => $s.add_style(style(b)),
            Op::RemStyle(b) => $s.remove_style(style(b)),
            Op::SetStyle(b) => $s.set_style(style(b)),
            Op::Fg(c) => $s.set_fg(col(c)),
            Op::Bg(c) => $s.set_bg(col(c)),
            Op::Theme(a) => $s.set_theme(theme(a)),
        }
    };
}

pub fn draw(s: &Screen, op: &Op) {
    draw!(s, op)
}

pub fn draw_guard(s: &mut ScreenWriteGuard, op: &Op) {
    draw!(s, op)
}

#[allow(dead_code)]
pub fn cursor(c: (usize, usize)) -> Cursor {
    Cursor { line: c.0, column: c.1 }
}

// ---------------------------------------------------------------- line terminal attributes

/// What a terminal description can do about attributes.
#[derive(Copy, Clone, Debug)]
pub struct Caps {
    pub color: bool,
    /// Styles that can be shown
    pub styles: u8,
}

pub fn caps(term: &str) -> Caps {
    let all = BOLD | ITALIC | REVERSE | UNDERLINE;
    match term {
        "xterm" | "xterm-256color" | "tmux" | "rxvt-unicode" | "mc-reset" | "mc-noitm" | "mc-pad" => Caps { color: true, styles: all },
        "xterm-color" | "ansi" | "linux" | "screen" | "mc-min" => Caps { color: true, styles: all & !ITALIC },
        "mc-mono" => Caps { color: false, styles: all },
        "xterm-r6" | "vt100" => Caps { color: false, styles: all & !ITALIC },
        _ => Caps { color: false, styles: 0 },
    }
}

pub fn visible(a: Attrs, caps: Caps) -> Attrs {
    Attrs {
        fg: if caps.color { a.fg } else { None },
        bg: if caps.color { a.bg } else { None },
        style: a.style & caps.styles,
    }
}

#[allow(dead_code)]
pub fn conv(c: Option<Color>, s: Style) -> (Option<u8>, u8) {
    (c.map(num), s.bits())
}
