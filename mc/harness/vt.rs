//! Emulated terminal: interprets the bytes the device received.
//!
//! An xterm-like terminal with autowrap and pending wrap, double-width cells,
//! background color erase, scroll region, alternate screen, keypad, cursor
//! visibility and mouse modes. Written from the terminal's side only; it knows
//! nothing about the library.

use std::hash::{Hash, Hasher};
use unicode_width::UnicodeWidthChar;

pub const BOLD: u8 = 1;
pub const ITALIC: u8 = 2;
pub const REVERSE: u8 = 4;
pub const UNDERLINE: u8 = 8;

#[derive(Copy, Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct Attrs {
    /// ANSI color number
    pub fg: Option<u8>,
    pub bg: Option<u8>,
    pub style: u8,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Cell {
    /// Text of the cell; empty for the right half of a wide character
    pub text: String,
    pub attrs: Attrs,
}

impl Cell {
    pub fn blank(attrs: Attrs) -> Cell {
        Cell { text: " ".into(), attrs }
    }
    pub fn right_half(&self) -> bool {
        self.text.is_empty()
    }
    pub fn wide(&self) -> bool {
        self.text.chars().next().and_then(|c| c.width()) == Some(2)
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Grid {
    pub cells: Vec<Vec<Cell>>,
    pub line: usize,
    pub col: usize,
    pub wrap: bool,
}

#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Modes {
    pub keypad: bool,
    pub app_cursor: bool,
    pub mouse_sgr: bool,
    /// 0: off; 1002: while button pressed; 1003: always
    pub mouse: u32,
    /// The same on a terminal where each is a mode of its own
    pub apart: (bool, bool),
    pub cursor_hidden: bool,
    pub alt: bool,
}

enum P {
    Ground,
    Esc,
    EscInter,
    Csi(Vec<u8>),
}

pub struct Vt {
    pub lines: usize,
    pub cols: usize,
    pub g: Grid,
    saved_main: Option<Grid>,
    pub attrs: Attrs,
    pub modes: Modes,
    pub region: (usize, usize),
    saved_cursor: (usize, usize),
    p: P,
    utf8: Vec<u8>,
    /// Control functions executed, in order (only names; for injection checks)
    pub controls: Vec<String>,
    pub log_controls: bool,
    /// Anything the emulator does not understand
    pub garbage: Vec<String>,
    /// Count of scroll operations
    pub scrolls: usize,
    /// Printed text in order with attributes (only when log_print is set)
    pub printed: Vec<(char, Attrs)>,
    pub log_print: bool,
}

fn blank_grid(lines: usize, cols: usize) -> Grid {
    Grid {
        cells: vec![vec![Cell::blank(Attrs::default()); cols]; lines],
        line: 0,
        col: 0,
        wrap: false,
    }
}

impl Vt {
    pub fn new(lines: usize, cols: usize) -> Vt {
        Vt {
            lines,
            cols,
            g: blank_grid(lines, cols),
            saved_main: None,
            attrs: Attrs::default(),
            modes: Modes::default(),
            region: (0, lines.max(1) - 1),
            saved_cursor: (0, 0),
            p: P::Ground,
            utf8: Vec::new(),
            controls: Vec::new(),
            log_controls: false,
            garbage: Vec::new(),
            scrolls: 0,
            printed: Vec::new(),
            log_print: false,
        }
    }

    /// Fills the display with junk, as a foreign program might have left it.
    pub fn junk(&mut self) {
        for row in &mut self.g.cells {
            for c in row {
                *c = Cell { text: "#".into(), attrs: Attrs { fg: Some(5), bg: Some(3), style: UNDERLINE } };
            }
        }
    }

    pub fn resize(&mut self, lines: usize, cols: usize) {
        let (lines, cols) = (lines.max(1), cols.max(1));
        fn fit(g: &mut Grid, lines: usize, cols: usize) {
            g.cells.resize(lines, vec![Cell::blank(Attrs::default()); cols]);
            for row in &mut g.cells {
                row.resize(cols, Cell::blank(Attrs::default()));
                if let Some(last) = row.last_mut() {
                    if last.wide() {
                        *last = Cell::blank(last.attrs);
                    }
                }
            }
            g.line = g.line.min(lines - 1);
            g.col = g.col.min(cols - 1);
            g.wrap = false;
        }
        self.lines = lines;
        self.cols = cols;
        fit(&mut self.g, lines, cols);
        if let Some(m) = self.saved_main.as_mut() {
            fit(m, lines, cols);
        }
        self.region = (0, lines - 1);
    }

    pub fn row_text(&self, line: usize) -> String {
        self.g.cells[line].iter().map(|c| c.text.as_str()).collect()
    }

    pub fn hash(&self) -> u64 {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        self.g.hash(&mut h);
        self.attrs.hash(&mut h);
        self.modes.hash(&mut h);
        h.finish()
    }

    pub fn feed(&mut self, bytes: &[u8]) {
        for &b in bytes {
            self.byte(b);
        }
    }

    /// Whether a control sequence or character is only partly received.
    pub fn mid_sequence(&self) -> bool {
        !matches!(self.p, P::Ground) || !self.utf8.is_empty()
    }

    fn byte(&mut self, b: u8) {
        match self.p {
            P::Ground => {
                if !self.utf8.is_empty() {
                    if b & 0xc0 == 0x80 {
                        self.utf8.push(b);
                        let need = match self.utf8[0] {
                            0xc0..=0xdf => 2,
                            0xe0..=0xef => 3,
                            _ => 4,
                        };
                        if self.utf8.len() == need {
                            let v = std::mem::take(&mut self.utf8);
                            match std::str::from_utf8(&v) {
                                Ok(s) => {
                                    let ch = s.chars().next().unwrap();
                                    self.print(ch);
                                }
                                Err(_) => self.garbage.push(format!("bad utf-8 {:x?}", v)),
                            }
                        }
                        return;
                    }
                    let v = std::mem::take(&mut self.utf8);
                    self.garbage.push(format!("truncated utf-8 {:x?}", v));
                }
                match b {
                    0x1b => self.p = P::Esc,
                    b'\n' => {
                        self.ctl("LF");
                        self.line_feed();
                    }
                    b'\r' => {
                        self.ctl("CR");
                        self.g.col = 0;
                        self.g.wrap = false;
                    }
                    0x08 => {
                        self.ctl("BS");
                        if self.g.col > 0 {
                            self.g.col -= 1;
                        }
                        self.g.wrap = false;
                    }
                    0x0e | 0x0f => self.ctl("shift"),
                    0x20..=0x7e => self.print(b as char),
                    0x80..=0xbf => self.garbage.push(format!("stray continuation {:x}", b)),
                    0xc0..=0xff => self.utf8.push(b),
                    _ => {
                        self.ctl(&format!("C0:{:02x}", b));
                        self.garbage.push(format!("control character {:02x}", b));
                    }
                }
            }
            P::Esc => match b {
                b'[' => self.p = P::Csi(Vec::new()),
                b'(' | b')' => self.p = P::EscInter,
                b'=' => {
                    self.ctl("DECKPAM");
                    self.modes.keypad = true;
                    self.p = P::Ground;
                }
                b'>' => {
                    self.ctl("DECKPNM");
                    self.modes.keypad = false;
                    self.p = P::Ground;
                }
                b'M' => {
                    self.ctl("RI");
                    self.g.wrap = false;
                    if self.g.line == self.region.0 {
                        let a = Attrs { fg: None, bg: self.attrs.bg, style: 0 };
                        self.scrolls += 1;
                        let (t, b) = self.region;
                        self.g.cells.remove(b);
                        self.g.cells.insert(t, vec![Cell::blank(a); self.cols]);
                    } else {
                        self.g.line = self.g.line.saturating_sub(1);
                    }
                    self.p = P::Ground;
                }
                b'7' => {
                    self.ctl("DECSC");
                    self.saved_cursor = (self.g.line, self.g.col);
                    self.p = P::Ground;
                }
                b'8' => {
                    self.ctl("DECRC");
                    self.g.line = self.saved_cursor.0.min(self.lines - 1);
                    self.g.col = self.saved_cursor.1.min(self.cols - 1);
                    self.p = P::Ground;
                }
                _ => {
                    self.ctl(&format!("ESC:{:02x}", b));
                    self.garbage.push(format!("ESC {:02x}", b));
                    self.p = P::Ground;
                }
            },
            P::EscInter => {
                self.ctl("SCS");
                self.p = P::Ground;
            }
            P::Csi(ref mut v) => {
                if (0x40..=0x7e).contains(&b) {
                    let v = std::mem::take(v);
                    self.p = P::Ground;
                    self.csi(&v, b);
                } else if (0x20..=0x3f).contains(&b) && v.len() < 64 {
                    v.push(b);
                } else {
                    self.garbage.push(format!("byte {:02x} in CSI", b));
                    self.ctl("CSI-broken");
                    self.p = P::Ground;
                }
            }
        }
    }

    fn ctl(&mut self, s: &str) {
        if self.log_controls {
            self.controls.push(s.to_string());
        }
    }

    fn csi(&mut self, v: &[u8], fin: u8) {
        let private = v.first() == Some(&b'?');
        let body = if private { &v[1..] } else { v };
        let text = String::from_utf8_lossy(body).into_owned();
        let params: Vec<Option<u64>> = text.split(';').map(|s| s.parse().ok()).collect();
        if self.log_controls {
            self.controls.push(format!("CSI{}{}", if private { "?" } else { "" }, fin as char));
        }
        if !text.bytes().all(|b| b.is_ascii_digit() || b == b';') {
            self.garbage.push(format!("CSI {:?} {}", text, fin as char));
            return;
        }
        let p1 = |d: u64| -> u64 { params[0].unwrap_or(d) };
        let cnt = |d: Option<u64>| -> usize { d.unwrap_or(1).max(1).min(1 << 30) as usize };
        match (private, fin) {
            (true, b'h') | (true, b'l') => {
                let on = fin == b'h';
                for p in &params {
                    match p.unwrap_or(0) {
                        1 => self.modes.app_cursor = on,
                        25 => self.modes.cursor_hidden = !on,
                        12 => (),
                        47 | 1047 | 1049 => self.alt(on),
                        1006 => self.modes.mouse_sgr = on,
                        n @ (1002 | 1003) => {
                            // Setting any of the tracking modes replaces it;
                            // resetting any turns tracking off.
                            if on {
                                self.modes.mouse = n as u32;
                            } else {
                                self.modes.mouse = 0;
                            }
                            if n == 1002 {
                                self.modes.apart.0 = on;
                            } else {
                                self.modes.apart.1 = on;
                            }
                        }
                        n => self.garbage.push(format!("mode ?{}", n)),
                    }
                }
            }
            (false, b'H') => {
                let l = cnt(params[0]) - 1;
                let c = cnt(params.get(1).copied().flatten()) - 1;
                self.g.line = l.min(self.lines - 1);
                self.g.col = c.min(self.cols - 1);
                self.g.wrap = false;
            }
            (false, b'A') => {
                self.g.line = self.g.line.saturating_sub(cnt(params[0]));
                self.g.wrap = false;
            }
            (false, b'B') => {
                self.g.line = (self.g.line + cnt(params[0])).min(self.lines - 1);
                self.g.wrap = false;
            }
            (false, b'C') => {
                self.g.col = (self.g.col + cnt(params[0])).min(self.cols - 1);
                self.g.wrap = false;
            }
            (false, b'D') => {
                self.g.col = self.g.col.saturating_sub(cnt(params[0]));
                self.g.wrap = false;
            }
            (false, b'J') => {
                let (l, c) = (self.g.line, self.g.col);
                match p1(0) {
                    0 => {
                        self.erase(l, c, self.cols);
                        for i in l + 1..self.lines {
                            self.erase(i, 0, self.cols);
                        }
                    }
                    2 => {
                        for i in 0..self.lines {
                            self.erase(i, 0, self.cols);
                        }
                    }
                    n => self.garbage.push(format!("ED {}", n)),
                }
                self.g.wrap = false;
            }
            (false, b'K') => {
                let (l, c) = (self.g.line, self.g.col);
                match p1(0) {
                    0 => self.erase(l, c, self.cols),
                    n => self.garbage.push(format!("EL {}", n)),
                }
                self.g.wrap = false;
            }
            (false, b'm') => self.sgr(&params),
            (false, b'r') => {
                let top = cnt(params[0]) - 1;
                let bot = params
                    .get(1)
                    .copied()
                    .flatten()
                    .map(|b| (b.max(1) as usize).min(self.lines) - 1)
                    .unwrap_or(self.lines - 1);
                if top < bot || (top == bot && self.lines == 1) {
                    self.region = (top, bot);
                }
                self.g.line = 0;
                self.g.col = 0;
                self.g.wrap = false;
            }
            (false, b't') => (),
            // The cursor's appearance
            (false, b'h') | (false, b'l') if p1(0) == 34 => (),
            // Cursor shape of the linux console
            (true, b'c') => (),
            // Cursor blinking in tmux
            (false, b'h') | (false, b'l') if p1(0) == 34 => (),
            _ => self.garbage.push(format!("CSI {}{} {}", if private { "?" } else { "" }, text, fin as char)),
        }
    }

    fn alt(&mut self, on: bool) {
        if on && !self.modes.alt {
            let (l, c) = (self.g.line, self.g.col);
            let mut g = blank_grid(self.lines, self.cols);
            g.line = l;
            g.col = c;
            self.saved_main = Some(std::mem::replace(&mut self.g, g));
            self.modes.alt = true;
        } else if !on && self.modes.alt {
            if let Some(m) = self.saved_main.take() {
                self.g = m;
            }
            self.modes.alt = false;
        }
    }

    fn sgr(&mut self, params: &[Option<u64>]) {
        let mut i = 0;
        while i < params.len() {
            let n = params[i].unwrap_or(0);
            match n {
                0 => self.attrs = Attrs::default(),
                1 => self.attrs.style |= BOLD,
                3 => self.attrs.style |= ITALIC,
                4 => self.attrs.style |= UNDERLINE,
                7 => self.attrs.style |= REVERSE,
                10 => (),
                22 => self.attrs.style &= !BOLD,
                23 => self.attrs.style &= !ITALIC,
                24 => self.attrs.style &= !UNDERLINE,
                27 => self.attrs.style &= !REVERSE,
                30..=37 => self.attrs.fg = Some((n - 30) as u8),
                39 => self.attrs.fg = None,
                40..=47 => self.attrs.bg = Some((n - 40) as u8),
                49 => self.attrs.bg = None,
                90..=97 => self.attrs.fg = Some((n - 90 + 8) as u8),
                100..=107 => self.attrs.bg = Some((n - 100 + 8) as u8),
                38 | 48 => {
                    if params.get(i + 1).copied().flatten() == Some(5) {
                        let c = params.get(i + 2).copied().flatten().unwrap_or(0) as u8;
                        if n == 38 {
                            self.attrs.fg = Some(c);
                        } else {
                            self.attrs.bg = Some(c);
                        }
                        i += 2;
                    } else {
                        self.garbage.push("SGR 38/48".into());
                    }
                }
                n => self.garbage.push(format!("SGR {}", n)),
            }
            i += 1;
        }
    }

    fn erase(&mut self, line: usize, from: usize, to: usize) {
        let a = Attrs { fg: None, bg: self.attrs.bg, style: 0 };
        if from > 0 && from < self.cols && self.g.cells[line][from].right_half() {
            let at = self.g.cells[line][from - 1].attrs;
            self.g.cells[line][from - 1] = Cell::blank(at);
        }
        for c in from..to.min(self.cols) {
            self.g.cells[line][c] = Cell::blank(a);
        }
    }

    fn line_feed(&mut self) {
        self.g.wrap = false;
        if self.g.line == self.region.1 {
            let a = Attrs { fg: None, bg: self.attrs.bg, style: 0 };
            self.scrolls += 1;
            let (t, b) = self.region;
            self.g.cells.remove(t);
            self.g.cells.insert(b, vec![Cell::blank(a); self.cols]);
        } else if self.g.line + 1 < self.lines {
            self.g.line += 1;
        }
    }

    /// Clears whatever a write at this cell would cut in half.
    fn cut(&mut self, line: usize, col: usize) {
        if self.g.cells[line][col].right_half() && col > 0 {
            let a = self.g.cells[line][col - 1].attrs;
            self.g.cells[line][col - 1] = Cell::blank(a);
            self.g.cells[line][col] = Cell::blank(a);
        } else if self.g.cells[line][col].wide() && col + 1 < self.cols {
            let a = self.g.cells[line][col].attrs;
            self.g.cells[line][col + 1] = Cell::blank(a);
            self.g.cells[line][col] = Cell::blank(a);
        }
    }

    fn print(&mut self, ch: char) {
        if (ch as u32) >= 0x80 && (ch as u32) < 0xa0 {
            self.ctl(&format!("C1:{:02x}", ch as u32));
            self.garbage.push(format!("C1 control {:02x}", ch as u32));
            return;
        }
        if self.log_print {
            self.printed.push((ch, self.attrs));
        }
        let w = ch.width().unwrap_or(0);
        if w == 0 {
            // Combines with the last character printed
            let (l, mut c) = (self.g.line, self.g.col);
            if !self.g.wrap {
                if c == 0 {
                    return;
                }
                c -= 1;
            }
            if self.g.cells[l][c].right_half() && c > 0 {
                c -= 1;
            }
            self.g.cells[l][c].text.push(ch);
            return;
        }
        if w > self.cols {
            self.garbage.push("wide character on a narrow terminal".into());
            return;
        }
        if self.g.wrap || self.g.col + w > self.cols {
            self.g.col = 0;
            self.line_feed();
        }
        let (l, c) = (self.g.line, self.g.col);
        self.cut(l, c);
        if w == 2 {
            self.cut(l, c + 1);
            self.g.cells[l][c + 1] = Cell { text: String::new(), attrs: self.attrs };
        }
        self.g.cells[l][c] = Cell { text: ch.into(), attrs: self.attrs };
        if c + w >= self.cols {
            self.g.col = self.cols - 1;
            self.g.wrap = true;
        } else {
            self.g.col = c + w;
        }
    }

    pub fn dump(&self) -> String {
        let mut s = String::new();
        for row in &self.g.cells {
            s.push('|');
            for c in row {
                if c.right_half() {
                    s.push('>');
                } else {
                    s.push_str(&c.text);
                }
                if c.attrs != Attrs::default() {
                    s.push_str(&format!(
                        "{{{}/{}/{:x}}}",
                        c.attrs.fg.map_or("-".into(), |x| x.to_string()),
                        c.attrs.bg.map_or("-".into(), |x| x.to_string()),
                        c.attrs.style
                    ));
                }
            }
            s.push_str("|\n");
        }
        s.push_str(&format!("cursor ({},{}){}\n", self.g.line, self.g.col, if self.g.wrap { " pending wrap" } else { "" }));
        s
    }
}
