//! Opening terminals and screens on the simulated device; conversions.

use mortal::unix::OpenTerminalExt;
use mortal::{Color, PrepareConfig, Screen, Style, Terminal};

use crate::engine::violation;
use crate::vt::{self, Attrs};
use crate::world::DEVICE;

pub const COLORS: [Color; 8] = [
    Color::Black,
    Color::Red,
    Color::Green,
    Color::Yellow,
    Color::Blue,
    Color::Magenta,
    Color::Cyan,
    Color::White,
];

/// ANSI number of a color.
pub fn num(c: Color) -> u8 {
    COLORS.iter().position(|&x| x == c).unwrap() as u8
}

pub fn col(n: Option<u8>) -> Option<Color> {
    n.map(|n| COLORS[n as usize])
}

pub fn style(bits: u8) -> Style {
    let mut s = Style::empty();
    if bits & vt::BOLD != 0 {
        s |= Style::BOLD;
    }
    if bits & vt::ITALIC != 0 {
        s |= Style::ITALIC;
    }
    if bits & vt::REVERSE != 0 {
        s |= Style::REVERSE;
    }
    if bits & vt::UNDERLINE != 0 {
        s |= Style::UNDERLINE;
    }
    s
}

pub fn attrs(fg: Option<u8>, bg: Option<u8>, style: u8) -> Attrs {
    Attrs { fg, bg, style }
}

pub fn init(root: &str) {
    std::env::set_var("TERMINFO", format!("{}/terminfo", root));
    std::env::set_var("HOME", "/nonexistent");
    std::env::remove_var("TERMINFO_DIRS");
    set("xterm");
}

/// Selects the terminal description.
pub fn set(name: &str) {
    std::env::set_var("TERM", name);
}

pub fn open() -> Terminal {
    match Terminal::from_path(DEVICE) {
        Ok(t) => t,
        Err(e) => violation("open-failed", &format!("opening the terminal failed: {}", e)),
    }
}

pub fn open_screen(config: PrepareConfig) -> Screen {
    match Screen::with_terminal(open(), config) {
        Ok(s) => s,
        Err(e) => violation("open-failed", &format!("opening the screen failed: {}", e)),
    }
}

/// A value that must be there.
pub fn ok<T>(r: std::io::Result<T>, what: &str) -> T {
    match r {
        Ok(t) => t,
        Err(e) => violation("unexpected-error", &format!("{} failed: {}", what, e)),
    }
}
