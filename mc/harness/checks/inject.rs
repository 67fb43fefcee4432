//! C18: text drawn on a Screen cannot inject control sequences.

use mortal::PrepareConfig;
use unicode_normalization::char::is_combining_mark;
use unicode_width::UnicodeWidthChar;

use crate::engine::{choose, choose_of, job, outcome, state, steps, Check, Job};
use crate::model::{draw, draw_guard, Op};
use crate::term::{attrs, ok, open_screen, set};
use crate::vt::BOLD;
use crate::world::{arm, w};

use super::screen::rig;

/// The printable text in a Screen's output, or what else is in it.
fn printable(out: &[u8]) -> Result<String, String> {
    let s = std::str::from_utf8(out).map_err(|e| format!("not UTF-8: {}", e))?;
    let mut text = String::new();
    let mut it = s.chars().peekable();
    while let Some(ch) = it.next() {
        match ch {
            '\x1b' => match it.next() {
                Some('(') => {
                    if it.next() != Some('B') {
                        return Err("character set selection".into());
                    }
                }
                Some('[') => {
                    let mut par = String::new();
                    loop {
                        match it.next() {
                            Some(c) if c.is_ascii_digit() || c == ';' => par.push(c),
                            // Cursor motion, erasing, attributes
                            Some('A'..='D') | Some('G') | Some('H') | Some('d') | Some('J') | Some('K') | Some('X') | Some('m') => break,
                            c => return Err(format!("sequence ESC [ {} {:?}", par, c)),
                        }
                    }
                }
                c => return Err(format!("ESC {:?}", c)),
            },
            c if c.is_control() => return Err(format!("control character {:?}", c)),
            c => text.push(c),
        }
    }
    Ok(text)
}

fn forms(ch: char, form: usize) -> Op {
    let t = ch.to_string();
    match form {
        0 => Op::Ch(ch),
        1 => Op::Str(t),
        2 => Op::At(0, 1, t),
        3 => Op::Styled(attrs(Some(2), None, 0), t),
        _ => Op::StyledAt(0, 1, attrs(None, Some(3), BOLD), t),
    }
}

const BLOCK: u32 = 512;

fn scalars(guard: bool) -> Job {
    job(&format!("all scalar values{}", if guard { " through a guard" } else { "" }), 0, move || {
        set("xterm");
        arm(2, 5);
        let b = choose((0x110000 / BLOCK) as usize, "block") as u32;
        let form = choose(5, "form");
        let s = open_screen(PrepareConfig::default());
        w().no_vt = true;
        for ch in (b * BLOCK..(b + 1) * BLOCK).filter_map(char::from_u32) {
            steps(1);
            s.clear_screen();
            ok(s.refresh(), "refresh");
            s.set_cursor((0, 0));
            s.write_char('a');
            w().out.clear();
            let op = forms(ch, form);
            let cur;
            if guard {
                let mut g = s.lock_write().unwrap();
                draw_guard(&mut g, &op);
                cur = g.cursor();
                ok(g.refresh(), "refresh");
            } else {
                draw(&s, &op);
                cur = s.cursor();
                ok(s.refresh(), "refresh");
            }
            match printable(&w().out) {
                Err(e) => crate::engine::violation("injection", &format!("drawing {:?} sends {}: {:?}", ch, e, w().out_str())),
                Ok(t) => {
                    let bad = t.chars().find(|&c| c != 'a' && c != ' ' && (c != ch || ch.is_control()));
                    check!(bad.is_none(), "injection", "drawing {:?} sends the text {:?}", ch, t);
                    let nothing = ch.width().unwrap_or(0) == 0 && !is_combining_mark(ch);
                    if nothing && !"\n\r\t".contains(ch) {
                        check!(
                            (cur.line, cur.column) == (0, 1) && t == "a",
                            "effect",
                            "drawing {:?} moves the cursor to {:?} and sends {:?}",
                            ch,
                            cur,
                            t
                        );
                    }
                }
            }
        }
        state(&(b, form));
        outcome(&(b, form));
    })
}

fn strings(lines: usize, cols: usize, alphabet: &'static [char], len: usize) -> Job {
    job(&format!("strings {}x{} of {} characters to length {}", lines, cols, alphabet.len(), len), 0, move || {
        set("xterm");
        let mut r = rig(lines, cols);
        let form = choose(4, "form");
        let n = choose(len, "length") + 1;
        let t: String = (0..n).map(|_| *choose_of(alphabet, "char")).collect();
        w().out.clear();
        let a = attrs(Some(2), None, BOLD);
        match form {
            0 => {
                for ch in t.chars() {
                    r.op(&Op::Ch(ch));
                }
            }
            1 => r.op(&Op::Str(t.clone())),
            2 => r.op(&Op::StyledAt(0, cols - 1, a, t.clone())),
            _ => {
                let op = Op::At(lines - 1, 0, t.clone());
                let mut g = r.s.lock_write().unwrap();
                draw_guard(&mut g, &op);
                r.m.apply(&op);
            }
        }
        r.refresh();
        match printable(&w().out) {
            Err(e) => crate::engine::violation("injection", &format!("drawing {:?} sends {}: {:?}", t, e, w().out_str())),
            Ok(p) => {
                let bad = p.chars().find(|&c| c != ' ' && !t.contains(c));
                check!(bad.is_none(), "injection", "drawing {:?} sends the text {:?}", t, p);
            }
        }
        outcome(&r.m);
    })
}

/// One special character anywhere in a long text.
fn within(thorough: bool) -> Job {
    job("one character within a long text", 0, move || {
        set("xterm");
        let (lines, cols) = *choose_of(&[(3, 30), (2, 140), (24, 80)][..2 + thorough as usize], "size");
        let mut r = rig(lines, cols);
        let n = *choose_of(&[4, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300], "length");
        let at = match choose(9, "where") {
            k @ 0..=2 => k,
            k @ 3..=5 => n - (k - 2),
            6 => n / 2,
            7 => 8.min(n - 1),
            _ => 15.min(n - 1),
        };
        let other = choose(3, "around");
        let ch = *choose_of(ALL, "char");
        let t: String = (0..n)
            .map(|i| {
                if i == at {
                    ch
                } else {
                    match other {
                        0 => (b'a' + (i % 26) as u8) as char,
                        1 => ['é', 'あ', 'b'][i % 3],
                        _ => ' ',
                    }
                }
            })
            .collect();
        w().out.clear();
        match choose(3, "form") {
            0 => r.op(&Op::Str(t.clone())),
            1 => r.op(&Op::StyledAt(0, 1, attrs(Some(2), None, BOLD), t.clone())),
            _ => {
                let op = Op::At(0, 0, t.clone());
                let mut g = r.s.lock_write().unwrap();
                draw_guard(&mut g, &op);
                r.m.apply(&op);
            }
        }
        r.refresh();
        match printable(&w().out) {
            Err(e) => crate::engine::violation("injection", &format!("drawing {:?} sends {}: {:?}", t, e, w().out_str())),
            Ok(p) => {
                let bad = p.chars().find(|&c| c != ' ' && !t.contains(c));
                check!(bad.is_none(), "injection", "drawing {:?} sends the text {:?}", t, p);
            }
        }
        outcome(&(at, n, other));
    })
}

const ALL: &[char] = &[
    '\x1b', '[', '3', '1', 'm', 'H', 'J', ';', '\u{9b}', '\u{9d}', '\u{85}', '\x7f', '\x08', '\x07', '\x0e', '\x0c', '\x0b', '\0',
    '\n', '\r', '\t', 'あ', '\u{301}', '\u{200b}', '\u{200d}', '\u{2028}', '\u{202e}',
];
const SOME: &[char] = &['\x1b', '[', 'm', '\u{9b}', '\x08', '\n', '\t', 'あ'];

pub fn c18(thorough: bool) -> Check {
    let t = thorough as usize;
    Check {
        id: "C18",
        jobs: vec![
            scalars(false),
            scalars(true),
            strings(1, 3, ALL, 3),
            strings(2, 4, ALL, 2 + t),
            strings(2, 2, SOME, 5 + t),
            strings(1, 1, SOME, 4 + t),
            within(thorough),
        ],
        rule: "every Unicode scalar value through every drawing operation, directly and through a write guard, and all strings to a length over control, escape, C1, format and printable characters, and each of these characters at nine places of texts of 22 lengths up to 300; all bytes sent by the refresh must be cursor motion, erasing, attribute setting, or the drawn printable characters, control characters other than newline, return and tab and other characters that take no column, other than combining marks, must leave cursor and content unchanged",
        assumptions: vec!["terminals act on C0 controls, DEL and C1 controls (also in UTF-8) only"],
    }
}
