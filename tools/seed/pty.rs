//! A pseudo-terminal to open a `mortal` terminal on.
#![allow(dead_code)]
use std::ffi::CStr;
use std::time::Duration;

pub struct Pty { pub master: i32, pub slave: i32, pub path: String }

impl Pty {
    pub fn new(term: &str, lines: u16, cols: u16) -> Pty {
        std::env::set_var("TERM", term);
        let (mut m, mut s) = (0, 0);
        let mut name = [0; 256];
        let ws = libc::winsize { ws_row: lines, ws_col: cols, ws_xpixel: 0, ws_ypixel: 0 };
        let r = unsafe { libc::openpty(&mut m, &mut s, name.as_mut_ptr(), std::ptr::null_mut(), &ws as *const _ as *mut _) };
        assert!(r == 0, "openpty failed");
        unsafe {
            let mut t = std::mem::zeroed();
            libc::tcgetattr(s, &mut t);
            t.c_oflag &= !libc::OPOST;
            libc::tcsetattr(s, libc::TCSANOW, &t);
            libc::fcntl(m, libc::F_SETFL, libc::O_NONBLOCK);
        }
        let path = unsafe { CStr::from_ptr(name.as_ptr()) }.to_str().unwrap().to_string();
        Pty { master: m, slave: s, path }
    }
    /// What the program wrote so far
    pub fn output(&self) -> Vec<u8> {
        let mut v = vec![];
        let mut b = [0u8; 65536];
        loop {
            std::thread::sleep(Duration::from_millis(20));
            let n = unsafe { libc::read(self.master, b.as_mut_ptr() as *mut _, b.len()) };
            if n <= 0 { return v; }
            v.extend(&b[..n as usize]);
        }
    }
    pub fn text(&self) -> String { String::from_utf8_lossy(&self.output()).into_owned() }
    /// Types something
    pub fn input(&self, b: &[u8]) {
        let n = unsafe { libc::write(self.master, b.as_ptr() as *const _, b.len()) };
        assert_eq!(n, b.len() as isize);
        std::thread::sleep(Duration::from_millis(20));
    }
    pub fn resize(&self, lines: u16, cols: u16) {
        let ws = libc::winsize { ws_row: lines, ws_col: cols, ws_xpixel: 0, ws_ypixel: 0 };
        unsafe { libc::ioctl(self.master, libc::TIOCSWINSZ, &ws) };
    }
    pub fn termios(&self) -> libc::termios {
        unsafe { let mut t = std::mem::zeroed(); libc::tcgetattr(self.slave, &mut t); t }
    }
}

/// A primitive xterm: the text of each line of what was output
pub fn render(out: &str, lines: usize, cols: usize) -> Vec<String> {
    let mut g = vec![vec![' '; cols]; lines];
    let (mut l, mut c) = (0usize, 0usize);
    let mut it = out.chars().peekable();
    while let Some(ch) = it.next() {
        match ch {
            '\x1b' => match it.next() {
                Some('[') => {
                    let mut p = String::new();
                    let mut fin = ' ';
                    for x in it.by_ref() { if ('@'..='~').contains(&x) { fin = x; break; } p.push(x); }
                    let n: Vec<usize> = p.trim_start_matches('?').split(';').map(|x| x.parse().unwrap_or(0)).collect();
                    match fin {
                        'H' => { l = n[0].max(1) - 1; c = n.get(1).cloned().unwrap_or(1).max(1) - 1; }
                        'J' => for r in &mut g { for x in r { *x = ' '; } },
                        'r' => { l = 0; c = 0; }
                        _ => (),
                    }
                }
                Some('(') => { it.next(); }
                _ => (),
            },
            '\n' => l += 1,
            '\r' => c = 0,
            '\x0f' => (),
            _ => {
                let w = if (ch as u32) >= 0x1100 { 2 } else { 1 };
                if l < lines && c < cols {
                    // Overwriting half of a wide character removes all of it
                    if g[l][c] == '\0' && c > 0 { g[l][c - 1] = ' '; }
                    let e = c + w;
                    if e < cols && g[l][e] == '\0' { g[l][e] = ' '; }
                    g[l][c] = ch;
                    if w == 2 && c + 1 < cols { g[l][c + 1] = '\0'; }
                }
                c += w;
            }
        }
    }
    g.into_iter().map(|r| r.into_iter().filter(|&c| c != '\0').collect::<String>().trim_end().to_string()).collect()
}
