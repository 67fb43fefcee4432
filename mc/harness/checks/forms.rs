//! C24: direct calls, guards and convenience forms have identical effects.

use std::time::Duration;

use mortal::unix::TerminalExt;
use mortal::{Color, Cursor, CursorMode, PrepareConfig, Screen, ScreenReadGuard, ScreenWriteGuard, Signal, Style, Terminal, TerminalReadGuard, TerminalWriteGuard, Theme};

use crate::engine::{choose, job, outcome, state, step, Check, Job};
use crate::term::{ok, open, open_screen, set};
use crate::world::{apply, arm, tio_str, w, Stim};

fn show<T: std::fmt::Debug>(t: T) -> String {
    format!("{:?}", t)
}

/// An operation, the way it is written, and what it is called on.
#[derive(Copy, Clone, Debug)]
struct Step {
    op: usize,
    variant: usize,
    access: Access,
}

#[derive(Copy, Clone, Debug, PartialEq)]
enum Access {
    Direct,
    Guard,
    /// The guard stays for following steps of this kind
    Kept,
    Try,
}

const ACCESS: [Access; 4] = [Access::Direct, Access::Guard, Access::Kept, Access::Try];

fn pick(n: usize, variants: &dyn Fn(usize) -> usize) -> Vec<Step> {
    (0..n).map(|_| pick_one(&|o| o, variants, usize::MAX)).collect()
}

fn pick_one(op_of: &dyn Fn(usize) -> usize, variants: &dyn Fn(usize) -> usize, ops: usize) -> Step {
    let n = if ops == usize::MAX { (0..).take_while(|&i| variants(i) > 0).count() } else { ops };
    let op = op_of(choose(n, "op"));
    Step { op, variant: choose(variants(op), "variant"), access: ACCESS[choose(4, "access")] }
}

fn canonical(v: &[Step]) -> Vec<Step> {
    v.iter().map(|s| Step { variant: 0, access: Access::Direct, ..*s }).collect()
}

/// Performs the steps on a lockable object.
macro_rules! steps {
    ($t:expr, $steps:expr, $results:expr, $direct:ident, $guard:ident, $lock:ident, $try_lock:ident) => {{
        let mut it = $steps.iter().peekable();
        while let Some(s) = it.next() {
            step();
            trace!("{:?}", s);
            match s.access {
                Access::Direct => $results.push($direct(&$t, s)),
                Access::Guard => {
                    let mut g = $t.$lock().unwrap();
                    $results.push($guard(&mut g, s));
                }
                Access::Try => match $t.$try_lock() {
                    Ok(mut g) => $results.push($guard(&mut g, s)),
                    Err(e) => $results.push(format!("try_lock failed: {:?}", e.to_string())),
                },
                Access::Kept => {
                    let mut g = $t.$lock().unwrap();
                    $results.push($guard(&mut g, s));
                    while let Some(s) = it.next_if(|s| s.access == Access::Kept) {
                        trace!("{:?}", s);
                        $results.push($guard(&mut g, s));
                    }
                }
            }
        }
    }};
}

fn compare(what: &str, steps: &[Step], got: (Vec<String>, u64, String), want: (Vec<String>, u64, String)) {
    check!(got.0 == want.0, "result", "{} {:?} returned {:?} instead of {:?}", what, steps, got.0, want.0);
    check!(got.1 == want.1, "effect", "{} {:?} had a different effect than the general operations\n{}instead of\n{}", what, steps, got.2, want.2);
    state(&(what, want.1));
    outcome(&(what, want.1, want.0));
}

fn observed(results: Vec<String>) -> (Vec<String>, u64, String) {
    let v = &w().vt;
    check!(v.garbage.is_empty() && !v.mid_sequence(), "garbage", "meaningless output {:?}", v.garbage);
    (results, v.hash(), format!("{}cursor {:?} modes {:?}\n", v.dump(), (v.g.line, v.g.col), v.modes))
}

// ---------------------------------------------------------------- attribute and text forms, common

/// Variants of each operation both kinds of objects have.
const COMMON: usize = 23;
fn common_variants(op: usize) -> usize {
    match op {
        0..=3 => 2,
        4 | 5 => 1,
        6 | 7 => 3,
        8 => 6,
        9 | 11 => 2,
        10 | 12 => 1,
        13 => 1,
        14 => 3,
        15..=17 => 3,
        18 => 1,
        19..=21 => 1,
        22 => 3,
        _ => 0,
    }
}

macro_rules! common {
    ($t:expr, $s:expr) => {
        match ($s.op, $s.variant) {
            (0, 0) => show($t.add_style(Style::BOLD)),
            (0, _) => show($t.bold()),
            (1, 0) => show($t.add_style(Style::ITALIC)),
            (1, _) => show($t.italic()),
            (2, 0) => show($t.add_style(Style::UNDERLINE)),
            (2, _) => show($t.underline()),
            (3, 0) => show($t.add_style(Style::REVERSE)),
            (3, _) => show($t.reverse()),
            (4, _) => show($t.remove_style(Style::BOLD | Style::ITALIC)),
            (5, _) => show($t.remove_style(Style::UNDERLINE)),
            (6, 0) => show($t.set_style(Style::UNDERLINE | Style::BOLD)),
            (6, 1) => show($t.set_style(Some(Style::UNDERLINE | Style::BOLD))),
            (6, _) => show($t.set_style(Style::BOLD | Style::UNDERLINE)),
            (7, 0) => show($t.set_style(Style::empty())),
            (7, 1) => show($t.set_style(None)),
            (7, _) => show($t.set_style(Style::default())),
            (8, 0) => show($t.set_theme(Theme { fg: Some(Color::Red), bg: None, style: Style::BOLD })),
            (8, 1) => show($t.set_theme(Theme::new(Color::Red, None, Style::BOLD))),
            (8, 2) => show($t.set_theme(Theme::new(Some(Color::Red), None, Some(Style::BOLD)))),
            (8, 3) => show($t.set_theme(Theme::default().fg(Color::Red).style(Style::BOLD))),
            (8, 4) => show($t.set_theme(Theme::new(Color::Blue, Color::Cyan, None).bg(None).style(Some(Style::BOLD)).fg(Some(Color::Red)))),
            (8, _) => show($t.set_theme(Theme::new(None, Color::Cyan, Style::ITALIC).style(None).fg(Color::Red).bg(None).style(Style::BOLD))),
            (9, 0) => show($t.set_fg(Some(Color::Green))),
            (9, _) => show($t.set_fg(Color::Green)),
            (10, _) => show($t.set_fg(None)),
            (11, 0) => show($t.set_bg(Some(Color::Magenta))),
            (11, _) => show($t.set_bg(Color::Magenta)),
            (12, _) => show($t.set_bg(None)),
            (13, _) => show($t.clear_attributes()),
            (14, 0) => show($t.write_styled(Some(Color::Yellow), None, Some(Style::UNDERLINE), "s\u{e9}")),
            (14, 1) => show($t.write_styled(Color::Yellow, None, Style::UNDERLINE, "s\u{e9}")),
            (14, _) => show($t.write_styled(Some(Color::Yellow), None, Style::UNDERLINE, "s\u{e9}")),
            (15, 0) => show($t.write_str("\u{3042}")),
            (15, 1) => show($t.write_char('\u{3042}')),
            (15, _) => show(write!($t, "{}", '\u{3042}')),
            (16, 0) => show($t.write_str("w{}4")),
            (16, 1) => show(write!($t, "w{{}}{}", 4)),
            (16, _) => show($t.write_fmt(format_args!("{}", "w{}4"))),
            (17, 0) => show($t.write_str("\r")),
            (17, 1) => show($t.write_char('\r')),
            (17, _) => show(write!($t, "{}", "\r")),
            (18, _) => show($t.clear_screen()),
            (19, _) => show($t.set_cursor_mode(CursorMode::Invisible)),
            (20, _) => show($t.set_cursor_mode(CursorMode::Normal)),
            (21, _) => show($t.set_cursor_mode(CursorMode::Overwrite)),
            (22, 0) => show($t.write_styled(None, None, Style::empty(), "n")),
            (22, 1) => show($t.write_styled(None, None, None, "n")),
            (22, _) => show($t.write_styled(None, None, Style::default(), "n")),
            _ => unreachable!(),
        }
    };
}

// ---------------------------------------------------------------- Terminal

const TERM: usize = COMMON + 9;
fn term_variants(op: usize) -> usize {
    if op < COMMON {
        common_variants(op)
    } else {
        (op < TERM) as usize
    }
}

macro_rules! term_step {
    ($t:expr, $s:expr, $flush:expr) => {
        match $s.op - COMMON {
            0 => show($t.size()),
            1 => show($t.clear_to_line_end()),
            2 => show($t.clear_to_screen_end()),
            3 => show($t.move_up(1)),
            4 => show($t.move_down(2)),
            5 => show($t.move_left(1)),
            6 => show($t.move_right(3)),
            7 => show($t.move_to_first_column()),
            _ => show($flush),
        }
    };
}

fn term_direct(t: &Terminal, s: &Step) -> String {
    if s.op < COMMON {
        common!(t, s)
    } else {
        // Direct calls have nothing to flush
        term_step!(t, s, std::io::Result::Ok(()))
    }
}

fn term_guard(t: &mut TerminalWriteGuard, s: &Step) -> String {
    if s.op < COMMON {
        common!(t, s)
    } else {
        term_step!(t, s, t.flush())
    }
}

fn term_run(steps: &[Step]) -> (Vec<String>, u64, String) {
    arm(4, 12);
    w().vt.junk();
    let t = open();
    w().vt.g.line = 1;
    w().vt.g.col = 2;
    let mut r = Vec::new();
    steps!(t, steps, r, term_direct, term_guard, lock_write, try_lock_write);
    ok(t.write_str("P"), "write_str");
    observed(r)
}

fn terminal(term: &'static str, depth: usize, some: Vec<usize>) -> Job {
    job(&format!("Terminal, {} operations of {}, {}", depth, if some.is_empty() { TERM } else { some.len() }, term), 0, move || {
        set(term);
        let steps: Vec<Step> = if some.is_empty() {
            pick(depth, &term_variants)
        } else {
            (0..depth).map(|_| pick_one(&|i| some[i], &term_variants, some.len())).collect()
        };
        compare("Terminal", &steps, term_run(&steps), term_run(&canonical(&steps)));
    })
}

// ---------------------------------------------------------------- Screen

const SCREEN: usize = COMMON + 8;
fn screen_variants(op: usize) -> usize {
    if op < COMMON {
        common_variants(op)
    } else {
        match op - COMMON {
            0 | 1 => 1,
            2 => 3,
            3 => 1,
            4 => 2,
            5 => 2,
            6 => 3,
            7 => 1,
            _ => 0,
        }
    }
}

macro_rules! screen_step {
    ($t:expr, $s:expr) => {
        match ($s.op - COMMON, $s.variant) {
            (0, _) => show($t.size()),
            (1, _) => show($t.cursor()),
            (2, 0) => show($t.set_cursor(Cursor { line: 2, column: 5 })),
            (2, 1) => show($t.set_cursor((2, 5))),
            (2, _) => show($t.set_cursor(Cursor::from((2, 5)))),
            (3, _) => show($t.next_line(3)),
            (4, 0) => show($t.write_at(Cursor { line: 1, column: 10 }, "at\u{3042}")),
            (4, _) => show($t.write_at((1, 10), "at\u{3042}")),
            (5, 0) => show($t.write_at(Cursor { line: 0, column: 99 }, "out")),
            (5, _) => show($t.write_at((0, 99), "out")),
            (6, 0) => show($t.write_styled_at(Cursor { line: 3, column: 1 }, Some(Color::Blue), Some(Color::White), Some(Style::REVERSE), "sa")),
            (6, 1) => show($t.write_styled_at((3, 1), Color::Blue, Color::White, Style::REVERSE, "sa")),
            (6, _) => show($t.write_styled_at((3, 1), Some(Color::Blue), Color::White, Some(Style::REVERSE), "sa")),
            (7, _) => show($t.refresh()),
            _ => unreachable!(),
        }
    };
}

fn screen_direct(t: &Screen, s: &Step) -> String {
    if s.op < COMMON {
        common!(t, s)
    } else {
        screen_step!(t, s)
    }
}

fn screen_guard(t: &mut ScreenWriteGuard, s: &Step) -> String {
    if s.op < COMMON {
        common!(t, s)
    } else {
        screen_step!(t, s)
    }
}

fn screen_run(steps: &[Step]) -> (Vec<String>, u64, String) {
    arm(4, 12);
    w().vt.junk();
    let t = open_screen(PrepareConfig::default());
    let mut r = Vec::new();
    steps!(t, steps, r, screen_direct, screen_guard, lock_write, try_lock_write);
    t.write_str("P");
    ok(t.refresh(), "refresh");
    r.push(show(t.cursor()));
    observed(r)
}

fn screen(depth: usize, some: Vec<usize>) -> Job {
    job(&format!("Screen, {} operations of {}", depth, if some.is_empty() { SCREEN } else { some.len() }), 0, move || {
        set("xterm");
        let steps: Vec<Step> = if some.is_empty() {
            pick(depth, &screen_variants)
        } else {
            (0..depth).map(|_| pick_one(&|i| some[i], &screen_variants, some.len())).collect()
        };
        compare("Screen", &steps, screen_run(&steps), screen_run(&canonical(&steps)));
    })
}

// ---------------------------------------------------------------- reading

const READ: usize = 6;
fn read_variants(op: usize) -> usize {
    (op < READ) as usize
}

macro_rules! read_step {
    ($t:expr, $s:expr) => {{
        let ms = |n| Some(Duration::from_millis(n));
        let mut buf = [0; 8];
        match $s.op {
            0 => show($t.wait_event(ms(0))),
            1 => show($t.wait_event(ms(7))),
            2 => show($t.read_event(ms(0))),
            3 => show($t.read_event(ms(7))),
            4 => {
                let r = $t.read_raw(&mut buf[..1], ms(0));
                show((r, buf))
            }
            _ => {
                let r = $t.read_raw(&mut buf[..], ms(7));
                show((r, buf))
            }
        }
    }};
}

fn tread_guard(t: &mut TerminalReadGuard, s: &Step) -> String {
    read_step!(t, s)
}

fn sread_guard(t: &mut ScreenReadGuard, s: &Step) -> String {
    read_step!(t, s)
}

fn stimulate(k: usize) {
    match k {
        0 => w().input.extend(b"a\x1b[A\xc3\xa9\x1b[<0;3;4Mz"),
        1 => {
            w().input.extend(b"x\r");
            apply(Stim::Resize(5, 9));
        }
        2 => {
            apply(Stim::Sig(libc::SIGINT));
        }
        _ => {
            apply(Stim::Resize(3, 14));
        }
    }
}

fn read_config() -> PrepareConfig {
    PrepareConfig { enable_mouse: true, report_signals: Signal::Interrupt.into(), ..PrepareConfig::default() }
}

fn tread_run(steps: &[Step], k: usize) -> (Vec<String>, u64, String) {
    arm(4, 12);
    let mut t = open();
    let st = ok(t.prepare(read_config()), "prepare");
    stimulate(k);
    let mut r = Vec::new();
    // read_raw needs the terminal itself
    let t2: *mut Terminal = &mut t;
    let direct = |t: &Terminal, s: &Step| {
        assert!(t as *const Terminal == t2 as *const Terminal);
        let t = unsafe { &mut *t2 };
        read_step!(t, s)
    };
    steps!(t, steps, r, direct, tread_guard, lock_read, try_lock_read);
    r.push(format!("now {} taken {}", w().now, w().taken));
    let o = observed(r);
    drain(&t);
    ok(t.restore(st), "restore");
    o
}

fn sread_run(steps: &[Step], k: usize) -> (Vec<String>, u64, String) {
    arm(4, 12);
    let mut t = open_screen(read_config());
    stimulate(k);
    let mut r = Vec::new();
    let t2: *mut Screen = &mut t;
    let direct = |t: &Screen, s: &Step| {
        assert!(t as *const Screen == t2 as *const Screen);
        let t = unsafe { &mut *t2 };
        read_step!(t, s)
    };
    steps!(t, steps, r, direct, sread_guard, lock_read, try_lock_read);
    r.push(format!("now {} taken {} {:?}", w().now, w().taken, t.size()));
    t.write_at((0, 0), "P");
    ok(t.refresh(), "refresh");
    let o = observed(r);
    while let Ok(Some(_)) = t.read_event(Some(Duration::from_millis(0))) {}
    o
}

/// Leaves no signal behind for the next run.
fn drain(t: &Terminal) {
    let mut idle = 0;
    while idle < 2 {
        match t.read_event(Some(Duration::from_millis(0))) {
            Ok(Some(_)) => idle = 0,
            _ => idle += 1,
        }
    }
}

fn reading(depth: usize) -> Job {
    job(&format!("reading, {} operations", depth), 0, move || {
        set("xterm");
        let k = choose(4, "stimulus");
        let scr = choose(2, "screen") == 1;
        let steps = pick(depth, &read_variants);
        if scr {
            compare("Screen", &steps, sread_run(&steps, k), sread_run(&canonical(&steps), k));
        } else {
            compare("Terminal", &steps, tread_run(&steps, k), tread_run(&canonical(&steps), k));
        }
    })
}

// ---------------------------------------------------------------- preparing

fn configs() -> Vec<PrepareConfig> {
    vec![
        PrepareConfig::default(),
        PrepareConfig { enable_mouse: true, always_track_motion: true, enable_keypad: false, ..PrepareConfig::default() },
        PrepareConfig { block_signals: false, enable_control_flow: true, enable_mouse: true, ..PrepareConfig::default() },
    ]
}

fn modes() -> String {
    let h: Vec<bool> = [libc::SIGINT, libc::SIGQUIT, libc::SIGTSTP, libc::SIGCONT, libc::SIGWINCH].iter().map(|&s| w().has_handler(s)).collect();
    format!("{} {:?} {:?}", tio_str(&w().tio), w().vt.modes, h)
}

fn prepare_run(cfg: &[PrepareConfig], how: &[usize], back: &[usize]) -> (Vec<String>, u64, String) {
    arm(4, 12);
    let t = open();
    let mut r = Vec::new();
    let mut states = Vec::new();
    for (c, h) in cfg.iter().zip(how) {
        step();
        let res = match h {
            0 => t.prepare(*c),
            1 => t.lock_read().unwrap().prepare(*c),
            _ => {
                let mut rd = t.lock_read().unwrap();
                let mut wr = t.lock_write().unwrap();
                rd.prepare_with_lock(&mut wr, *c)
            }
        };
        states.push(ok(res, "prepare"));
        r.push(modes());
    }
    for h in back {
        step();
        let st = states.pop().unwrap();
        let res = match h {
            0 => t.restore(st),
            1 => t.lock_read().unwrap().restore(st),
            _ => {
                let mut rd = t.lock_read().unwrap();
                let mut wr = t.lock_write().unwrap();
                rd.restore_with_lock(&mut wr, st)
            }
        };
        ok(res, "restore");
        r.push(modes());
    }
    observed(r)
}

fn preparing() -> Job {
    job("prepare and restore", 0, || {
        set("xterm");
        let n = choose(2, "nesting") + 1;
        let all = configs();
        let cfg: Vec<PrepareConfig> = (0..n).map(|_| all[choose(all.len(), "config")]).collect();
        let how: Vec<usize> = (0..n).map(|_| choose(3, "prepare")).collect();
        let back: Vec<usize> = (0..n).map(|_| choose(3, "restore")).collect();
        compare("prepare", &[], prepare_run(&cfg, &how, &back), prepare_run(&cfg, &vec![0; n], &vec![0; n]));
    })
}

// ---------------------------------------------------------------- characters and texts

const FORMS: [&str; 8] = ["write_str", "write_char", "write!", "guard write_str", "guard write_char", "guard write!", "write_styled", "guard write_styled"];

macro_rules! put {
    ($t:expr, $f:expr, $c:expr) => {
        match $f {
            0 => show($t.write_str(&$c.to_string())),
            1 => show($t.write_char($c)),
            2 => show(write!($t, "{}", $c)),
            _ => show($t.write_styled(None, None, None, &$c.to_string())),
        }
    };
}

macro_rules! put_all {
    ($t:expr, $f:expr, $chars:expr, $before:ident) => {{
        let mut failed = vec![];
        let it = $chars.iter().enumerate();
        if [3, 4, 5, 7].contains(&$f) {
            let mut g = $t.lock_write().unwrap();
            for (i, &c) in it {
                $before!(g, i);
                let r = put!(g, $f - 3, c);
                if r != "Ok(())" && r != "()" {
                    failed.push((c, r));
                }
            }
        } else {
            for (i, &c) in it {
                $before!($t, i);
                let r = put!($t, $f, c);
                if r != "Ok(())" && r != "()" {
                    failed.push((c, r));
                }
            }
        }
        check!(failed.is_empty(), "result", "{} failed: {:?}", FORMS[$f], failed);
    }};
}

fn block(n: u32) -> Vec<char> {
    (n * 0x1000..(n + 1) * 0x1000).filter_map(char::from_u32).collect()
}

fn characters() -> Job {
    job("Terminal, all characters", 0, || {
        set("xterm");
        let chars = block(choose(0x110, "block") as u32);
        let f = choose(FORMS.len(), "form");
        arm(4, 12);
        w().no_vt = true;
        w().horizon = 1_000_000;
        let t = open();
        macro_rules! nothing {
            ($g:expr, $i:expr) => {};
        }
        put_all!(t, f, chars, nothing);
        ok(t.write_str(""), "write_str");
        let want: String = chars.iter().collect();
        if w().out != want.as_bytes() {
            let at = w().out.iter().zip(want.as_bytes()).take_while(|(a, b)| a == b).count();
            let c = want.char_indices().take_while(|c| c.0 <= at).last().map(|c| c.1);
            check!(false, "effect", "{} of {:?} differs from write_str", FORMS[f], c);
        }
        outcome(&(chars.len(), f));
        state(&(chars.first().cloned(), "char"));
    })
}

fn screen_chars(f: usize, chars: &[char]) -> (u64, Vec<String>) {
    arm(65, 128);
    w().horizon = 1_000_000;
    let t = open_screen(PrepareConfig::default());
    macro_rules! place {
        ($g:expr, $i:expr) => {
            $g.set_cursor(($i / 64, $i % 64 * 2))
        };
    }
    put_all!(t, f, chars, place);
    ok(t.refresh(), "refresh");
    let v = &w().vt;
    check!(v.garbage.is_empty() && !v.mid_sequence(), "garbage", "meaningless output {:?}", v.garbage);
    (v.hash(), (0..64).map(|l| v.row_text(l)).collect())
}

fn screen_characters() -> Job {
    job("Screen, all characters", 0, || {
        set("xterm");
        let chars = block(choose(0x110, "block") as u32);
        let f = 1 + choose(FORMS.len() - 1, "form");
        let (a, b) = (screen_chars(f, &chars), screen_chars(0, &chars));
        if a != b {
            let l = a.1.iter().zip(&b.1).position(|(a, b)| a != b).unwrap_or(0);
            check!(false, "effect", "{} differs from write_str: {:?} instead of {:?}", FORMS[f], a.1[l], b.1[l]);
        }
        outcome(&(a.0, f));
    })
}

/// Texts around the sizes at which output is delivered otherwise.
fn texts() -> Job {
    job("Terminal, texts of every size class", 0, || {
        set("xterm");
        let n = [0, 1, 2, 3, 7, 8, 9, 4095, 4096, 4097, 8191, 8192, 8193, 20000][choose(14, "size")];
        let s: String = ['a', '{', '%', '\u{e9}', '\u{3042}', '\u{1f600}'].iter().cycle().take(n).collect();
        let before = ["", "<"][choose(2, "before")];
        let f = choose(10, "form");
        arm(4, 12);
        w().no_vt = true;
        w().horizon = 1_000_000;
        let t = open();
        let (red, no) = (Color::Red, None::<Color>);
        match f {
            0..=4 => {
                ok(t.write_str(before), "write_str");
                let r = match f {
                    0 => t.write_str(&s),
                    1 => write!(t, "{}", s),
                    2 => s.chars().map(|c| t.write_char(c)).collect(),
                    3 => t.write_fmt(format_args!("{}{}", "", s)),
                    _ => t.write_styled(no, no, None, &s),
                };
                ok(r, "write");
            }
            _ => {
                let mut g = t.lock_write().unwrap();
                ok(g.write_str(before), "write_str");
                let r = match f {
                    5 => g.write_str(&s),
                    6 => write!(g, "{}", s),
                    7 => s.chars().map(|c| g.write_char(c)).collect(),
                    8 => g.write_fmt(format_args!("{}{}", "", s)),
                    _ => g.write_styled(no, no, None, &s),
                };
                ok(r, "write");
                ok(g.set_fg(red).and_then(|_| g.clear_attributes()), "set_fg");
            }
        }
        let out = w().out_str();
        let end = if f > 4 { "\x1b[31m\x1b(B\x1b[m" } else { "" };
        check!(out.starts_with(before) && out[before.len()..].starts_with(&s), "effect", "form {} of a text of {} characters: other output", f, n);
        let rest = &out[before.len() + s.len()..];
        check!(rest.is_empty() == end.is_empty(), "effect", "form {} of a text of {} characters is followed by {:?}", f, n, rest);
        outcome(&(n, f, before));
    })
}

/// Themes made in every way, and what is written with them.
fn themes(len: usize) -> Job {
    job("themes", 0, move || {
        set("xterm");
        let screen = choose(2, "screen") == 1;
        let colors = [None, Some(Color::Red), Some(Color::Blue)];
        let styles = [None, Some(Style::BOLD), Some(Style::ITALIC | Style::UNDERLINE)];
        let (f, b, s) = (choose(3, "fg"), choose(3, "bg"), choose(3, "style"));
        let mut want = Theme { fg: colors[f], bg: colors[b], style: styles[s].unwrap_or(Style::empty()) };
        let mut got = match (f, b, s) {
            (0, 0, 0) => Theme::default(),
            (1, 2, 1) => Theme::new(Color::Red, Color::Blue, Style::BOLD),
            _ => Theme::new(colors[f], colors[b], styles[s]),
        };
        let start = show(got);
        for _ in 0..choose(len, "calls") {
            step();
            let k = choose(3, "value");
            match choose(3, "call") {
                0 => {
                    want.fg = colors[k];
                    got = if k == 1 { got.fg(Color::Red) } else { got.fg(colors[k]) };
                }
                1 => {
                    want.bg = colors[k];
                    got = if k == 2 { got.bg(Color::Blue) } else { got.bg(colors[k]) };
                }
                _ => {
                    want.style = styles[k].unwrap_or(Style::empty());
                    got = if k == 1 { got.style(Style::BOLD) } else { got.style(styles[k]) };
                }
            }
        }
        check!(
            got.fg == want.fg && got.bg == want.bg && got.style == want.style,
            "theme",
            "the theme made from {} is {:?}, not {:?}",
            start,
            got,
            want
        );
        arm(2, 4);
        let mut seen = Vec::new();
        for single in [false, true] {
            arm(2, 4);
            if screen {
                let s = open_screen(PrepareConfig::default());
                if single {
                    s.set_style(want.style);
                    s.set_bg(want.bg);
                    s.set_fg(want.fg);
                } else {
                    s.set_theme(got);
                }
                s.write_str("x");
                ok(s.refresh(), "refresh");
                seen.push(w().vt.dump());
            } else {
                let t = open();
                if single {
                    ok(t.set_style(want.style), "set_style");
                    ok(t.set_bg(want.bg), "set_bg");
                    ok(t.set_fg(want.fg), "set_fg");
                } else {
                    ok(t.set_theme(got), "set_theme");
                }
                ok(t.write_str("x"), "write_str");
                seen.push(w().vt.dump());
            }
        }
        check!(seen[0] == seen[1], "shown", "set_theme({:?}) shows {} and its parts {}", got, seen[0], seen[1]);
        outcome(&show(want));
    })
}

pub fn c24(thorough: bool) -> Check {
    let tfew = vec![0, 4, 7, 10, 14, 15, 19, COMMON + 1, COMMON + 6];
    let sfew = vec![0, 4, 7, 15, 19, COMMON + 2];
    let mut jobs = vec![
        terminal("xterm", 2, vec![]),
        terminal("mc-min", 2, vec![]),
        terminal("xterm", 3, tfew),
        screen(2, vec![]),
        screen(3, sfew),
        reading(if thorough { 4 } else { 3 }),
        preparing(),
        characters(),
        screen_characters(),
        texts(),
        themes(4 + thorough as usize),
    ];
    if thorough {
        jobs.push(terminal("xterm", 3, vec![]));
        jobs.push(screen(3, vec![]));
    }
    Check {
        id: "C24",
        jobs,
        rule: "Sequences over all operations of Terminal (31) and Screen (30), each in every convenience form and through each of: direct call, one-shot guard, guard kept for several operations, try-lock guard; compared by results, display, cursor, attributes and modes with the same sequence of general operations called directly. Themes made by every sequence of calls, and the same parts set one by one. Likewise for reading (events, raw, waiting; with input, signals and resizes), and for nested prepare and restore. Every character in every form of writing, on a Terminal and on a Screen; texts of 14 sizes around those of the buffers.",
        assumptions: vec!["A flush through a guard is compared with no operation: direct calls deliver their output by themselves."],
    }
}
