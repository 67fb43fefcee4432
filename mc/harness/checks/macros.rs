//! C21 formatted-write macros.

use std::fmt;

use mortal::{term_write, term_writeln, Color, PrepareConfig, Screen, ScreenWriteGuard, Style, Terminal, TerminalWriteGuard, Theme};

use crate::engine::{choose, choose_of, job, outcome, state, step, Check, Job};
use crate::term::{ok, open, open_screen, set};
use crate::world::{arm, w};

type Res = Result<(), String>;

/// Screens return nothing, terminals a result.
trait IntoRes {
    fn res(self) -> Res;
}
impl IntoRes for () {
    fn res(self) -> Res {
        Ok(())
    }
}
impl IntoRes for std::io::Result<()> {
    fn res(self) -> Res {
        self.map_err(|e| format!("{:?} {:?}", e.kind(), e.raw_os_error()))
    }
}

const C: Color = Color::Cyan;
const S: Style = Style::BOLD;
const VALUE: i32 = -42;

fn a_theme() -> Theme {
    Theme::new(Color::Green, Color::Magenta, Style::UNDERLINE)
}

/// A value whose text does not fit any buffer.
struct Big;
impl fmt::Display for Big {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&"B".repeat(9000))
    }
}

// Every documented element with the call it is documented to equal; and a selection of them.

macro_rules! all {
    ($go:ident $t:ident $i:ident) => {
        $go! { $t $i [
            0 [black] {set_fg(Color::Black)}
            1 [blue] {set_fg(Color::Blue)}
            2 [cyan] {set_fg(Color::Cyan)}
            3 [green] {set_fg(Color::Green)}
            4 [magenta] {set_fg(Color::Magenta)}
            5 [red] {set_fg(Color::Red)}
            6 [white] {set_fg(Color::White)}
            7 [yellow] {set_fg(Color::Yellow)}
            8 [#black] {set_bg(Color::Black)}
            9 [#blue] {set_bg(Color::Blue)}
            10 [#cyan] {set_bg(Color::Cyan)}
            11 [#green] {set_bg(Color::Green)}
            12 [#magenta] {set_bg(Color::Magenta)}
            13 [#red] {set_bg(Color::Red)}
            14 [#white] {set_bg(Color::White)}
            15 [#yellow] {set_bg(Color::Yellow)}
            16 [bold] {add_style(Style::BOLD)}
            17 [italic] {add_style(Style::ITALIC)}
            18 [reverse] {add_style(Style::REVERSE)}
            19 [underline] {add_style(Style::UNDERLINE)}
            20 [!bold] {remove_style(Style::BOLD)}
            21 [!italic] {remove_style(Style::ITALIC)}
            22 [!reverse] {remove_style(Style::REVERSE)}
            23 [!underline] {remove_style(Style::UNDERLINE)}
            24 [reset] {clear_attributes()}
            25 [!fg] {set_fg(None)}
            26 [!bg] {set_bg(None)}
            27 [!style] {set_style(None)}
            28 [fg = C] {set_fg(C)}
            29 [fg = Some(Color::Blue)] {set_fg(Some(Color::Blue))}
            30 [fg = None] {set_fg(None)}
            31 [bg = C] {set_bg(C)}
            32 [bg = Some(Color::White)] {set_bg(Some(Color::White))}
            33 [bg = None] {set_bg(None)}
            34 [style = S] {set_style(S)}
            35 [style = None] {set_style(None)}
            36 [style = Some(S | Style::REVERSE)] {set_style(Some(S | Style::REVERSE))}
            37 [style += S | Style::ITALIC] {add_style(S | Style::ITALIC)}
            38 [style -= S | Style::ITALIC] {remove_style(S | Style::ITALIC)}
            39 [theme = a_theme()] {set_theme(a_theme())}
            40 (: VALUE) {write_fmt(format_args!("{}", VALUE))}
            41 (? "q\"") {write_fmt(format_args!("{:?}", "q\""))}
            42 ("{}-{:03}", 'x', VALUE) {write_fmt(format_args!("{}-{:03}", 'x', VALUE))}
            43 ("{n:>4}", n = 7) {write_fmt(format_args!("{n:>4}", n = 7))}
            44 ("plain") {write_fmt(format_args!("plain"))}
            45 "lit\u{e9}ral" {write_str("lit\u{e9}ral")}
            46 "{}" {write_str("{}")}
            47 "" {write_str("")}
        ] }
    };
}

const ALL: usize = 48;

macro_rules! few {
    ($go:ident $t:ident $($i:ident)*) => {
        $go! { $t $($i)* [
            0 [red] {set_fg(Color::Red)}
            1 [#blue] {set_bg(Color::Blue)}
            2 [bold] {add_style(Style::BOLD)}
            3 [underline] {add_style(Style::UNDERLINE)}
            4 [!bold] {remove_style(Style::BOLD)}
            5 [reset] {clear_attributes()}
            6 [!fg] {set_fg(None)}
            7 [!bg] {set_bg(None)}
            8 [!style] {set_style(None)}
            9 [style = S] {set_style(S)}
            10 [theme = a_theme()] {set_theme(a_theme())}
            11 (: VALUE) {write_fmt(format_args!("{}", VALUE))}
            12 (? "q\"") {write_fmt(format_args!("{:?}", "q\""))}
            13 "lit\u{e9}ral" {write_str("lit\u{e9}ral")}
        ] }
    };
}

const FEW: usize = 14;

macro_rules! direct {
    ($t:ident $i:ident [$($n:literal $e:tt {$($f:tt)*})*]) => {
        match $i { $($n => $t.$($f)*.res(),)* _ => unreachable!() }
    };
}

macro_rules! alone {
    ($t:ident $i:ident [$($n:literal $e:tt {$($f:tt)*})*]) => {
        match $i { $($n => term_write!($t, $e).res(),)* _ => unreachable!() }
    };
}

macro_rules! line {
    ($t:ident $i:ident [$($n:literal $e:tt {$($f:tt)*})*]) => {
        match $i { $($n => term_writeln!($t, $e).res(),)* _ => unreachable!() }
    };
}

macro_rules! between {
    ($t:ident $i:ident [$($n:literal $e:tt {$($f:tt)*})*]) => {
        match $i { $($n => term_write!($t, "<" $e ">" (: VALUE)).res(),)* _ => unreachable!() }
    };
}

macro_rules! pairs {
    ($t:ident $i:ident $j:ident $list:tt) => { pairs! { @outer $t $i $j $list $list } };
    (@outer $t:ident $i:ident $j:ident [$($n:literal $e:tt {$($f:tt)*})*] $list:tt) => {
        match $i { $($n => pairs! { @inner $t $j $e $list },)* _ => unreachable!() }
    };
    (@inner $t:ident $j:ident $e:tt [$($n:literal $e2:tt {$($f:tt)*})*]) => {
        match $j { $($n => term_write!($t, $e $e2).res(),)* _ => unreachable!() }
    };
}

macro_rules! failing {
    ($t:ident $i:ident $j:ident $list:tt) => { failing! { @outer $t $i $j $list $list } };
    (@outer $t:ident $i:ident $j:ident [$($n:literal $e:tt {$($f:tt)*})*] $list:tt) => {
        match $i { $($n => failing! { @inner $t $j $e $list },)* _ => unreachable!() }
    };
    (@inner $t:ident $j:ident $e:tt [$($n:literal $e2:tt {$($f:tt)*})*]) => {
        match $j { $($n => term_write!($t, $e (: Big) $e2).res(),)* _ => unreachable!() }
    };
}

// Long invocations

macro_rules! longs {
    ($go:ident $t:ident $i:ident $line:ident) => {
        $go! { $t $i $line
            0 [
                [red] {set_fg(Color::Red)}
                "a" {write_str("a")}
                [bold] {add_style(Style::BOLD)}
                (: VALUE) {write_fmt(format_args!("{}", VALUE))}
                [#blue] {set_bg(Color::Blue)}
                (? "q") {write_fmt(format_args!("{:?}", "q"))}
                [!fg] {set_fg(None)}
                ("{}{:02}", 'x', 3) {write_fmt(format_args!("{}{:02}", 'x', 3))}
                [!bold] {remove_style(Style::BOLD)}
                "b" {write_str("b")}
                [reset] {clear_attributes()}
                "c" {write_str("c")}
            ]
            1 [
                [fg = C] {set_fg(C)}
                [bg = Color::Red] {set_bg(Color::Red)}
                [style = S] {set_style(S)}
                [style += Style::UNDERLINE] {add_style(Style::UNDERLINE)}
                [style -= S] {remove_style(S)}
                [underline] {add_style(Style::UNDERLINE)}
                [!underline] {remove_style(Style::UNDERLINE)}
                [italic] {add_style(Style::ITALIC)}
                [reverse] {add_style(Style::REVERSE)}
                "text" {write_str("text")}
                [theme = a_theme()] {set_theme(a_theme())}
                "other" {write_str("other")}
                [!bg] {set_bg(None)}
                [!style] {set_style(None)}
                "\n" {write_str("\n")}
                (: 'z') {write_fmt(format_args!("{}", 'z'))}
            ]
            2 [
                "1" {write_str("1")} "2" {write_str("2")} "3" {write_str("3")} "4" {write_str("4")}
                "5" {write_str("5")} "6" {write_str("6")} "7" {write_str("7")} "8" {write_str("8")}
                [green] {set_fg(Color::Green)}
                "9" {write_str("9")} "a" {write_str("a")} "b" {write_str("b")} "c" {write_str("c")}
                [yellow] {set_fg(Color::Yellow)} [magenta] {set_fg(Color::Magenta)} [#white] {set_bg(Color::White)}
                "d" {write_str("d")} "e" {write_str("e")} "f" {write_str("f")} "0" {write_str("0")}
                [reset] {clear_attributes()} [reset] {clear_attributes()}
                "g" {write_str("g")}
            ]
            3 [
                (: 1) {write_fmt(format_args!("{}", 1))} (: "two") {write_fmt(format_args!("{}", "two"))}
                (: 3.5) {write_fmt(format_args!("{}", 3.5))} (? Some(4)) {write_fmt(format_args!("{:?}", Some(4)))}
                ("{:>5}{:<5}|", 'a', 'b') {write_fmt(format_args!("{:>5}{:<5}|", 'a', 'b'))}
                ("{0}{1}{0}", 'u', 'v') {write_fmt(format_args!("{0}{1}{0}", 'u', 'v'))}
                [cyan] {set_fg(Color::Cyan)}
                ("{w:?}", w = "w") {write_fmt(format_args!("{w:?}", w = "w"))}
                [black] {set_fg(Color::Black)} [#green] {set_bg(Color::Green)}
                ("") {write_fmt(format_args!(""))}
                "{}" {write_str("{}")}
                [!fg] {set_fg(None)} [!bg] {set_bg(None)}
            ]
        }
    };
}

const LONGS: usize = 4;

macro_rules! invoke {
    ($t:ident $i:ident $line:ident $($n:literal [$($e:tt {$($f:tt)*})*])*) => {
        match $i {
            $($n => if $line { term_writeln!($t, $($e)*).res() } else { term_write!($t, $($e)*).res() },)*
            _ => unreachable!(),
        }
    };
}

macro_rules! calls {
    ($t:ident $i:ident $line:ident $($n:literal [$($e:tt {$($f:tt)*})*])*) => {
        match $i {
            $($n => {
                $(if let Err(e) = $t.$($f)*.res() { return Err(e); })*
                if $line { $t.write_str("\n").res() } else { Ok(()) }
            })*
            _ => unreachable!(),
        }
    };
}

/// The ways to write on any kind of receiver.
trait Receiver {
    fn direct(&mut self, i: usize) -> Res;
    fn direct_few(&mut self, i: usize) -> Res;
    fn text(&mut self, s: &str) -> Res;
    fn fmt(&mut self, a: fmt::Arguments) -> Res;
    fn preset(&mut self, t: Theme) -> Res;
    fn alone(&mut self, i: usize) -> Res;
    fn line(&mut self, i: usize) -> Res;
    fn empty_line(&mut self) -> Res;
    fn between(&mut self, i: usize) -> Res;
    fn pair(&mut self, i: usize, j: usize) -> Res;
    fn failing(&mut self, i: usize, j: usize) -> Res;
    fn long(&mut self, i: usize, line: bool) -> Res;
    fn direct_long(&mut self, i: usize, line: bool) -> Res;
}

macro_rules! receiver {
    ($ty:ty) => {
        impl Receiver for $ty {
            fn direct(&mut self, i: usize) -> Res {
                let t = self;
                all! { direct t i }
            }
            fn direct_few(&mut self, i: usize) -> Res {
                let t = self;
                few! { direct t i }
            }
            fn text(&mut self, s: &str) -> Res {
                self.write_str(s).res()
            }
            fn fmt(&mut self, a: fmt::Arguments) -> Res {
                self.write_fmt(a).res()
            }
            fn preset(&mut self, t: Theme) -> Res {
                self.set_theme(t).res()
            }
            fn alone(&mut self, i: usize) -> Res {
                let t = self;
                all! { alone t i }
            }
            fn line(&mut self, i: usize) -> Res {
                let t = self;
                all! { line t i }
            }
            fn empty_line(&mut self) -> Res {
                let t = self;
                term_writeln!(t).res()
            }
            fn between(&mut self, i: usize) -> Res {
                let t = self;
                all! { between t i }
            }
            fn pair(&mut self, i: usize, j: usize) -> Res {
                let t = self;
                few! { pairs t i j }
            }
            fn failing(&mut self, i: usize, j: usize) -> Res {
                let t = self;
                few! { failing t i j }
            }
            fn long(&mut self, i: usize, line: bool) -> Res {
                let t = self;
                longs! { invoke t i line }
            }
            fn direct_long(&mut self, i: usize, line: bool) -> Res {
                let t = self;
                longs! { calls t i line }
            }
        }
    };
}

receiver!(Terminal);
receiver!(TerminalWriteGuard<'_>);
receiver!(Screen);
receiver!(ScreenWriteGuard<'_>);

const KINDS: [&str; 4] = ["Terminal", "TerminalWriteGuard", "Screen", "ScreenWriteGuard"];

type Body<'a> = &'a dyn Fn(&mut dyn Receiver) -> Res;

fn presets() -> [Theme; 2] {
    [Theme::default(), Theme::new(Color::Red, Color::Blue, Style::BOLD | Style::ITALIC | Style::REVERSE | Style::UNDERLINE)]
}

/// Runs a program on a fresh receiver; what it returned and left behind.
fn run(kind: usize, preset: Theme, body: Body) -> (Res, u64, String) {
    arm(4, 30);
    let r;
    step();
    match kind {
        0 | 1 => {
            let mut t = open();
            t.preset(preset).expect("preset");
            if kind == 0 {
                r = body(&mut t);
            } else {
                let mut g = t.lock_write().unwrap();
                r = body(&mut g);
                w().dead = None;
            }
            w().dead = None;
            ok(t.write_str("P"), "write_str");
            finish(r)
        }
        _ => {
            let mut s = open_screen(PrepareConfig::default());
            s.preset(preset).expect("preset");
            if kind == 2 {
                r = body(&mut s);
            } else {
                let mut g = s.lock_write().unwrap();
                r = body(&mut g);
            }
            s.write_str("P");
            ok(s.refresh(), "refresh");
            finish(r)
        }
    }
}

fn finish(r: Res) -> (Res, u64, String) {
    let v = &w().vt;
    check!(v.garbage.is_empty() && !v.mid_sequence(), "garbage", "meaningless output {:?}", v.garbage);
    (r, v.hash(), v.dump())
}

fn same(kind: usize, what: &str, got: (Res, u64, String), want: (Res, u64, String)) {
    check!(got.0 == want.0, "result", "{} on {} returned {:?} instead of {:?}", what, KINDS[kind], got.0, want.0);
    check!(
        got.1 == want.1,
        "effect",
        "{} on {} differs from the documented calls; display:\n{}with the calls:\n{}",
        what,
        KINDS[kind],
        got.2,
        want.2
    );
    state(&(kind, got.1));
    outcome(&(kind, got.1, got.0));
}

fn singles() -> Job {
    job("every element alone, in a line, between others", 0, || {
        set("xterm");
        let kind = choose(4, "receiver");
        let p = *choose_of(&presets(), "preset");
        let i = choose(ALL, "element");
        match choose(3, "form") {
            0 => same(kind, &format!("element {}", i), run(kind, p, &|t| t.alone(i)), run(kind, p, &|t| t.direct(i))),
            1 => same(
                kind,
                &format!("line of element {}", i),
                run(kind, p, &|t| t.line(i)),
                run(kind, p, &|t| t.direct(i).and_then(|_| t.text("\n"))),
            ),
            _ => same(
                kind,
                &format!("element {} among others", i),
                run(kind, p, &|t| t.between(i)),
                run(kind, p, &|t| {
                    t.text("<").and_then(|_| t.direct(i)).and_then(|_| t.text(">")).and_then(|_| t.fmt(format_args!("{}", VALUE)))
                }),
            ),
        }
    })
}

fn doubles() -> Job {
    job("every pair of elements", 0, || {
        set("xterm");
        let kind = choose(4, "receiver");
        let p = *choose_of(&presets(), "preset");
        let (i, j) = (choose(FEW, "first"), choose(FEW, "second"));
        same(
            kind,
            &format!("pair {} {}", i, j),
            run(kind, p, &|t| t.pair(i, j)),
            run(kind, p, &|t| t.direct_few(i).and_then(|_| t.direct_few(j))),
        );
    })
}

fn several() -> Job {
    job("invocations in a row", 0, || {
        set("xterm");
        let kind = choose(4, "receiver");
        let (i, j, k) = (choose(FEW, "first"), choose(FEW, "second"), choose(FEW, "third"));
        same(
            kind,
            &format!("line, pair {} {}, pair {} {}", i, j, j, k),
            run(kind, Theme::default(), &|t| t.empty_line().and_then(|_| t.pair(i, j)).and_then(|_| t.pair(j, k))),
            run(kind, Theme::default(), &|t| {
                t.text("\n")
                    .and_then(|_| t.direct_few(i))
                    .and_then(|_| t.direct_few(j))
                    .and_then(|_| t.direct_few(j))
                    .and_then(|_| t.direct_few(k))
            }),
        );
    })
}

fn failures() -> Job {
    job("a failing element", 0, || {
        set("xterm");
        let kind = choose(2, "receiver");
        let p = *choose_of(&presets(), "preset");
        let (i, j) = (choose(FEW, "first"), choose(FEW, "last"));
        let dead = *choose_of(&[libc::EIO, libc::EAGAIN], "errno");
        let got = run(kind, p, &|t| {
            w().dead = Some(dead);
            t.failing(i, j)
        });
        check!(got.0.is_err(), "result", "the failure of the second element was not returned");
        let want = run(kind, p, &|t| {
            w().dead = Some(dead);
            t.direct_few(i).and_then(|_| t.fmt(format_args!("{}", Big)))
        });
        same(kind, &format!("element {} and a failing one, before {}", i, j), got, want);
    })
}

fn long_ones() -> Job {
    job("long invocations", 0, || {
        set("xterm");
        let kind = choose(4, "receiver");
        let p = *choose_of(&presets(), "preset");
        let i = choose(LONGS, "invocation");
        let line = choose(2, "line") == 1;
        let twice = choose(2, "twice") == 1;
        same(
            kind,
            &format!("long invocation {}", i),
            run(kind, p, &|t| t.long(i, line).and_then(|_| if twice { t.long((i + 1) % LONGS, !line) } else { Ok(()) })),
            run(kind, p, &|t| t.direct_long(i, line).and_then(|_| if twice { t.direct_long((i + 1) % LONGS, !line) } else { Ok(()) })),
        );
    })
}

/// The output that a dead device did not take leaves so much room that any of the elements may be
/// the one that fails.
fn nearly_full() -> Job {
    job("any element fails", 0, || {
        set("xterm");
        let kind = choose(2, "receiver");
        let room = choose(90, "room");
        let what = choose(2 + LONGS, "invocation");
        let (i, j) = if what < 2 { (choose(FEW, "first"), choose(FEW, "second")) } else { (what - 2, 0) };
        // As much as the buffer takes, less the room
        let fill = |t: &mut dyn Receiver| {
            w().dead = Some(libc::EIO);
            let mut n = 8192 - room;
            while n > 0 {
                let k = n.min(400);
                let _ = t.text(&"F".repeat(k));
                n -= k;
            }
        };
        let mut at = (false, false);
        let got = run(kind, Theme::default(), &|t| {
            fill(t);
            match what {
                0 => t.pair(i, j),
                1 => t.empty_line().and_then(|_| t.pair(i, j)),
                _ => t.long(i, true),
            }
        });
        at.0 = got.0.is_err();
        let want = run(kind, Theme::default(), &|t| {
            fill(t);
            match what {
                0 => t.direct_few(i).and_then(|_| t.direct_few(j)),
                1 => t.text("\n").and_then(|_| t.direct_few(i)).and_then(|_| t.direct_few(j)),
                _ => t.direct_long(i, true),
            }
        });
        at.1 = want.0.is_err();
        state(&(room, at));
        same(kind, &format!("invocation {} {} {} with room for {}", what, i, j, room), got, want);
    })
}

fn all_held(count: usize) {
    let v = &w().vt;
    check!(v.row_text(0).trim_end() == "falselitfalsefalse", "lock", "the lock is not held throughout: {:?}", v.row_text(0));
    let p = v.g.cells.iter().flatten().find(|c| c.text == "P");
    check!(p.map_or(false, |p| p.attrs == Default::default()), "lock", "the lock is not held throughout: final attributes {:?}", p);
    check!(count == 1, "receiver", "the receiver expression was evaluated {} times", count);
    state(&v.hash());
    outcome(&v.hash());
}

/// Every element is evaluated and done under one hold of the lock, taken once.
fn held() -> Job {
    job("lock held throughout", 0, || {
        set("xterm");
        arm(4, 30);
        let count = std::cell::Cell::new(0);
        if choose(2, "receiver") == 0 {
            let t = open();
            let free = |_: &str| t.try_lock_write().is_ok();
            let get = || {
                count.set(count.get() + 1);
                &t
            };
            ok(
                term_writeln!(get(), (: free("first")) [fg = if free("color") { Some(Color::Red) } else { None }] "lit" ("{}", free("second")) [theme = if free("theme") { a_theme() } else { Theme::default() }] (? free("last"))),
                "term_writeln",
            );
            check!(free("after"), "lock", "the lock is still held after the macro");
            ok(t.write_str("P"), "write_str");
            all_held(count.get());
        } else {
            let s = open_screen(PrepareConfig::default());
            let free = |_: &str| s.try_lock_write().is_ok();
            let get = || {
                count.set(count.get() + 1);
                &s
            };
            term_writeln!(get(), (: free("first")) [fg = if free("color") { Some(Color::Red) } else { None }] "lit" ("{}", free("second")) [theme = if free("theme") { a_theme() } else { Theme::default() }] (? free("last")));
            check!(free("after"), "lock", "the lock is still held after the macro");
            s.write_str("P");
            ok(s.refresh(), "refresh");
            all_held(count.get());
        }
    })
}

pub fn c21(_thorough: bool) -> Check {
    Check {
        id: "C21",
        jobs: vec![singles(), doubles(), several(), long_ones(), failures(), nearly_full(), held()],
        rule: "All 44 documented elements (every color, style and expression form) alone, in a line form and among other elements; all pairs and chained pairs of 14 representative ones; on Terminal, Screen and both write guards, from two initial attribute states; invocations of up to 23 elements; with a failing middle element between all pairs, and with a dead device and each amount of room in the output buffer up to 90, so that any element fails; each compared with the documented method calls on a fresh device by result, display, cursor and attributes. Whether the lock is held is probed from inside element expressions.",
        assumptions: vec!["Failing elements are made with a dead device and text larger than the output buffer."],
    }
}
