//! C10 key decoding, C11 mouse reports, C12 one input stream, C14 timeouts and waiting.

use std::time::Duration;

use mortal::unix::TerminalExt;
use mortal::{Cursor, Event, Key, ModifierState, MouseButton, MouseEvent, MouseInput, PrepareConfig, Screen, Signal, SignalSet, Terminal};

use crate::engine::{choose, choose_of, job, outcome, state, step, violation, Check, Job};
use crate::term::{ok, open, set};
use crate::world::{apply, arm, foreign_handler, w, ReadFault, SigAct, Stim, DFL};

const NOW: Option<Duration> = Some(Duration::from_millis(0));

// ---------------------------------------------------------------- reference decoder

pub type Keys = Vec<(&'static [u8], Key)>;

fn f_keys(f: &[&'static [u8]], from: u32) -> Keys {
    f.iter().enumerate().map(|(i, s)| (*s, Key::F(from + i as u32))).collect()
}

/// What each terminal sends for each key, from the terminal descriptions.
pub fn keys(term: &str) -> Keys {
    let f6: &[&'static [u8]] = &[b"\x1b[17~", b"\x1b[18~", b"\x1b[19~", b"\x1b[20~", b"\x1b[21~", b"\x1b[23~", b"\x1b[24~"];
    let app: Keys = vec![(b"\x1bOA", Key::Up), (b"\x1bOB", Key::Down), (b"\x1bOD", Key::Left), (b"\x1bOC", Key::Right)];
    let csi: Keys = vec![(b"\x1b[A", Key::Up), (b"\x1b[B", Key::Down), (b"\x1b[D", Key::Left), (b"\x1b[C", Key::Right)];
    let pad: Keys =
        vec![(b"\x1b[3~", Key::Delete), (b"\x1b[2~", Key::Insert), (b"\x1b[5~", Key::PageUp), (b"\x1b[6~", Key::PageDown)];
    let f5: Keys = vec![(b"\x1b[15~", Key::F(5))];
    let ss3 = f_keys(&[b"\x1bOP", b"\x1bOQ", b"\x1bOR", b"\x1bOS"], 1);
    let parts: Vec<Keys> = match term {
        "xterm" | "xterm-256color" | "xterm-debian" => {
            vec![app, pad, vec![(b"\x1bOH", Key::Home), (b"\x1bOF", Key::End)], ss3, f5, f_keys(f6, 6)]
        }
        "tmux" => vec![app, pad, vec![(b"\x1b[1~", Key::Home), (b"\x1b[4~", Key::End)], ss3, f5, f_keys(f6, 6)],
        "linux" => vec![
            csi,
            pad,
            vec![(b"\x1b[1~", Key::Home), (b"\x1b[4~", Key::End)],
            f_keys(&[b"\x1b[[A", b"\x1b[[B", b"\x1b[[C", b"\x1b[[D", b"\x1b[[E"], 1),
            f_keys(f6, 6),
        ],
        "vt100" => vec![
            app,
            f_keys(&[b"\x1bOP", b"\x1bOQ", b"\x1bOR", b"\x1bOS", b"\x1bOt", b"\x1bOu", b"\x1bOv", b"\x1bOl", b"\x1bOw", b"\x1bOx"], 1),
        ],
        "screen" => vec![app, pad, vec![(b"\x1b[1~", Key::Home), (b"\x1b[4~", Key::End)], ss3, f5, f_keys(f6, 6)],
        "rxvt-unicode" => vec![
            csi,
            pad,
            vec![(b"\x1b[7~", Key::Home), (b"\x1b[8~", Key::End)],
            f_keys(&[b"\x1b[11~", b"\x1b[12~", b"\x1b[13~", b"\x1b[14~"], 1),
            f5,
            f_keys(f6, 6),
        ],
        "ansi" => vec![csi, vec![(b"\x1b[H", Key::Home), (b"\x1b[L", Key::Insert)]],
        "xterm-color" | "xterm-r6" | "nxterm" => {
            vec![app, pad, f_keys(&[b"\x1b[11~", b"\x1b[12~", b"\x1b[13~", b"\x1b[14~"], 1), f5, f_keys(f6, 6)]
        }
        "mc-keys" => vec![vec![
            (b"\x1b[A", Key::Up),
            (b"\x1b[AB", Key::Down),
            (b"\x1b[ABCD", Key::Left),
            (b"\x1b[1", Key::Home),
            (b"\x1b[1~", Key::End),
            (b"\x1b[11", Key::F(1)),
            (b"\x1b[11~", Key::F(2)),
            (b"\x7f", Key::Delete),
            (b"\x01", Key::Insert),
            (b"\x01\x02", Key::F(3)),
            (b"xyz", Key::F(4)),
            (b"\x1b", Key::F(5)),
            (b"\x1b\x1b", Key::PageDown),
        ]],
        "mc-long" => vec![vec![
            (b"\x1b[A", Key::Up),
            (b"\x1b[1;2;3~", Key::F(1)),
            (b"\x1b[1;2;34~", Key::F(2)),
            (b"\x1b[1;2;34;~", Key::F(3)),
            (b"\x1b[1;2;34~~", Key::F(4)),
            (b"\x1b[1;2;34;5;6;7;8~", Key::F(5)),
            (b"\x1b[1;2;34;5;6;7;8;9;10;11;12;13~", Key::F(6)),
            (b"\x1b[1;2;34;5;6;7;8;9;10;11;12;13~@", Key::F(7)),
            (b"delete-key", Key::Delete),
            (b"\x1b]home\x07", Key::Home),
        ]],
        "mc-min" => vec![vec![(b"\x1b[A", Key::Up)]],
        _ => panic!("no key table for {}", term),
    };
    parts.into_iter().flatten().collect()
}

pub fn has_mouse(term: &str) -> bool {
    // "nxterm" is an alias; the name of its description is xterm-color
    term == "xterm" || term == "nxterm" || term.starts_with("xterm-")
}

fn char_key(c: char) -> Key {
    match c as u32 {
        0x1b => Key::Escape,
        0x7f => Key::Backspace,
        0x0d | 0x0a => Key::Enter,
        0x09 => Key::Tab,
        n if n < 0x20 => Key::Ctrl(((n as u8) | 0x40).to_ascii_lowercase() as char),
        _ => Key::Char(c),
    }
}

/// What the front of the input may yield
#[derive(Clone, Debug, PartialEq)]
enum Opt {
    Event(Event, usize),
    /// Some mouse event whose position, and modifiers, are as given; None is a value too large.
    /// A code no terminal sends is no ordinary button or wheel.
    Mouse(usize, Option<u64>, Option<u64>, Option<u64>),
    /// Not yet a character
    Nothing,
    /// That many bytes are not text
    Invalid(usize),
}

/// One of the values "digits"; empty and too large ones are None.
fn number(s: &[u8]) -> Option<u64> {
    if s.is_empty() || s.len() > 30 {
        return None;
    }
    let n = s.iter().fold(0u128, |n, b| n * 10 + (b - b'0') as u128);
    if n > u32::MAX as u128 {
        None
    } else {
        Some(n as u64)
    }
}

/// The parameters of an SGR mouse report, its final byte and its length; None if it is not one.
fn report(s: &[u8]) -> Option<(Vec<&[u8]>, u8, usize)> {
    if !s.starts_with(b"\x1b[<") {
        return None;
    }
    let mut params = vec![];
    let mut start = 3;
    for i in 3..s.len() {
        match s[i] {
            b'0'..=b'9' => (),
            b';' => {
                params.push(&s[start..i]);
                start = i + 1;
            }
            b'M' | b'm' => {
                params.push(&s[start..i]);
                return if params.len() == 3 { Some((params, s[i], i + 1)) } else { None };
            }
            _ => return None,
        }
    }
    None
}

fn mouse(code: u32, x: u64, y: u64, pressed: bool) -> Option<MouseEvent> {
    let mut modifiers = ModifierState::empty();
    if code & 4 != 0 {
        modifiers |= ModifierState::SHIFT;
    }
    if code & 8 != 0 {
        modifiers |= ModifierState::ALT;
    }
    if code & 16 != 0 {
        modifiers |= ModifierState::CTRL;
    }
    let b = |b: MouseButton| if pressed { MouseInput::ButtonPressed(b) } else { MouseInput::ButtonReleased(b) };
    let input = match code & !28 {
        0 => b(MouseButton::Left),
        1 => b(MouseButton::Middle),
        2 => b(MouseButton::Right),
        3 => b(MouseButton::Other(3)),
        32..=35 => MouseInput::Motion,
        64 if pressed => MouseInput::WheelUp,
        65 if pressed => MouseInput::WheelDown,
        // Horizontal wheels, more buttons, releases of a wheel: nothing is promised
        _ => return None,
    };
    Some(MouseEvent { position: Cursor { line: (y - 1) as usize, column: (x - 1) as usize }, input, modifiers })
}

/// Whether an event is acceptable for a report with an unusual code or position.
fn some_mouse(ev: &Event, code: Option<u64>, x: Option<u64>, y: Option<u64>) -> bool {
    let m = match ev {
        Event::Mouse(m) => m,
        _ => return false,
    };
    let place = |got: usize, want: Option<u64>| match want {
        Some(n) => got as u64 == n.wrapping_sub(1),
        // As far away as can be said
        None => got as u64 >= u32::MAX as u64 - 1,
    };
    let usual = |b: MouseButton| matches!(b, MouseButton::Left | MouseButton::Middle | MouseButton::Right);
    place(m.position.column, x)
        && place(m.position.line, y)
        && match code {
            // A wheel that is released, horizontal wheels, more buttons
            Some(c) if c <= 255 => {
                let bit = |b: u64, m: ModifierState| if c & b != 0 { m } else { ModifierState::empty() };
                m.modifiers == bit(4, ModifierState::SHIFT) | bit(8, ModifierState::ALT) | bit(16, ModifierState::CTRL)
            }
            _ => match m.input {
                MouseInput::ButtonPressed(b) | MouseInput::ButtonReleased(b) => !usual(b),
                MouseInput::WheelUp | MouseInput::WheelDown => false,
                MouseInput::Motion => true,
            },
        }
}

pub struct Decoder {
    keys: Keys,
    mouse: bool,
}

impl Decoder {
    pub fn new(term: &str) -> Decoder {
        Decoder { keys: keys(term), mouse: has_mouse(term) }
    }

    fn decode(&self, s: &[u8]) -> Vec<Opt> {
        let text = match std::str::from_utf8(s) {
            Ok(t) => t,
            Err(e) if e.valid_up_to() > 0 => std::str::from_utf8(&s[..e.valid_up_to()]).unwrap(),
            Err(e) => {
                return vec![match e.error_len() {
                    Some(n) => Opt::Invalid(n),
                    None => Opt::Nothing,
                }]
            }
        };
        let ch = match text.chars().next() {
            None => return vec![Opt::Nothing],
            Some(c) => c,
        };
        let mut v = vec![];
        if self.mouse {
            if let Some((p, end, len)) = report(s) {
                let mut n: Vec<Option<u64>> = p.iter().map(|p| number(p)).collect();
                let omitted = p[0].is_empty();
                if omitted {
                    // May be taken for 0, as in other sequences
                    n[0] = Some(0);
                }
                match (n[0], n[1], n[2]) {
                    // There is no cell 0
                    (_, Some(0), _) | (_, _, Some(0)) => (),
                    (Some(c), Some(x), Some(y)) if c <= 255 && !omitted => {
                        return vec![match mouse(c as u32, x, y, end == b'M') {
                            Some(m) => Opt::Event(Event::Mouse(m), len),
                            None => Opt::Mouse(len, n[0], n[1], n[2]),
                        }];
                    }
                    // Values no terminal sends: a mouse event or characters
                    (_, Some(_), Some(_)) => v.push(Opt::Mouse(len, n[0], n[1], n[2])),
                    (_, a, b) if a.is_none() && !p[1].is_empty() || b.is_none() && !p[2].is_empty() => v.push(Opt::Mouse(len, n[0], n[1], n[2])),
                    _ => (),
                }
            }
        }
        match self.keys.iter().filter(|k| s.starts_with(k.0)).max_by_key(|k| k.0.len()) {
            Some(k) => v.push(Opt::Event(Event::Key(k.1), k.0.len())),
            None => v.push(Opt::Event(Event::Key(char_key(ch)), ch.len_utf8())),
        }
        v
    }
}

/// The input as a stream, and where in it the reader is.
pub struct Input<'a> {
    d: &'a Decoder,
    all: Vec<u8>,
    /// Positions the reader may be at
    at: Vec<usize>,
    calls: usize,
    before: usize,
    /// How much had arrived before the call
    ready: usize,
    injected: usize,
    /// Signals that nobody asked for, each of which may end a read with no event
    conts: usize,
}

impl<'a> Input<'a> {
    pub fn new(d: &'a Decoder) -> Input<'a> {
        Input { d, all: vec![], at: vec![0], calls: 0, before: 0, ready: 0, injected: 0, conts: 0 }
    }

    /// More input arrives, now
    pub fn arrives(&mut self, b: &[u8]) {
        self.all.extend_from_slice(b);
        apply(Stim::Input(b.to_vec()));
    }

    /// Input that arrives by a script
    pub fn will_arrive(&mut self, b: &[u8]) {
        self.all.extend_from_slice(b);
        w().script.push_back(Stim::Input(b.to_vec()));
    }

    /// To be called before each call that reads
    pub fn begin(&mut self) {
        step();
        self.before = w().taken;
        self.ready = w().taken + w().input.len();
        self.injected = w().injected;
        self.calls += 1;
        if self.calls > 8 * self.all.len() + 64 {
            violation("stuck", "reads go on without end: the input is never used up");
        }
    }

    /// Up to where the input may have been available to the call. What was ready counts;
    /// only failing calls can keep the reader from it.
    fn available(&self) -> Vec<usize> {
        let (after, now) = (w().taken, w().taken + w().input.len());
        let mut v = vec![self.ready, after.max(self.ready), now];
        if w().injected > self.injected {
            v.extend([self.before, after]);
        }
        v.sort();
        v.dedup();
        v
    }

    fn rest(&self, pos: usize, upto: usize) -> &[u8] {
        &self.all[pos..upto.max(pos)]
    }

    /// Whether an unreported signal explains that a read has no event
    fn excused(&mut self) -> bool {
        let n = w().handled.iter().filter(|&&s| s == libc::SIGCONT).count();
        self.conts += 1;
        n >= self.conts
    }

    fn show(&self) -> String {
        let v: Vec<String> = self
            .at
            .iter()
            .map(|&p| String::from_utf8_lossy(&self.all[p..w().taken.max(p)]).chars().take(40).collect())
            .collect();
        format!("{:?}", v)
    }

    fn moved(&mut self, mut to: Vec<usize>, what: &dyn Fn() -> String) {
        to.sort();
        to.dedup();
        if to.is_empty() {
            violation("decode", &format!("{} from input {}", what(), self.show()));
        }
        self.at = to;
    }

    /// Checks what a decoding read returned.
    pub fn event(&mut self, r: &std::io::Result<Option<Event>>) {
        trace!("event: {:?}", r);
        let after = w().taken;
        let mut to = vec![];
        let xs = self.available();
        match r {
            Ok(Some(ev @ Event::Key(_))) | Ok(Some(ev @ Event::Mouse(_))) => {
                for &pos in &self.at {
                    for &x in &xs {
                        for o in self.d.decode(self.rest(pos, x)) {
                            match o {
                                Opt::Event(e, n) if e == *ev => to.push(pos + n),
                                Opt::Mouse(n, c, x, y) if some_mouse(ev, c, x, y) => to.push(pos + n),
                                _ => (),
                            }
                        }
                    }
                }
                self.moved(to, &|| format!("event {:?}", ev));
            }
            Ok(Some(ev)) => violation("event", &format!("event {:?} out of nowhere", ev)),
            Ok(None) => {
                let to: Vec<usize> =
                    self.at.iter().cloned().filter(|&p| self.d.decode(self.rest(p, after)).contains(&Opt::Nothing)).collect();
                let ignored = after == self.before && !w().input.is_empty();
                if (to.is_empty() || ignored) && self.excused() {
                    return;
                }
                self.moved(to, &|| "no event".to_string());
                if ignored {
                    violation("ignored", "no event although there is input");
                }
            }
            Err(e) => {
                if w().injected > self.injected {
                    // A failed call, which takes nothing
                    to.extend(self.at.iter().cloned());
                }
                for &pos in &self.at {
                    for &x in &xs {
                        for o in self.d.decode(self.rest(pos, x)) {
                            if let Opt::Invalid(n) = o {
                                to.extend(pos..=pos + n);
                            }
                        }
                    }
                }
                self.moved(to, &|| format!("error {:?}", e));
            }
        }
    }

    pub fn raw(&mut self, r: &std::io::Result<Option<Event>>, buf: &[u8]) {
        trace!("raw: {:?}", r);
        let after = w().taken;
        match r {
            Ok(Some(Event::Raw(n))) => {
                check!(*n <= buf.len(), "raw", "a raw read of {} bytes reports {}", buf.len(), n);
                let to: Vec<usize> =
                    self.at.iter().cloned().filter(|p| p + n <= after && self.all[*p..p + n] == buf[..*n]).map(|p| p + n).collect();
                self.moved(to, &|| format!("raw bytes {:?}", String::from_utf8_lossy(&buf[..*n])));
                if *n == 0 && !buf.is_empty() && (after > self.at[0] || !w().input.is_empty()) {
                    violation("ignored", "a raw read reports no bytes although there is input");
                }
            }
            Ok(Some(ev)) => violation("event", &format!("event {:?} out of nowhere", ev)),
            Ok(None) => {
                let to: Vec<usize> = self.at.iter().cloned().filter(|&p| p >= after).collect();
                let ignored = w().injected == self.injected && (to.is_empty() || !w().input.is_empty());
                if (to.is_empty() || ignored) && self.excused() {
                    return;
                }
                if ignored {
                    violation("ignored", "no raw event although there is input");
                }
                self.moved(to, &|| "no raw event".to_string());
            }
            Err(e) => {
                if w().injected == self.injected {
                    violation("unexpected-error", &format!("raw read failed: {}", e));
                }
            }
        }
    }

    /// A wait with no timeout left.
    pub fn waited(&mut self, r: &std::io::Result<bool>, signal: bool) {
        trace!("wait: {:?}", r);
        match r {
            Ok(b) => {
                let now = w().taken;
                let maybe: Vec<bool> =
                    self.at.iter().map(|&p| !self.d.decode(self.rest(p, now)).contains(&Opt::Nothing) || !w().input.is_empty()).collect();
                if signal {
                    check!(*b, "wait", "no event although a signal arrived");
                } else if !maybe.contains(b) {
                    violation("wait", &format!("wait returns {} with {} and {} more bytes", b, self.show(), w().input.len()));
                }
            }
            Err(e) => {
                if w().injected == self.injected {
                    violation("unexpected-error", &format!("wait failed: {}", e));
                }
            }
        }
    }

    /// Reads events until there is no input left.
    pub fn drain(&mut self, t: &Terminal) {
        self.drain_with(&mut || t.read_event(NOW))
    }

    fn drain_with(&mut self, read: &mut dyn FnMut() -> std::io::Result<Option<Event>>) {
        loop {
            self.begin();
            let r = read();
            self.event(&r);
            if let (Ok(None), true) = (&r, w().input.is_empty() && w().taken == self.before && self.at.iter().any(|&p| self.d.decode(self.rest(p, w().taken)).contains(&Opt::Nothing))) {
                break;
            }
        }
        state(&(self.at[0], self.calls));
    }

    /// Everything has been read and nothing is left of it, but for a partial character
    pub fn finish(&self) {
        check!(w().taken == self.all.len(), "lost", "{} of {} bytes were read", w().taken, self.all.len());
        outcome(&(self.calls, &self.all));
    }
}

// ---------------------------------------------------------------- C10

fn start(term: &str) -> Terminal {
    set(term);
    arm(10, 10);
    w().no_vt = true;
    open()
}

/// Reads everything, which arrives in the given chunks, reading between them or not.
fn feed(d: &Decoder, t: &Terminal, chunks: &[&[u8]], between: bool) {
    let mut i = Input::new(d);
    for c in chunks {
        i.arrives(c);
        if between {
            i.drain(t);
        }
    }
    i.drain(t);
    i.finish();
}

pub const KEY_TERMS: &[&str] =
    &["xterm", "xterm-256color", "xterm-debian", "xterm-color", "xterm-r6", "nxterm", "linux", "tmux", "ansi", "vt100", "screen", "rxvt-unicode", "mc-keys", "mc-min", "mc-long"];

/// Every key sequence next to other keys and characters, cut at every place.
fn key_pairs(term: &'static str) -> Job {
    let d = Decoder::new(term);
    job(&format!("pairs of keys {}", term), 0, move || {
        let mut frags: Vec<&[u8]> = d.keys.iter().map(|k| k.0).collect();
        frags.extend([&b""[..], b"a", b"\x1b", b"\x1b[", b"\x1bO", b"\xc3\xa9", b"\xff", b"~", b"1", b"\x1b[1", b"\r"]);
        let t = start(term);
        let a = *choose_of(&frags, "first");
        let b = *choose_of(&frags, "second");
        let c: &[u8] = [&b""[..], b"z", b"\x1b[3~"][choose(3, "third")];
        let all = [a, b, c].concat();
        let cut = choose(all.len() + 1, "cut");
        feed(&d, &t, &[&all[..cut], &all[cut..]], true);
    })
}

/// Every string of fragments, cut at every place between fragments and inside of them.
fn strings(term: &'static str, frags: Vec<&'static [u8]>, len: usize) -> Job {
    let d = Decoder::new(term);
    job(&format!("strings of {} from {} fragments {}", len, frags.len(), term), 0, move || {
        let t = start(term);
        let v: Vec<&[u8]> = (0..len).map(|_| *choose_of(&frags, "fragment")).collect();
        let between = choose(2, "read between") == 1;
        let mut i = Input::new(&d);
        let mut pending: Vec<u8> = vec![];
        for f in &v {
            pending.extend_from_slice(f);
            if choose(2, "cut") == 1 {
                i.arrives(&pending);
                pending.clear();
                if between {
                    i.drain(&t);
                }
            }
        }
        i.arrives(&pending);
        i.drain(&t);
        i.finish();
    })
}

/// Every string of bytes.
fn bytes(term: &'static str, len: usize, set: Vec<u8>, cuts: bool) -> Job {
    let d = Decoder::new(term);
    job(&format!("byte strings of {} over {} bytes {}", len, set.len(), term), 0, move || {
        let t = start(term);
        let v: Vec<u8> = (0..len).map(|_| *choose_of(&set, "byte")).collect();
        let cut = if cuts { choose(len, "cut") } else { 0 };
        feed(&d, &t, &[&v[..cut], &v[cut..]], true);
    })
}

fn scalars() -> Job {
    let d = Decoder::new("xterm");
    job("all characters", 0, move || {
        let t = start("xterm");
        let b = choose(0x110, "block") as u32 * 0x1000;
        let mut i = Input::new(&d);
        w().horizon = 1_000_000;
        for c in (b..b + 0x1000).filter_map(char::from_u32) {
            let s = c.to_string();
            if s.len() > 1 && c as u32 % 64 == 0 {
                // Byte by byte
                for x in s.as_bytes() {
                    i.arrives(&[*x]);
                    i.drain(&t);
                }
            } else {
                i.arrives(s.as_bytes());
                i.drain(&t);
            }
        }
        i.finish();
    })
}

/// Input longer than what one read takes.
fn long(term: &'static str, max: usize) -> Job {
    let d = Decoder::new(term);
    job(&format!("long input {}", term), 0, move || {
        let t = start(term);
        let n = choose(max, "length");
        let frag: &[u8] = *choose_of(&[&b"\xe3\x81\x82"[..], b"\x1b[24~", b"\xf0\x9f\x98\x80", b"\xff", b"a\xc3\xa9\xc3\xa9", b"\x1b[<0;10;20M"], "fragment");
        let filler: &[u8] = *choose_of(&[&b"x"[..], b"\xc3\xa9", b"\x1b[3~"], "filler");
        let mut v: Vec<u8> = filler.iter().cycle().take(n / filler.len() * filler.len()).cloned().collect();
        v.extend_from_slice(&b"yyyyyy"[..n % filler.len()]);
        v.extend_from_slice(frag);
        v.extend_from_slice(b"end");
        let twice = choose(2, "twice") == 1;
        if twice {
            let w = v.clone();
            v.extend(w);
        }
        feed(&d, &t, &[&v], false);
    })
}

const FRAGS: &[&[u8]] =
    &[b"\x1b", b"[", b"O", b"A", b"1", b"~", b"a", b"\xc3", b"\xa9", b"\xff", b"\xe3", b"\x81", b"\x03", b"3"];

pub fn c10(thorough: bool) -> Check {
    let t = thorough as usize;
    let mut jobs: Vec<Job> = KEY_TERMS.iter().map(|&k| key_pairs(k)).collect();
    jobs.push(strings("xterm", FRAGS.to_vec(), 4 + t));
    jobs.push(strings("linux", vec![b"\x1b", b"[", b"A", b"1", b"~", b"\xe3", b"\x81", b"\x82", b"\xf0"], 4 + t));
    jobs.push(strings("mc-keys", vec![b"\x1b", b"[", b"A", b"B", b"CD", b"1", b"~", b"\x01", b"\x02", b"xy", b"z"], 4 + t));
    jobs.push(strings("mc-long", vec![b"\x1b[1;2;3", b"4", b";5;6;7;8", b"~", b";", b";9;10;11;12;13", b"delete", b"-key", b"@"], 4 + t));
    jobs.push(strings("xterm", vec![b"\x1b[<0;1", b";", b"1", b"M", b"\x1b", b"\xc3", b"\xa9", b"\x1b[3~"], 4 + t));
    jobs.push(bytes("xterm", 2, (0..=255).collect(), true));
    let edges = vec![
        0, 0x1b, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc2, 0xdf, 0xe0, 0xe1, 0xed, 0xef, 0xf0, 0xf1, 0xf4, 0xf5, 0xff,
    ];
    jobs.push(bytes("xterm", 4, edges.clone(), false));
    jobs.push(bytes("mc-keys", 3, edges, true));
    jobs.push(scalars());
    jobs.push(long("xterm", 300));
    jobs.push(long("linux", 140));
    jobs.push(super::counts::reads(0));
    Check {
        id: "C10",
        jobs,
        rule: "Input: every pair of key sequences and characters of each of 11 terminals cut at every byte; every string of the listed fragments cut in every way, read after every part or at the end; every pair of bytes, every 4 boundary bytes of UTF-8; every character; long inputs of every length, and 66,000 characters and keys. Each event must be the longest match at the front of the not yet consumed input available to the read, and the input must be used up at the end.",
        assumptions: vec!["a sequence of which only a part has arrived is decoded from that part"],
    }
}

// ---------------------------------------------------------------- C11

const COORDS: &[u64] =
    &[0, 1, 2, 9, 10, 80, 223, 224, 255, 256, 65535, 65536, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0x1_0000_0000, 99_999_999_999];

fn reports(term: &'static str) -> Job {
    let d = Decoder::new(term);
    job(&format!("every button code {}", term), 0, move || {
        let t = start(term);
        let x = *choose_of(COORDS, "column");
        let y = *choose_of(COORDS, "line");
        let end = ['M', 'm'][choose(2, "end")];
        for code in (0..256u64).chain([256, 512, 1000, 1024, 65536 + 4, 0xffff_ffff, 0x1_0000_0000, 0x1_0000_0001]) {
            let s = format!("a\x1b[<{};{};{}{}é\x1b[<2;5;6Mb", code, x, y, end);
            feed(&d, &t, &[s.as_bytes()], false);
            w().taken = 0;
        }
    })
}

fn positions() -> Job {
    let d = Decoder::new("xterm");
    job("every position up to 300x300", 0, move || {
        let t = start("xterm");
        let y = choose(300, "line") + 1;
        let code = [0, 35, 64][choose(3, "code")];
        let mut i = Input::new(&d);
        for x in 1..=300 {
            i.arrives(format!("\x1b[<{};{};{}M", code, x, y).as_bytes());
            i.drain(&t);
            check!(i.calls == 2 * x, "events", "{} reads for {} reports", i.calls, x);
        }
        i.finish();
    })
}

fn malformed(term: &'static str, alphabet: &'static [u8], len: usize, prefix: &'static [u8]) -> Job {
    let d = Decoder::new(term);
    job(&format!("malformed reports {} {:?} length {}", term, String::from_utf8_lossy(prefix), len), 0, move || {
        let t = start(term);
        let mut v = prefix.to_vec();
        for _ in 0..len {
            // Shorter ones are those with 'a' early
            v.push(*choose_of(alphabet, "byte"));
        }
        v.extend_from_slice("é\x1b[<0;3;4M".as_bytes());
        feed(&d, &t, &[&v], false);
    })
}

fn odd() -> Job {
    let d = Decoder::new("xterm");
    job("odd numbers", 0, move || {
        const P: &[&str] = &["", "0", "00", "1", "01", "0000000000000001", "+1", "-1", " 1", "4294967295", "4294967296", "4294967297", "4294967301", "18446744073709551617", "99999999999999999999999999999999", "\u{661}", "1a", "x"];
        let t = start("xterm");
        let v: Vec<&str> = (0..3).map(|_| *choose_of(P, "parameter")).collect();
        let sep = [";", ":", ",", ";;"][choose(4, "separator")];
        let end = ["M", "m", "N", "", "~", ";1M"][choose(6, "end")];
        let s = format!("\x1b[<{}{}{};{}{}\x1b[Aé\x1b[<1;1;1M", v[0], sep, v[1], v[2], end);
        feed(&d, &t, &[s.as_bytes()], false);
    })
}

fn cuts(term: &'static str) -> Job {
    let d = Decoder::new(term);
    job(&format!("reports in parts {}", term), 0, move || {
        let t = start(term);
        let s: &[u8] = *choose_of(&[&b"\x1b[<0;12;3M\x1b[<32;1;1mq"[..], b"\xc3\xa9\x1b[<64;1;300Mab", b"\x1b[<\x1b[<0;1;1M", b"\x1b[<1;2\x1b[<28;9;9m"], "input");
        let a = choose(s.len() + 1, "cut");
        let b = a + choose(s.len() + 1 - a, "cut");
        feed(&d, &t, &[&s[..a], &s[a..b], &s[b..]], choose(2, "read between") == 1);
    })
}

pub fn c11(thorough: bool) -> Check {
    let t = thorough as usize;
    let mut jobs = vec![positions(), odd(), super::counts::reads(1)];
    for term in ["xterm", "xterm-256color", "xterm-color", "xterm-r6", "xterm-debian", "nxterm", "linux", "tmux"] {
        jobs.push(reports(term));
        jobs.push(cuts(term));
    }
    jobs.push(malformed("xterm", b"09;Mm1ax<", 5 + t, b"\x1b[<"));
    jobs.push(malformed("xterm", b"01;M", 7 + 2 * t, b"\x1b[<"));
    jobs.push(malformed("xterm", b"\x1b[<01;Mm", 5 + t, b""));
    jobs.push(malformed("tmux", b"01;M", 6, b"\x1b[<"));
    Check {
        id: "C11",
        jobs,
        rule: "Every button code 0-255 (and larger) with press and release at every pair of 17 boundary coordinates, on 8 terminals; every position up to 300x300; every string over report characters to the stated length; odd parameter forms; reports cut in every way into three parts; each surrounded by text and followed by a good report; 66,000 reports. The events must be those of a reference decoder, at most one per report.",
        assumptions: vec![
            "horizontal wheel, extra buttons and wheel releases may be any mouse event",
            "reports with values no terminal sends (code over 255, numbers over 32 bits, empty button) may be a mouse event or characters; a coordinate of 0 is not a report",
        ],
    }
}

// ---------------------------------------------------------------- C12

#[derive(Copy, Clone, Debug)]
enum Op {
    Event,
    Raw(usize),
    Wait,
}
const OPS: &[Op] = &[Op::Event, Op::Raw(1), Op::Raw(2), Op::Wait, Op::Raw(5), Op::Raw(0), Op::Raw(3), Op::Raw(200)];

/// Larger than any raw read
const BUF: usize = 5000;

fn do_op(t: &mut Dev, guard: bool, op: Op, i: &mut Input) {
    i.begin();
    trace!("{:?}", op);
    let mut buf = [0xee; BUF];
    match op {
        Op::Event => {
            let r = t.call(if guard { Call::GuardEvent } else { Call::Event }, NOW, &mut []);
            i.event(&r);
        }
        Op::Raw(n) => {
            let r = t.call(if guard { Call::GuardRaw } else { Call::Raw }, NOW, &mut buf[..n]);
            i.raw(&r, &buf[..n]);
            check!(buf[n..].iter().all(|&b| b == 0xee), "raw", "a raw read writes outside of its buffer");
            if let Ok(Some(Event::Raw(k))) = r {
                check!(buf[k..].iter().all(|&b| b == 0xee), "raw", "a raw read of {} bytes writes past them", k);
            }
        }
        Op::Wait => {
            let r = t.call(if guard { Call::GuardWait } else { Call::Wait }, NOW, &mut []);
            i.waited(&r.map(|e| e.is_some()), false);
        }
    }
}

const STREAMS: &[&[u8]] = &[
    b"ab\xc3\xa9\x1b[3~c",
    b"\xe3\x81\x82\x1b[<0;1;1Mz",
    b"a\xffb\xc3(\xf0\x9f",
    b"\x1b[\x1bOAxyz\xe3\x81",
];

fn mixed(depth: usize, bound: u32, faults: &'static [ReadFault], ops: usize) -> Job {
    let d = Decoder::new("xterm");
    job(&format!("{} of {} operations, {} kinds of fault", depth, ops, faults.len()), bound, move || {
        let mut t = Dev::T(start("xterm"));
        let s: &[u8] = *choose_of(STREAMS, "stream");
        let guard = choose(2, "guard") == 1;
        let mut i = Input::new(&d);
        w().read_faults = faults;
        let mut pos = 0;
        for _ in 0..depth {
            // Some more of it arrives, or all
            let k = [0, 1, 3, s.len()][choose(4, "arrives")].min(s.len() - pos);
            if k > 0 {
                i.arrives(&s[pos..pos + k]);
                pos += k;
            }
            let op = *choose_of(&OPS[..ops], "operation");
            do_op(&mut t, guard, op, &mut i);
        }
        w().read_faults = &[];
        i.arrives(&s[pos..]);
        match choose(2, "rest") {
            0 => i.drain_with(&mut || t.call(Call::Event, NOW, &mut [])),
            _ => loop {
                do_op(&mut t, guard, Op::Raw(3), &mut i);
                if w().input.is_empty() && i.at.iter().all(|&p| p == i.all.len()) {
                    break;
                }
            },
        }
        i.finish();
    })
}

/// A Terminal is read for a while and made into a Screen.
fn into_screen(before: usize, depth: usize) -> Job {
    let d = Decoder::new("xterm");
    job(&format!("a screen on a used terminal, {} and {} operations", before, depth), 0, move || {
        let s: &[u8] = *choose_of(STREAMS, "stream");
        let guard = choose(2, "guard") == 1;
        let mut t = Dev::T(start("xterm"));
        let mut i = Input::new(&d);
        let mut pos = 0;
        for n in 0..before + depth {
            let k = [0, 1, 3, s.len()][choose(4, "arrives")].min(s.len() - pos);
            if k > 0 {
                i.arrives(&s[pos..pos + k]);
                pos += k;
            }
            if n == before {
                t = match t {
                    Dev::T(t) => Dev::S(ok(Screen::with_terminal(t, PrepareConfig::default()), "open")),
                    s => s,
                };
            }
            do_op(&mut t, guard, *choose_of(&OPS[..if n < before { 3 } else { 5 }], "operation"), &mut i);
        }
        i.arrives(&s[pos..]);
        i.drain_with(&mut || t.call(Call::Event, NOW, &mut []));
        i.finish();
    })
}

/// Streams longer than what one read takes, read by turns in three ways.
fn long_streams(thorough: bool) -> Job {
    let d = Decoder::new("xterm");
    job("long streams", 0, move || {
        const WAYS: &[Op] =
            &[Op::Event, Op::Raw(1), Op::Raw(127), Op::Raw(128), Op::Wait, Op::Raw(129), Op::Raw(250), Op::Raw(7), Op::Raw(0)];
        let mut t = Dev::T(start("xterm"));
        let frags: &[&[u8]] = &[b"\x1b[24~", b"\xe3\x81\x82", b"x", b"\xff", b"\x1b[<0;10;20M", b"yz"];
        let len = *choose_of(&[130, 300, 700], "length");
        let skew = choose(3, "skew");
        let s: Vec<u8> =
            b"pq"[..skew].iter().cloned().chain(frags.iter().cycle().take(len).flat_map(|f| f.iter().cloned())).take(len).collect();
        let chunk = *choose_of(&[700, 128, 127, 129, 256, 40, 255, 1][..if thorough { 8 } else { 5 }], "chunk");
        let ways: Vec<Op> = (0..3).map(|_| *choose_of(&WAYS[..if thorough { 9 } else { 7 }], "way")).collect();
        let guard = choose(2, "guard") == 1;
        let mut i = Input::new(&d);
        let mut k = 0;
        for c in s.chunks(chunk) {
            i.arrives(c);
            do_op(&mut t, guard, ways[k % 3], &mut i);
            k += 1;
        }
        // As much again while more arrives slowly, then the rest
        for c in s.chunks(chunk).take(8) {
            for _ in 0..4 {
                do_op(&mut t, guard, ways[k % 3], &mut i);
                k += 1;
            }
            i.arrives(c);
        }
        i.drain_with(&mut || t.call(Call::Event, NOW, &mut []));
        i.finish();
    })
}

/// Large raw reads of much input at once.
fn large_reads() -> Job {
    let d = Decoder::new("xterm");
    job("large reads", 0, move || {
        let ways: Vec<Op> = (0..2)
            .map(|_| *choose_of(&[Op::Raw(1000), Op::Event, Op::Raw(4096), Op::Raw(4097), Op::Raw(1024), Op::Raw(300), Op::Wait, Op::Raw(BUF)], "way"))
            .collect();
        let mut t = Dev::T(start("xterm"));
        let frags: &[&[u8]] = &[b"\x1b[24~", b"\xe3\x81\x82", b"x", b"\xff", b"\x1b[<0;10;20M", b"yz"];
        let len = *choose_of(&[1025, 4095, 4096, 4100, 9000], "length");
        let s: Vec<u8> = frags.iter().cycle().take(len).flat_map(|f| f.iter().cloned()).take(len).collect();
        let mut i = Input::new(&d);
        w().horizon = w().horizon.max(1 << 20);
        for (k, c) in s.chunks(*choose_of(&[9000, 4096, 2000], "chunk")).enumerate() {
            i.arrives(c);
            do_op(&mut t, false, ways[k % 2], &mut i);
            do_op(&mut t, false, ways[(k + 1) % 2], &mut i);
        }
        i.drain_with(&mut || t.call(Call::Event, NOW, &mut []));
        i.finish();
    })
}

/// The input arrives by itself, at any moment.
fn arriving(depth: usize, bound: u32) -> Job {
    let d = Decoder::new("xterm");
    job(&format!("input at any moment, {} operations", depth), bound, move || {
        let mut t = Dev::T(start("xterm"));
        let s: &[u8] = *choose_of(STREAMS, "stream");
        let cut = choose(3, "chunk") * 2 + 1;
        let mut i = Input::new(&d);
        for c in s.chunks(cut) {
            i.will_arrive(c);
        }
        w().any_time = true;
        for _ in 0..depth {
            do_op(&mut t, false, *choose_of(&OPS[..5], "operation"), &mut i);
        }
        w().any_time = false;
        while let Some(x) = w().script.pop_front() {
            apply(x);
        }
        i.drain_with(&mut || t.call(Call::Event, NOW, &mut []));
        i.finish();
    })
}

/// Signals and interrupted calls in between.
fn interrupted(depth: usize, bound: u32) -> Job {
    let d = Decoder::new("xterm");
    job(&format!("interrupted, {} operations", depth), bound, move || {
        let mut t = start("xterm");
        let cfg = PrepareConfig { report_signals: SignalSet::new(), ..PrepareConfig::default() };
        let st = ok(t.prepare(cfg), "prepare");
        w().sig[libc::SIGUSR1 as usize] = SigAct { handler: foreign_handler as *const () as usize, ..DFL };
        let s: &[u8] = *choose_of(STREAMS, "stream");
        let mut i = Input::new(&d);
        let sig = *choose_of(&[libc::SIGUSR1, libc::SIGCONT], "signal");
        w().any_time = true;
        w().select_may_eintr = true;
        let mut pos = 0;
        for _ in 0..depth {
            let k = (choose(3, "arrives") * 3).min(s.len() - pos);
            if k > 0 {
                w().any_time = false;
                i.arrives(&s[pos..pos + k]);
                w().any_time = true;
                pos += k;
            }
            w().script.clear();
            w().script.push_back(Stim::Sig(sig));
            // A signal that is not reported may end a read with nothing, and a wait
            i.begin();
            let mut buf = [0; 4];
            match choose(3, "operation") {
                0 => {
                    let r = t.read_event(NOW);
                    i.event(&r);
                }
                1 => {
                    let r = t.read_raw(&mut buf, NOW);
                    i.raw(&r, &buf);
                }
                _ => {
                    let r = t.wait_event(NOW);
                    trace!("wait: {:?}", r);
                    ok(r, "wait");
                }
            }
        }
        w().any_time = false;
        w().select_may_eintr = false;
        w().script.clear();
        i.arrives(&s[pos..]);
        i.drain(&t);
        i.finish();
        ok(t.restore(st), "restore");
    })
}

pub fn c12(thorough: bool) -> Check {
    const FAULTS: &[ReadFault] =
        &[ReadFault::Short(1), ReadFault::Errno(libc::EINTR), ReadFault::Errno(libc::EIO), ReadFault::Errno(libc::EAGAIN), ReadFault::Short(2)];
    let t = thorough as usize;
    let jobs = vec![
        mixed(3, 0, &[], 8),
        mixed(3 + t, 0, &[], 4),
        mixed(3, 1 + t as u32, FAULTS, 4),
        mixed(2 + t, 2 - t as u32, FAULTS, 8),
        arriving(3 + t, 3),
        interrupted(3 + t, 1),
        long_streams(thorough),
        large_reads(),
        super::counts::reads(2),
        into_screen(0, 3 + t),
        into_screen(1 + t, 2),
    ];
    Check {
        id: "C12",
        jobs,
        rule: "Every sequence of event reads, raw reads of 0, 1, 2, 3, 5, 200 bytes and waits to the stated depth on four byte streams (multi-byte characters, keys, mouse report, invalid and partial characters), arriving in every listed division before each operation, or at any system call; streams of 130 to 700 bytes arriving in pieces of many sizes, read by turns in every three ways (raw reads up to 250 bytes, and up to 5000 of streams to 9000 bytes; 66,000 of them in a row); with reads cut short, interrupted or failing, and signals that are not reported; through a Screen, also one made from a Terminal that was read before. The concatenation of raw bytes and decoded input is the stream, in order, nothing left.",
        assumptions: vec!["a failed read takes no input"],
    }
}

// ---------------------------------------------------------------- C14

const US: u64 = 1_000;

/// (timeout, microseconds it amounts to, rounded down)
fn timeouts() -> Vec<(Duration, u64)> {
    let mut v: Vec<Duration> = [
        0,
        1,
        999,
        US,
        US + 1,
        500 * US,
        999 * US,
        1000 * US - 1,
        1000 * US,
        1001 * US,
        1500 * US,
        10_001 * US,
        999_999 * US,
        999_999_999,
        1_000_000 * US,
        1_000_001 * US,
        1_000_000 * US + 1,
        60_000_000 * US,
        2_147_483_647 * 1000 * US,
        2_147_483_648 * 1000 * US,
        4_294_967_296 * 1000 * US,
    ]
    .iter()
    .map(|&n| Duration::from_nanos(n))
    .collect();
    v.extend([
        Duration::from_secs(0x7fff_ffff),
        Duration::from_secs(0x8000_0000),
        Duration::from_secs(0x1_0000_0000),
        Duration::new(0x1_0000_0000, 999_999_999),
        Duration::from_secs(i64::MAX as u64 / 1_000_000_000),
        Duration::from_secs(i64::MAX as u64 / 1_000_000 - 1),
        Duration::from_secs(i64::MAX as u64 / 1_000_000),
        Duration::from_secs(i64::MAX as u64 / 1_000),
        Duration::from_secs(i64::MAX as u64),
        Duration::from_secs(u64::MAX),
        Duration::MAX,
        Duration::from_millis(u64::MAX),
    ]);
    v.into_iter().map(|d| (d, d.as_micros().min(u64::MAX as u128) as u64)).collect()
}

/// A timeout of this length is as good as none
const LONG: u64 = 100_000_000 * 1_000_000;

#[derive(Copy, Clone, Debug, PartialEq)]
enum Call {
    Wait,
    Event,
    Raw,
    GuardWait,
    GuardEvent,
    GuardRaw,
}
const CALLS: &[Call] = &[Call::Wait, Call::Event, Call::Raw, Call::GuardWait, Call::GuardEvent, Call::GuardRaw];

enum Dev {
    T(Terminal),
    S(Screen),
}

impl Dev {
    fn call(&mut self, c: Call, d: Option<Duration>, buf: &mut [u8]) -> std::io::Result<Option<Event>> {
        let flag = |r: std::io::Result<bool>| r.map(|b| if b { Some(Event::NoEvent) } else { None });
        match self {
            Dev::T(t) => match c {
                Call::Wait => flag(t.wait_event(d)),
                Call::Event => t.read_event(d),
                Call::Raw => t.read_raw(buf, d),
                Call::GuardWait => flag(t.lock_read().unwrap().wait_event(d)),
                Call::GuardEvent => t.lock_read().unwrap().read_event(d),
                Call::GuardRaw => t.lock_read().unwrap().read_raw(buf, d),
            },
            Dev::S(t) => match c {
                Call::Wait => flag(t.wait_event(d)),
                Call::Event => t.read_event(d),
                Call::Raw => t.read_raw(buf, d),
                Call::GuardWait => flag(t.lock_read().unwrap().wait_event(d)),
                Call::GuardEvent => t.lock_read().unwrap().read_event(d),
                Call::GuardRaw => t.lock_read().unwrap().read_raw(buf, d),
            },
        }
    }
    fn settle(&mut self) {
        let mut n = 0;
        while n < 2 {
            match self.call(Call::Event, NOW, &mut []) {
                Ok(Some(_)) => n = 0,
                _ => n += 1,
            }
        }
    }
}

fn device(kind: usize) -> Dev {
    let t = start("xterm");
    let cfg = PrepareConfig { report_signals: Signal::Interrupt.into(), block_signals: false, ..PrepareConfig::default() };
    w().sig[libc::SIGUSR1 as usize] = SigAct { handler: foreign_handler as *const () as usize, ..DFL };
    match kind {
        0 => Dev::T(t),
        1 => {
            std::mem::forget(ok(t.prepare(cfg), "prepare"));
            Dev::T(t)
        }
        _ => Dev::S(ok(Screen::with_terminal(t, cfg), "open")),
    }
}

fn check_time(what: &str, want: u64, el: u64) {
    let least = want.min(LONG);
    check!(el >= least, "early", "{} ends after {}us instead of {}us", what, el, want);
    if want < LONG {
        check!(el <= want + 1000, "late", "{} ends after {}us instead of {}us", what, el, want);
    }
}

/// One call, with interruptions that are no event, input or nothing.
fn timed(intr: usize) -> Job {
    job(&format!("every timeout, {} interruptions", intr), 0, move || {
        let mut dev = device(choose(3, "device"));
        let ts = timeouts();
        let (d, us) = *choose_of(&ts, "timeout");
        let c = *choose_of(CALLS, "call");
        let stim = choose(3, "input");
        // How much is decoded and waiting already
        let buffered = choose(3, "buffered");
        let mut have = false;
        match buffered {
            1 => {
                // Part of a character
                apply(Stim::Input(vec![0xe3]));
                let r = ok(dev.call(Call::Event, NOW, &mut []), "read");
                check!(r.is_none(), "event", "{:?} from a part of a character", r);
                // A raw read takes it
                have = matches!(c, Call::Raw | Call::GuardRaw);
            }
            2 => {
                apply(Stim::Input(b"xy".to_vec()));
                let r = ok(dev.call(Call::Event, NOW, &mut []), "read");
                check!(r.is_some(), "event", "no event");
                have = true;
            }
            _ => (),
        }
        for _ in 0..intr {
            w().script.push_back(Stim::Sig(libc::SIGUSR1));
        }
        match stim {
            1 => w().script.push_back(Stim::Input(b"\x81\x82".to_vec())),
            2 => {
                if buffered == 1 {
                    return;
                }
                apply(Stim::Input(b"k".to_vec()));
                have = true;
            }
            _ => (),
        }
        if buffered == 0 && stim == 1 {
            *w().script.back_mut().unwrap() = Stim::Input(b"k".to_vec());
        }
        w().arrivals = &[0, 4, 8];
        step();
        let t0 = w().now;
        let input0 = w().taken + w().input.len();
        let mut buf = [0; 4];
        let no_buffer = matches!(c, Call::Raw | Call::GuardRaw) && choose(2, "room for nothing") == 1;
        let room = if no_buffer { 0 } else { buf.len() };
        trace!("{:?}({:?}) into {}", c, d, room);
        let r = dev.call(c, Some(d), &mut buf[..room]);
        trace!("{:?} after {}us", r, w().now - t0);
        let r = ok(r, "call");
        let el = w().now - t0;
        if no_buffer {
            // Whether it waits for input is not said, but it is not longer than that
            check!(matches!(r, None | Some(Event::Raw(0))), "raw", "{:?} into no room", r);
            check!(us >= LONG || el <= us + 1000, "late", "{:?} into no room returns after {}us", c, el);
            w().script.clear();
            dev.settle();
            return;
        }
        let arrived = w().taken + w().input.len() > input0;
        if have {
            check!(r.is_some(), "missed", "{:?} returns nothing although there is input", c);
            check!(el == 0, "late", "{:?} takes {}us although there is input", c, el);
        } else if arrived {
            check!(r.is_some(), "missed", "{:?} returns nothing although input arrived", c);
            check!(us >= LONG || el <= us, "late", "{:?} returns after {}us", c, el);
        } else {
            check!(r.is_none(), "invented", "{:?} returns {:?} although nothing happened", c, r);
            check_time("a call", us, el);
        }
        if let Call::Wait | Call::GuardWait = c {
            check!(matches!(r, None | Some(Event::NoEvent)), "wait", "{:?}", r);
            // Waiting again says the same, and reading agrees
            if have || arrived {
                for _ in 0..2 {
                    let r = ok(dev.call(c, NOW, &mut []), "wait");
                    check!(r.is_some(), "wait", "a second wait does not see the input any more");
                }
            }
            w().script.clear();
            let want: Option<Event> = if have && buffered == 2 {
                Some(Event::Key(Key::Char('y')))
            } else if have || arrived {
                Some(Event::Key(Key::Char(if buffered == 1 { 'あ' } else { 'k' })))
            } else {
                None
            };
            let r = ok(dev.call(Call::Event, NOW, &mut []), "read");
            check!(r == want, "wait", "the read after a wait returns {:?} instead of {:?}", r, want);
        }
        w().script.clear();
        dev.settle();
        outcome(&(us, format!("{:?}", c), el));
    })
}

/// Interrupted more often than anybody would count.
fn many_interruptions() -> Job {
    job("many interruptions", 0, move || {
        let mut dev = device(choose(3, "device"));
        let c = *choose_of(CALLS, "call");
        let ts = [500, 1_000_001, 60_000_000, 3_600_000_000u64];
        let us = *choose_of(&ts, "timeout");
        let n = *choose_of(&[4, 5, 8, 9, 16, 17, 33, 65, 101, 257, 300, 1001], "interruptions");
        let key = choose(2, "input after them") == 1;
        w().arrivals = *choose_of(&[&[0][..], &[1], &[8]], "when");
        w().horizon = w().horizon.max(1 << 20);
        for _ in 0..n {
            w().script.push_back(Stim::Sig(libc::SIGUSR1));
        }
        if key {
            w().script.push_back(Stim::Input(b"k".to_vec()));
        }
        step();
        let t0 = w().now;
        let mut buf = [0; 4];
        let r = ok(dev.call(c, Some(Duration::from_micros(us)), &mut buf), "call");
        let el = w().now - t0;
        let arrived = key && w().script.is_empty();
        if arrived {
            check!(r.is_some(), "missed", "{:?} returns nothing although input arrived", c);
            check!(el <= us, "late", "{:?} returns after {}us", c, el);
        } else {
            check!(r.is_none(), "invented", "{:?} returns {:?} although nothing happened", c, r);
            check_time("a call", us, el);
        }
        w().script.clear();
        dev.settle();
        outcome(&(us, format!("{:?}", c), n, el));
    })
}

/// Input that is announced, but cannot be read, does not keep a call from ending.
fn unreadable() -> Job {
    job("input that cannot be read", 0, move || {
        let mut dev = device(choose(3, "device"));
        let c = *choose_of(CALLS, "call");
        let us = *choose_of(&[Some(0), Some(1_500_000u64), None], "timeout");
        let e = *choose_of(&[libc::EAGAIN, libc::EIO, libc::ENXIO, libc::EINVAL], "error");
        let partial = choose(2, "part of a character before") == 1;
        if partial {
            apply(Stim::Input(vec![0xe3]));
            let r = ok(dev.call(Call::Event, NOW, &mut []), "read");
            check!(r.is_none(), "event", "{:?} from a part of a character", r);
        }
        w().unreadable = Some(e);
        w().arrivals = *choose_of(&[&[0][..], &[1], &[4]], "when");
        w().script.push_back(Stim::Input(if partial { vec![0x81, 0x82] } else { b"k".to_vec() }));
        step();
        let t0 = w().now;
        let mut buf = [0; 4];
        let r = dev.call(c, us.map(Duration::from_micros), &mut buf);
        trace!("{:?}", r);
        let el = w().now - t0;
        if let Some(us) = us {
            check!(el <= us, "late", "{:?} returns after {}us", c, el);
        }
        w().unreadable = None;
        while let Some(s) = w().script.pop_front() {
            apply(s);
        }
        dev.settle();
        outcome(&(us, format!("{:?} {:?}", c, r), e, partial));
    })
}

/// Without timeouts only input ends a wait.
fn forever() -> Job {
    job("no timeout", 0, move || {
        let mut dev = device(choose(3, "device"));
        let c = *choose_of(CALLS, "call");
        let n = *choose_of(&[0, 1, 2, 3, 10, 100, 1000], "interruptions");
        w().horizon = w().horizon.max(1 << 20);
        for _ in 0..n {
            w().script.push_back(Stim::Sig(libc::SIGUSR1));
        }
        w().script.push_back(Stim::Input(b"k".to_vec()));
        step();
        let mut buf = [0; 4];
        let r = ok(dev.call(c, None, &mut buf), "call");
        trace!("{:?}", r);
        check!(w().script.is_empty(), "invented", "{:?} returns {:?} before anything happened", c, r);
        check!(r.is_some(), "missed", "{:?} returns nothing", c);
        dev.settle();
        outcome(&(format!("{:?}", c), n));
    })
}

/// Signals that end a wait.
fn signals() -> Job {
    job("signals while waiting", 0, move || {
        let mut dev = device(1 + choose(2, "device"));
        let ts = timeouts();
        let (d, us) = ts[[0, 8, 9, 14, 30][choose(5, "timeout")]];
        let c = *choose_of(CALLS, "call");
        let s = choose(3, "signal");
        let late = choose(2, "before or during");
        let stim = match s {
            0 => Stim::Sig(libc::SIGINT),
            1 => Stim::Sig(libc::SIGCONT),
            _ => Stim::Resize(7, 9),
        };
        if late == 0 {
            apply(stim);
        } else {
            w().script.push_back(stim);
        }
        w().arrivals = &[0, 4, 8];
        let t0 = w().now;
        let mut buf = [0; 4];
        let r = ok(dev.call(c, Some(d), &mut buf), "call");
        let el = w().now - t0;
        trace!("{:?} after {}us", r, el);
        let came = late == 0 || w().script.is_empty();
        let wait = matches!(c, Call::Wait | Call::GuardWait);
        if !came {
            check!(r.is_none(), "invented", "{:?} returns {:?} although nothing happened", c, r);
            check_time("a call", us, el);
        } else {
            check!(us >= LONG || el <= us, "late", "{:?} returns after {}us", c, el);
            if late == 0 {
                check!(el == 0, "late", "{:?} returns after {}us with a signal pending", c, el);
            }
            let size = mortal::Size { lines: 7, columns: 9 };
            let want = match s {
                0 => Some(Event::Signal(Signal::Interrupt)),
                1 => None,
                _ => Some(Event::Resize(size)),
            };
            if wait {
                check!(r.is_some() || s == 1, "missed", "a wait does not report a signal");
                check!(s != 1 || r.is_some() || el >= us.min(LONG), "early", "a wait ends without event after {}us", el);
                let r = ok(dev.call(Call::Event, NOW, &mut []), "read");
                check!(r == want, "wait", "the read after a wait returns {:?} instead of {:?}", r, want);
            } else {
                check!(r == want, "signal", "{:?} returns {:?} instead of {:?}", c, r, want);
            }
        }
        w().script.clear();
        dev.settle();
        outcome(&(us, format!("{:?}", c), s, el));
    })
}

/// Waits between any reads: they agree, and change nothing.
fn agreement(depth: usize) -> Job {
    let d = Decoder::new("xterm");
    job(&format!("waits and reads, {} operations", depth), 0, move || {
        let kind = choose(3, "device");
        let guard = kind == 2;
        let mut t = device(if guard { 0 } else { 2 * kind });
        let s: &[u8] = *choose_of(STREAMS, "stream");
        let mut i = Input::new(&d);
        let mut pos = 0;
        for _ in 0..depth {
            let k = [0, 1, 2, s.len()][choose(4, "arrives")].min(s.len() - pos);
            if k > 0 {
                i.arrives(&s[pos..pos + k]);
                pos += k;
            }
            let waits = choose(2, "waits");
            for _ in 0..=waits {
                do_op(&mut t, guard, Op::Wait, &mut i);
            }
            do_op(&mut t, guard, [Op::Event, Op::Raw(1)][choose(2, "read")], &mut i);
        }
        i.arrives(&s[pos..]);
        i.drain_with(&mut || t.call(Call::Event, NOW, &mut []));
        i.finish();
    })
}

pub fn c14(thorough: bool) -> Check {
    let t = thorough as usize;
    let mut jobs = vec![forever(), unreadable(), signals(), many_interruptions(), super::counts::waits(), agreement(4 + t)];
    for k in 0..3 + t {
        jobs.push(timed(k));
    }
    Check {
        id: "C14",
        jobs,
        rule: "33 timeouts from 0 to Duration::MAX, each call that waits (wait, event read, raw read; direct and through a guard; terminal, prepared terminal, screen), with nothing, a part of a character or a key buffered, with input arriving before, at the start, in the middle of, or 1us before the end of the timeout or not at all, after up to 3 interruptions by foreign signals (and up to 1001, for some timeouts); virtual clock. 66,000 waits in a row. Input that is announced, but fails to be read. Signals before and while waiting. Sequences of waits and reads on four byte streams.",
        assumptions: vec!["select and poll time out exactly", "timeouts over 10^8 seconds may end after that time", "up to 1ms late is not late"],
    }
}
