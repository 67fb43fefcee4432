//! C05: output is delivered once, whole and in order despite write faults.

use mortal::{CursorMode, Terminal, TerminalWriteGuard};

use crate::engine::{choose, choose_of, job, outcome, state, step, violation, Check, Job};
use crate::term::{ok, open, set};
use crate::world::{arm, w, WriteFault};

#[derive(Copy, Clone, Debug, PartialEq)]
enum Out {
    /// Text of that many bytes
    Text(usize),
    /// The same with characters of several bytes
    Multi(usize),
    Char,
    Return,
    Clear,
    Up,
    Hide,
}

const FAULTS: &[WriteFault] = &[
    WriteFault::Errno(libc::EIO),
    WriteFault::Short(1),
    WriteFault::Half,
    WriteFault::AllButOne,
    WriteFault::Zero,
    WriteFault::Errno(libc::EAGAIN),
    WriteFault::Errno(libc::EINTR),
];

/// A text unlike that of any other call, and unlike itself at any other place.
fn text(k: usize, n: usize, multi: bool) -> String {
    let mut s = String::with_capacity(n + 8);
    let mut i = 0;
    while s.len() < n {
        s.push((b'A' + k as u8) as char);
        if multi {
            s.push(char::from_u32(0x3041 + i as u32 % 0x300).unwrap());
        }
        s.push_str(&format!("{:03x}", i));
        i += 1;
    }
    while s.len() > n {
        s.pop();
    }
    s
}

macro_rules! put {
    ($t:expr, $op:expr, $k:expr) => {
        match $op {
            Out::Text(n) => $t.write_str(&text($k, n, false)),
            Out::Multi(n) => write!($t, "{}", text($k, n, true)),
            Out::Char => $t.write_char((b'a' + $k as u8) as char),
            Out::Return => $t.move_to_first_column(),
            Out::Clear => $t.clear_screen(),
            Out::Up => $t.move_up(3),
            Out::Hide => $t.set_cursor_mode(CursorMode::Invisible),
        }
    };
}

/// What the device has to receive for each accepted call.
struct Expected {
    /// Bytes, and whether all of them must arrive
    segs: Vec<(Vec<u8>, bool)>,
    /// Length of `out` at the start
    start: usize,
    seq: [Vec<u8>; 4],
}

impl Expected {
    /// Opens a terminal and learns the sequences of operations without parameters from a faultless run.
    fn new() -> (Terminal, Expected) {
        arm(4, 40);
        w().no_vt = true;
        let t = open();
        let seq = [Out::Return, Out::Clear, Out::Up, Out::Hide].map(|op| {
            let n = w().out.len();
            ok(put!(t, op, 0), "operation");
            w().out[n..].to_vec()
        });
        for s in &seq {
            check!(!s.is_empty(), "delivered", "an operation sent nothing");
        }
        let start = w().out.len();
        (t, Expected { segs: Vec::new(), start, seq })
    }

    fn bytes(&self, op: Out, k: usize) -> Vec<u8> {
        match op {
            Out::Text(n) => text(k, n, false).into_bytes(),
            Out::Multi(n) => text(k, n, true).into_bytes(),
            Out::Char => vec![b'a' + k as u8],
            Out::Return => self.seq[0].clone(),
            Out::Clear => self.seq[1].clone(),
            Out::Up => self.seq[2].clone(),
            Out::Hide => self.seq[3].clone(),
        }
    }

    fn add(&mut self, op: Out, k: usize, r: &std::io::Result<()>) {
        trace!("{:?} = {:?}", op, r);
        let b = self.bytes(op, k);
        self.segs.push((b, r.is_ok()));
    }

    /// Whether the device received a prefix of the accepted output (all of it, if `all`).
    fn verify(&self, all: bool) {
        step();
        let out = &w().out[self.start..];
        let prefix = |a: &[u8], b: &[u8]| a.iter().zip(b).take_while(|(x, y)| x == y).count();
        // Places of the output reachable after each segment
        let mut at: Vec<usize> = vec![0];
        let mut ended = false;
        for (i, (b, whole)) in self.segs.iter().enumerate() {
            let mut next = Vec::new();
            for &p in &at {
                let n = prefix(&out[p..], b);
                if p + n == out.len() && (n < b.len() || b.is_empty()) {
                    // The output ends within this segment
                    ended |= !all;
                }
                if *whole {
                    if n == b.len() {
                        next.push(p + n);
                    }
                } else {
                    next.extend(p..=p + n);
                }
            }
            next.sort();
            next.dedup();
            if next.len() > 40 {
                // Within a refused text: only its end and its start matter for what follows
                let keep: Vec<usize> = next.iter().cloned().filter(|&p| p == out.len() || self.segs[i + 1..].iter().any(|(b, _)| b.first() == Some(&out[p]))).collect();
                next = keep;
            }
            at = next;
        }
        ended |= at.contains(&out.len());
        if !ended {
            violation(
                "delivered",
                &format!(
                    "the device received {:?}, which is not {} the accepted output {:?}",
                    String::from_utf8_lossy(out),
                    if all { "all of" } else { "a prefix of" },
                    self.segs.iter().map(|(b, w)| (String::from_utf8_lossy(b), *w)).collect::<Vec<_>>()
                ),
            );
        }
        state(&(out.len(), self.segs.len(), crate::engine::hash_of(&out)));
    }

    /// The end: without faults everything is delivered.
    fn finish(&self, t: &Terminal) {
        w().write_faults = &[];
        w().dead = None;
        let mut g = t.lock_write().unwrap();
        ok(g.flush(), "flush on a working device");
        self.verify(true);
        drop(g);
        self.verify(true);
        outcome(&(w().out.len(), crate::engine::hash_of(&w().out)));
    }
}

/// Operations one by one on the terminal or through guards, write faults anywhere.
fn faulty(name: &str, ops: Vec<Out>, depth: usize, bound: u32) -> Job {
    job(&format!("{}, {} operations", name, depth), bound, move || {
        set("xterm");
        let (t, mut e) = Expected::new();
        w().write_faults = FAULTS;
        let mut k = 0;
        while k < depth {
            if choose(2, "guard") == 0 {
                let op = *choose_of(&ops, "op");
                let r = put!(t, op, k);
                e.add(op, k, &r);
                k += 1;
            } else {
                let mut g = t.lock_write().unwrap();
                loop {
                    let op = *choose_of(&ops, "op");
                    let r = put!(g, op, k);
                    e.add(op, k, &r);
                    e.verify(false);
                    k += 1;
                    if k == depth || choose(2, "more") == 0 {
                        break;
                    }
                }
                if choose(2, "flush") == 1 {
                    let r = g.flush();
                    trace!("flush = {:?}", r);
                    e.verify(r.is_ok());
                }
            }
            e.verify(false);
        }
        e.finish(&t);
    })
}

/// Sizes around the buffer's capacity after various amounts of buffered output.
fn sizes() -> Job {
    job("text sizes around the buffer capacity", 1, || {
        set("xterm");
        let (t, mut e) = Expected::new();
        let first = *choose_of(&[0, 1, 100, 4096, 8191, 8192, 8193], "buffered");
        let second = *choose_of(&[0, 1, 2, 3, 91, 92, 93, 4095, 4096, 4097, 8091, 8092, 8093, 8190, 8191, 8192, 8193, 8194, 16384, 16385, 20000], "size");
        let third = *choose_of(&[0, 1, 8192, 8193], "then");
        let mut g = t.lock_write().unwrap();
        let put = |g: &mut TerminalWriteGuard, e: &mut Expected, k: usize, n: usize, m: bool| {
            let op = if m { Out::Multi(n) } else { Out::Text(n) };
            let r = put!(g, op, k);
            e.add(op, k, &r);
            e.verify(false);
        };
        let multi = choose(2, "multibyte") == 1;
        put(&mut g, &mut e, 0, first, false);
        w().write_faults = FAULTS;
        put(&mut g, &mut e, 1, second, multi);
        put(&mut g, &mut e, 2, third, false);
        let r = g.flush();
        e.verify(r.is_ok());
        drop(g);
        e.verify(false);
        e.finish(&t);
    })
}

/// Texts longer than 16 bits say, to devices that take only so much at once.
fn large() -> Job {
    job("large texts", 1, || {
        set("xterm");
        let (t, mut e) = Expected::new();
        let first = *choose_of(&[0, 1, 8191], "buffered");
        let n = *choose_of(&[40_000, 65_535, 65_536, 65_537, 140_000], "size");
        let op = if choose(2, "multibyte") == 1 { Out::Multi(n) } else { Out::Text(n) };
        w().write_max = *choose_of(&[0, 4096, 1000], "device takes");
        w().write_faults = &[WriteFault::Errno(libc::EIO), WriteFault::Errno(libc::EINTR), WriteFault::Half];
        w().horizon = w().horizon.max(1 << 20);
        if choose(2, "guard") == 0 {
            let r = put!(t, Out::Text(first), 0);
            e.add(Out::Text(first), 0, &r);
            let r = put!(t, op, 1);
            e.add(op, 1, &r);
        } else {
            let mut g = t.lock_write().unwrap();
            let r = put!(g, Out::Text(first), 0);
            e.add(Out::Text(first), 0, &r);
            let r = put!(g, op, 1);
            e.add(op, 1, &r);
            e.verify(false);
            let r = g.flush();
            e.verify(r.is_ok());
        }
        e.verify(false);
        e.finish(&t);
    })
}

/// Many writes and many failures, in many rhythms.
fn long_history() -> Job {
    job("long histories", 0, || {
        set("xterm");
        let (t, mut e) = Expected::new();
        let ops = [Out::Text(5), Out::Multi(7), Out::Char, Out::Return, Out::Clear, Out::Up, Out::Hide, Out::Text(300)];
        let stride = choose(7, "stride") + 1;
        let dead = *choose_of(&[(10, 3), (7, 6), (60, 50), (2, 1), (400, 0)], "device dead");
        let errno = *choose_of(&[libc::EIO, libc::EAGAIN], "errno");
        let group = *choose_of(&[1, 3, 40], "guard");
        w().write_max = *choose_of(&[0, 3], "device takes");
        w().horizon = w().horizon.max(1 << 20);
        let mut k = 0;
        while k < 120 {
            if group == 1 {
                w().dead = if k % dead.0 < dead.1 { Some(errno) } else { None };
                let op = ops[k * stride % 8];
                let r = put!(t, op, k % 26);
                e.add(op, k % 26, &r);
                k += 1;
            } else {
                let mut g = t.lock_write().unwrap();
                for _ in 0..group {
                    w().dead = if k % dead.0 < dead.1 { Some(errno) } else { None };
                    let op = ops[k * stride % 8];
                    let r = put!(g, op, k % 26);
                    e.add(op, k % 26, &r);
                    k += 1;
                }
                let r = g.flush();
                e.verify(r.is_ok());
            }
            e.verify(false);
        }
        e.finish(&t);
    })
}

/// The device is gone for a while, or forever.
fn dead() -> Job {
    job("device gone for part of a history", 0, || {
        set("xterm");
        let (t, mut e) = Expected::new();
        let n = 4;
        let from = choose(n, "dies");
        let to = from + choose(n + 1 - from, "revives") + 1;
        let errno = *choose_of(&[libc::EIO, libc::EAGAIN, libc::ENOSPC, libc::EBADF], "errno");
        // Errors that a drop reports may have nowhere to go either
        w().err_device = choose(2, "stderr-is-device") == 1;
        let ops = [Out::Text(4), Out::Clear, Out::Text(8300)];
        for k in 0..n {
            w().dead = if (from..to).contains(&k) { Some(errno) } else { None };
            let op = *choose_of(&ops, "op");
            if choose(2, "guard") == 0 {
                let r = put!(t, op, k);
                e.add(op, k, &r);
            } else {
                let mut g = t.lock_write().unwrap();
                let r = put!(g, op, k);
                e.add(op, k, &r);
                let r = g.flush();
                e.verify(r.is_ok());
            }
            e.verify(false);
        }
        if to <= n {
            e.finish(&t);
        } else {
            // Dropped while the device is gone
            w().dead = Some(errno);
            drop(t);
            e.verify(false);
            outcome(&"dropped");
        }
    })
}

/// Texts which look like parts of terminal descriptions or sequences, next to control operations.
fn alike() -> Job {
    job("texts like descriptions", 0, || {
        set("xterm");
        let (t, e) = Expected::new();
        const PARTS: &[&str] = &["$<5>", "$<", "5*/>", ">", "%p1%d", "\x1b[", "\\E"];
        let parts = |label| {
            let mut s = String::new();
            for _ in 0..choose(3, label) {
                s.push_str(choose_of(PARTS, "part"));
            }
            s
        };
        let guard = choose(2, "guard") == 1;
        let (a, op, b) = (parts("before"), *choose_of(&[Out::Return, Out::Clear, Out::Up, Out::Hide], "op"), parts("after"));
        let again = choose(2, "again") == 1;
        let mut want = a.clone().into_bytes();
        want.extend(e.bytes(op, 0));
        want.extend(b.as_bytes());
        if again {
            want.extend(e.bytes(op, 0));
        }
        trace!("{:?} {:?} {:?}", a, op, b);
        if guard {
            let mut g = t.lock_write().unwrap();
            ok(g.write_str(&a), "write_str");
            ok(put!(g, op, 0), "operation");
            ok(g.write_str(&b), "write_str");
            if again {
                ok(put!(g, op, 0), "operation");
            }
        } else {
            ok(t.write_str(&a), "write_str");
            ok(put!(t, op, 0), "operation");
            ok(t.write_str(&b), "write_str");
            if again {
                ok(put!(t, op, 0), "operation");
            }
        }
        let out = &w().out[e.start..];
        check!(
            out == want,
            "altered",
            "the device received {:?} instead of {:?}",
            String::from_utf8_lossy(out),
            String::from_utf8_lossy(&want)
        );
        state(&(crate::engine::hash_of(&out), guard));
        outcome(&want);
    })
}

pub fn c05(thorough: bool) -> Check {
    let all = vec![Out::Text(4), Out::Multi(7), Out::Char, Out::Return, Out::Clear, Out::Up, Out::Hide];
    let sized = vec![Out::Text(3), Out::Text(5000), Out::Multi(8200), Out::Clear];
    let mut jobs = vec![
        faulty("small output of all kinds", all.clone(), 2, 2),
        faulty("small output", vec![Out::Text(4), Out::Multi(7), Out::Clear], 3, 2),
        faulty("output of some sizes", vec![Out::Text(3), Out::Multi(8200), Out::Clear], 3, 2),
        faulty("short histories, many faults", vec![Out::Text(6), Out::Multi(8200)], 2, if thorough { 5 } else { 4 }),
        sizes(),
        large(),
        long_history(),
        super::counts::writes(),
        dead(),
        alike(),
    ];
    if thorough {
        jobs.push(faulty("small output of all kinds", all, 3, 2));
        jobs.push(faulty("output of all sizes", sized, 3, 2));
        jobs.push(faulty("small output", vec![Out::Text(4), Out::Multi(7), Out::Clear], 4, 2));
        jobs.push(faulty("output of all sizes", vec![Out::Text(3), Out::Text(5000), Out::Multi(8200)], 3, 3));
    }
    Check {
        id: "C05",
        jobs,
        rule: "Histories of text (small, medium, around and above the buffer size, multi-byte), characters and control operations, directly and through guards with and without flush, with up to the stated number of write(2) faults (full failure EIO/EAGAIN, nothing accepted, 1 byte, half, all but one byte, EINTR) at every write; a device dead for every interval of a history and at drop; texts to 280,000 bytes to devices that take part of them; histories of 120 operations with a device that dies periodically, and of 66,000 writes; texts that look like parts of terminal descriptions next to control operations. After each step the device has received a prefix of the accepted output; after each successful flush all of it.",
        assumptions: vec![
            "A call that fails may have had any prefix of its own text accepted.",
            "Sequences of parameterless operations are taken from a faultless run.",
        ],
    }
}
