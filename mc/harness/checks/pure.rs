//! C19 SequenceMap, C20 SignalSet, C23 geometry and character helpers.

use std::collections::BTreeMap;

use mortal::sequence::{Entry, FindResult, SequenceMap};
use mortal::signal::{Signal, SignalSet};
use mortal::util::{char_width, ctrl, is_combining_mark, is_ctrl, prefixes, unctrl_lower, unctrl_upper};
use mortal::{Cursor, Key, Size};
use unicode_width::UnicodeWidthChar;

use crate::engine::{choose, choose_of, job, may_panic, outcome, state, step, steps, Check, Job};

// ---------------------------------------------------------------- C19

type Map = SequenceMap<String, u32>;
type Model = BTreeMap<String, u32>;

const KEYS: &[&str] = &["", "a", "aa", "ab", "b", "ba", "é"];
/// Looked up in every state
const PROBES: &[&str] = &[
    "", "a", "b", "é", "c", "A", "aa", "ab", "ba", "bb", "aé", "éa", "aaa", "aba", "abb", "baa", "\u{0}", "a\u{0}", "\u{10ffff}",
    "e", "è",
];

fn same(m: &Map, o: &Model, what: &str) {
    let got: Vec<(String, u32)> = m.sequences().to_vec();
    let want: Vec<(String, u32)> = o.iter().map(|(k, v)| (k.clone(), *v)).collect();
    check!(got == want, "content", "after {}: map holds {:?} instead of {:?}", what, got, want);
    let mut c = m.clone();
    for p in PROBES {
        let exact = o.get(*p);
        let prefix = o.keys().any(|k| k.starts_with(p) && k.len() > p.len());
        let want = match (exact, prefix) {
            (None, false) => FindResult::NotFound,
            (None, true) => FindResult::Incomplete,
            (Some(v), false) => FindResult::Found(*v),
            (Some(v), true) => FindResult::Undecided(*v),
        };
        let got = m.find(p).cloned();
        check!(got == want, "find", "after {}: find({:?}) = {:?} instead of {:?} in {:?}", what, p, got, want, o);
        check!(m.get(p) == exact, "get", "after {}: get({:?}) = {:?} instead of {:?}", what, p, m.get(p), exact);
        check!(c.get_mut(p).map(|v| *v) == exact.copied(), "get_mut", "after {}: get_mut({:?})", what, p);
    }
    let mut vals: Vec<u32> = c.sequences_mut().iter().map(|x| x.1).collect();
    vals.sort();
    let mut wv: Vec<u32> = o.values().copied().collect();
    wv.sort();
    check!(vals == wv, "sequences_mut", "after {}: values {:?}", what, vals);
    state(&want);
}

const NOPS: usize = 16;

/// One operation on both; `v` is a value not used before.
fn map_op(m: &mut Map, o: &mut Model, op: usize, k: &str, v: u32) {
    step();
    let key = k.to_string();
    let was = o.get(k).copied();
    let what = format!("operation {} on {:?}", op, k);
    trace!("{}", what);
    macro_rules! same_result {
        ($got:expr, $want:expr) => {{
            let (g, w) = ($got, $want);
            check!(g == w, "result", "{}: result {:?} instead of {:?}", what, g, w);
        }};
    }
    match op {
        0 => same_result!(m.insert(key.clone(), v), o.insert(key, v)),
        1 => same_result!(m.remove(k), o.remove_entry(k)),
        2 => {
            *m.entry(key.clone()).or_insert(v) += 1000;
            *o.entry(key).or_insert(v) += 1000;
        }
        3 => {
            let mut called = false;
            *m.entry(key.clone()).or_insert_with(|| {
                called = true;
                v
            }) += 1000;
            check!(called == was.is_none(), "or_insert_with", "{}: default function called: {}", what, called);
            *o.entry(key).or_insert(v) += 1000;
        }
        4 => {
            let mut called = 0;
            let e = m.entry(key.clone()).and_modify(|x| {
                *x += 7;
                called += 1;
            });
            check!(e.key() == &key, "key", "{}: key {:?}", what, e.key());
            e.or_insert(v);
            check!(called == was.is_some() as u32, "and_modify", "{}: function called {} times", what, called);
            o.entry(key).and_modify(|x| *x += 7).or_insert(v);
        }
        5 => {
            if let Some(x) = m.get_mut(k) {
                *x += 5;
            }
            if let Some(x) = o.get_mut(k) {
                *x += 5;
            }
        }
        _ => match m.entry(key.clone()) {
            Entry::Occupied(mut e) => {
                check!(was.is_some(), "entry", "{}: occupied entry for an absent key", what);
                same_result!(e.key().clone(), key.clone());
                same_result!(Some(*e.get()), was);
                match op {
                    6 => {
                        same_result!(Some(e.insert(v)), was);
                        o.insert(key, v);
                    }
                    7 => {
                        same_result!(Some(e.remove()), was);
                        o.remove(k);
                    }
                    8 => {
                        same_result!(Some(e.remove_entry()), o.remove_entry(k));
                    }
                    9 => {
                        *e.get_mut() += 3;
                        *o.get_mut(k).unwrap() += 3;
                    }
                    10 => {
                        *e.into_mut() += 4;
                        *o.get_mut(k).unwrap() += 4;
                    }
                    _ => drop(e),
                }
            }
            Entry::Vacant(e) => {
                check!(was.is_none(), "entry", "{}: vacant entry for a present key", what);
                same_result!(e.key().clone(), key.clone());
                match op {
                    11 => same_result!(e.into_key(), key),
                    12 | 13 => {
                        *e.insert(v) += 2;
                        o.insert(key, v + 2);
                    }
                    _ => drop(e),
                }
            }
        },
    }
}

fn map_histories(keys: usize, depth: usize) -> Job {
    job(&format!("histories, {} keys, depth {}", keys, depth), 0, move || {
        let mut m = match choose(3, "constructor") {
            0 => Map::new(),
            1 => Map::with_capacity(3),
            _ => Map::default(),
        };
        let mut o = Model::new();
        same(&m, &o, "construction");
        for i in 0..depth {
            let op = choose(NOPS - 2, "operation");
            let k = choose(keys, "key");
            map_op(&mut m, &mut o, op, KEYS[k], 10 * (i as u32 + 1));
            same(&m, &o, "an operation");
        }
        outcome(&o);
    })
}

/// Every operation on every state over all keys.
fn map_states() -> Job {
    job("all states, all operations", 0, || {
        let mut o = Model::new();
        let mut list = Vec::new();
        let set = choose(1 << KEYS.len(), "keys present");
        for (i, k) in KEYS.iter().enumerate() {
            if set >> i & 1 == 1 {
                o.insert(k.to_string(), i as u32 + 1);
                list.push((k.to_string(), i as u32 + 1));
            }
        }
        let mut m: Map = match choose(4, "made by") {
            0 => list.into(),
            1 => list.into_iter().rev().collect(),
            2 => {
                let mut m = Map::new();
                for (k, v) in list {
                    m.insert(k, v);
                }
                m
            }
            _ => {
                // The other keys were there and were removed
                let mut m = Map::new();
                for k in KEYS.iter().rev() {
                    m.insert(k.to_string(), 99);
                }
                for (i, k) in KEYS.iter().enumerate() {
                    if set >> i & 1 == 1 {
                        m.insert(k.to_string(), i as u32 + 1);
                    } else {
                        m.remove(k);
                    }
                }
                m
            }
        };
        same(&m, &o, "construction");
        let op = choose(NOPS - 2, "operation");
        let k = *choose_of(KEYS, "key");
        map_op(&mut m, &mut o, op, k, 50);
        same(&m, &o, "an operation");
        let op = choose(NOPS - 2, "operation");
        let k = *choose_of(KEYS, "key");
        map_op(&mut m, &mut o, op, k, 60);
        same(&m, &o, "two operations");
        outcome(&o);
    })
}

fn check_lists(list: Vec<(String, u32)>) {
    step();
    let mut first = Model::new();
    let mut last = Model::new();
    for (k, v) in &list {
        first.entry(k.clone()).or_insert(*v);
        last.insert(k.clone(), *v);
    }
    same(&list.clone().into(), &first, "construction from a list");
    same(&list.iter().cloned().collect(), &last, "collection");
    // An iterator that does not know its length
    same(&list.iter().filter(|_| true).cloned().collect(), &last, "collection");
    outcome(&list);
}

fn map_lists(keys: usize, len: usize) -> Job {
    job(&format!("lists of {} keys to length {}", keys, len), 0, move || {
        let n = choose(len + 1, "length");
        check_lists((0..n).map(|i| (choose_of(&KEYS[..keys], "key").to_string(), i as u32)).collect());
    })
}

/// Lists long enough for any sorting method, with many equal keys in every arrangement of a family
fn map_long_lists() -> Job {
    job("long lists", 0, || {
        let n = *choose_of(&[19, 20, 21, 22, 33, 50, 51, 100, 200], "length");
        let m = choose(KEYS.len(), "keys") + 1;
        let (a, b) = (choose(7, "stride") + 1, choose(3, "shape"));
        check_lists(
            (0..n)
                .map(|i| {
                    let j = match b {
                        0 => i * a % m,
                        1 => i * i * a / 3 % m,
                        _ => (n - i) * a / 4 % m,
                    };
                    (KEYS[j].to_string(), i as u32)
                })
                .collect(),
        );
    })
}

/// Maps with hundreds of keys: all strings over two letters
fn map_large(len: usize) -> Job {
    job(&format!("all strings of two letters to length {}", len), 0, move || {
        let mut all = vec![String::new()];
        let mut i = 0;
        while i < all.len() {
            if all[i].len() < len {
                all.push(format!("{}a", all[i]));
                all.push(format!("{}b", all[i]));
            }
            i += 1;
        }
        // Long and multi-byte keys as well
        let front = match *choose_of(&[0, 127, 254, 255, 256, 257, 65536, 1], "front") {
            1 => "\u{e9}\u{3042}\u{1f600}".to_string(),
            n => "\u{e9}".repeat(n / 2) + &"x"[..n % 2],
        };
        for s in &mut all {
            *s = format!("{}{}", front, s);
        }
        let (k, r) = (choose(5, "modulus") + 2, choose(6, "remainder"));
        let mut m = Map::new();
        let mut o = Model::new();
        for (i, s) in all.iter().enumerate() {
            m.insert(s.clone(), i as u32);
            o.insert(s.clone(), i as u32);
        }
        let del = choose(2, "remove");
        for (i, s) in all.iter().enumerate() {
            if (i % k == r % k) == (del == 1) {
                check!(m.remove(s) == o.remove_entry(s), "result", "remove {:?}", s);
            }
        }
        for s in &all {
            steps(1);
            let exact = o.get(s);
            let prefix = o.range(s.clone()..).any(|(x, _)| x.starts_with(s.as_str()) && x.len() > s.len());
            let want = match (exact, prefix) {
                (None, false) => FindResult::NotFound,
                (None, true) => FindResult::Incomplete,
                (Some(v), false) => FindResult::Found(*v),
                (Some(v), true) => FindResult::Undecided(*v),
            };
            let got = m.find(s).cloned();
            check!(got == want, "find", "find({:?}) = {:?} instead of {:?}", s, got, want);
            check!(m.get(s) == exact, "get", "get({:?}) = {:?} instead of {:?}", s, m.get(s), exact);
        }
        same(&m, &o, "removals");
        outcome(&o);
    })
}

pub fn c19(thorough: bool) -> Check {
    let t = thorough as usize;
    Check {
        id: "C19",
        jobs: vec![
            map_states(),
            map_histories(3, 3 + t),
            map_histories(7, 2 + t),
            map_lists(3, 6 + t),
            map_lists(7, 4 + t),
            map_long_lists(),
            map_large(7 + t),
        ],
        rule: "all states over a prefix-closed key set, made in four ways, with all pairs of operations (insert, remove, every entry method); all operation histories to a depth; all construction lists to a length; after each, full content, order and lookup of all probe strings compared with an ordinary map",
        assumptions: vec!["the map's observable content and its allocated capacity are all of its state"],
    }
}

// ---------------------------------------------------------------- C20

const SIGNALS: [Signal; 6] =
    [Signal::Break, Signal::Continue, Signal::Interrupt, Signal::Resize, Signal::Suspend, Signal::Quit];
const NAMES: [&str; 6] = ["Break", "Continue", "Interrupt", "Resize", "Suspend", "Quit"];

/// Builds a set without relying on bulk operations.
fn set_of(bits: u8) -> SignalSet {
    let mut s = SignalSet::new();
    for (i, &g) in SIGNALS.iter().enumerate() {
        if bits >> i & 1 == 1 {
            s.insert(g);
        }
    }
    s
}

/// The set has exactly these members, by every way to ask.
fn is(s: SignalSet, bits: u8, what: &str) {
    steps(1);
    for (i, &g) in SIGNALS.iter().enumerate() {
        check!(s.contains(g) == (bits >> i & 1 == 1), "contains", "{}: contains({:?}) = {}", what, g, s.contains(g));
    }
    check!(s.is_empty() == (bits == 0), "is_empty", "{}: is_empty = {}", what, s.is_empty());
    check!(s == set_of(bits), "eq", "{}: {:?} differs from the set with the same members", what, s);
    let names: Vec<&str> = (0..6).filter(|i| bits >> i & 1 == 1).map(|i| NAMES[i]).collect();
    let want = format!("SignalSet({})", names.join(" | "));
    let got = format!("{:?}", s);
    check!(got == want, "debug", "{}: debug text {} instead of {}", what, got, want);
    state(&bits);
}

fn set_pairs() -> Job {
    job("all pairs", 0, || {
        let a = choose(64, "left") as u8;
        let x = set_of(a);
        is(x, a, "insertion");
        is(!x, !a & 63, "!");
        is(x.inverse(), !a & 63, "inverse");
        is(!!x, a, "!!");
        for b in 0..64u8 {
            let y = set_of(b);
            is(x.union(y), a | b, "union");
            is(x | y, a | b, "|");
            is(x.intersection(y), a & b, "intersection");
            is(x & y, a & b, "&");
            is(x.difference(y), a & !b, "difference");
            is(x - y, a & !b, "-");
            is(x.symmetric_difference(y), a ^ b, "symmetric difference");
            is(x ^ y, a ^ b, "^");
            let mut z = x;
            z |= y;
            is(z, a | b, "|=");
            let mut z = x;
            z &= y;
            is(z, a & b, "&=");
            let mut z = x;
            z -= y;
            is(z, a & !b, "-=");
            let mut z = x;
            z ^= y;
            is(z, a ^ b, "^=");
            check!(x.contains_all(y) == (b & !a == 0), "contains_all", "{:?} contains_all {:?}", x, y);
            check!(x.intersects(y) == (a & b != 0), "intersects", "{:?} intersects {:?}", x, y);
            check!((x == y) == (a == b), "eq", "{:?} == {:?}", x, y);
            #[allow(clippy::nonminimal_bool)]
            let ne = x != y;
            check!(ne == (a != b), "ne", "{:?} != {:?}", x, y);
            is(x, a, "operand");
            is(y, b, "operand");
            outcome(&(a, b));
        }
    })
}

fn set_histories(depth: usize) -> Job {
    job(&format!("histories of depth {}", depth), 0, move || {
        let mut a = choose(64, "start") as u8;
        let mut x = set_of(a);
        for _ in 0..depth {
            let g = choose(6, "signal");
            match choose(6, "operation") {
                0 => {
                    x.insert(SIGNALS[g]);
                    a |= 1 << g;
                }
                1 => {
                    x.remove(SIGNALS[g]);
                    a &= !(1 << g);
                }
                2 => {
                    x.set(SIGNALS[g], true);
                    a |= 1 << g;
                }
                3 => {
                    x.set(SIGNALS[g], false);
                    a &= !(1 << g);
                }
                4 => {
                    let h = choose(6, "signal");
                    x.extend([SIGNALS[g], SIGNALS[h]]);
                    a |= 1 << g | 1 << h;
                }
                _ => {
                    x ^= SIGNALS[g].into();
                    a ^= 1 << g;
                }
            }
            is(x, a, "a history");
        }
        outcome(&a);
    })
}

fn set_makers(len: usize) -> Job {
    job(&format!("collections to length {}", len), 0, move || {
        is(SignalSet::new(), 0, "new");
        is(SignalSet::default(), 0, "default");
        is(SignalSet::all(), 63, "all");
        let n = choose(len + 1, "length");
        let v: Vec<usize> = (0..n).map(|_| choose(6, "signal")).collect();
        let bits = v.iter().fold(0, |b, &g| b | 1u8 << g);
        let sigs: Vec<Signal> = v.iter().map(|&g| SIGNALS[g]).collect();
        is(sigs.iter().copied().collect(), bits, "collect");
        let mut e = SignalSet::new();
        e.extend(sigs.clone());
        is(e, bits, "extend");
        if n == 1 {
            is(SignalSet::from(sigs[0]), bits, "from");
            is(!sigs[0], !bits & 63, "! of a signal");
        }
        if n == 2 {
            is(sigs[0] | sigs[1], bits, "| of signals");
        }
        outcome(&v);
    })
}

pub fn c20(thorough: bool) -> Check {
    let t = thorough as usize;
    Check {
        id: "C20",
        jobs: vec![set_pairs(), set_histories(2 + t), set_makers(5 + t)],
        rule: "all 64 sets and all 64 x 64 pairs with every operation, operator and assignment form (complete); all histories of mutations from every set to a depth; all collections of signals to a length; results compared by members, emptiness, equality and debug text with bit-set arithmetic",
        assumptions: vec![],
    }
}

// ---------------------------------------------------------------- C23

fn grid(max: usize) -> Job {
    job(&format!("all sizes to {}x{}", max, max), 0, move || {
        let size = Size { lines: choose(max, "lines") + 1, columns: choose(max, "columns") + 1 };
        let all: Vec<Cursor> =
            (0..size.lines).flat_map(|line| (0..size.columns).map(move |column| Cursor { line, column })).collect();
        check!(Cursor::first() == all[0], "first", "first() = {:?}", Cursor::first());
        check!(Cursor::last(size) == all[all.len() - 1], "last", "last({:?}) = {:?}", size, Cursor::last(size));
        for (i, c) in all.iter().enumerate() {
            step();
            check!(c.next(size) == all.get(i + 1).copied(), "next", "{:?}.next({:?}) = {:?}", c, size, c.next(size));
            let p = if i == 0 { None } else { Some(all[i - 1]) };
            check!(c.previous(size) == p, "previous", "{:?}.previous({:?}) = {:?}", c, size, c.previous(size));
            state(&(size.lines, size.columns, c.line, c.column));
        }
        let ends = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 255, 256, 65536, 1 << 32, usize::MAX - 1, usize::MAX];
        for l in ends {
            for c in ends {
                step();
                let cur: Cursor = (l, c).into();
                check!((cur.line, cur.column) == (l, c), "from", "cursor from {:?} is {:?}", (l, c), cur);
                let out = l >= size.lines || c >= size.columns;
                check!(
                    cur.is_out_of_bounds(size) == out,
                    "is_out_of_bounds",
                    "{:?}.is_out_of_bounds({:?}) = {}",
                    cur,
                    size,
                    !out
                );
            }
        }
        outcome(&(size.lines, size.columns));
    })
}

/// Stepping at the edges of screens of any size, beyond 16 and 32 bits too.
fn large_grid() -> Job {
    job("edges of large sizes", 0, || {
        let ends = [1, 2, 3, 80, 127, 128, 129, 255, 256, 257, 300, 32768, 65535, 65536, 65537, 1 << 31, 1 << 32, (1 << 32) + 1, usize::MAX];
        let size = Size { lines: *choose_of(&ends, "lines"), columns: *choose_of(&ends, "columns") };
        let at = |n: usize| -> Vec<usize> {
            let mut v: Vec<usize> = ends.iter().flat_map(|&e| [e.saturating_sub(2), e - 1, e]).chain([0, n / 2]).filter(|&x| x < n).collect();
            v.extend([n - 1, n.saturating_sub(2)]);
            v.sort();
            v.dedup();
            v
        };
        check!(Cursor::last(size) == Cursor { line: size.lines - 1, column: size.columns - 1 }, "last", "last({:?})", size);
        for line in at(size.lines) {
            for column in at(size.columns) {
                steps(1);
                let c = Cursor { line, column };
                let next = if column + 1 < size.columns {
                    Some(Cursor { line, column: column + 1 })
                } else if line + 1 < size.lines {
                    Some(Cursor { line: line + 1, column: 0 })
                } else {
                    None
                };
                check!(c.next(size) == next, "next", "{:?}.next({:?}) = {:?}", c, size, c.next(size));
                if let Some(n) = next {
                    check!(n.previous(size) == Some(c), "previous", "{:?}.previous({:?}) = {:?}", n, size, n.previous(size));
                }
                check!(!c.is_out_of_bounds(size), "is_out_of_bounds", "{:?}.is_out_of_bounds({:?})", c, size);
                for out in [Cursor { line: size.lines, column }, Cursor { line, column: size.columns }, Cursor { line: usize::MAX, column }, Cursor { line, column: usize::MAX }] {
                    let want = out.line >= size.lines || out.column >= size.columns;
                    check!(out.is_out_of_bounds(size) == want, "is_out_of_bounds", "{:?}.is_out_of_bounds({:?})", out, size);
                }
            }
        }
        outcome(&(size.lines, size.columns));
    })
}

fn areas() -> Job {
    job("areas", 0, || {
        let ends = [
            0,
            1,
            2,
            3,
            24,
            80,
            255,
            256,
            65535,
            65536,
            (1 << 31) - 1,
            1 << 31,
            (1 << 32) - 1,
            1 << 32,
            (1 << 32) + 1,
            usize::MAX / 3,
            usize::MAX / 2,
            usize::MAX / 2 + 1,
            usize::MAX - 1,
            usize::MAX,
        ];
        let size = Size { lines: *choose_of(&ends, "lines"), columns: *choose_of(&ends, "columns") };
        step();
        let want = usize::try_from(size.lines as u128 * size.columns as u128).ok();
        check!(size.checked_area() == want, "checked_area", "{:?}.checked_area() = {:?}", size, size.checked_area());
        let got = may_panic(|| size.area()).ok();
        check!(got == want, "area", "{:?}.area() = {:?} instead of {:?}", size, got, want);
        outcome(&got);
    })
}

const BLOCK: u32 = 1024;

fn characters() -> Job {
    job("all characters", 0, || {
        let b = choose((0x110000 / BLOCK) as usize, "block") as u32;
        for ch in (b * BLOCK..(b + 1) * BLOCK).filter_map(char::from_u32) {
            steps(1);
            let n = ch as u32;
            check!(is_ctrl(ch) == (n < 0x20), "is_ctrl", "is_ctrl({:?}) = {}", ch, is_ctrl(ch));
            if n < 0x20 {
                let up = char::from_u32(n + 64).unwrap();
                let low = if up.is_ascii_uppercase() { char::from_u32(n + 96).unwrap() } else { up };
                check!(unctrl_upper(ch) == up, "unctrl_upper", "unctrl_upper({:?}) = {:?}", ch, unctrl_upper(ch));
                check!(unctrl_lower(ch) == low, "unctrl_lower", "unctrl_lower({:?}) = {:?}", ch, unctrl_lower(ch));
                check!(ctrl(up) == ch, "ctrl", "ctrl({:?}) = {:?}", up, ctrl(up));
                check!(ctrl(low) == ch, "ctrl", "ctrl({:?}) = {:?}", low, ctrl(low));
                check!(ctrl(ch) == ch, "ctrl", "ctrl({:?}) = {:?}", ch, ctrl(ch));
            }
            let key = Key::from(ch);
            let want = match ch {
                '\x1b' => Key::Escape,
                '\x7f' => Key::Backspace,
                '\r' | '\n' => Key::Enter,
                '\t' => Key::Tab,
                c if n < 0x20 => Key::Ctrl(char::from_u32(c as u32 + 64).unwrap().to_ascii_lowercase()),
                c => Key::Char(c),
            };
            check!(key == want, "key", "{:?} gives {:?} instead of {:?}", ch, key, want);
            check!(char_width(ch) == ch.width(), "width", "char_width({:?}) = {:?}", ch, char_width(ch));
            if n < 0x20 || (0x7f..0xa0).contains(&n) {
                check!(char_width(ch).unwrap_or(0) == 0, "width", "char_width({:?}) = {:?}", ch, char_width(ch));
            }
            let mark = unicode_normalization::char::is_combining_mark(ch);
            check!(is_combining_mark(ch) == mark, "mark", "is_combining_mark({:?}) = {}", ch, !mark);
        }
        state(&b);
        outcome(&b);
    })
}

fn prefix_iteration(len: usize) -> Job {
    job(&format!("prefixes of strings to length {}", len), 0, move || {
        let n = choose(len + 1, "length");
        let s: String = (0..n).map(|_| *choose_of(&['a', 'é', 'あ', '𝄞', '\u{301}', '\0'], "char")).collect();
        step();
        let ends: Vec<usize> = s.char_indices().map(|(i, c)| i + c.len_utf8()).collect();
        let want: Vec<&str> = ends.iter().map(|&e| &s[..e]).collect();
        let mut it = prefixes(&s);
        let got: Vec<&str> = it.by_ref().take(n + 2).collect();
        check!(got == want, "prefixes", "prefixes({:?}) = {:?}", s, got);
        check!(it.next().is_none(), "prefixes", "prefixes({:?}) goes on after its end", s);
        state(&s);
        outcome(&s);
    })
}

/// The same for long strings
fn long_prefixes() -> Job {
    job("prefixes of long strings", 0, || {
        let n = *choose_of(&[15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 1000], "length");
        let k = choose(5, "kind");
        let s: String = (0..n).map(|i| if k < 4 { ['a', 'é', 'あ', '𝄞'][k] } else { ['𝄞', 'b', 'é', 'あ', 'c'][i % 5] }).collect();
        steps(n as u64);
        let ends: Vec<usize> = s.char_indices().map(|(i, c)| i + c.len_utf8()).collect();
        let got: Vec<usize> = prefixes(&s).take(n + 2).map(|p| if s.starts_with(p) { p.len() } else { usize::MAX }).collect();
        check!(got == ends, "prefixes", "prefixes of a string of {} characters: lengths {:?}", n, got);
        outcome(&(n, k));
    })
}

pub fn c23(thorough: bool) -> Check {
    let t = thorough as usize;
    Check {
        id: "C23",
        jobs: vec![grid(7 + 3 * t), large_grid(), areas(), characters(), prefix_iteration(6 + t), long_prefixes()],
        rule: "all cursors on all screens to the stated size with their successors and predecessors, bounds tests at boundary values, areas at all pairs of boundary values, every Unicode scalar value through every character helper, all strings to a length through prefix iteration",
        assumptions: vec![
            "results of control-character conversion are specified for control characters and the ASCII characters that stand for them only",
            "widths and marks are those of the unicode-width and unicode-normalization crates",
        ],
    }
}
