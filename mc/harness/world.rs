//! The simulated environment: every libc function through which the code under
//! check reaches its terminal, signals, clock or other threads.
//!
//! The functions at the end of this file are defined with their libc names, so
//! the whole program (std and dependencies included) calls them. Unless the
//! world is armed, and for descriptors that are not the simulated device, they
//! pass the call on to the kernel.

use std::collections::VecDeque;
use std::ffi::CStr;

use libc::{c_char, c_int, c_long, c_ulong, c_void, size_t, ssize_t};

use crate::engine::{self, choose, deviate, violation};
use crate::raw::{ret, set_errno, sys};
use crate::sched;
use crate::vt::Vt;

pub const DEVICE: &str = "/mc/tty";

#[derive(Clone, Debug)]
pub enum Stim {
    Input(Vec<u8>),
    /// Signal whose handler runs on the thread using the terminal
    Sig(i32),
    /// Signal whose handler runs on some other thread of the process
    SigOther(i32),
    /// Window size change (lines, columns), with SIGWINCH
    Resize(u16, u16),
    ResizeOther(u16, u16),
    /// Another program (a shell) changes the device while we are stopped, then SIGCONT
    Continue,
    /// As Continue, handler on another thread
    ContinueOther,
}

#[derive(Copy, Clone, Debug, PartialEq)]
pub enum WriteFault {
    /// Accept only that many bytes
    Short(usize),
    Half,
    AllButOne,
    Errno(i32),
    Zero,
}

#[derive(Copy, Clone, Debug, PartialEq)]
pub enum ReadFault {
    Short(usize),
    Errno(i32),
}

#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash)]
pub enum Call {
    Open,
    Close,
    Read,
    Write,
    Winsize,
    TcGet,
    TcSet,
    Wait,
    SigAction,
}

#[derive(Copy, Clone)]
pub struct SigAct {
    pub handler: usize,
    pub flags: i32,
    pub mask: u64,
    pub restorer: usize,
}

impl PartialEq for SigAct {
    fn eq(&self, o: &SigAct) -> bool {
        const SA_RESTORER: i32 = 0x04000000;
        self.handler == o.handler && self.flags & !SA_RESTORER == o.flags & !SA_RESTORER && self.mask == o.mask
    }
}

pub const DFL: SigAct = SigAct { handler: 0, flags: 0, mask: 0, restorer: 0 };
pub const IGN: SigAct = SigAct { handler: 1, flags: 0, mask: 0, restorer: 0 };

/// A handler a test installs as "the handler that was there before".
pub extern "C" fn foreign_handler(sig: c_int) {
    w().foreign.push(sig);
}
pub extern "C" fn foreign_handler2(sig: c_int) {
    w().foreign.push(sig + 1000);
}

#[derive(Clone, Debug)]
pub struct DevFd {
    pub fd: i32,
    pub open: bool,
    pub owned_by_test: bool,
}

pub struct World {
    // Device
    pub fds: Vec<DevFd>,
    pub tio: libc::termios,
    pub size: (u16, u16),
    pub input: VecDeque<u8>,
    pub vt: Vt,
    /// All bytes the device accepted
    pub out: Vec<u8>,
    /// Accepted bytes with the thread that wrote them, if `log_out`
    pub out_log: Vec<(usize, Vec<u8>)>,
    pub log_out: bool,
    /// Do not interpret output
    pub no_vt: bool,
    /// Bytes of input taken by reads
    pub taken: usize,
    pub open_flags: i32,
    /// Calls that did not go to an open device descriptor
    pub bad_fd: Vec<(Call, i32)>,
    pub ops: Vec<(Call, i32)>,
    pub log_ops: bool,

    // Process
    pub sig: Vec<SigAct>,
    pub mask: u64,
    pub pending: u64,
    /// Threads that are running a signal handler
    pub handlers: u32,
    pub foreign: Vec<i32>,
    pub default_actions: Vec<i32>,
    /// Signals whose handler (any function) was run
    pub handled: Vec<i32>,
    pub now: u64,
    pub stderr: Vec<u8>,
    /// Descriptors 0, 1, 2 that are the device, in standard-stream mode
    pub std_dev: [bool; 3],
    pub err_device: bool,

    // Environment behaviour
    pub script: VecDeque<Stim>,
    /// Stimuli may arrive at any point, each early arrival being a deviation
    pub any_time: bool,
    /// With `any_time`: arrivals early are free choices
    pub write_faults: &'static [WriteFault],
    pub read_faults: &'static [ReadFault],
    /// Each read fails, whether input is ready or not
    pub unreadable: Option<i32>,
    /// Every device call may fail, as a deviation
    pub fail_calls: bool,
    /// Every write fails with this
    pub dead: Option<i32>,
    /// Then other calls on the device fail as well
    pub dead_all: bool,
    /// Once a call failed, all following writes fail too (device gone), as a free choice
    /// Arrival times while blocked with timeout t: numerators of eighths of t; 8 = 1us before
    pub arrivals: &'static [u64],
    pub select_may_eintr: bool,
    pub calls: usize,
    pub horizon: usize,
    /// Number of failures injected
    pub injected: usize,
    pub last_fault: Option<(Call, i32)>,
    /// What a shell does to the device while the process is stopped
    pub on_stop: Option<fn(&mut World)>,
    /// Whether the last attempt to set attributes, a disposition (by signal), or to write failed
    pub tio_failed: bool,
    pub sig_failed: u128,
    pub write_failed: bool,
    /// A write takes at most this many bytes (0: any number)
    pub write_max: usize,
    /// The write with this number (from 1) fails
    pub fail_write_at: usize,
    pub writes: usize,
    /// Displays after each write, without repetition, if `log_snaps`
    pub snaps: Vec<u64>,
    pub log_snaps: bool,
    /// A thread waiting for itself, alone, panics instead of ending the exploration
    pub catch_deadlock: bool,
    /// Waits with no end are reported as this
    pub hang_sig: &'static str,
    pub waits: Vec<(Option<u64>, u64)>,
    /// Result of the read in progress may be cut; full control to tests
    pub log_waits: bool,
}

static mut WORLD: Option<Box<World>> = None;
static mut ARMED: bool = false;

#[allow(static_mut_refs)]
pub fn w() -> &'static mut World {
    unsafe { WORLD.as_mut().expect("no world") }
}

pub fn armed() -> bool {
    unsafe { ARMED }
}

pub fn disarm() {
    unsafe { ARMED = false }
}

pub fn rearm() {
    unsafe { ARMED = true }
}

pub fn base_termios() -> libc::termios {
    let mut t: libc::termios = unsafe { std::mem::zeroed() };
    t.c_iflag = libc::ICRNL | libc::IXON | libc::BRKINT;
    t.c_oflag = libc::OPOST | libc::ONLCR;
    t.c_cflag = libc::CS8 | libc::CREAD | libc::B38400;
    t.c_lflag = libc::ISIG | libc::ICANON | libc::ECHO | libc::ECHOE | libc::ECHOK | libc::IEXTEN;
    t.c_cc[libc::VINTR] = 3;
    t.c_cc[libc::VQUIT] = 28;
    t.c_cc[libc::VERASE] = 127;
    t.c_cc[libc::VKILL] = 21;
    t.c_cc[libc::VEOF] = 4;
    t.c_cc[libc::VSUSP] = 26;
    t.c_cc[libc::VSTART] = 17;
    t.c_cc[libc::VSTOP] = 19;
    t.c_cc[libc::VMIN] = 1;
    t.c_cc[libc::VTIME] = 0;
    t
}

pub fn tio_eq(a: &libc::termios, b: &libc::termios) -> bool {
    a.c_iflag == b.c_iflag
        && a.c_oflag == b.c_oflag
        && a.c_cflag == b.c_cflag
        && a.c_lflag == b.c_lflag
        && a.c_cc[..19] == b.c_cc[..19]
}

pub fn tio_str(t: &libc::termios) -> String {
    format!(
        "iflag {:o} oflag {:o} cflag {:o} lflag {:o} min {} time {} cc {:?}",
        t.c_iflag,
        t.c_oflag,
        t.c_cflag,
        t.c_lflag,
        t.c_cc[libc::VMIN],
        t.c_cc[libc::VTIME],
        &t.c_cc[..19]
    )
}

/// Whether a handler of the crate ran, which may have left something in its static variables.
static mut DIRTY: bool = false;

/// Whether a terminal was prepared in this process, so that what is created once exists.
static mut WARM: bool = false;

/// Starts a fresh simulated environment with a device of the given size.
pub fn arm(lines: u16, cols: u16) -> &'static mut World {
    if unsafe { DIRTY || !WARM } {
        // Signals not read by the previous execution are read here.
        fresh(5, 5);
        w().no_vt = true;
        w().horizon = 100_000;
        let term = std::env::var_os("TERM");
        std::env::set_var("TERM", "xterm");
        if let Ok(t) = <mortal::Terminal as mortal::unix::OpenTerminalExt>::from_path(DEVICE) {
            if unsafe { !WARM } {
                if let Ok(s) = t.prepare(mortal::PrepareConfig::default()) {
                    let _ = t.restore(s);
                }
            }
            let mut idle = 0;
            for _ in 0..200 {
                match t.read_event(Some(std::time::Duration::from_secs(0))) {
                    Ok(Some(_)) => idle = 0,
                    _ => idle += 1,
                }
                if idle > 2 {
                    break;
                }
            }
        }
        match term {
            Some(t) => std::env::set_var("TERM", t),
            None => std::env::remove_var("TERM"),
        }
        unsafe {
            DIRTY = false;
            WARM = true;
        }
    }
    fresh(lines, cols)
}

fn fresh(lines: u16, cols: u16) -> &'static mut World {
    let wd = World {
        fds: Vec::new(),
        tio: base_termios(),
        size: (lines, cols),
        input: VecDeque::new(),
        vt: Vt::new(lines.max(1) as usize, cols.max(1) as usize),
        out: Vec::new(),
        out_log: Vec::new(),
        log_out: false,
        no_vt: false,
        taken: 0,
        open_flags: 0,
        bad_fd: Vec::new(),
        ops: Vec::new(),
        log_ops: false,
        sig: vec![DFL; 65],
        mask: 0,
        pending: 0,
        handlers: 0,
        foreign: Vec::new(),
        default_actions: Vec::new(),
        handled: Vec::new(),
        now: 1_000_000_000,
        stderr: Vec::new(),
        std_dev: [false; 3],
        err_device: false,
        script: VecDeque::new(),
        any_time: false,
        write_faults: &[],
        read_faults: &[],
        unreadable: None,
        fail_calls: false,
        dead: None,
        dead_all: false,
        arrivals: &[4],
        select_may_eintr: false,
        calls: 0,
        horizon: 4_000,
        injected: 0,
        last_fault: None,
        on_stop: None,
        tio_failed: false,
        sig_failed: 0,
        write_failed: false,
        write_max: 0,
        fail_write_at: 0,
        writes: 0,
        snaps: Vec::new(),
        log_snaps: false,
        catch_deadlock: false,
        hang_sig: "hang",
        waits: Vec::new(),
        log_waits: false,
    };
    unsafe {
        WORLD = Some(Box::new(wd));
        ARMED = true;
    }
    w()
}

impl World {
    fn is_dev(&self, fd: i32) -> bool {
        if (0..3).contains(&fd) && self.std_dev[fd as usize] {
            return true;
        }
        self.fds.iter().any(|d| d.fd == fd && d.open)
    }

    /// A descriptor that was the device and is closed now
    fn stale(&self, fd: i32) -> bool {
        self.fds.iter().any(|d| d.fd == fd && !d.open) && !self.is_dev(fd)
    }

    pub fn open_fds(&self) -> usize {
        self.fds.iter().filter(|d| d.open).count()
    }

    pub fn out_str(&self) -> String {
        String::from_utf8_lossy(&self.out).into_owned()
    }

    /// Whether this signal has a handler function.
    pub fn has_handler(&self, sig: i32) -> bool {
        self.sig[sig as usize].handler > 1
    }
}

// ---------------------------------------------------------------- events

/// Whether this thread is running a signal handler.
pub fn in_handler() -> bool {
    w().handlers & 1 << sched::current() != 0
}

/// Runs the disposition of a signal on the current thread. True if a handler ran.
pub fn deliver(sig: i32) -> bool {
    let wd = w();
    if wd.mask & (1 << sig) != 0 {
        wd.pending |= 1 << sig;
        return false;
    }
    let act = wd.sig[sig as usize];
    trace!("  signal {} arrives (handler {})", sig, if act.handler > 1 { "set" } else { "none" });
    match act.handler {
        0 => {
            if sig != libc::SIGWINCH && sig != libc::SIGCONT && sig != libc::SIGCHLD {
                wd.default_actions.push(sig);
            }
            false
        }
        1 => false,
        f => {
            if act.flags & libc::SA_RESETHAND != 0 {
                wd.sig[sig as usize] = DFL;
            }
            wd.handled.push(sig);
            if f != foreign_handler as *const () as usize && f != foreign_handler2 as *const () as usize {
                unsafe { DIRTY = true };
            }
            let was = wd.handlers;
            wd.handlers |= 1 << sched::current();
            unsafe {
                if act.flags & libc::SA_SIGINFO != 0 {
                    let h: extern "C" fn(c_int, *mut libc::siginfo_t, *mut c_void) = std::mem::transmute(f);
                    let mut info: libc::siginfo_t = std::mem::zeroed();
                    info.si_signo = sig;
                    h(sig, &mut info, std::ptr::null_mut());
                } else {
                    let h: extern "C" fn(c_int) = std::mem::transmute(f);
                    h(sig);
                }
            }
            // Another thread may run a handler at the same time
            let me = 1 << sched::current();
            w().handlers = w().handlers & !me | was & me;
            true
        }
    }
}

/// Applies a stimulus. True if a signal handler ran on this thread.
pub fn apply(s: Stim) -> bool {
    engine::step();
    trace!("  environment: {:?}", s);
    match s {
        Stim::Input(v) => {
            w().input.extend(v);
            false
        }
        Stim::Sig(n) => deliver(n),
        Stim::SigOther(n) => {
            deliver(n);
            false
        }
        Stim::Resize(l, c) | Stim::ResizeOther(l, c) => {
            w().size = (l, c);
            w().vt.resize(l as usize, c as usize);
            let r = deliver(libc::SIGWINCH);
            r && matches!(s, Stim::Resize(..))
        }
        Stim::Continue | Stim::ContinueOther => {
            if let Some(f) = w().on_stop {
                f(w());
            }
            let r = deliver(libc::SIGCONT);
            r && matches!(s, Stim::Continue)
        }
    }
}

/// A point between two steps of the program, where stimuli may arrive.
/// Returns whether a signal handler ran.
pub fn point(label: &'static str) -> bool {
    let wd = w();
    let mut hit = false;
    if wd.any_time && !in_handler() && !sched::controlled() {
        while !w().script.is_empty() && deviate(2, label) == 1 {
            let s = w().script.pop_front().unwrap();
            hit |= apply(s);
        }
    }
    hit
}

fn enter(c: Call, fd: i32) {
    let wd = w();
    wd.calls += 1;
    if wd.calls > wd.horizon {
        violation("livelock", &format!("no end after {} system calls", wd.horizon));
    }
    engine::step();
    if wd.log_ops {
        wd.ops.push((c, fd));
    }
    sched::yield_now("call");
    if !in_handler() {
        point("early-event");
    }
}

/// Whether this call is made to fail.
fn fails(c: Call) -> bool {
    let wd = w();
    if let (true, Some(e)) = (wd.dead_all && c != Call::SigAction && c != Call::Write, wd.dead) {
        trace!("  {:?} fails on a dead device", c);
        unsafe { set_errno(e) };
        return true;
    }
    if wd.fail_calls && !in_handler() && deviate(2, "call-fails") == 1 {
        trace!("  {:?} fails", c);
        wd.injected += 1;
        wd.last_fault = Some((c, libc::EIO));
        unsafe { set_errno(libc::EIO) };
        return true;
    }
    false
}

fn errno(e: i32) {
    unsafe { set_errno(e) }
}

enum Wait {
    Ready,
    Timeout,
    Intr,
}

/// Waits until `ready`, for at most `timeout` microseconds.
fn wait(ready: &dyn Fn() -> bool, timeout: Option<u64>) -> (Wait, u64) {
    let start = w().now;
    let el = |s: u64| w().now - s;
    if sched::controlled() {
        return loop {
            if ready() {
                break (Wait::Ready, el(start));
            }
            if timeout.map_or(false, |t| el(start) >= t) {
                break (Wait::Timeout, el(start));
            }
            if sched::block_device(timeout.map(|t| start.saturating_add(t))) {
                break (Wait::Intr, el(start));
            }
        };
    }
    loop {
        if ready() {
            return (Wait::Ready, el(start));
        }
        let left = timeout.map(|t| t.saturating_sub(el(start)));
        if left == Some(0) {
            return (Wait::Timeout, el(start));
        }
        let wd = w();
        // Blocked: what ends the wait?
        let ns = if wd.script.is_empty() {
            0
        } else if left.is_some() {
            wd.arrivals.len()
        } else {
            1
        };
        let n = ns + left.is_some() as usize;
        if n == 0 {
            let sig = wd.hang_sig;
            violation(sig, "waiting without a timeout, and nothing that could wake the wait will ever happen");
        }
        let k = choose(n, "wait-ends");
        if k < ns {
            if let Some(l) = left {
                // Arrives at this part of the remaining time, at least 1us before its end
                let d = l / 8 * wd.arrivals[k] + (l % 8) * wd.arrivals[k] / 8;
                wd.now = wd.now.saturating_add(d.min(l - 1));
            } else {
                wd.now += 1000;
            }
            let s = wd.script.pop_front().unwrap();
            if apply(s) {
                return (Wait::Intr, el(start));
            }
        } else {
            w().now = w().now.saturating_add(left.unwrap());
            trace!("  wait times out");
        }
    }
}

fn dev_readable() -> bool {
    !w().input.is_empty()
}

/// Real (non-device) descriptors, such as a pipe, are asked for real.
fn real_poll(fd: i32, events: i16) -> i16 {
    let mut p = libc::pollfd { fd, events, revents: 0 };
    let r = unsafe { sys(libc::SYS_poll, &mut p as *mut _ as usize, 1, 0, 0, 0, 0) };
    if r > 0 {
        p.revents
    } else {
        0
    }
}

// ---------------------------------------------------------------- device calls

fn dev_write(fd: i32, buf: &[u8]) -> isize {
    enter(Call::Write, fd);
    let wd = w();
    let n = buf.len();
    let mut take = n;
    wd.write_failed = true;
    if let Some(e) = wd.dead {
        errno(e);
        trace!("  write({} bytes) = dead device", n);
        return -1;
    }
    if fails(Call::Write) {
        return -1;
    }
    wd.writes += 1;
    if wd.writes == wd.fail_write_at {
        trace!("  write({} bytes) = EIO", n);
        errno(libc::EIO);
        return -1;
    }
    if wd.write_max != 0 {
        take = n.min(wd.write_max);
    }
    if !wd.write_faults.is_empty() {
        let k = deviate(1 + wd.write_faults.len(), "write-result");
        if k > 0 {
            let f = wd.write_faults[k - 1];
            wd.injected += 1;
            match f {
                WriteFault::Short(m) => take = m.min(n),
                WriteFault::Half => take = (n + 1) / 2,
                WriteFault::AllButOne => take = n.saturating_sub(1).max(n.min(1)),
                WriteFault::Zero => take = 0,
                WriteFault::Errno(e) => {
                    trace!("  write({} bytes) = errno {}", n, e);
                    wd.last_fault = Some((Call::Write, e));
                    errno(e);
                    return -1;
                }
            }
        }
    }
    wd.write_failed = false;
    let b = &buf[..take];
    trace!("  write({:?}) = {}", String::from_utf8_lossy(buf), take);
    wd.out.extend_from_slice(b);
    if wd.log_out {
        let t = sched::current();
        wd.out_log.push((t, b.to_vec()));
    }
    if !wd.no_vt {
        wd.vt.feed(b);
        if wd.log_snaps {
            let h = wd.vt.hash();
            if wd.snaps.last() != Some(&h) {
                wd.snaps.push(h);
            }
        }
    }
    take as isize
}

fn dev_read(fd: i32, buf: &mut [u8]) -> isize {
    enter(Call::Read, fd);
    let wd = w();
    if fails(Call::Read) {
        return -1;
    }
    if let Some(e) = wd.unreadable {
        trace!("  read = errno {}", e);
        errno(e);
        return -1;
    }
    let mut max = buf.len();
    if !wd.read_faults.is_empty() {
        let k = deviate(1 + wd.read_faults.len(), "read-result");
        if k > 0 {
            match wd.read_faults[k - 1] {
                ReadFault::Short(n) => max = max.min(n),
                ReadFault::Errno(e) => {
                    trace!("  read = errno {}", e);
                    wd.injected += 1;
                    wd.last_fault = Some((Call::Read, e));
                    errno(e);
                    return -1;
                }
            }
        }
    }
    if wd.input.is_empty() && wd.tio.c_cc[libc::VMIN] > 0 && max > 0 {
        // A blocking read
        match wait(&dev_readable, None) {
            (Wait::Intr, _) => {
                errno(libc::EINTR);
                return -1;
            }
            _ => (),
        }
    }
    let wd = w();
    let n = max.min(wd.input.len());
    for b in buf.iter_mut().take(n) {
        *b = wd.input.pop_front().unwrap();
    }
    wd.taken += n;
    trace!("  read({}) = {} {:?}", buf.len(), n, String::from_utf8_lossy(&buf[..n]));
    n as isize
}

// ---------------------------------------------------------------- interposed functions

macro_rules! real {
    ($name:expr, $ty:ty) => {{
        let p = libc::dlsym(libc::RTLD_NEXT, $name.as_ptr());
        if p.is_null() {
            crate::raw::exit(3);
        }
        std::mem::transmute::<*mut c_void, $ty>(p)
    }};
}

/// Whether the call concerns the simulated device. Reports use of a closed one.
unsafe fn route(c: Call, fd: i32) -> Option<bool> {
    if !ARMED {
        return None;
    }
    let wd = w();
    if wd.is_dev(fd) {
        return Some(true);
    }
    if wd.stale(fd) || (fd < 3 && fd >= 0 && c != Call::Write) {
        wd.bad_fd.push((c, fd));
        if wd.stale(fd) {
            errno(libc::EBADF);
            return Some(false);
        }
    }
    None
}

unsafe fn open_impl(path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    if ARMED && CStr::from_ptr(path).to_bytes() == DEVICE.as_bytes() {
        enter(Call::Open, -1);
        if fails(Call::Open) {
            return -1;
        }
        let fd = sys(
            libc::SYS_openat,
            libc::AT_FDCWD as usize,
            c"/dev/null".as_ptr() as usize,
            (libc::O_RDWR | libc::O_CLOEXEC) as usize,
            0,
            0,
            0,
        ) as i32;
        let wd = w();
        wd.open_flags = flags;
        wd.fds.retain(|d| d.fd != fd);
        wd.fds.push(DevFd { fd, open: true, owned_by_test: false });
        trace!("  open = {}", fd);
        return fd;
    }
    let fd = ret(sys(libc::SYS_openat, libc::AT_FDCWD as usize, path as usize, flags as usize, mode as usize, 0, 0)) as c_int;
    if ARMED && fd >= 0 {
        // The number is in use for something else now
        w().fds.retain(|d| d.fd != fd || d.open);
    }
    fd
}

#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    open_impl(path, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    open_impl(path, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if ARMED {
        let wd = w();
        if (0..3).contains(&fd) {
            wd.bad_fd.push((Call::Close, fd));
            return 0;
        }
        if let Some(d) = wd.fds.iter_mut().find(|d| d.fd == fd) {
            if d.open {
                d.open = false;
                trace!("  close({})", fd);
                if wd.log_ops {
                    wd.ops.push((Call::Close, fd));
                }
            } else {
                wd.bad_fd.push((Call::Close, fd));
                errno(libc::EBADF);
                return -1;
            }
        }
    }
    ret(sys(libc::SYS_close, fd as usize, 0, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    match route(Call::Read, fd) {
        None => ret(sys(libc::SYS_read, fd as usize, buf as usize, n, 0, 0, 0)) as ssize_t,
        Some(false) => -1,
        Some(true) => dev_read(fd, std::slice::from_raw_parts_mut(buf as *mut u8, n)),
    }
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    match route(Call::Write, fd) {
        None => {
            if ARMED && fd == 2 {
                let b = std::slice::from_raw_parts(buf as *const u8, n);
                trace!("  stderr: {}", String::from_utf8_lossy(b));
                if let (true, Some(e)) = (w().err_device, w().dead) {
                    errno(e);
                    return -1;
                }
                w().stderr.extend_from_slice(b);
                return n as ssize_t;
            }
            if ARMED && (fd == 0 || fd == 1) {
                w().bad_fd.push((Call::Write, fd));
                return n as ssize_t;
            }
            let r = ret(sys(libc::SYS_write, fd as usize, buf as usize, n, 0, 0, 0)) as ssize_t;
            if ARMED {
                // May have filled a pipe that a thread waits for
                sched::poke_all();
            }
            r
        }
        Some(false) => -1,
        Some(true) => dev_write(fd, std::slice::from_raw_parts(buf as *const u8, n)),
    }
}

#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
    if ARMED && (w().is_dev(fd) || w().stale(fd) || (0..3).contains(&fd)) {
        let mut v: Vec<u8> = Vec::new();
        for i in 0..cnt as usize {
            let x = &*iov.add(i);
            v.extend_from_slice(std::slice::from_raw_parts(x.iov_base as *const u8, x.iov_len));
        }
        return write(fd, v.as_ptr() as *const c_void, v.len());
    }
    ret(sys(libc::SYS_writev, fd as usize, iov as usize, cnt as usize, 0, 0, 0)) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
    if ARMED && (w().is_dev(fd) || w().stale(fd)) {
        let x = &*iov;
        return read(fd, x.iov_base, x.iov_len);
    }
    ret(sys(libc::SYS_readv, fd as usize, iov as usize, cnt as usize, 0, 0, 0)) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn isatty(fd: c_int) -> c_int {
    if ARMED && w().is_dev(fd) {
        return 1;
    }
    errno(libc::ENOTTY);
    0
}

#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, req: c_ulong, arg: *mut c_void) -> c_int {
    if ARMED && req == libc::TIOCGWINSZ as c_ulong {
        match route(Call::Winsize, fd) {
            None => (),
            Some(false) => return -1,
            Some(true) => {
                enter(Call::Winsize, fd);
                if fails(Call::Winsize) {
                    return -1;
                }
                let ws = arg as *mut libc::winsize;
                let (l, c) = w().size;
                *ws = libc::winsize { ws_row: l, ws_col: c, ws_xpixel: 0, ws_ypixel: 0 };
                trace!("  size = {:?}", (l, c));
                return 0;
            }
        }
    }
    ret(sys(libc::SYS_ioctl, fd as usize, req as usize, arg as usize, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn tcgetattr(fd: c_int, t: *mut libc::termios) -> c_int {
    match route(Call::TcGet, fd) {
        None => {
            let f = real!(c"tcgetattr", unsafe extern "C" fn(c_int, *mut libc::termios) -> c_int);
            f(fd, t)
        }
        Some(false) => -1,
        Some(true) => {
            enter(Call::TcGet, fd);
            if fails(Call::TcGet) {
                return -1;
            }
            *t = w().tio;
            0
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn tcsetattr(fd: c_int, act: c_int, t: *const libc::termios) -> c_int {
    match route(Call::TcSet, fd) {
        None => {
            let f = real!(c"tcsetattr", unsafe extern "C" fn(c_int, c_int, *const libc::termios) -> c_int);
            f(fd, act, t)
        }
        Some(false) => -1,
        Some(true) => {
            enter(Call::TcSet, fd);
            w().tio_failed = true;
            if fails(Call::TcSet) {
                return -1;
            }
            if !(0..3).contains(&act) {
                errno(libc::EINVAL);
                return -1;
            }
            if act == libc::TCSAFLUSH {
                w().input.clear();
            }
            w().tio = *t;
            w().tio_failed = false;
            trace!("  tcsetattr {}", tio_str(&*t));
            0
        }
    }
}

/// Numbers of closed device descriptors that now stand for something else.
fn reused(fds: &[c_int]) {
    if unsafe { ARMED } {
        w().fds.retain(|d| !fds.contains(&d.fd) || d.open);
    }
}

#[no_mangle]
pub unsafe extern "C" fn pipe2(fds: *mut c_int, flags: c_int) -> c_int {
    let r = ret(sys(libc::SYS_pipe2, fds as usize, flags as usize, 0, 0, 0, 0)) as c_int;
    if r == 0 {
        reused(std::slice::from_raw_parts(fds, 2));
    }
    r
}

#[no_mangle]
pub unsafe extern "C" fn pipe(fds: *mut c_int) -> c_int {
    pipe2(fds, 0)
}

#[no_mangle]
pub unsafe extern "C" fn eventfd(init: libc::c_uint, flags: c_int) -> c_int {
    let r = ret(sys(libc::SYS_eventfd2, init as usize, flags as usize, 0, 0, 0, 0)) as c_int;
    reused(&[r]);
    r
}

unsafe fn fd_isset(fd: i32, s: *const libc::fd_set) -> bool {
    !s.is_null() && libc::FD_ISSET(fd, s)
}

/// Common part of select and pselect. `timeout` in microseconds.
unsafe fn select_impl(
    nfds: c_int,
    r: *mut libc::fd_set,
    wr: *mut libc::fd_set,
    ex: *mut libc::fd_set,
    timeout: Option<u64>,
) -> (c_int, u64) {
    let mut want: Vec<(i32, bool, bool, bool)> = Vec::new();
    for fd in 0..nfds {
        let t = (fd_isset(fd, r), fd_isset(fd, wr), fd_isset(fd, ex));
        if t.0 || t.1 || t.2 {
            want.push((fd, t.0, t.1, t.2));
            if w().stale(fd) {
                w().bad_fd.push((Call::Wait, fd));
                errno(libc::EBADF);
                return (-1, 0);
            }
        }
    }
    enter(Call::Wait, want.first().map_or(-1, |x| x.0));
    if fails(Call::Wait) {
        return (-1, 0);
    }
    if w().select_may_eintr && deviate(2, "wait-eintr") == 1 {
        errno(libc::EINTR);
        return (-1, 0);
    }
    let state = |fd: i32, rd: bool, wt: bool| -> (bool, bool) {
        if w().is_dev(fd) {
            (rd && dev_readable(), wt)
        } else {
            let e = real_poll(fd, (if rd { libc::POLLIN } else { 0 }) | (if wt { libc::POLLOUT } else { 0 }));
            (rd && e & (libc::POLLIN | libc::POLLHUP) != 0, wt && e & libc::POLLOUT != 0)
        }
    };
    let ready = || want.iter().any(|&(fd, a, b, _)| {
        let (x, y) = state(fd, a, b);
        x || y
    });
    trace!("  wait on {:?} timeout {:?}", want.iter().map(|x| x.0).collect::<Vec<_>>(), timeout);
    let (res, el) = wait(&ready, timeout);
    if w().log_waits {
        w().waits.push((timeout, el));
    }
    match res {
        Wait::Intr => {
            errno(libc::EINTR);
            (-1, el)
        }
        Wait::Timeout => {
            for s in [r, wr, ex] {
                if !s.is_null() {
                    libc::FD_ZERO(s);
                }
            }
            (0, el)
        }
        Wait::Ready => {
            let mut n = 0;
            for &(fd, a, b, c) in &want {
                let (x, y) = state(fd, a, b);
                if a && !x {
                    libc::FD_CLR(fd, r);
                }
                if b && !y {
                    libc::FD_CLR(fd, wr);
                }
                if c {
                    libc::FD_CLR(fd, ex);
                }
                n += x as c_int + y as c_int;
            }
            (n, el)
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn select(
    nfds: c_int,
    r: *mut libc::fd_set,
    wr: *mut libc::fd_set,
    ex: *mut libc::fd_set,
    t: *mut libc::timeval,
) -> c_int {
    if !ARMED {
        return ret(sys(libc::SYS_select, nfds as usize, r as usize, wr as usize, ex as usize, t as usize, 0)) as c_int;
    }
    let us = if t.is_null() {
        None
    } else {
        let tv = &*t;
        if tv.tv_sec < 0 || tv.tv_usec < 0 {
            errno(libc::EINVAL);
            return -1;
        }
        Some((tv.tv_sec as u64).saturating_mul(1_000_000).saturating_add(tv.tv_usec as u64))
    };
    let (n, el) = select_impl(nfds, r, wr, ex, us);
    if let Some(us) = us {
        // Linux leaves the remaining time there
        let left = us.saturating_sub(el);
        *t = libc::timeval { tv_sec: (left / 1_000_000) as i64, tv_usec: (left % 1_000_000) as i64 };
    }
    n
}

/// Installs a temporary signal mask, delivering what it unblocks.
unsafe fn with_mask<T>(m: *const libc::sigset_t, f: impl FnOnce() -> T, intr: impl FnOnce() -> T) -> T {
    if m.is_null() {
        return f();
    }
    let old = w().mask;
    let hit = set_mask(*(m as *const u64) << 1);
    let r = if hit { intr() } else { f() };
    set_mask(old);
    r
}

/// Sets the signal mask (bit n = signal n); delivers pending signals. True if a handler ran.
fn set_mask(m: u64) -> bool {
    w().mask = m;
    let mut hit = false;
    for s in 1..32 {
        if w().pending & (1 << s) != 0 && w().mask & (1 << s) == 0 {
            w().pending &= !(1 << s);
            hit |= deliver(s);
        }
    }
    hit
}

fn ts_us(ts: &libc::timespec) -> Option<u64> {
    if ts.tv_sec < 0 || ts.tv_nsec < 0 || ts.tv_nsec >= 1_000_000_000 {
        return None;
    }
    Some((ts.tv_sec as u64).saturating_mul(1_000_000).saturating_add((ts.tv_nsec as u64 + 999) / 1000))
}

#[no_mangle]
pub unsafe extern "C" fn pselect(
    nfds: c_int,
    r: *mut libc::fd_set,
    wr: *mut libc::fd_set,
    ex: *mut libc::fd_set,
    t: *const libc::timespec,
    m: *const libc::sigset_t,
) -> c_int {
    if !ARMED {
        let f = real!(c"pselect", unsafe extern "C" fn(c_int, *mut libc::fd_set, *mut libc::fd_set, *mut libc::fd_set, *const libc::timespec, *const libc::sigset_t) -> c_int);
        return f(nfds, r, wr, ex, t, m);
    }
    let us = if t.is_null() {
        None
    } else {
        match ts_us(&*t) {
            None => {
                errno(libc::EINVAL);
                return -1;
            }
            u => u,
        }
    };
    with_mask(
        m,
        || select_impl(nfds, r, wr, ex, us).0,
        || {
            errno(libc::EINTR);
            -1
        },
    )
}

unsafe fn poll_impl(fds: *mut libc::pollfd, n: libc::nfds_t, timeout: Option<u64>) -> c_int {
    let v = std::slice::from_raw_parts_mut(fds, n as usize);
    enter(Call::Wait, v.first().map_or(-1, |x| x.fd));
    if fails(Call::Wait) {
        return -1;
    }
    if w().select_may_eintr && deviate(2, "wait-eintr") == 1 {
        errno(libc::EINTR);
        return -1;
    }
    let state = |fd: i32, ev: i16| -> i16 {
        if fd < 0 {
            0
        } else if w().is_dev(fd) {
            (if dev_readable() { ev & libc::POLLIN } else { 0 }) | (ev & libc::POLLOUT)
        } else if w().stale(fd) {
            libc::POLLNVAL
        } else {
            real_poll(fd, ev)
        }
    };
    let spec: Vec<(i32, i16)> = v.iter().map(|p| (p.fd, p.events)).collect();
    trace!("  poll on {:?} timeout {:?}", spec, timeout);
    let (res, el) = wait(&|| spec.iter().any(|&(f, e)| state(f, e) != 0), timeout);
    if w().log_waits {
        w().waits.push((timeout, el));
    }
    match res {
        Wait::Intr => {
            errno(libc::EINTR);
            -1
        }
        _ => {
            let mut n = 0;
            for p in v.iter_mut() {
                p.revents = state(p.fd, p.events);
                n += (p.revents != 0) as c_int;
            }
            n
        }
    }
}

unsafe fn poll_device(fds: *mut libc::pollfd, n: libc::nfds_t) -> bool {
    ARMED && n > 0 && std::slice::from_raw_parts(fds, n as usize).iter().any(|p| w().is_dev(p.fd) || w().stale(p.fd))
}

#[no_mangle]
pub unsafe extern "C" fn poll(fds: *mut libc::pollfd, n: libc::nfds_t, timeout: c_int) -> c_int {
    if !poll_device(fds, n) {
        return ret(sys(libc::SYS_poll, fds as usize, n as usize, timeout as usize, 0, 0, 0)) as c_int;
    }
    poll_impl(fds, n, if timeout < 0 { None } else { Some(timeout as u64 * 1000) })
}

#[no_mangle]
pub unsafe extern "C" fn ppoll(
    fds: *mut libc::pollfd,
    n: libc::nfds_t,
    t: *const libc::timespec,
    m: *const libc::sigset_t,
) -> c_int {
    if !poll_device(fds, n) {
        let f = real!(c"ppoll", unsafe extern "C" fn(*mut libc::pollfd, libc::nfds_t, *const libc::timespec, *const libc::sigset_t) -> c_int);
        return f(fds, n, t, m);
    }
    let us = if t.is_null() {
        None
    } else {
        match ts_us(&*t) {
            None => {
                errno(libc::EINVAL);
                return -1;
            }
            u => u,
        }
    };
    with_mask(
        m,
        || poll_impl(fds, n, us),
        || {
            errno(libc::EINTR);
            -1
        },
    )
}

#[no_mangle]
pub unsafe extern "C" fn sigaction(sig: c_int, new: *const libc::sigaction, old: *mut libc::sigaction) -> c_int {
    if !ARMED || sig == libc::SIGSEGV || sig == libc::SIGBUS || !(1..65).contains(&sig) {
        let f = real!(c"sigaction", unsafe extern "C" fn(c_int, *const libc::sigaction, *mut libc::sigaction) -> c_int);
        return f(sig, new, old);
    }
    enter(Call::SigAction, sig);
    if fails(Call::SigAction) {
        if !new.is_null() {
            w().sig_failed |= 1 << sig;
        }
        return -1;
    }
    if !new.is_null() {
        w().sig_failed &= !(1 << sig);
    }
    let cur = w().sig[sig as usize];
    if !new.is_null() {
        let n = &*new;
        w().sig[sig as usize] = SigAct {
            handler: n.sa_sigaction,
            flags: n.sa_flags,
            mask: *(&n.sa_mask as *const _ as *const u64),
            restorer: 0,
        };
        trace!("  sigaction({}) handler {:x}", sig, if n.sa_sigaction > 1 { 0xf } else { n.sa_sigaction });
    }
    if !old.is_null() {
        let mut o: libc::sigaction = std::mem::zeroed();
        o.sa_sigaction = cur.handler;
        o.sa_flags = cur.flags;
        *(&mut o.sa_mask as *mut _ as *mut u64) = cur.mask;
        *old = o;
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn signal(sig: c_int, h: usize) -> usize {
    if !ARMED {
        let f = real!(c"signal", unsafe extern "C" fn(c_int, usize) -> usize);
        return f(sig, h);
    }
    let mut n: libc::sigaction = std::mem::zeroed();
    n.sa_sigaction = h;
    n.sa_flags = libc::SA_RESTART;
    let mut o: libc::sigaction = std::mem::zeroed();
    if sigaction(sig, &n, &mut o) != 0 {
        return usize::MAX;
    }
    o.sa_sigaction
}

unsafe fn mask_impl(how: c_int, new: *const libc::sigset_t, old: *mut libc::sigset_t) -> c_int {
    let cur = w().mask;
    if !old.is_null() {
        *(old as *mut u64) = cur >> 1;
    }
    if !new.is_null() {
        let n = *(new as *const u64) << 1;
        let m = match how {
            libc::SIG_BLOCK => cur | n,
            libc::SIG_UNBLOCK => cur & !n,
            _ => n,
        };
        set_mask(m);
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn pthread_sigmask(how: c_int, new: *const libc::sigset_t, old: *mut libc::sigset_t) -> c_int {
    if !ARMED {
        let f = real!(c"pthread_sigmask", unsafe extern "C" fn(c_int, *const libc::sigset_t, *mut libc::sigset_t) -> c_int);
        return f(how, new, old);
    }
    mask_impl(how, new, old)
}

#[no_mangle]
pub unsafe extern "C" fn sigprocmask(how: c_int, new: *const libc::sigset_t, old: *mut libc::sigset_t) -> c_int {
    if !ARMED {
        let f = real!(c"sigprocmask", unsafe extern "C" fn(c_int, *const libc::sigset_t, *mut libc::sigset_t) -> c_int);
        return f(how, new, old);
    }
    mask_impl(how, new, old)
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> c_int {
    if !ARMED {
        return ret(sys(libc::SYS_clock_gettime, clk as usize, ts as usize, 0, 0, 0, 0)) as c_int;
    }
    let n = w().now;
    *ts = libc::timespec { tv_sec: (n / 1_000_000) as i64, tv_nsec: (n % 1_000_000 * 1000) as i64 };
    0
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if !ARMED {
        return ret(sys(libc::SYS_nanosleep, req as usize, rem as usize, 0, 0, 0, 0)) as c_int;
    }
    let wd = w();
    wd.calls += 1;
    if wd.calls > wd.horizon {
        violation("livelock", "sleeping without end");
    }
    wd.now += ts_us(&*req).unwrap_or(0);
    sched::yield_now("sleep");
    0
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: libc::clockid_t, fl: c_int, req: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if !ARMED {
        let r = sys(libc::SYS_clock_nanosleep, clk as usize, fl as usize, req as usize, rem as usize, 0, 0);
        return -r as c_int;
    }
    if fl == 0 {
        nanosleep(req, rem);
    } else {
        let t = ts_us(&*req).unwrap_or(0);
        w().now = w().now.max(t);
        sched::yield_now("sleep");
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if ARMED && sched::controlled() {
        sched::yield_now("sched_yield");
        return 0;
    }
    crate::raw::sched_yield();
    0
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if n == libc::SYS_futex && ARMED && sched::controlled() {
        match b as i32 & !(libc::FUTEX_PRIVATE_FLAG | libc::FUTEX_CLOCK_REALTIME) {
            libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
                if *(a as *const u32) != c as u32 {
                    set_errno(libc::EAGAIN);
                    return -1;
                }
                sched::block_addr(a);
                return 0;
            }
            libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
                sched::unblock(a);
                return 1;
            }
            _ => (),
        }
    } else if n == libc::SYS_futex && ARMED && !sched::pooled() {
        let op = b as i32 & !(libc::FUTEX_PRIVATE_FLAG | libc::FUTEX_CLOCK_REALTIME);
        if (op == libc::FUTEX_WAIT || op == libc::FUTEX_WAIT_BITSET) && *(a as *const u32) == c as u32 {
            sched::stuck("the only thread waits for a lock or event nobody can release");
        }
    }
    ret(sys(n, a, b, c, d, e, f)) as c_long
}
