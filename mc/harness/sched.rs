//! Scheduler for controlled threads: exactly one runs at a time; every lock
//! operation, atomic operation and device call is a scheduling point.

use std::cell::Cell;
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};

use crate::engine::{choose, deviate, deviations_left, violation, Expected};
use crate::raw;
use crate::world::{self, apply, w};
#[cfg(mortal_verif)]
use mortal::verif::SyncOp;

/// Without the hook, threads are switched at system calls only: device calls and futex waits.
#[cfg(not(mortal_verif))]
#[derive(Copy, Clone, PartialEq)]
#[allow(dead_code)]
pub enum SyncOp {
    Lock,
    TryLock,
    Locked,
    Contended,
    Unlock,
    Atomic,
}

const MAX: usize = 4;

#[derive(Copy, Clone, Debug, PartialEq)]
enum St {
    Idle,
    Run,
    Addr(usize),
    /// Blocked on the device until the deadline
    Dev(Option<u64>),
    Done,
}

struct Th {
    st: St,
    /// Set when a signal handler is to run on this thread
    sigs: Vec<i32>,
    /// A handler ran while the thread was blocked on the device
    intr: bool,
    /// The event blocked on has happened, or may have
    poke: bool,
    /// The thread is in a call that does not wait
    trying: bool,
}

struct S {
    on: bool,
    n: usize,
    cur: usize,
    th: Vec<Th>,
    switches: usize,
}

static mut SCHED: S = S { on: false, n: 0, cur: 0, th: Vec::new(), switches: 0 };
static SEM: [AtomicU32; MAX] = [const { AtomicU32::new(0) }; MAX];
static MAIN: AtomicU32 = AtomicU32::new(0);
type Body = Box<dyn FnOnce() + Send>;
static mut BODY: [Option<Body>; MAX] = [const { None }; MAX];
static START: [AtomicU32; MAX] = [const { AtomicU32::new(0) }; MAX];
static mut SPAWNED: usize = 0;

thread_local! {
    static TID: Cell<usize> = const { Cell::new(usize::MAX) };
    static POOLED: Cell<bool> = const { Cell::new(false) };
}

#[allow(static_mut_refs)]
fn s() -> &'static mut S {
    unsafe { &mut SCHED }
}

fn wait_sem(a: &AtomicU32) {
    loop {
        if a.compare_exchange(1, 0, SeqCst, SeqCst).is_ok() {
            return;
        }
        unsafe { raw::futex_wait(a as *const _ as *const u32, 0) };
    }
}

fn post(a: &AtomicU32) {
    a.store(1, SeqCst);
    unsafe { raw::futex_wake(a as *const _ as *const u32, 1) };
}

/// Whether the calling thread is under the scheduler's control.
pub fn controlled() -> bool {
    TID.try_with(|t| t.get()).unwrap_or(usize::MAX) != usize::MAX
}

pub fn pooled() -> bool {
    POOLED.try_with(|t| t.get()).unwrap_or(true)
}

/// Number of the running thread; 0 outside of scheduled runs.
pub fn current() -> usize {
    let t = TID.with(|t| t.get());
    if t == usize::MAX {
        0
    } else {
        t
    }
}

#[derive(Copy, Clone, Debug)]
enum Next {
    Thread(usize),
    Env,
    Time,
}

/// Chooses what happens next; the caller (thread `me`) has set its own state.
fn reschedule(me: usize, label: &'static str) {
    loop {
        let sc = s();
        let me_on = me < sc.n && sc.th[me].st == St::Run;
        if me_on && !deviations_left() {
            return;
        }
        let mut v: Vec<Next> = Vec::with_capacity(6);
        if me_on {
            v.push(Next::Thread(me));
        }
        for t in 0..sc.n {
            if (t != me || !me_on) && runnable(t) {
                v.push(Next::Thread(t));
            }
        }
        if !w().script.is_empty() && !world::in_handler() {
            v.push(Next::Env);
        }
        let dl = (0..sc.n)
            .filter_map(|t| match sc.th[t].st {
                St::Dev(Some(d)) if d > w().now => Some(d),
                _ => None,
            })
            .min();
        if dl.is_some() {
            v.push(Next::Time);
        }
        if v.is_empty() {
            if sc.th[..sc.n].iter().all(|t| t.st == St::Done) {
                post(&MAIN);
                return;
            }
            let st: Vec<String> = sc.th[..sc.n].iter().map(|t| format!("{:x?}", t.st)).collect();
            violation("deadlock", &format!("no thread can run; thread states: {}", st.join(", ")));
        }
        let k = if me_on { deviate(v.len(), label) } else { choose(v.len(), "next-thread") };
        match v[k] {
            Next::Env => {
                fire();
                continue;
            }
            Next::Time => {
                let d = dl.unwrap();
                if w().now < d {
                    w().now = d;
                }
                for t in 0..s().n {
                    if let St::Dev(Some(x)) = s().th[t].st {
                        if x <= d {
                            s().th[t].poke = true;
                        }
                    }
                }
                continue;
            }
            Next::Thread(t) => {
                if t == me && me_on {
                    return;
                }
                let sc = s();
                sc.switches += 1;
                trace!("  -- thread {} runs", t);
                sc.cur = t;
                sc.th[t].st = St::Run;
                if t == me {
                    return;
                }
                // Nothing shared may be touched between these two
                let waits = me < sc.n && sc.th[me].st != St::Done;
                post(&SEM[t]);
                if waits {
                    wait_sem(&SEM[me]);
                } // the main thread waits on its own
                return;
            }
        }
    }
}

fn runnable(t: usize) -> bool {
    let th = &s().th[t];
    match th.st {
        St::Run => true,
        St::Addr(_) => th.poke || !th.sigs.is_empty(),
        St::Dev(_) => th.poke || th.intr || !th.sigs.is_empty(),
        _ => false,
    }
}

/// Lets the next event of the environment happen.
fn fire() {
    let wd = w();
    let st = match wd.script.pop_front() {
        Some(x) => x,
        None => return,
    };
    use world::Stim::*;
    // Signals are handled by one of the threads, whichever the kernel picks
    let sig = match st {
        Sig(n) => Some(n),
        Resize(..) => Some(libc::SIGWINCH),
        Continue => Some(libc::SIGCONT),
        _ => None,
    };
    match sig {
        None => {
            apply(st);
        }
        Some(n) => {
            match st {
                Resize(l, c) => {
                    wd.size = (l, c);
                    wd.vt.resize(l as usize, c as usize);
                }
                Continue => {
                    if let Some(f) = wd.on_stop {
                        f(w());
                    }
                }
                _ => (),
            }
            trace!("  environment: signal {}", n);
            let live: Vec<usize> = (0..s().n).filter(|&t| s().th[t].st != St::Done).collect();
            if live.is_empty() {
                world::deliver(n);
            } else {
                let t = live[choose(live.len(), "signal-thread")];
                s().th[t].sigs.push(n);
            }
        }
    }
    for t in 0..s().n {
        if let St::Dev(_) = s().th[t].st {
            s().th[t].poke = true;
        }
    }
}

fn run_sigs(me: usize) -> bool {
    let mut hit = false;
    while let Some(n) = s().th[me].sigs.pop() {
        hit |= world::deliver(n);
    }
    hit
}

/// A scheduling point.
pub fn yield_now(label: &'static str) {
    let me = TID.with(|t| t.get());
    if me == usize::MAX {
        return;
    }
    if world::in_handler() {
        if preempts_handlers() {
            reschedule(me, label);
        }
        return;
    }
    reschedule(me, label);
    run_sigs(me);
}

/// Blocks until `unblock` is called with the same address.
pub fn block_addr(addr: usize) {
    let me = TID.with(|t| t.get());
    let sc = s();
    trace!("  -- thread {} blocks", me);
    if sc.th[me].trying {
        violation("try-waits", "an attempt to acquire a lock waits for another thread");
    }
    sc.th[me].st = St::Addr(addr);
    sc.th[me].poke = false;
    reschedule(me, "block");
    s().th[me].poke = false;
    run_sigs(me);
}

pub fn unblock(addr: usize) {
    for t in 0..s().n {
        if s().th[t].st == St::Addr(addr) {
            s().th[t].poke = true;
        }
    }
    // Other waiters on the device may depend on what this thread did, too
}

/// Blocks on the device. True if a signal handler ran on this thread.
pub fn block_device(deadline: Option<u64>) -> bool {
    let me = TID.with(|t| t.get());
    let sc = s();
    sc.th[me].st = St::Dev(deadline);
    sc.th[me].poke = false;
    reschedule(me, "block");
    s().th[me].poke = false;
    run_sigs(me)
}

/// Wakes threads blocked on descriptors, so that they look again.
pub fn poke_all() {
    for t in 0..s().n {
        if let St::Dev(_) = s().th[t].st {
            s().th[t].poke = true;
        }
    }
}

/// Receives all announcements of lock and atomic operations.
pub fn hook(op: SyncOp, addr: usize) -> bool {
    if !world::armed() || (pooled() && !controlled()) {
        return false;
    }
    crate::engine::step();
    if controlled() {
        match op {
            SyncOp::Lock | SyncOp::TryLock | SyncOp::Atomic => yield_now("sync"),
            SyncOp::Locked => {
                if yields_after_lock() {
                    yield_now("locked");
                }
            }
            SyncOp::Contended => {
                block_addr(addr);
                return true;
            }
            SyncOp::Unlock => {
                unblock(addr);
                if yields_after_unlock() && !std::thread::panicking() {
                    yield_now("unlock");
                }
            }
        }
        return false;
    }
    match op {
        SyncOp::Contended => stuck("the only thread waits for a lock it holds itself"),
        SyncOp::Unlock | SyncOp::Locked => (),
        _ => {
            world::point("early-event");
        }
    }
    false
}

extern "C" fn pool_thread(arg: *mut libc::c_void) -> *mut libc::c_void {
    let me = arg as usize;
    POOLED.with(|p| p.set(true));
    loop {
        wait_sem(&START[me]);
        #[allow(static_mut_refs)]
        let body = unsafe { BODY[me].take().unwrap() };
        TID.with(|t| t.set(me));
        wait_sem(&SEM[me]);
        run_sigs(me);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(body));
        if let Err(p) = r {
            if !p.is::<Expected>() {
                violation("panic", "a thread panicked");
            }
        }
        s().th[me].st = St::Done;
        TID.with(|t| t.set(usize::MAX));
        reschedule(me, "end");
    }
}

static mut PREEMPT_HANDLERS: bool = false;

fn preempts_handlers() -> bool {
    unsafe { PREEMPT_HANDLERS }
}

/// Whether other threads may run while one is in the middle of a signal handler.
pub fn preempt_handlers(on: bool) {
    unsafe { PREEMPT_HANDLERS = on }
}

static mut AFTER_LOCK: bool = false;

fn yields_after_lock() -> bool {
    unsafe { AFTER_LOCK }
}

/// Whether other threads may run right after a lock was acquired, too.
pub fn after_lock(on: bool) {
    unsafe { AFTER_LOCK = on }
}

/// Calls what must not wait for another thread.
pub fn trying<T>(f: impl FnOnce() -> T) -> T {
    let me = TID.with(|t| t.get());
    let set = |on: bool| {
        if me != usize::MAX {
            s().th[me].trying = on;
        }
    };
    set(true);
    let r = f();
    set(false);
    r
}

static mut AFTER_UNLOCK: bool = false;

fn yields_after_unlock() -> bool {
    unsafe { AFTER_UNLOCK }
}

/// Whether other threads may run right after a lock was released, too. Without this, they run
/// before the next operation, which only `try_lock` can tell apart.
pub fn after_unlock(on: bool) {
    unsafe { AFTER_UNLOCK = on }
}

/// Lets one thread wait for another one.
pub struct Flag(std::sync::atomic::AtomicBool);

impl Flag {
    pub fn new() -> Flag {
        Flag(std::sync::atomic::AtomicBool::new(false))
    }
    fn addr(&self) -> usize {
        self as *const Flag as usize
    }
    pub fn set(&self) {
        self.0.store(true, SeqCst);
        unblock(self.addr());
    }
    pub fn is_set(&self) -> bool {
        self.0.load(SeqCst)
    }
    pub fn wait(&self) {
        while !self.is_set() {
            block_addr(self.addr());
        }
    }
}

/// Runs the bodies as concurrent threads, in every schedule, until all end.
pub fn run(bodies: Vec<Body>) {
    let n = bodies.len();
    assert!(n <= MAX);
    unsafe {
        while SPAWNED < n {
            let mut th: libc::pthread_t = std::mem::zeroed();
            let mut attr: libc::pthread_attr_t = std::mem::zeroed();
            libc::pthread_attr_init(&mut attr);
            libc::pthread_attr_setstacksize(&mut attr, 1 << 20);
            let r = libc::pthread_create(&mut th, &attr, pool_thread, SPAWNED as *mut libc::c_void);
            if r != 0 {
                crate::engine::engine_error("cannot create thread");
            }
            SPAWNED += 1;
        }
    }
    let sc = s();
    sc.on = true;
    sc.n = n;
    sc.switches = 0;
    sc.th = (0..n).map(|_| Th { st: St::Run, sigs: Vec::new(), intr: false, poke: false, trying: false }).collect();
    for t in 0..MAX {
        SEM[t].store(0, SeqCst);
    }
    MAIN.store(0, SeqCst);
    for (i, b) in bodies.into_iter().enumerate() {
        unsafe {
            BODY[i] = Some(b);
        }
        post(&START[i]);
    }
    reschedule(usize::MAX, "start");
    wait_sem(&MAIN);
    s().on = false;
    s().n = 0;
    let _ = St::Idle;
}

/// The only thread waits for something nobody can release.
pub fn stuck(why: &str) -> ! {
    if !w().catch_deadlock {
        violation("self-deadlock", why);
    }
    STUCK.store(1, SeqCst);
    post(&MAIN);
    // The thread is abandoned
    loop {
        unsafe { raw::futex_wait(&NEVER as *const _ as *const u32, 0) };
    }
}

static STUCK: AtomicU32 = AtomicU32::new(0);
static NEVER: AtomicU32 = AtomicU32::new(0);
static mut ALONE: Option<Body> = None;
static mut THROWN: Option<Box<dyn std::any::Any + Send>> = None;

extern "C" fn alone_thread(_: *mut libc::c_void) -> *mut libc::c_void {
    #[allow(static_mut_refs)]
    let body = unsafe { ALONE.take().unwrap() };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(body));
    unsafe { THROWN = r.err() };
    post(&MAIN);
    std::ptr::null_mut()
}

/// Runs something by itself. False if it waits for itself; then it never ends, and what it uses
/// must not be used again.
pub fn alone<'a>(body: Box<dyn FnOnce() + Send + 'a>) -> bool {
    STUCK.store(0, SeqCst);
    MAIN.store(0, SeqCst);
    w().catch_deadlock = true;
    unsafe {
        ALONE = Some(std::mem::transmute::<Box<dyn FnOnce() + Send + 'a>, Body>(body));
        let mut th: libc::pthread_t = std::mem::zeroed();
        let mut attr: libc::pthread_attr_t = std::mem::zeroed();
        libc::pthread_attr_init(&mut attr);
        libc::pthread_attr_setstacksize(&mut attr, 1 << 18);
        libc::pthread_attr_setdetachstate(&mut attr, libc::PTHREAD_CREATE_DETACHED);
        if libc::pthread_create(&mut th, &attr, alone_thread, std::ptr::null_mut()) != 0 {
            crate::engine::engine_error("cannot create thread");
        }
    }
    wait_sem(&MAIN);
    w().catch_deadlock = false;
    #[allow(static_mut_refs)]
    if let Some(p) = unsafe { THROWN.take() } {
        std::panic::resume_unwind(p);
    }
    STUCK.load(SeqCst) == 0
}

/// Runs the bodies as threads; they may borrow from the caller, which waits.
pub fn run_scoped<'a>(bodies: Vec<Box<dyn FnOnce() + Send + 'a>>) {
    let b: Vec<Body> = unsafe { std::mem::transmute(bodies) };
    run(b)
}
