//! Raw system calls, bypassing the interposed libc functions.

use std::arch::asm;

#[inline]
pub unsafe fn sys(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

pub unsafe fn set_errno(e: i32) {
    *libc::__errno_location() = e;
}

/// Converts a raw result to the libc convention.
pub unsafe fn ret(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        set_errno(-r as i32);
        -1
    } else {
        r
    }
}

pub unsafe fn exit(code: i32) -> ! {
    sys(libc::SYS_exit_group, code as usize, 0, 0, 0, 0, 0);
    unreachable!()
}

pub unsafe fn sched_yield() {
    sys(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0);
}

pub fn write_all(fd: i32, mut b: &[u8]) {
    while !b.is_empty() {
        let r = unsafe { sys(libc::SYS_write, fd as usize, b.as_ptr() as usize, b.len(), 0, 0, 0) };
        if r <= 0 {
            return;
        }
        b = &b[r as usize..];
    }
}

pub fn put(fd: i32, s: &str) {
    write_all(fd, s.as_bytes());
}

/// Reads a whole memfd from its start.
pub fn read_all(fd: i32) -> Vec<u8> {
    let mut v = Vec::new();
    let mut buf = vec![0u8; 1 << 16];
    let mut off = 0usize;
    loop {
        let r = unsafe { sys(libc::SYS_pread64, fd as usize, buf.as_mut_ptr() as usize, buf.len(), off, 0, 0) };
        if r <= 0 {
            return v;
        }
        v.extend_from_slice(&buf[..r as usize]);
        off += r as usize;
    }
}

pub fn sleep_us(us: u64) {
    let ts = [(us / 1_000_000) as i64, ((us % 1_000_000) * 1000) as i64];
    unsafe {
        sys(libc::SYS_nanosleep, ts.as_ptr() as usize, 0, 0, 0, 0, 0);
    }
}

pub unsafe fn futex_wait(addr: *const u32, val: u32) {
    sys(libc::SYS_futex, addr as usize, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as usize, val as usize, 0, 0, 0);
}

pub unsafe fn futex_wake(addr: *const u32, n: u32) {
    sys(libc::SYS_futex, addr as usize, (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as usize, n as usize, 0, 0, 0);
}
