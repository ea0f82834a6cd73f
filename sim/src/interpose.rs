//! libc symbols the simulation replaces. Outside of a running simulation (and for threads it doesn't know), they do the real thing.

use crate::sim::*;
use libc::*;
use std::alloc::Layout;
use std::sync::atomic::{AtomicU32, AtomicUsize, Ordering as O};

#[inline]
unsafe fn sys(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    std::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
                    lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
unsafe fn ret(r: isize) -> isize { if r < 0 && r > -4096 { *__errno_location() = -r as c_int; -1 } else { r } }

pub unsafe fn raw_futex_wait(addr: *const u32, val: u32) { sys(SYS_futex, addr as usize, (FUTEX_WAIT | FUTEX_PRIVATE_FLAG) as usize, val as usize, 0, 0, 0); }
pub unsafe fn raw_futex_wake(addr: *const u32) { sys(SYS_futex, addr as usize, (FUTEX_WAKE | FUTEX_PRIVATE_FLAG) as usize, 1, 0, 0, 0); }
pub unsafe fn raw_write(fd: c_int, p: *const u8, n: usize) -> isize { sys(SYS_write, fd as usize, p as usize, n, 0, 0, 0) }

unsafe fn real(cache: &AtomicUsize, name: &std::ffi::CStr) -> usize {
    let mut p = cache.load(O::Relaxed);
    if p == 0 {
        p = dlsym(RTLD_NEXT, name.as_ptr()) as usize;
        if p == 0 { raw_write(2, b"bigosim: missing symbol\n".as_ptr(), 24); _exit(3); }
        cache.store(p, O::Relaxed);
    }
    p
}

// ---- threads ------------------------------------------------------------------------------------------------------------

type StartFn = extern "C" fn(*mut c_void) -> *mut c_void;
struct Start { f: StartFn, arg: *mut c_void, id: usize, turn: *const AtomicU32, lib: bool }

static EXIT_KEY: AtomicU32 = AtomicU32::new(u32::MAX);

extern "C" fn on_exit(v: *mut c_void) {
    // let every other destructor run first
    let round = v as usize;
    if round < 3 { unsafe { pthread_setspecific(EXIT_KEY.load(O::Relaxed) as pthread_key_t, (round + 1) as *mut c_void); } return; }
    crate::gate::become_lib(false);
    if active() { slow_thread("thread slow to end"); sim().thread_exit(); }
}

fn slow_thread(what: &'static str) {
    let s = sim();
    if s.cfg.slow_thread_permille > 0 && s.fault(what, s.cfg.slow_thread_permille) {
        let d = [1_000_000u64, 50_000, 900_000_000][s.ch.draw(crate::choice::Stream::Fault, 3, |r| r.below(3) as u32) as usize];
        s.block(Key::Sleep, Some(s.now + d));
    }
}

pub fn init() {
    unsafe {
        let mut k: pthread_key_t = 0;
        assert_eq!(pthread_key_create(&mut k, Some(std::mem::transmute(on_exit as *const ()))), 0);
        EXIT_KEY.store(k, O::Relaxed);
    }
}

extern "C" fn trampoline(arg: *mut c_void) -> *mut c_void {
    unsafe {
        let s = Box::from_raw(arg as *mut Start);
        pthread_setspecific(EXIT_KEY.load(O::Relaxed) as pthread_key_t, 1 as *mut c_void);
        Sim::thread_entry(s.id, s.turn);
        slow_thread("thread slow to start");
        let (f, a, lib) = (s.f, s.arg, s.lib);
        drop(s);
        crate::gate::become_lib(lib);
        f(a)
    }
}

#[no_mangle]
pub unsafe extern "C" fn pthread_create(th: *mut pthread_t, attr: *const pthread_attr_t, f: StartFn, arg: *mut c_void) -> c_int {
    static R: AtomicUsize = AtomicUsize::new(0);
    let real: unsafe extern "C" fn(*mut pthread_t, *const pthread_attr_t, StartFn, *mut c_void) -> c_int = std::mem::transmute(real(&R, c"pthread_create"));
    if !active() { return real(th, attr, f, arg); }
    let lib = crate::gate::is_lib();
    let _o = crate::gate::out();
    let s = sim();
    s.thread_creations += 1;
    if s.fail_spawn_at != 0 && s.fail_spawn_at == s.thread_creations {
        count_fault("thread creation refused");
        tr(|| "FAULT thread creation refused".into());
        s.spawns_refused += 1;
        return EAGAIN;
    }
    if s.cfg.spawn_fail_permille > 0 && s.fault("thread creation refused", s.cfg.spawn_fail_permille) { s.spawns_refused += 1; return EAGAIN; }
    if s.threads.len() >= crate::sim::MAX_THREADS { violate("too-many-threads", "more than 2000 threads were created in one run"); }
    let id = s.add_thread();
    let st = Box::into_raw(Box::new(Start { f, arg, id, turn: s.turn_of(id), lib }));
    let r = real(th, attr, trampoline, st as *mut c_void);
    if r != 0 { raw_write(2, b"bigosim: pthread_create failed\n".as_ptr(), 31); _exit(3); }
    s.threads[id].pthread = *th as u64;
    if s.cfg.spawn_delay_permille > 0 && s.fault("creator of a thread delayed", s.cfg.spawn_delay_permille) {
        let d = [1_000_000u64, 50_000, 700_000_000][s.ch.draw(crate::choice::Stream::Fault, 3, |r| r.below(3) as u32) as usize];
        s.block(Key::Sleep, Some(s.now + d));
    }
    sim().yield_point();
    0
}

#[no_mangle]
pub unsafe extern "C" fn pthread_join(th: pthread_t, out: *mut *mut c_void) -> c_int {
    static R: AtomicUsize = AtomicUsize::new(0);
    let real: unsafe extern "C" fn(pthread_t, *mut *mut c_void) -> c_int = std::mem::transmute(real(&R, c"pthread_join"));
    let _o = crate::gate::out();
    if active() {
        // pthread_t values may be reused after a join: the newest thread is meant
        let s = sim();
        if let Some(t) = (0..s.threads.len()).rev().find(|&t| s.threads[t].pthread == th as u64) { s.join_thread(t); }
    }
    real(th, out)
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if active() { let _o = crate::gate::out(); sim().yield_point(); return 0; }
    sys(SYS_sched_yield, 0, 0, 0, 0, 0, 0) as c_int
}

/// of this process, really
pub fn cpu_seconds() -> f64 {
    unsafe {
        let mut ts: timespec = std::mem::zeroed();
        sys(SYS_clock_gettime, CLOCK_PROCESS_CPUTIME_ID as usize, &mut ts as *mut _ as usize, 0, 0, 0, 0);
        ts.tv_sec as f64 + ts.tv_nsec as f64 / 1e9
    }
}

// ---- clocks -------------------------------------------------------------------------------------------------------------

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: clockid_t, ts: *mut timespec) -> c_int {
    if !active() { return ret(sys(SYS_clock_gettime, id as usize, ts as usize, 0, 0, 0, 0)) as c_int; }
    let _o = crate::gate::out();
    let s = sim();
    s.yield_point();
    let s = sim();
    // a busy wait for time to pass does see time pass
    s.clock_reads += 1;
    if s.clock_reads > 2_000 { s.now += 100_000; s.forced_time += 1; }
    let ns = if id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE {
        if s.cfg.wall_jump_permille > 0 && s.fault("wall clock jump", s.cfg.wall_jump_permille) {
            let d = s.ch.draw(crate::choice::Stream::Fault, 5, |r| r.below(5) as u32);
            s.wall_off += [-3_600_000_000_000i64, 3_600_000_000_000, -5_000_000, 7_000_000, 86_400_000_000_000][d as usize];
        }
        (s.now as i64 + s.wall_off) as u64
    } else { s.now };
    (*ts).tv_sec = (ns / 1_000_000_000) as time_t;
    (*ts).tv_nsec = (ns % 1_000_000_000) as c_long;
    s.log(0xC1, id as u64, ns);
    if s.trace.is_some() { s.tr(format!("reads clock {id}: {}", ns.wrapping_sub(T0_NS) as i64)); }
    0
}

unsafe fn sim_sleep(deadline: u64, rem: *mut timespec, relative: bool) -> c_int {
    let _o = crate::gate::out();
    let s = sim();
    s.sleeps += 1;
    let start = s.now;
    let total = deadline.saturating_sub(start);
    if s.cfg.eintr_sleep_permille > 0 && total > 1 && s.fault("interrupted sleep", s.cfg.eintr_sleep_permille) {
        let part = total / 3;
        s.block(Key::Sleep, Some(start + part));
        let s = sim();
        s.slept_ns += s.now - start;
        if relative && !rem.is_null() {
            let left = total - part;
            (*rem).tv_sec = (left / 1_000_000_000) as time_t;
            (*rem).tv_nsec = (left % 1_000_000_000) as c_long;
        }
        return EINTR;
    }
    if total > 0 { s.block(Key::Sleep, Some(deadline)); } else { s.yield_point(); }
    let s = sim();
    s.slept_ns += s.now - start;
    0
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: clockid_t, flags: c_int, req: *const timespec, rem: *mut timespec) -> c_int {
    if !active() { return -sys(SYS_clock_nanosleep, id as usize, flags as usize, req as usize, rem as usize, 0, 0) as c_int; }
    let t = (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64;
    if flags & TIMER_ABSTIME != 0 { sim_sleep(t, rem, false) } else { let n = now(); sim_sleep(n + t, rem, true) }
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const timespec, rem: *mut timespec) -> c_int {
    if !active() { return ret(sys(SYS_nanosleep, req as usize, rem as usize, 0, 0, 0, 0)) as c_int; }
    let t = (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64;
    let r = sim_sleep(now() + t, rem, true);
    if r != 0 { *__errno_location() = r; -1 } else { 0 }
}

#[no_mangle]
pub unsafe extern "C" fn usleep(us: c_uint) -> c_int {
    let ts = timespec { tv_sec: (us / 1_000_000) as time_t, tv_nsec: (us % 1_000_000) as c_long * 1000 };
    nanosleep(&ts, std::ptr::null_mut())
}

// ---- futex --------------------------------------------------------------------------------------------------------------

unsafe fn sim_futex(addr: usize, op: c_int, val: u32, timeout: *const timespec) -> isize {
    let _o = crate::gate::out();
    let cmd = op & 127 & !FUTEX_CLOCK_REALTIME;
    let s = sim();
    match cmd {
        FUTEX_WAIT | FUTEX_WAIT_BITSET => {
            s.yield_point();
            let s = sim();
            if *(addr as *const u32) != val { return -(EAGAIN as isize); }
            let deadline = if timeout.is_null() { None } else {
                let t = (*timeout).tv_sec as u64 * 1_000_000_000 + (*timeout).tv_nsec as u64;
                Some(if cmd == FUTEX_WAIT { s.now + t } else if op & FUTEX_CLOCK_REALTIME != 0 { (t as i64 - s.wall_off).max(0) as u64 } else { t })
            };
            if s.cfg.spurious_futex_permille > 0 && s.fault("spurious wake-up", s.cfg.spurious_futex_permille) { return -(EINTR as isize); }
            if let Some(d) = deadline { if d <= s.now { s.yield_point(); return -(ETIMEDOUT as isize); } }
            match s.block(Key::Futex(addr), deadline) { Wake::Woken => 0, Wake::Timeout => -(ETIMEDOUT as isize) }
        }
        FUTEX_WAKE | FUTEX_WAKE_BITSET => {
            let n = s.wake(Key::Futex(addr), if val > 10_000 { usize::MAX } else { val as usize });
            s.yield_point();
            n as isize
        }
        _ => { violate("harness", &format!("unsupported futex operation {cmd}")) }
    }
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if n == SYS_futex && active() { return ret(sim_futex(a, b as c_int, c as u32, d as *const timespec)) as c_long; }
    if n == SYS_getrandom && active() { return fill_random(a as *mut u8, b) as c_long; }
    ret(sys(n, a, b, c, d, e, f)) as c_long
}

unsafe fn fill_random(p: *mut u8, n: usize) -> isize {
    for i in 0..n { *p.add(i) = (crate::choice::mix(i as u64 + 77) & 0xff) as u8; }
    n as isize
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut c_void, n: size_t, flags: c_uint) -> ssize_t {
    if active() { return fill_random(p as *mut u8, n); }
    ret(sys(SYS_getrandom, p as usize, n, flags as usize, 0, 0, 0))
}

/// where the reports go
pub const REPORT_FD: c_int = if cfg!(feature = "err") { 2 } else { 1 };

// ---- output -------------------------------------------------------------------------------------------------------------

unsafe fn sim_write(fd: c_int, p: *const u8, n: usize) -> isize {
    let _o = crate::gate::out();
    let s = sim();
    s.yield_point();
    let s = sim();
    let report = fd == REPORT_FD;
    if report {
        if s.out_dead || (s.cfg.dead_write_permille > 0 && s.fault("output stream fails for good", s.cfg.dead_write_permille)) {
            s.out_dead = true;
            return -(s.dead_errno as isize);
        }
        if s.cfg.eintr_write_permille > 0 && s.fault("interrupted write", s.cfg.eintr_write_permille) { return -(EINTR as isize); }
    }
    if report && s.cfg.slow_write_permille > 0 && s.fault("slow write", s.cfg.slow_write_permille) {
        let d = [3_000_000u64, 100_000, 2_000_000_000][s.ch.draw(crate::choice::Stream::Fault, 3, |r| r.below(3) as u32) as usize];
        s.block(Key::Sleep, Some(s.now + d));
    }
    let s = sim();
    let mut k = n;
    if report && n > 1 && s.cfg.short_write_permille > 0 && s.fault("partial write", s.cfg.short_write_permille) {
        k = 1 + s.ch.draw(crate::choice::Stream::Fault, n as u32 - 1, |r| r.below(n as u64 - 1) as u32) as usize;
    }
    let data = std::slice::from_raw_parts(p, k);
    if report { s.out.extend_from_slice(data) } else { s.err.extend_from_slice(data) }
    let mut h = 0u64;
    for b in data { h = h.wrapping_mul(131).wrapping_add(*b as u64); }
    s.log(0x30 + fd as u64, k as u64, h);
    if s.trace.is_some() { s.tr(format!("writes to fd {fd}: {:?}", String::from_utf8_lossy(data))); }
    s.yield_point();
    k as isize
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, p: *const c_void, n: size_t) -> ssize_t {
    if active() && (fd == 1 || fd == 2) { return ret(sim_write(fd, p as *const u8, n)); }
    ret(sys(SYS_write, fd as usize, p as usize, n, 0, 0, 0))
}

#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const iovec, cnt: c_int) -> ssize_t {
    if active() && (fd == 1 || fd == 2) {
        let _o = crate::gate::out();
        let mut all = vec![];
        for i in 0..cnt as usize { let v = &*iov.add(i); all.extend_from_slice(std::slice::from_raw_parts(v.iov_base as *const u8, v.iov_len)); }
        return ret(sim_write(fd, all.as_ptr(), all.len()));
    }
    ret(sys(SYS_writev, fd as usize, iov as usize, cnt as usize, 0, 0, 0))
}

// ---- the crate's atomics --------------------------------------------------------------------------------------------------

/// single-threaded use that isn't simulated (see in_bulk())
pub static mut BULK: bool = false;
/// this run has a single thread, and too many atomic operations for keeping the history of them
pub static mut ALONE: bool = false;

#[no_mangle]
pub fn __big_o_sim_atomic(id: &AtomicU32, cell: *mut u8, bytes: u32, signed: bool, op: u32, a: u64, b: u64, so: O, fo: O) -> (u64, bool) {
    if unsafe { BULK } {
        macro_rules! on { ($t:ty) => { unsafe {
            let c = cell as *mut $t;
            let (old, a) = (c.read(), a as $t);
            if op == 12 { if old != a { return (old as u64, false); } c.write(b as $t); return (old as u64, true); }
            if op == 3 { c.write(old.wrapping_add(a)); return (old as u64, true); }
            match op {
                0 => return (old as u64, true),
                1 | 2 => { c.write(a); return (old as u64, true); }
                4 => { c.write(old.wrapping_sub(a)); return (old as u64, true); }
                11 => { if old != a { return (old as u64, false); } c.write(b as $t); return (old as u64, true); }
                _ => {}
            }
        } } }
        if bytes == 8 { on!(u64) } else if bytes == 4 { on!(u32) }
    } else if active() && !unsafe { ALONE } {
        let _o = crate::gate::out();
        match (op, so) {
            (0, O::Release | O::AcqRel) | (1, O::Acquire | O::AcqRel) => panic!("invalid memory ordering {so:?} for this atomic operation"),
            _ => {}
        }
        return sim().atomic(id, cell, bytes, signed, op, a, b, so, fo);
    }
    // no simulation: single-threaded use
    unsafe {
        let old = read_cell(cell, bytes);
        let mask = if bytes == 8 { u64::MAX } else { (1u64 << (bytes * 8)) - 1 };
        let (a, b) = (a & mask, b & mask);
        let new = match op {
            0 => return (old, true),
            1 | 2 => a,
            3 => old.wrapping_add(a),
            4 => old.wrapping_sub(a),
            5 => old & a,
            6 => !(old & a),
            7 => old | a,
            8 => old ^ a,
            9 => old.max(a),
            10 => old.min(a),
            _ => { if old != a { return (old, false); } b }
        };
        write_cell(cell, bytes, new & mask);
        (old, true)
    }
}

#[no_mangle]
pub fn __big_o_sim_fence(o: O) { if active() { let _o = crate::gate::out(); sim().fence(o) } }

// ---- the system allocator below the crate's metrics allocator -------------------------------------------------------------

#[no_mangle]
pub fn __big_o_sim_alloc(l: Layout, zeroed: bool) -> *mut u8 { let _o = crate::gate::out(); crate::sysalloc::alloc(l, zeroed) }
#[no_mangle]
pub fn __big_o_sim_dealloc(p: *mut u8, l: Layout) { let _o = crate::gate::out(); crate::sysalloc::dealloc(p, l) }
#[no_mangle]
pub fn __big_o_sim_realloc(p: *mut u8, l: Layout, n: usize) -> *mut u8 { let _o = crate::gate::out(); crate::sysalloc::realloc(p, l, n) }
