//! The simulator core: cooperative scheduling of real OS threads (exactly one holds the execution token), discrete-event
//! time, a view-based model of the Rust/C11 memory model for the intercepted atomics, and the run's event log hash.

use crate::choice::{mix, Choices, Stream};
use crate::shared::*;
use std::cell::Cell;
use std::rc::Rc;
use std::sync::atomic::{AtomicU32, Ordering as O};

pub const MAX_STEPS: u64 = 120_000;
const MAX_RUNNABLE: usize = 128;
pub const MAX_THREADS: usize = 2000;
const ROTATE_AFTER: u64 = 150;
const STARVE_AFTER: u64 = 4_000;
pub const T0_NS: u64 = 1_000_000_000_000;

thread_local! { pub static TID: Cell<usize> = const { Cell::new(usize::MAX) }; }

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Key { None, Sleep, Futex(usize), Join(usize), User(usize) }
impl std::fmt::Debug for Key {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self { Key::None => write!(f, "-"), Key::Sleep => write!(f, "sleep"), Key::Futex(_) => write!(f, "futex"), Key::Join(t) => write!(f, "join T{t}"), Key::User(u) => write!(f, "barrier {u}") }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Wake { Woken, Timeout }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum State { Runnable, Blocked(Key, Option<u64>), Exited }

#[derive(Clone, Default)]
pub struct View { pub loc: Vec<u32>, pub vc: Vec<u32> }
impl View {
    fn join(&mut self, o: &View) {
        if self.loc.len() < o.loc.len() { self.loc.resize(o.loc.len(), 0); }
        for (a, b) in self.loc.iter_mut().zip(o.loc.iter()) { if *b > *a { *a = *b; } }
        if self.vc.len() < o.vc.len() { self.vc.resize(o.vc.len(), 0); }
        for (a, b) in self.vc.iter_mut().zip(o.vc.iter()) { if *b > *a { *a = *b; } }
    }
    fn get(&self, l: usize) -> u32 { self.loc.get(l).copied().unwrap_or(0) }
    fn set(&mut self, l: usize, v: u32) { if self.loc.len() <= l { self.loc.resize(l + 1, 0); } if self.loc[l] < v { self.loc[l] = v; } }
    pub fn vc(&self, t: usize) -> u32 { self.vc.get(t).copied().unwrap_or(0) }
    fn tick(&mut self, t: usize) { if self.vc.len() <= t { self.vc.resize(t + 1, 0); } self.vc[t] += 1; }
}

struct Msg { val: u64, view: Option<Rc<View>> }
struct Loc { hist: Vec<Msg> }

pub struct Thread {
    state: State,
    turn: AtomicU32,
    wake: Wake,
    prio: u64,
    last_run: u64,
    blocked_seq: u64,
    pub pthread: u64,
    cur: View,
    acq: View,
    rel: View,
    stale: Vec<(usize, u32)>,
    pub ops: u64,
}

#[derive(Clone, Copy, Debug)]
enum Strategy { Walk(u32), Pct, Victim(usize, u32), Burst(u32) }

/// per-run configuration, set by the scenario from the workload stream
#[derive(Clone, Copy, Default)]
pub struct Cfg {
    /// relaxed/acquire loads may return stale values, weak compare-exchanges may fail
    pub stale_permille: u32,
    pub weak_fail_permille: u32,
    pub spurious_futex_permille: u32,
    pub eintr_sleep_permille: u32,
    pub spawn_fail_permille: u32,
    pub wall_jump_permille: u32,
    pub stall_permille: u32,
    pub alloc_fail_permille: u32,
    pub short_write_permille: u32,
    pub eintr_write_permille: u32,
    pub dead_write_permille: u32,
    pub slow_write_permille: u32,
    /// the creator of a thread loses the processor for a while
    pub spawn_delay_permille: u32,
    /// a thread takes a while before it does anything, or after it's done
    pub slow_thread_permille: u32,
}

pub struct Sim {
    pub threads: Vec<Box<Thread>>,
    pub cur: usize,
    pub now: u64,
    pub wall_off: i64,
    pub ch: Choices,
    pub cfg: Cfg,
    pub shared: *mut Shared,
    steps: u64,
    consecutive: u64,
    seq: u64,
    hash: u64,
    strategy: Strategy,
    pct_points: Vec<u64>,
    prio_low: u64,
    locs: Vec<Loc>,
    sc_view: View,
    pub quiet: u32,
    pub trace: Option<Vec<String>>,
    pub out: Vec<u8>,
    pub err: Vec<u8>,
    pub out_dead: bool,
    pub preemptions: u64,
    pub next_user_key: usize,
    pub sleeps: u64,
    pub slept_ns: u64,
    pub thread_creations: u64,
    pub fail_spawn_at: u64,
    pub spawns_refused: u64,
    pub max_steps: u64,
    /// steps after which time goes on although threads could run
    pub force_after: u64,
    pub dead_errno: i32,
    last_advance: u64,
    pub clock_reads: u64,
    /// how often time had to go on although a thread could have run
    pub forced_time: u64,
    /// threads to be held just before their n-th atomic operation, until [unpark_all()]
    pub park: Vec<(usize, u64)>,
}

/// do the sources use locks (see check.sh)? What they synchronise isn't known to the memory model, which is off, then
pub fn locks() -> bool {
    static L: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    *L.get_or_init(|| std::env::var("BIGOSIM_LOCKS").is_ok_and(|v| v == "1"))
}

static mut SIM: *mut Sim = std::ptr::null_mut();

#[inline]
pub fn sim() -> &'static mut Sim { unsafe { &mut *SIM } }
#[inline]
pub fn tid() -> usize { TID.with(|t| t.get()) }
#[inline]
pub fn active() -> bool { let started = unsafe { !SIM.is_null() }; started && tid() != usize::MAX }

fn new_thread() -> Box<Thread> {
    Box::new(Thread { state: State::Runnable, turn: AtomicU32::new(0), wake: Wake::Woken, prio: 0, last_run: 0, blocked_seq: 0, pthread: 0,
                      cur: View::default(), acq: View::default(), rel: View::default(), stale: vec![], ops: 0 })
}

/// makes the calling thread the simulation's thread 0
pub fn start(mut ch: Choices, shared: *mut Shared, trace: bool) {
    let strategy = match ch.rng.below(10) {
        0 => Strategy::Walk(1000),
        1 | 2 => Strategy::Walk(500),
        3 => Strategy::Walk(150),
        4 => Strategy::Walk(40),
        5 | 6 => Strategy::Pct,
        7 => Strategy::Victim((1 + ch.rng.below(4)) as usize, 970),
        8 => Strategy::Burst(20),
        _ => Strategy::Victim((1 + ch.rng.below(3)) as usize, 850),
    };
    let mut pct_points = vec![];
    let horizon = [60u64, 300, 1500][ch.rng.below(3) as usize];
    for _ in 0..1 + ch.rng.below(5) { let v = ch.rng.below(horizon); pct_points.push(v); }
    let s = Box::new(Sim {
        threads: vec![new_thread()], cur: 0, now: T0_NS, wall_off: 600_000_000_000_000_000, ch, cfg: Cfg::default(), shared,
        steps: 0, consecutive: 0, seq: 0, hash: 0x1234_5678, strategy, pct_points, prio_low: 1 << 40, locs: vec![], sc_view: View::default(),
        quiet: 0, trace: if trace { Some(vec![]) } else { None }, out: vec![], err: vec![], out_dead: false, preemptions: 0, next_user_key: 1,
        sleeps: 0, slept_ns: 0, thread_creations: 0, fail_spawn_at: 0, spawns_refused: 0, max_steps: MAX_STEPS, force_after: 2_500, dead_errno: libc::ENOSPC,
        last_advance: 0, clock_reads: 0, forced_time: 0, park: vec![],
    });
    unsafe { SIM = Box::into_raw(s); }
    let s = sim();
    s.threads[0].prio = s.ch.rng.next() >> 1 | 1 << 62;
    s.threads[0].cur.tick(0);
    TID.with(|t| t.set(0));
}

/// ends the simulation successfully
pub fn finish() -> ! {
    let s = sim();
    s.store_stats();
    unsafe { (*s.shared).status = ST_OK; }
    s.dump_trace();
    unsafe { libc::_exit(0) }
}

/// reports a violation and ends the run
pub fn violate(class: &str, msg: &str) -> ! {
    unsafe {
        if SIM.is_null() { eprintln!("violate outside of simulation: {class}: {msg}"); libc::_exit(3); }
    }
    let s = sim();
    s.store_stats();
    unsafe {
        put(&mut (*s.shared).class, class);
        put(&mut (*s.shared).msg, msg);
        (*s.shared).status = ST_VIOLATION;
    }
    if let Some(t) = &mut s.trace { t.push(format!("VIOLATION {class}: {msg}")); }
    s.dump_trace();
    unsafe { libc::_exit(0) }
}

#[macro_export]
macro_rules! check {
    ($cond:expr, $class:expr, $($arg:tt)+) => { if !$cond { $crate::sim::violate($class, &format!($($arg)+)) } };
}

impl Sim {
    fn store_stats(&mut self) {
        unsafe {
            let sh = &mut *self.shared;
            sh.hash = self.hash; sh.steps = self.steps; sh.switches = self.preemptions; sh.sim_ns = self.now - T0_NS;
            if self.preemptions > 0 { sh.nontrivial = 1; }
        }
    }

    fn dump_trace(&mut self) {
        if let Some(t) = &self.trace {
            if let Ok(path) = std::env::var("BIGOSIM_TRACE") {
                let text = t.join("\n");
                unsafe {
                    let c = std::ffi::CString::new(path).unwrap();
                    let fd = libc::open(c.as_ptr(), libc::O_CREAT | libc::O_TRUNC | libc::O_WRONLY, 0o644);
                    if fd >= 0 {
                        let mut done = 0;
                        while done < text.len() {
                            let n = crate::interpose::raw_write(fd, text.as_ptr().add(done), text.len() - done);
                            if n <= 0 { break; }
                            done += n as usize;
                        }
                    }
                }
            }
        }
    }

    pub fn log(&mut self, a: u64, b: u64, c: u64) {
        self.hash = mix(self.hash ^ mix(a ^ b.rotate_left(21) ^ c.rotate_left(42)).wrapping_add(self.cur as u64));
    }

    fn out_of_steps(&mut self) -> ! {
        let states: Vec<String> = self.threads.iter().enumerate().filter(|(_, t)| !matches!(t.state, State::Exited)).map(|(i, t)| format!("T{i}={:?}", t.state)).collect();
        violate("no-progress", &format!("no end after {} steps under fair scheduling: {}", self.steps, states.join(" ")))
    }

    /// lets simulated time go on to the next deadline
    fn advance_time(&mut self) -> bool {
        self.last_advance = self.steps;
        let next = self.threads.iter().filter_map(|t| match t.state { State::Blocked(_, Some(d)) => Some(d), _ => None }).min();
        let Some(d) = next else { return false };
        if d > self.now { self.now = d; }
        self.clock_reads = 0;
        for t in self.threads.iter_mut() {
            if let State::Blocked(_, Some(td)) = t.state { if td <= self.now { t.state = State::Runnable; t.wake = Wake::Timeout; } }
        }
        true
    }

    /// chooses the next thread to run; the current thread may be runnable or not
    fn pick(&mut self) -> usize {
        loop {
            // time passes for threads that sleep while others spin
            if self.steps - self.last_advance > self.force_after { self.forced_time += 1; self.advance_time(); }
            let n = self.threads.len();
            let mut run: [usize; MAX_RUNNABLE] = [0; MAX_RUNNABLE];
            let mut r = 0;
            let cur_ok = self.threads[self.cur].state == State::Runnable;
            // options are ordered: the current one (if allowed to go on), then the others, cyclically
            let rotate = self.consecutive >= ROTATE_AFTER;
            if cur_ok && !rotate { run[r] = self.cur; r += 1; }
            for k in 1..n {
                let t = (self.cur + k) % n;
                if self.threads[t].state == State::Runnable && r < MAX_RUNNABLE { run[r] = t; r += 1; }
            }
            if r == 0 && cur_ok { return self.cur; }
            if r == 0 {
                // nobody can run: simulated time goes on
                if self.advance_time() { continue; }
                let states: Vec<String> = self.threads.iter().enumerate().filter(|(_, t)| !matches!(t.state, State::Exited)).map(|(i, t)| format!("T{i}={:?}", t.state)).collect();
                violate("deadlock", &format!("every thread is blocked for good: {}", states.join(" ")));
            }
            if r == 1 { return run[0]; }
            for i in 0..r {
                let t = run[i];
                if self.steps.saturating_sub(self.threads[t].last_run) > STARVE_AFTER { return t; }
            }
            let cur = self.cur;
            let cur_first = run[0] == cur;
            let strategy = self.strategy;
            let steps = self.steps;
            let mut best = 0;
            if let Strategy::Pct = strategy {
                if self.pct_points.contains(&steps) { self.prio_low -= 1; self.threads[cur].prio = self.prio_low; }
                if rotate { self.prio_low -= 1; self.threads[cur].prio = self.prio_low; }
                for i in 1..r { if self.threads[run[i]].prio > self.threads[run[best]].prio { best = i; } }
            }
            let v = self.ch.draw(Stream::Schedule, r as u32, |rng| {
                match strategy {
                    Strategy::Walk(p) => {
                        if cur_first { if rng.chance(p) { 1 + rng.below(r as u64 - 1) as u32 } else { 0 } } else { rng.below(r as u64) as u32 }
                    }
                    Strategy::Burst(p) => {
                        if cur_first { if rng.chance(if steps / 40 % 3 == 0 { 600 } else { p }) { 1 + rng.below(r as u64 - 1) as u32 } else { 0 } } else { rng.below(r as u64) as u32 }
                    }
                    Strategy::Victim(v, p) => {
                        let mut x = if cur_first && run[0] != v && rng.chance(500) { 0 } else { rng.below(r as u64) as u32 };
                        if run[x as usize] == v && rng.chance(p) { x = (x + 1) % r as u32; }
                        x
                    }
                    Strategy::Pct => best as u32,
                }
            });
            return run[v as usize];
        }
    }

    fn count_step(&mut self) {
        self.steps += 1;
        if self.steps > self.max_steps { self.out_of_steps(); }
    }

    fn switch_to(&mut self, next: usize) {
        let me = self.cur;
        if next == me { self.consecutive += 1; self.threads[me].last_run = self.steps; return; }
        if self.threads[me].state == State::Runnable { self.preemptions += 1; }
        self.log(0xC0, next as u64, 0);
        self.consecutive = 0;
        self.cur = next;
        self.threads[next].last_run = self.steps;
        let my_turn: *const AtomicU32 = &self.threads[me].turn;
        let exited = self.threads[me].state == State::Exited;
        let their_turn: *const AtomicU32 = &self.threads[next].turn;
        unsafe {
            (*their_turn).store(1, O::Release);
            crate::interpose::raw_futex_wake(their_turn as *const u32);
            if !exited { wait_turn(my_turn); }
        }
    }

    /// a point where the scheduler may let another thread go on
    pub fn yield_point(&mut self) {
        if self.quiet > 0 { return; }
        self.count_step();
        if self.cfg.stall_permille > 0 && self.fault_raw("thread stall", self.cfg.stall_permille) {
            let d = [10_000u64, 1_000_000, 300_000_000][self.ch.draw(Stream::Fault, 3, |r| r.below(3) as u32) as usize];
            self.block(Key::Sleep, Some(self.now + d));
            return;
        }
        let next = self.pick();
        self.switch_to(next);
    }

    pub fn block(&mut self, key: Key, deadline: Option<u64>) -> Wake {
        self.count_step();
        let me = self.cur;
        self.seq += 1;
        self.log(0xB1, match key { Key::None => 0, Key::Sleep => 1, Key::Futex(_) => 2, Key::Join(t) => 100 + t as u64, Key::User(u) => 1000 + u as u64 }, deadline.map_or(0, |d| d - T0_NS));
        if self.trace.is_some() { self.tr(format!("blocks on {:?} until {:?}", match key { Key::Futex(_) => Key::Futex(0), k => k }, deadline.map(|d| d - T0_NS))); }
        let seq = self.seq;
        if deadline.is_some() && !self.threads.iter().any(|t| matches!(t.state, State::Blocked(_, Some(_)))) { self.last_advance = self.steps; }
        let t = &mut self.threads[me];
        t.state = State::Blocked(key, deadline);
        t.blocked_seq = seq;
        t.wake = Wake::Woken;
        let next = self.pick();
        self.switch_to(next);
        let s = sim();
        s.threads[me].wake
    }

    /// wakes up to `n` threads blocked on `key`, in an order the schedule decides
    pub fn wake(&mut self, key: Key, n: usize) -> usize {
        let mut woken = 0;
        while woken < n {
            let mut w: Vec<usize> = (0..self.threads.len()).filter(|&t| matches!(self.threads[t].state, State::Blocked(k, _) if k == key)).collect();
            if w.is_empty() { break; }
            w.sort_by_key(|&t| self.threads[t].blocked_seq);
            let i = if w.len() > 1 && n != usize::MAX { self.ch.draw(Stream::Schedule, w.len() as u32, |r| r.below(w.len() as u64) as u32) as usize } else { 0 };
            let t = w[i];
            self.threads[t].state = State::Runnable;
            self.threads[t].wake = Wake::Woken;
            let v = self.threads[self.cur].cur.clone();
            self.threads[t].cur.join(&v);
            self.log(0xA1, t as u64, 0);
            woken += 1;
        }
        woken
    }

    pub fn tr(&mut self, s: String) {
        let (cur, now) = (self.cur, self.now - T0_NS);
        let steps = self.steps;
        if let Some(t) = &mut self.trace { if t.len() < 200_000 { t.push(format!("#{steps} t={now}ns T{cur}: {s}")); } }
    }

    fn fault_raw(&mut self, name: &'static str, permille: u32) -> bool {
        if permille == 0 { return false; }
        let hit = self.ch.draw(Stream::Fault, 2, |r| r.chance(permille) as u32) == 1;
        if hit {
            unsafe { (*self.shared).count(KIND_FAULT, name, 1); (*self.shared).nontrivial = 1; }
            self.log(0xFA, name.len() as u64, 1);
            if self.trace.is_some() { self.tr(format!("FAULT {name}")); }
        }
        hit
    }
    pub fn fault(&mut self, name: &'static str, permille: u32) -> bool { self.fault_raw(name, permille) }

    // ---- threads --------------------------------------------------------------------------------------------------

    pub fn add_thread(&mut self) -> usize {
        let id = self.threads.len();
        let mut t = new_thread();
        t.prio = self.ch.rng.next() >> 1 | 1 << 62;
        t.last_run = self.steps;
        let me = self.cur;
        self.threads[me].cur.tick(me);
        t.cur = self.threads[me].cur.clone();
        t.cur.tick(id);
        self.threads.push(t);
        self.log(0x71, id as u64, 0);
        if self.trace.is_some() { self.tr(format!("creates T{id}")); }
        id
    }
    pub fn drop_last_thread(&mut self) { self.threads.pop(); }

    /// where a new thread waits for its first turn: taken by its creator, as the list of threads may not be looked at out of turn
    pub fn turn_of(&self, id: usize) -> *const AtomicU32 { &self.threads[id].turn }
    pub fn thread_entry(id: usize, turn: *const AtomicU32) {
        unsafe { wait_turn(turn); }
        TID.with(|t| t.set(id));
    }

    /// called by an ending thread, as the very last thing it does
    pub fn thread_exit(&mut self) {
        let me = self.cur;
        self.threads[me].cur.tick(me);
        self.threads[me].state = State::Exited;
        self.log(0x7E, me as u64, 0);
        if self.trace.is_some() { self.tr("exits".into()); }
        self.wake(Key::Join(me), usize::MAX);
        let next = self.pick();
        TID.with(|t| t.set(usize::MAX));
        self.switch_to(next);
    }

    pub fn join_thread(&mut self, t: usize) {
        self.yield_point();
        while self.threads[t].state != State::Exited { self.block(Key::Join(t), None); }
        let v = self.threads[t].cur.clone();
        let me = self.cur;
        self.threads[me].cur.join(&v);
    }

    pub fn exited(&self, t: usize) -> bool { self.threads[t].state == State::Exited }
    pub fn live_threads(&self) -> usize { self.threads.iter().filter(|t| t.state != State::Exited).count() }
    pub fn steps(&self) -> u64 { self.steps }

    // ---- memory ---------------------------------------------------------------------------------------------------

    fn loc_of(&mut self, id: &AtomicU32, cell_val: u64) -> usize {
        let i = id.load(O::Relaxed) as usize;
        if i != 0 { return i - 1; }
        self.locs.push(Loc { hist: vec![Msg { val: cell_val, view: None }] });
        id.store(self.locs.len() as u32, O::Relaxed);
        self.locs.len() - 1
    }

    pub fn atomic(&mut self, id: &AtomicU32, cell: *mut u8, bytes: u32, signed: bool, op: u32, a: u64, b: u64, so: O, fo: O) -> (u64, bool) {
        if let Some(i) = self.park.iter().position(|p| p.0 == self.cur && p.1 == self.threads[self.cur].ops) {
            self.park.swap_remove(i);
            count_fault("thread stalled half-way through an operation");
            if self.trace.is_some() { self.tr("FAULT stalled here until the others are done".into()); }
            self.block(Key::User(0), None);
        }
        self.yield_point();
        let me = self.cur;
        let mask = if bytes == 8 { u64::MAX } else { (1u64 << (bytes * 8)) - 1 };
        let (a, b) = (a & mask, b & mask);
        let cell_val = unsafe { read_cell(cell, bytes) };
        let l = self.loc_of(id, cell_val);
        self.threads[me].cur.tick(me);
        self.threads[me].ops += 1;
        let last = self.locs[l].hist.len() as u32 - 1;
        if self.locs[l].hist[last as usize].val != cell_val {
            // written through exclusive access: becomes the newest value, for everyone
            let v = Rc::new(self.threads[me].cur.clone());
            self.locs[l].hist.push(Msg { val: cell_val, view: Some(v) });
        }
        let last = self.locs[l].hist.len() as u32 - 1;
        let is_acq = |o: O| matches!(o, O::Acquire | O::AcqRel | O::SeqCst);
        let is_rel = |o: O| matches!(o, O::Release | O::AcqRel | O::SeqCst);
        let latest = self.locs[l].hist[last as usize].val;
        let r = match op {
            0 => { // load
                let idx = self.read_index(me, l, last, so);
                let v = self.locs[l].hist[idx as usize].val;
                self.observe(me, l, idx, is_acq(so));
                (v, true)
            }
            1 => { // store
                let view = if is_rel(so) { self.threads[me].cur.clone() } else { self.threads[me].rel.clone() };
                self.push_msg(me, l, a, view);
                unsafe { write_cell(cell, bytes, a); }
                (latest, true)
            }
            11 | 12 => { // compare-exchange
                let mut idx = last;
                if latest != a || op == 12 { idx = self.read_index(me, l, last, fo); }
                let seen = self.locs[l].hist[idx as usize].val;
                if seen != a {
                    self.observe(me, l, idx, is_acq(fo));
                    (seen, false)
                } else if latest != a {
                    self.observe(me, l, last, is_acq(fo));
                    (latest, false)
                } else if op == 12 && self.cfg.weak_fail_permille > 0 && self.fault_raw("spurious weak compare-exchange failure", self.cfg.weak_fail_permille) {
                    self.observe(me, l, last, is_acq(fo));
                    (latest, false)
                } else {
                    self.rmw(me, l, last, b, so);
                    unsafe { write_cell(cell, bytes, b); }
                    (latest, true)
                }
            }
            _ => {
                let sx = |v: u64| if bytes == 8 { v as i64 } else { let sh = 64 - bytes * 8; ((v << sh) as i64) >> sh };
                let n = match op {
                    2 => a,
                    3 => latest.wrapping_add(a),
                    4 => latest.wrapping_sub(a),
                    5 => latest & a,
                    6 => !(latest & a),
                    7 => latest | a,
                    8 => latest ^ a,
                    9 => if signed { if sx(latest) >= sx(a) { latest } else { a } } else { latest.max(a) },
                    10 => if signed { if sx(latest) <= sx(a) { latest } else { a } } else { latest.min(a) },
                    _ => unreachable!(),
                } & mask;
                self.rmw(me, l, last, n, so);
                unsafe { write_cell(cell, bytes, n); }
                (latest, true)
            }
        };
        if is_acq(so) && so == O::SeqCst || so == O::SeqCst { let v = self.threads[me].cur.clone(); self.sc_view.join(&v); }
        self.log(0x0A ^ (op as u64) << 8 ^ (l as u64) << 16, r.0, a ^ b.rotate_left(7) ^ (r.1 as u64) << 60);
        if self.trace.is_some() {
            const N: [&str; 13] = ["load", "store", "swap", "add", "sub", "and", "nand", "or", "xor", "max", "min", "cas", "casw"];
            let stale = if op == 0 && r.0 != latest { format!(" (stale; newest {latest})") } else { String::new() };
            self.tr(format!("a{l}.{}({a}{}) -> {}{}{stale}", N[op as usize], if op >= 11 { format!("->{b}") } else { String::new() }, r.0, if r.1 { "" } else { " failed" }));
        }
        self.yield_point();
        r
    }

    fn read_index(&mut self, me: usize, l: usize, last: u32, o: O) -> u32 {
        if self.cfg.stale_permille == 0 || o == O::SeqCst || self.quiet > 0 || locks() { return last; }
        let lo = self.threads[me].cur.get(l);
        if lo >= last { return last; }
        // bounded staleness: a thread sees the newest value after a few stale reads in a row
        let st = self.threads[me].stale.iter().find(|x| x.0 == l).map_or(0, |x| x.1);
        if st >= 4 { self.clear_stale(me, l); return last; }
        let span = (last - lo + 1).min(8);
        let p = self.cfg.stale_permille;
        let back = self.ch.draw(Stream::Fault, span, |r| if r.chance(p) { 1 + r.below(span as u64 - 1) as u32 } else { 0 });
        if back > 0 {
            unsafe { (*self.shared).count(KIND_FAULT, "stale atomic read", 1); (*self.shared).nontrivial = 1; }
            match self.threads[me].stale.iter_mut().find(|x| x.0 == l) { Some(x) => x.1 += 1, None => self.threads[me].stale.push((l, 1)) }
        } else {
            self.clear_stale(me, l);
        }
        last - back
    }
    fn clear_stale(&mut self, me: usize, l: usize) { if let Some(x) = self.threads[me].stale.iter_mut().find(|x| x.0 == l) { x.1 = 0; } }

    fn observe(&mut self, me: usize, l: usize, idx: u32, acquire: bool) {
        self.threads[me].cur.set(l, idx);
        if let Some(v) = self.locs[l].hist[idx as usize].view.clone() {
            if acquire { self.threads[me].cur.join(&v); } else { self.threads[me].acq.join(&v); }
        }
    }

    fn push_msg(&mut self, me: usize, l: usize, val: u64, mut view: View) {
        let idx = self.locs[l].hist.len() as u32;
        self.threads[me].cur.set(l, idx);
        view.set(l, idx);
        self.locs[l].hist.push(Msg { val, view: Some(Rc::new(view)) });
    }

    fn rmw(&mut self, me: usize, l: usize, last: u32, val: u64, so: O) {
        let acquire = matches!(so, O::Acquire | O::AcqRel | O::SeqCst);
        let release = matches!(so, O::Release | O::AcqRel | O::SeqCst);
        self.observe(me, l, last, acquire);
        let mut view = if release { self.threads[me].cur.clone() } else { self.threads[me].rel.clone() };
        // an RMW continues the release sequence it reads from
        if let Some(v) = &self.locs[l].hist[last as usize].view { view.join(v); }
        self.push_msg(me, l, val, view);
    }

    pub fn fence(&mut self, o: O) {
        self.yield_point();
        let me = self.cur;
        self.threads[me].cur.tick(me);
        if matches!(o, O::Acquire | O::AcqRel | O::SeqCst) { let a = self.threads[me].acq.clone(); self.threads[me].cur.join(&a); }
        if o == O::SeqCst {
            let sc = self.sc_view.clone();
            self.threads[me].cur.join(&sc);
            let c = self.threads[me].cur.clone();
            self.sc_view.join(&c);
        }
        if matches!(o, O::Release | O::AcqRel | O::SeqCst) { let c = self.threads[me].cur.clone(); self.threads[me].rel = c; }
        self.log(0xFE, 0, 0);
        if self.trace.is_some() { self.tr(format!("fence {o:?}")); }
        self.yield_point();
    }
}

unsafe fn wait_turn(turn: *const AtomicU32) {
    while (*turn).swap(0, O::Acquire) == 0 { crate::interpose::raw_futex_wait(turn as *const u32, 0); }
}

pub unsafe fn read_cell(cell: *mut u8, bytes: u32) -> u64 {
    match bytes { 1 => *cell as u64, 2 => *(cell as *mut u16) as u64, 4 => *(cell as *mut u32) as u64, _ => *(cell as *mut u64) }
}
pub unsafe fn write_cell(cell: *mut u8, bytes: u32, v: u64) {
    match bytes { 1 => *cell = v as u8, 2 => *(cell as *mut u16) = v as u16, 4 => *(cell as *mut u32) = v as u32, _ => *(cell as *mut u64) = v }
}

// ---- the scenarios' API -----------------------------------------------------------------------------------------------

/// draws a workload decision in [0, n); 0 is the simplest
pub fn pick(n: u32) -> u32 { sim().ch.draw(Stream::Workload, n, |r| r.below(n as u64) as u32) }
/// draws in [lo, hi]
pub fn range(lo: u32, hi: u32) -> u32 { lo + pick(hi - lo + 1) }
/// a biased coin, false being the simplest
pub fn coin(permille: u32) -> bool { sim().ch.draw(Stream::Workload, 2, |r| r.chance(permille) as u32) == 1 }
/// one of the values
pub fn one_of<T: Copy>(v: &[T]) -> T { v[pick(v.len() as u32) as usize] }

pub fn fault(name: &'static str, permille: u32) -> bool { if active() { sim().fault(name, permille) } else { false } }
pub fn probe(name: &'static str) { probe_n(name, 1) }
pub fn probe_n(name: &'static str, n: u64) { unsafe { (*sim().shared).count(KIND_PROBE, name, n); } }
pub fn count_fault(name: &'static str) { unsafe { (*sim().shared).count(KIND_FAULT, name, 1); (*sim().shared).nontrivial = 1; } }
pub fn nontrivial() { unsafe { (*sim().shared).nontrivial = 1; } }
pub fn desc(s: &str) { unsafe { put(&mut (*sim().shared).desc, s); } }
pub fn stage(s: &str) { unsafe { put(&mut (*sim().shared).stage, s); } }
pub fn now() -> u64 { sim().now }
pub fn yp() { if active() { sim().yield_point() } }
/// a global, strictly increasing event number (the order in which things really happened in this run)
pub fn stamp() -> u64 { let s = sim(); s.seq += 1; s.seq }
/// simulated work of the calling thread: takes `ns` of simulated time
pub fn work(ns: u64) {
    let s = sim();
    if s.trace.is_some() { s.tr(format!("works {ns}ns")); }
    if ns == 0 { s.yield_point(); return; }
    let d = s.now + ns;
    s.block(Key::Sleep, Some(d));
}
pub fn log(a: u64, b: u64) { let s = sim(); s.log(0x55, a, b); }
pub fn tr(f: impl FnOnce() -> String) { let s = sim(); if s.trace.is_some() { let t = f(); s.tr(t); } }
/// this thread's logical time, for [happened_before]
pub fn hb_stamp() -> (usize, u32) { let s = sim(); let me = s.cur; (me, s.threads[me].cur.vc(me)) }
/// is the calling thread ordered after (happens-before, under the memory model) the moment the other thread's clock went beyond `stamp`?
pub fn hb_after(stamp: (usize, u32)) -> bool { if locks() { return true; } let s = sim(); let me = s.cur; me == stamp.0 || s.threads[me].cur.vc(stamp.0) > stamp.1 }
/// hands what this thread knows over to another one, as any means of passing data between threads does (see [hb_receive])
pub fn hb_send() -> View { let s = sim(); let me = s.cur; s.threads[me].cur.tick(me); s.threads[me].cur.clone() }
pub fn hb_receive(v: &View) { let s = sim(); let me = s.cur; s.threads[me].cur.join(v); }
pub fn my_view() -> View { let s = sim(); s.threads[s.cur].cur.clone() }
/// marks an event of this thread others may be ordered after
pub fn hb_tick() { let s = sim(); let me = s.cur; s.threads[me].cur.tick(me); }
pub fn my_ops() -> u64 { let s = sim(); s.threads[s.cur].ops }
/// runs `f` without letting any other thread go on
pub fn quietly<R>(f: impl FnOnce() -> R) -> R { sim().quiet += 1; let r = f(); sim().quiet -= 1; r }

/// lets stalled threads go on
pub fn unpark_all() { sim().park.clear(); sim().wake(Key::User(0), usize::MAX); sim().yield_point(); }

/// a barrier on which simulated threads block
pub struct Barrier { n: usize, key: usize, state: std::sync::Mutex<(usize, usize)> }
impl Barrier {
    pub fn new(n: usize) -> Self { let s = sim(); s.next_user_key += 1; Self { n, key: s.next_user_key, state: std::sync::Mutex::new((0, 0)) } }
    pub fn wait(&self) {
        let gen;
        {
            let mut st = self.state.lock().unwrap();
            st.0 += 1;
            gen = st.1;
            if st.0 >= self.n { st.0 = 0; st.1 += 1; drop(st); sim().wake(Key::User(self.key), usize::MAX); sim().yield_point(); return; }
        }
        loop {
            if self.state.lock().unwrap().1 != gen { return; }
            sim().block(Key::User(self.key), None);
        }
    }
}
