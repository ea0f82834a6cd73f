//! What the scenarios of the runners share: the record of user calls, the CRUD configuration, and the reference verdict.

use super::*;
use crate::gate;
use crate::sim::*;
use big_o_test::low_level_analysis::types::*;
use big_o_test::runners::crud::{analyse_crud_algorithms, test_crud_algorithms};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Duration;

pub use big_o_test::BigOAlgorithmComplexity as C;

pub const CREATE: u8 = 0;
pub const READ: u8 = 1;
pub const UPDATE: u8 = 2;
pub const DELETE: u8 = 3;
pub const RESET: u8 = 4;
pub const OPS: [&str; 5] = ["create", "read", "update", "delete", "reset"];

/// one call of a user function
#[derive(Clone, Debug)]
pub struct Call { pub op: u8, pub n: u32, pub tid: usize, pub start: u64, pub end: u64, pub panicked: bool, pub t0: u64, pub t1: u64, pub who: usize }

pub static CALLS: G<Vec<Call>> = G::new();

struct Guard(usize);
impl Drop for Guard {
    fn drop(&mut self) {
        let c = &mut CALLS.get()[self.0];
        c.end = stamp();
        c.t1 = now();
        c.panicked = std::thread::panicking();
        let (op, n) = (c.op, c.n);
        tr(|| format!("{} {n} ends", OPS[op as usize]));
    }
}

/// records a call of a user function around `body`
pub fn called<R>(who: usize, op: u8, n: u32, body: impl FnOnce() -> R) -> R {
    let i = CALLS.get().len();
    tr(|| format!("{}({n}) starts", OPS[op as usize]));
    log(0x40 + op as u64, n as u64);
    CALLS.get().push(Call { op, n, tid: tid(), start: stamp(), end: u64::MAX, panicked: false, t0: now(), t1: 0, who });
    let g = Guard(i);
    yp();
    let r = body();
    yp();
    drop(g);
    r
}

#[derive(Clone, Copy, Debug)]
pub struct Crud { pub w: u32, pub it: [u32; 4], pub th: [u32; 4] }

#[derive(Clone, Debug)]
pub struct OpAn { pub time: C, pub space: C, pub t: [Duration; 2], pub s: [BigOSpacePassMeasurements; 2], pub text: String }
#[derive(Debug)]
pub struct Analyses { pub op: [Option<OpAn>; 4], pub report: String }

pub type Body = dyn Fn(u8, u32) + Sync;

impl Crud {
    pub fn warm(&self, op: usize) -> u32 { (self.it[op] as u64 * self.w as u64 / 100) as u32 }
    pub fn enabled(&self, op: usize) -> bool { self.it[op] > 0 && self.th[op] > 0 }
    pub fn text(&self) -> String { format!("warm-up {}%, iterations {:?}, threads {:?}", self.w, self.it, self.th) }

    /// analyses, with `body` as every user function; Err is the panic's message
    pub fn analyse(&self, who: usize, name: &'static str, body: &Body) -> Result<Analyses, String> {
        let f = |op: u8| move |n: u32| { gate::user(|| called(who, op, n, || body(op, n))); n ^ 1 };
        let c = self;
        match catch_unwind(AssertUnwindSafe(|| gate::lib(|| analyse_crud_algorithms(name, f(RESET), f(CREATE), f(READ), f(UPDATE), f(DELETE), c.w, c.it[0], c.it[1], c.it[2], c.it[3], c.th[0], c.th[1], c.th[2], c.th[3])))) {
            Err(p) => Err(crate::driver::payload_text(&*p)),
            Ok((c, r, u, d, report)) => {
                let set = |a: Option<BigOAlgorithmAnalysis<SetResizingIteratorAlgorithmMeasurements>>| a.map(|a| OpAn { time: a.time_complexity, space: a.space_complexity, text: a.to_string(),
                    t: [a.algorithm_measurements.time_measurements.pass_1_measurements, a.algorithm_measurements.time_measurements.pass_2_measurements],
                    s: [a.algorithm_measurements.space_measurements.pass_1_measurements, a.algorithm_measurements.space_measurements.pass_2_measurements] });
                let con = |a: Option<BigOAlgorithmAnalysis<ConstantSetIteratorAlgorithmMeasurements>>| a.map(|a| OpAn { time: a.time_complexity, space: a.space_complexity, text: a.to_string(),
                    t: [a.algorithm_measurements.time_measurements.pass_1_measurements, a.algorithm_measurements.time_measurements.pass_2_measurements],
                    s: [a.algorithm_measurements.space_measurements.pass_1_measurements, a.algorithm_measurements.space_measurements.pass_2_measurements] });
                Ok(Analyses { op: [set(c), con(r), con(u), set(d)], report })
            }
        }
    }

    /// tests against limits (time and space, per operation)
    pub fn test(&self, who: usize, name: &str, attempts: u32, limits: [(C, C); 4], body: &Body) -> Result<(), String> {
        let f = |op: u8| move |n: u32| { gate::user(|| called(who, op, n, || body(op, n))); n ^ 1 };
        let (c, l) = (self, limits);
        catch_unwind(AssertUnwindSafe(|| gate::lib(|| test_crud_algorithms(name, attempts, f(RESET), f(CREATE), l[0].0, l[0].1, f(READ), l[1].0, l[1].1, f(UPDATE), l[2].0, l[2].1, f(DELETE), l[3].0, l[3].1,
            c.w, c.it[0], c.it[1], c.it[2], c.it[3], c.th[0], c.th[1], c.th[2], c.th[3])))).map_err(|p| crate::driver::payload_text(&*p))
    }
}

pub const NO_LIMIT: (C, C) = (C::WorseThanExponential, C::WorseThanExponential);

/// a stretch of one attempt: the calls of one operation's pass, or a reset
#[derive(Clone, Debug, PartialEq)]
pub enum Phase { Warm(usize), Reset, Pass(usize, u32) }

impl Crud {
    /// the documented sequence
    pub fn phases(&self) -> Vec<Phase> {
        let mut v = vec![];
        if self.w > 0 {
            for op in 0..4 { if self.enabled(op) && self.warm(op) > 0 { v.push(Phase::Warm(op)); } }
            v.push(Phase::Reset);
        }
        for pass in [1, 2] { for op in 0..3 { if self.enabled(op) { v.push(Phase::Pass(op, pass)); } } }
        if self.enabled(3) { v.push(Phase::Pass(3, 2)); v.push(Phase::Pass(3, 1)); }
        v
    }
    /// does a call belong to a phase?
    pub fn fits(&self, c: &Call, p: &Phase) -> bool {
        match p {
            Phase::Reset => c.op == RESET,
            Phase::Warm(op) => c.op as usize == *op,
            Phase::Pass(op, pass) => c.op as usize == *op && (c.n >= self.it[*op]) == (*pass == 2),
        }
    }
    /// assigns each call (sorted by their starts) to a phase of the documented sequence; Err tells the first one out of order
    pub fn assign(&self, calls: &[Call]) -> Result<Vec<usize>, String> {
        let ph = self.phases();
        let mut k = 0;
        let mut out = vec![];
        for c in calls {
            let mut j = k;
            while j < ph.len() && !self.fits(c, &ph[j]) { j += 1; }
            if j >= ph.len() { return Err(format!("{}({}) was called after the phase {:?} had begun", OPS[c.op as usize], c.n, ph.get(k))); }
            if j > k + 1 || (j > k && out.is_empty()) { return Err(format!("{}({}) was called while the phase {:?} was due", OPS[c.op as usize], c.n, if out.is_empty() { &ph[k] } else { &ph[k + 1] })); }
            k = j;
            out.push(k);
        }
        if ph.len() > 0 && (out.is_empty() || k + 1 < ph.len()) { return Err(format!("the phase {:?} never happened", ph[if out.is_empty() { 0 } else { k + 1 }])); }
        Ok(out)
    }
}

pub fn sorted_calls(who: usize) -> Vec<Call> {
    let mut v: Vec<Call> = CALLS.get().iter().filter(|c| c.who == who).cloned().collect();
    v.sort_by_key(|c| c.start);
    v
}

pub const TIER: [C; 17] = [C::BetterThanO1, C::O1, C::BetweenO1AndOLogN, C::OLogN, C::BetweenOLogNAndON, C::ON, C::BetweenONAndONLogN, C::ONLogN, C::BetweenONLogNAndON2, C::ON2,
    C::BetweenON2AndON3, C::ON3, C::BetweenON3AndON4, C::ON4, C::BetweenON4AndOkN, C::OkN, C::WorseThanExponential];
pub fn rank(c: C) -> usize { TIER.iter().position(|x| *x == c).unwrap() }

const NAMED: [C; 7] = [C::O1, C::OLogN, C::ON, C::ONLogN, C::ON2, C::ON3, C::ON4];
fn factor(c: C, n1: f64, n2: f64) -> f64 {
    match c { C::O1 => 1.0, C::OLogN => n2.log2() / n1.log2(), C::ON => n2 / n1, C::ONLogN => n2 * n2.log2() / (n1 * n1.log2()), C::ON2 => (n2 / n1).powi(2), C::ON3 => (n2 / n1).powi(3), _ => (n2 / n1).powi(4) }
}

const UP: f64 = 1.0 + crate::driver::TOLERANCE;
const DOWN: f64 = 1.0 - crate::driver::TOLERANCE;

/// the growth up to which a limit is met
pub fn limit_ratio(c: C, n1: f64, n2: f64) -> f64 {
    let mut lim = 0.0f64;
    for k in NAMED {
        if rank(k) <= rank(c) { lim = lim.max(UP * factor(k, n1, n2)); }
        else { if rank(k) == rank(c) + 1 { lim = lim.max(DOWN * factor(k, n1, n2)); } break; }
    }
    lim
}

/// the same, for operations that resize the set
pub fn limit_ratio_resizing(c: C, n: f64) -> f64 {
    let gl = (n * 3.0).log2() / n.log2();
    match c { C::O1 => UP, C::BetweenO1AndOLogN => gl.max(UP), C::OLogN => (UP * gl).max(UP), C::BetweenOLogNAndON => (3.0 * DOWN).max(UP * gl), _ => (3.0 * UP).max(UP * gl) }
}

/// is a growth of the usage from `u1` to `u2` within the limit `c`, for set sizes growing from `n1` to `n2`? None: too close to a boundary to tell, or not told by the properties
pub fn accepts(c: C, u1: f64, u2: f64, n1: f64, n2: f64) -> Option<bool> {
    if c == C::WorseThanExponential { return Some(true); }
    if c == C::OkN || c == C::BetweenON4AndOkN || c == C::BetterThanO1 { return None; }
    if u1 == u2 { return Some(true); }
    if u1 == 0.0 { return Some(false); }
    let lim = limit_ratio(c, n1, n2);
    let r = u2 / u1;
    if (r / lim - 1.0).abs() < 1e-6 { None } else { Some(r < lim) }
}

/// the same, for operations that resize the set, `n` being the number of elements per pass
pub fn accepts_resizing(c: C, u1: f64, u2: f64, n: f64) -> Option<bool> {
    if c == C::BetterThanO1 { return None; }
    if u1 == u2 { return Some(true); }
    if rank(c) >= rank(C::BetweenONAndONLogN) { return Some(true); }
    if u1 == 0.0 { return Some(false); }
    let lim = limit_ratio_resizing(c, n);
    let r = u2 / u1;
    if (r / lim - 1.0).abs() < 1e-6 { None } else { Some(r < lim) }
}

/// the limits the verdict scenarios use
pub const LIMITS: [C; 11] = [C::O1, C::OLogN, C::ON, C::ONLogN, C::ON2, C::ON3, C::ON4, C::BetweenO1AndOLogN, C::BetweenOLogNAndON, C::BetweenONAndONLogN, C::BetweenON2AndON3];

/// a usage in the two passes that meets, or breaks, a limit (if it can be broken)
pub fn usage(limit: C, meet: bool, n1: f64, n2: f64, base: u64) -> (u64, u64) {
    if limit == C::WorseThanExponential { return (base, base * one_of(&[1u64, 2, 50])); }
    let lim = limit_ratio(limit, n1, n2);
    for _ in 0..6 {
        let r = if meet { one_of(&[1.0, 0.3, lim * 0.98, lim * 0.8, lim * 0.5, (1.0 + lim) / 2.0]) } else { lim * one_of(&[1.02, 1.3, 3.0, 20.0]) };
        let v = (base, (base as f64 * r) as u64);
        if accepts(limit, v.0 as f64, v.1 as f64, n1, n2) == Some(meet) { return v; }
    }
    if meet { (base, base) } else { (base, base * 1000) }
}

pub const LIMITS_RESIZING: [C; 5] = [C::O1, C::BetweenO1AndOLogN, C::OLogN, C::BetweenOLogNAndON, C::ON];

/// [usage()] for operations that resize the set
pub fn usage_resizing(limit: C, meet: bool, n: f64, base: u64) -> (u64, u64) {
    let lim = limit_ratio_resizing(limit, n);
    for _ in 0..6 {
        let r = if meet { one_of(&[1.0, 0.3, lim * 0.98, lim * 0.8, lim * 0.5, (1.0 + lim) / 2.0]) } else { lim * one_of(&[1.02, 1.3, 3.0, 20.0]) };
        let v = (base, (base as f64 * r) as u64);
        if accepts_resizing(limit, v.0 as f64, v.1 as f64, n) == Some(meet) { return v; }
    }
    if meet { (base, base) } else { (base, base * 1000) }
}

/// the machine has no room for a huge block: the run can't be judged
pub static REFUSED: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

/// memory obtained through the crate's allocator, given back when dropped
#[derive(Debug)]
pub struct Blk(usize, std::alloc::Layout);
impl Blk {
    pub fn new(size: usize) -> Option<Blk> {
        use std::alloc::GlobalAlloc;
        if size == 0 { return None; }
        let l = std::alloc::Layout::from_size_align(size, 8).unwrap();
        let p = unsafe { big_o_test::ALLOC.alloc(l) };
        if p.is_null() && size >= crate::sysalloc::HUGE { REFUSED.store(true, std::sync::atomic::Ordering::SeqCst); }
        if p.is_null() { None } else { Some(Blk(p as usize, l)) }
    }
    pub fn zeroed(size: usize) -> Option<Blk> {
        use std::alloc::GlobalAlloc;
        if size == 0 { return None; }
        let l = std::alloc::Layout::from_size_align(size, 16).unwrap();
        let p = unsafe { big_o_test::ALLOC.alloc_zeroed(l) };
        if p.is_null() && size >= crate::sysalloc::HUGE { REFUSED.store(true, std::sync::atomic::Ordering::SeqCst); }
        if p.is_null() { None } else { Some(Blk(p as usize, l)) }
    }
    pub fn size(&self) -> usize { self.1.size() }
    pub fn resize(&mut self, size: usize) {
        use std::alloc::GlobalAlloc;
        let p = unsafe { big_o_test::ALLOC.realloc(self.0 as *mut u8, self.1, size) };
        if p.is_null() && size >= crate::sysalloc::HUGE { REFUSED.store(true, std::sync::atomic::Ordering::SeqCst); }
        if !p.is_null() { self.0 = p as usize; self.1 = std::alloc::Layout::from_size_align(size, self.1.align()).unwrap(); }
    }
}
impl Drop for Blk { fn drop(&mut self) { use std::alloc::GlobalAlloc; if active() { unsafe { big_o_test::ALLOC.dealloc(self.0 as *mut u8, self.1) } } } }

/// memory given back at the scenario's end (or when a reset says so)
pub static KEPT: G<Vec<Blk>> = G::new();

/// uses `ns` of time and up to exactly `bytes` of memory at a time, in several pieces
pub fn consume(ns: u64, bytes: usize, keep: bool) {
    let style = pick(4);
    let a = bytes / 3;
    match style {
        0 => { let b = Blk::new(bytes); work(ns); if keep { KEPT.get().extend(b); } }
        1 => { let b = Blk::new(a); work(ns / 3); let c = Blk::new(bytes - a); work(ns - ns / 3); if keep { KEPT.get().extend(b); KEPT.get().extend(c); } }
        2 => { let b = Blk::new(bytes - a); work(ns / 2); drop(Blk::new(a)); work(ns - ns / 2); drop(b); if keep { KEPT.get().extend(Blk::new(a)); } }
        _ => { work(ns / 4); let c = Blk::new(bytes); drop(c); let b = Blk::new(a); work(ns - ns / 4); if keep { KEPT.get().extend(b); } }
    }
}

/// faults that may not change what the user's functions take
pub fn quiet_faults(slow_writes: bool) {
    let s = sim();
    s.cfg.eintr_sleep_permille = one_of(&[0, 0, 100, 400]);
    s.cfg.short_write_permille = one_of(&[0, 200]);
    s.cfg.eintr_write_permille = one_of(&[0, 100]);
    s.cfg.wall_jump_permille = one_of(&[0, 200]);
    s.cfg.spurious_futex_permille = one_of(&[0, 100]);
    s.cfg.weak_fail_permille = one_of(&[0, 50]);
    if slow_writes { s.cfg.slow_write_permille = one_of(&[0, 100]); }
}
