//! C12: plain (synchronous) tests -- their steps, retries, pauses and verdicts.

use super::run::*;
use super::*;
use crate::sim::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Step { Reset, Pass1, Pass2 }
#[derive(Clone, Copy, Debug)]
pub struct Ev { pub step: Step, pub start: u64, pub end: u64, pub t0: u64, pub t1: u64 }

/// what an attempt takes: time and memory in each pass
#[derive(Clone, Copy, Debug, Default)]
pub struct Try { pub t: (u64, u64), pub s: (u64, u64), pub reset_t: u64, pub reset_s: u64, pub keep: bool }

#[derive(Clone, Copy, Debug)]
pub struct Limits { pub time: C, pub space: C, pub n1: u32, pub n2: u32 }

/// is an attempt good, too slow, or too fat?
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fate { Good, Slow, Fat, Both }

impl Limits {
    pub fn draw() -> Limits {
        let (n1, n2) = Limits::sizes();
        Limits { time: one_of(&LIMITS), space: one_of(&LIMITS), n1, n2 }
    }
    /// mostly growing sets, but also equal ones, tiny ones, and ones as big as can be
    pub fn sizes() -> (u32, u32) {
        let n1 = if coin(80) { 2 + pick(14) } else if coin(40) { 800_000_000 + pick(58_000_000) } else { 16 + pick(1000) };
        (n1, n1 * one_of(&[2u32, 2, 2, 3, 3, 5, 5, 1]))
    }
    pub fn attempt(&self, f: Fate) -> Try {
        let (n1, n2) = (self.n1 as f64, self.n2 as f64);
        let t = usage(self.time, f == Fate::Good || f == Fate::Fat, n1, n2, one_of(&[1_000_000u64, 20_000_000, 3_333_333]));
        let mut s = usage(self.space, f == Fate::Good || f == Fate::Slow, n1, n2, one_of(&[10_000u64, 999, 64_000]));
        if f == Fate::Good || f == Fate::Slow { if coin(200) { s = (0, 0); } } else if coin(150) { s = (0, 500); }
        Try { t, s, reset_t: one_of(&[0u64, 5_000, 2_000_000_000]), reset_s: one_of(&[0u64, 800, 3_000_000]), keep: coin(300) }
    }
    pub fn fate(&self, a: &Try) -> Option<Fate> {
        let (n1, n2) = (self.n1 as f64, self.n2 as f64);
        Some(match (accepts(self.time, a.t.0 as f64, a.t.1 as f64, n1, n2)?, accepts(self.space, a.s.0 as f64, a.s.1 as f64, n1, n2)?) {
            (true, true) => Fate::Good, (false, true) => Fate::Slow, (true, false) => Fate::Fat, (false, false) => Fate::Both })
    }
}

pub struct St { pub plan: Vec<Try>, pub attempt: usize, pub ev: Vec<Ev> }
/// one per analysis running at the same time
pub static ST: [G<St>; 4] = [G::new(), G::new(), G::new(), G::new()];

fn step(who: usize, step: Step) {
    let st = ST[who].get();
    if step == Step::Reset { st.attempt = if st.ev.is_empty() { 0 } else { st.attempt + 1 }; }
    let p = *st.plan.get(st.attempt).unwrap_or(&Try::default());
    let i = st.ev.len();
    tr(|| format!("{step:?} starts"));
    log(0x60 + step as u64, who as u64);
    st.ev.push(Ev { step, start: stamp(), end: u64::MAX, t0: now(), t1: u64::MAX });
    yp();
    match step {
        Step::Reset => { if who == 0 { KEPT.get().clear(); } consume(p.reset_t, p.reset_s as usize, false); }
        Step::Pass1 => consume(p.t.0, p.s.0 as usize, p.keep),
        Step::Pass2 => consume(p.t.1, p.s.1 as usize, p.keep),
    }
    yp();
    let e = &mut ST[who].get().ev[i];
    e.end = stamp();
    e.t1 = now();
    tr(|| format!("{step:?} ends"));
}

pub fn run(who: usize, name: &str, re: u32, l: &Limits, plan: Vec<Try>) -> Result<(), String> {
    ST[who].set(St { plan, attempt: 0, ev: vec![] });
    catch_unwind(AssertUnwindSafe(|| big_o_test::test_algorithm(name, re, || step(who, Step::Reset), l.n1, || { step(who, Step::Pass1); 1 }, l.n2, || { step(who, Step::Pass2); 2 }, l.time, l.space)))
        .map_err(|p| crate::driver::payload_text(&*p))
}

/// the steps come in order, each once per attempt; tells the number of attempts
pub fn check_steps(who: usize) -> usize {
    const ORDER: [Step; 3] = [Step::Reset, Step::Pass1, Step::Pass2];
    let ev = &ST[who].get().ev;
    for (i, e) in ev.iter().enumerate() {
        check!(e.step == ORDER[i % 3], "order", "{:?} was called where {:?} was due (steps so far: {:?})", e.step, ORDER[i % 3], ev[..=i].iter().map(|e| e.step).collect::<Vec<_>>());
        check!(e.end != u64::MAX, "unfinished", "{:?} never ended", e.step);
        if i > 0 { check!(e.start > ev[i - 1].end, "overlap", "{:?} started before {:?} had ended", e.step, ev[i - 1].step); }
    }
    check!(ev.len() % 3 == 0 && !ev.is_empty(), "steps-missing", "only {:?} were called", ev.iter().map(|e| e.step).collect::<Vec<_>>());
    ev.len() / 3
}

/// compares the attempts made and the verdict with the plan
pub fn judge(what: &str, name: &str, re: usize, fates: &[Fate], made: usize, r: &Result<(), String>, limits: (Option<C>, Option<C>)) {
    let due = (0..=re).find(|&i| fates[i] != Fate::Slow).map_or(re + 1, |i| i + 1);
    check!(made == due, "attempts", "{what}: {made} attempts were made, {due} were due (up to {re} re-attempts of {:?})", &fates[..=re]);
    let last = fates[due - 1];
    match r {
        Ok(()) => { check!(last == Fate::Good, "passed-bad", "{what}: passed, though no attempt met both limits ({:?})", &fates[..due]); probe("tests passed"); }
        Err(p) => {
            check!(last != Fate::Good, "failed-good", "{what}: attempt {due} met both limits, but the test failed: {p}");
            let (kind, limit) = if last == Fate::Slow { ("time", limits.0) } else { ("space", limits.1) };
            check!(p.to_lowercase().contains(kind) && p.contains(name) && limit.map_or(true, |l| p.contains(&format!("{l:?}"))), "message", "{what}: the panic doesn't name the {kind} mismatch of '{name}' (maximum {limit:?}): {p}");
            if last == Fate::Slow { check!(!p.to_lowercase().contains("space complexity"), "message", "{what}: the panic names a space mismatch, though only time was exceeded: {p}"); }
            probe(if last == Fate::Slow { "tests given up" } else if due > 1 { "retried tests ended by a space mismatch" } else { "tests ended by a space mismatch" });
        }
    }
    if due > 1 { probe_n("re-attempts", due as u64 - 1); }
}

/// how many attempts fail, and how many there may be: some more than 8 bits (or 16, in one run of each check) can count
pub fn lots() -> Option<(u32, u32)> { lots_of(true) }
pub fn lots_of(alone: bool) -> Option<(u32, u32)> {
    let first = chosen(0);
    if !first && !coin(1) { return None; }
    let big = first && alone;
    let k = if big { 65_536 + pick(600) } else { 250 + pick(600) };
    let s = sim();
    s.max_steps = 60_000_000;
    unsafe { crate::sysalloc::UNWATCHED = true; crate::interpose::ALONE = alone; }
    if big { allow_seconds(60); }
    probe(if big { "tests with more than 65536 attempts" } else { "tests with more than 250 attempts" });
    Some((k, k + pick(2)))
}

/// judges a test whose first `k` attempts were too slow, `max` being allowed
pub fn judge_lots(what: &str, (k, max): (u32, u32), made: u32, took: u64, pause: u64, r: Result<(), String>) {
    check!(made == max.min(k + 1), "attempts", "{what}: the first {k} attempts were too slow, up to {max} are allowed, {made} were made");
    check!(r.is_ok() == (max > k), if max > k { "failed-good" } else { "passed-bad" }, "{what}: the first {k} attempts were too slow, up to {max} are allowed, and the test ended with {r:?}");
    let due = (made as u64 - 1) * pause;
    check!(took >= due && took <= due + due / 10 + 60_000_000_000, "pause", "{what}: {made} attempts took {took}ns, with pauses of {pause}ns in between");
}

fn many_attempts((k, max): (u32, u32)) {
    static N: G<(u32, u32)> = G::new();
    N.set((0, 0));
    desc(&format!("a plain test whose first {k} attempts are too slow, {} re-attempts", max - 1));
    let t0 = now();
    let r = catch_unwind(AssertUnwindSafe(|| big_o_test::test_algorithm("Simulated", max - 1, || { N.get().0 += 1; N.get().1 = 0; }, 100, || { N.get().1 += 1; work(1_000_000); 1 },
        200, || { let n = N.get(); check!(n.1 == 1, "order", "attempt {} has had {} first passes", n.0, n.1); n.1 = 0; work(if n.0 <= k { 9_000_000 } else { 1_000_000 }); 2 }, C::O1, C::WorseThanExponential))).map_err(|p| crate::driver::payload_text(&*p));
    judge_lots("plain test", (k, max), N.get().0, now() - t0, 5_000_000_000, r);
}

/// C12
fn plain() {
    if let Some(l) = lots() { return many_attempts(l); }
    let l = Limits::draw();
    let long = coin(40);
    let re = if long { 8 + pick(40) } else { pick(5) };
    let until = if long { pick(re + 2) } else { 0 };
    // more re-attempts than will ever be needed
    let vast = if !long && coin(40) { Some(one_of(&[1_000_000u32, u32::MAX, u32::MAX - 1, 1 << 31])) } else { None };
    let slow_writes = coin(200);
    quiet_faults(slow_writes);
    KEPT.set(vec![]);
    let mut plan = vec![]; let mut fates = vec![];
    for i in 0..re + 1 {
        let want = match pick(10) { _ if i < until => Fate::Slow, 0..=4 => Fate::Slow, 5 => Fate::Fat, 6 => Fate::Both, 7 if i == 0 => Fate::Slow, _ => Fate::Good };
        let a = l.attempt(want);
        plan.push(a);
        fates.push(l.fate(&a).unwrap_or(Fate::Good));
    }
    if vast.is_some() { let a = l.attempt(if coin(300) { Fate::Fat } else { Fate::Good }); plan[re as usize] = a; fates[re as usize] = l.fate(&a).unwrap_or(Fate::Good); }
    desc(&format!("limits {l:?}, {} re-attempts, fates {fates:?}", vast.unwrap_or(re)));
    let r = run(0, "Simulated", vast.unwrap_or(re), &l, plan);
    if vast.is_some() { probe("tests with vast numbers of re-attempts"); }
    let made = check_steps(0);
    judge("plain test", "Simulated", re as usize, &fates, made, &r, (Some(l.time), Some(l.space)));
    let ev = &ST[0].get().ev;
    for k in 1..made {
        let pause = ev[3 * k].t0 - ev[3 * k - 1].t1;
        check!(pause >= 5_000_000_000, "pause", "only {pause}ns passed before re-attempt {k}");
        check!(slow_writes || pause < 5_500_000_000, "pause", "{pause}ns passed before re-attempt {k}, 5 seconds were due");
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C12", run: plain, variants: &[], quick: 200_000, thorough: 1_500_000, real: REAL_ALL, stub: &["clocks, sleeps and fd 1/2 below libc", "system allocator", "user functions (scripted time and memory)"],
        assumptions: &["up to 48 attempts per test in most runs, up to 66000 in a few"],
        rule: "plain tests whose attempts are scripted to meet or break the time and space limits of random classes, under interrupted sleeps, wall clock jumps, partial, interrupted and slow writes; steps, pauses, verdict and message compared with the script; non-trivial = fault or preemption; distinct = event-log hash" }]
}
