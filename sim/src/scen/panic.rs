//! C18: panicking user functions and refused threads fail the test cleanly and leave nothing behind.

use super::asy::{self, Yield};
use super::run::*;
use super::*;
use crate::sim::*;
use big_o_test::RegularAsyncAnalyzerBuilder;
use std::panic::{catch_unwind, AssertUnwindSafe};

// ---- a healthy analysis, everything it shows -----------------------------------------------------------------------------------

/// an analysis without any choice of its own: executed twice, it has to show the same things twice
#[derive(Clone, Debug)]
pub struct Healthy { pub kind: u32, pub c: Crud, pub t: [u64; 4], pub s: [u64; 4], pub re: u32, pub limits: (C, C), pub test: bool, pub steps: [bool; 4] }

struct H { h: Healthy, held: Vec<Blk>, freed: usize, resets: u32, log: Vec<String> }
static HS: G<H> = G::new();

fn h_step(name: &'static str, i: usize) {
    let s = HS.get();
    s.log.push(format!("{name} starts"));
    let (t, m) = (s.h.t[i], s.h.s[i]);
    let b = Blk::new(m as usize);
    work(t);
    drop(b);
    HS.get().log.push(format!("{name} ends"));
}

fn h_body(op: u8, n: u32) {
    let s = HS.get();
    if op == RESET { s.held.clear(); s.resets += 1; work(1_000); return; }
    let o = op as usize;
    let warm = s.h.c.w > 0 && s.resets % 2 == 0;
    let pass2 = !warm && n >= s.h.c.it[o];
    if o == 3 { if s.h.c.th[3] == 1 { s.held.pop(); } } else if o == 0 || s.h.c.th[o] == 1 { let b = Blk::new(if pass2 { s.h.s[o] * 3 } else { s.h.s[o] } as usize); s.held.extend(b); }
    let t = if pass2 { s.h.t[o] * 2 } else { s.h.t[o] };
    work(t + n as u64 % 5);
}

impl Healthy {
    pub fn draw(kind: u32) -> Healthy {
        let mut c = Crud { w: one_of(&[0, 50, 25]), it: [0; 4], th: [1; 4] };
        for op in 0..4 { c.it[op] = if op == 0 { 4 + pick(8) } else { one_of(&[0, 2, 5, 6, 9]) }; c.th[op] = one_of(&[1u32, 1, 2, 3]); if coin(60) { c.th[op] = 4 + pick(9); } }
        let v = |o: &[u64]| [one_of(o), one_of(o), one_of(o), one_of(o)];
        Healthy { kind, c, t: v(&[1_000_000, 3_000_017, 250_000_000]), s: v(&[0, 640, 5_000]), re: pick(3), limits: (one_of(&[C::O1, C::ON, C::WorseThanExponential]), one_of(&[C::O1, C::ON, C::WorseThanExponential])),
            test: coin(300), steps: [coin(500), coin(500), coin(500), coin(500)] }
    }

    /// executes it; everything that can be seen of it (without `text`: but for what is printed), and how it ended
    pub fn show(&self, who: usize, text: bool) -> (String, Result<(), String>) {
        HS.set(H { h: self.clone(), held: vec![], freed: 0, resets: 0, log: vec![] });
        let from = sim().out.len();
        let calls0 = CALLS.get().len();
        let t0 = now();
        let l = self.limits;
        let st = self.steps;
        let (shown, r) = match self.kind {
            0 => {
                let r = catch_unwind(AssertUnwindSafe(|| big_o_test::test_algorithm("Healthy", self.re, || h_step("reset", 3), 100, || { h_step("pass 1", 0); 1 }, 200, || { h_step("pass 2", 1); 2 }, l.0, l.1))).map_err(|p| crate::driver::payload_text(&*p));
                (String::new(), r)
            }
            1 => {
                let step = |name: &'static str, i: usize| move |d: Option<u32>| async move { Yield(1).await; h_step(name, i); Yield(1).await; d.unwrap_or(7) + 1 };
                let mut b = RegularAsyncAnalyzerBuilder::new("Healthy").first_pass(100, step("pass 1", 0)).second_pass(200, step("pass 2", 1)).with_time_measurements(l.0).with_space_measurements(l.1).with_max_reattempts(self.re);
                if st[0] { b = b.with_reset_fn(step("reset", 3)); }
                if st[1] { b = b.warmup_pass(step("warm-up", 2)); }
                if st[2] { b = b.first_pass_assertion(move |d: &u32| { let d = *d; async move { h_step("assertion 1", 2); HS.get().log.push(format!("{d}")) } }); }
                if st[3] { b = b.second_pass_assertion(move |d: &u32| { let d = *d; async move { h_step("assertion 2", 2); HS.get().log.push(format!("{d}")) } }); }
                let rt = asy::runtime();
                (String::new(), catch_unwind(AssertUnwindSafe(|| rt.block_on(b.test_algorithm()))).map_err(|p| crate::driver::payload_text(&*p)))
            }
            _ if self.test => {
                let l = [l; 4];
                (String::new(), self.c.test(who, "Healthy", self.re, l, &h_body))
            }
            _ => match self.c.analyse(who, "Healthy", &h_body) {
                Ok(a) => (format!("{:?}", a.op), Ok(())),
                Err(e) => (String::new(), Err(e)),
            }
        };
        HS.get().held.clear();
        let mut calls: Vec<(u8, u32)> = CALLS.get()[calls0..].iter().filter(|x| x.who == who).map(|x| (x.op, x.n)).collect();
        calls.sort();
        let printed = if text { String::from_utf8_lossy(&sim().out[from..]).into_owned() } else { String::new() };
        (format!("{shown}\n{r:?}\n{calls:?}\n{:?}\ntook {}\n{printed}", HS.get().log, now() - t0), r)
    }
}

// ---- what goes wrong -----------------------------------------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Debug)]
enum Payload { Str, Text, Number, Custom, Index }
struct Thing(#[allow(dead_code)] Vec<u8>);

fn throw(p: Payload) -> ! {
    count_fault("panic in a user function");
    match p {
        Payload::Str => panic!("scripted panic"),
        Payload::Text => panic!("scripted panic {}", tid()),
        Payload::Number => std::panic::panic_any(42i32),
        Payload::Custom => std::panic::panic_any(Thing(vec![1, 2, 3])),
        Payload::Index => { let v: Vec<u32> = vec![]; let i = pick(1) as usize; std::hint::black_box(v[i]); unreachable!() }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
struct Target { attempt: u32, warm: bool, op: u8, n: u32 }

/// the stretch of the analysis a call belongs to
type Ph = (u32, u32, u8, u32);

struct B { c: Crud, targets: Vec<Target>, payload: Payload, after: bool, resets: u32, style: u32, slow: bool, fired: Vec<(Ph, u64)>, log: Vec<(Ph, u64)> }
static BS: G<B> = G::new();

struct Fired(Ph);
impl Drop for Fired { fn drop(&mut self) { if std::thread::panicking() { let t = stamp(); BS.get().fired.push((self.0, t)); } } }

fn bad_body(op: u8, n: u32) {
    let s = BS.get();
    let resets = s.resets;
    let per = if s.c.w > 0 { 2 } else { 1 };
    let attempt = resets / per;
    let warm = s.c.w > 0 && resets % 2 == 0;
    if op == RESET { s.resets += 1; }
    let pass = if attempt == 0 && !warm && op != RESET { n / s.c.it[op as usize] } else { 0 };
    let ph = (attempt, resets, op, pass);
    let t = stamp();
    BS.get().log.push((ph, t));
    let s = BS.get();
    let hit = s.targets.iter().any(|t| t.attempt == attempt && t.op == op && (op == RESET || t.n == n) && (t.warm == warm));
    let k = n as u64 + 1;
    let b = Blk::new(64 + n as usize);
    if hit {
        let _f = Fired(ph);
        if s.after { work(1_000 * k); }
        throw(s.payload);
    }
    work(match s.style { 0 => 1_000, 1 => 1_000_000_000, 2 => 1 + (k * 7919) % 90_000, _ => if s.slow { k * k * 100_000 } else { 0 } });
    drop(b);
}

fn disturb(on: bool) {
    let s = sim();
    if !on { s.cfg = Cfg::default(); return; }
    s.cfg.stall_permille = one_of(&[0, 0, 20]);
    s.cfg.spawn_delay_permille = one_of(&[0, 0, 200]);
    s.cfg.slow_thread_permille = one_of(&[0, 0, 150]);
    s.cfg.spurious_futex_permille = one_of(&[0, 100]);
    s.cfg.weak_fail_permille = one_of(&[0, 50]);
    s.cfg.short_write_permille = one_of(&[0, 100]);
}

fn over(what: &str, after: u64) {
    if sim().live_threads() > 1 { probe("threads alive after the panic"); work(100_000_000_000); }
    for x in CALLS.get().iter() {
        check!(x.start < after, "outlived", "{what}: {}({}) was called on thread {} after the analysis had ended", OPS[x.op as usize], x.n, x.tid);
        check!(x.end < after, "outlived", "{what}: {}({}) on thread {} was still going on after the analysis had ended", OPS[x.op as usize], x.n, x.tid);
    }
}

fn bad_crud(refuse: bool) -> String {
    let mut c = Crud { w: one_of(&[0, 50, 100, 30]), it: [0; 4], th: [1; 4] };
    for op in 0..4 { c.it[op] = if op > 0 && coin(250) { 0 } else { 2 + pick(14) }; c.th[op] = one_of(&[1u32, 2, 2, 3, 4, 5]); }
    let test = coin(400);
    let attempts = pick(4);
    let enabled: Vec<usize> = (0..4).filter(|&o| c.enabled(o)).collect();
    let mut targets = vec![];
    let op = one_of(&enabled);
    let slow = test && attempts > 1;
    if !refuse {
        let warm = c.w > 0 && coin(300);
        let (op, n) = if warm { if coin(250) { (RESET, 0) } else { let o = *enabled.iter().find(|&&o| c.warm(o) > 0).unwrap_or(&0); let o = if c.warm(op) > 0 { op } else { o }; (o as u8, pick(c.warm(o).max(1))) } } else { (op as u8, pick(2 * c.it[op])) };
        let attempt = if slow && coin(500) { pick(2) } else { 0 };
        let (op, n, warm) = if slow && coin(200) { (RESET, 0, false) } else { (op, n, warm) };
        targets.push(Target { attempt, warm, op, n: if attempt > 0 && !warm && op != RESET { n % 2 } else { n } });
        if coin(400) && op != RESET {
            // a sibling panics as well
            let (it, base) = if warm { (c.warm(op as usize).max(1), 0) } else { (c.it[op as usize], n / c.it[op as usize] * c.it[op as usize]) };
            let m = base + (n - base + it / c.th[op as usize].max(2) + 1) % it;
            if m != n { targets.push(Target { attempt, warm, op, n: m }); }
        }
    }
    let payload = one_of(&[Payload::Str, Payload::Text, Payload::Number, Payload::Custom, Payload::Index]);
    let style = if slow { 3 } else { pick(3) };
    let d = format!("{} {}, attempts {attempts}, {}", if test { "CRUD test" } else { "CRUD analysis" }, c.text(), if refuse { "a thread refused".into() } else { format!("{targets:?} {payload:?}") });
    CALLS.set(vec![]);
    BS.set(B { c, targets, payload, after: coin(500), resets: 0, style, slow, fired: vec![], log: vec![] });
    disturb(true);
    let s = sim();
    let refused0 = s.spawns_refused;
    if refuse {
        if coin(600) {
            let total: u32 = c.phases().iter().map(|p| match p { Phase::Warm(o) | Phase::Pass(o, _) => c.th[*o], _ => 0 }).sum();
            s.fail_spawn_at = s.thread_creations + 1 + pick(total.max(1)) as u64;
        } else { s.cfg.spawn_fail_permille = one_of(&[50, 200, 700]); }
    }
    let r = if test {
        let lim = if slow { (C::O1, C::WorseThanExponential) } else { NO_LIMIT };
        c.test(0, "Panicking", attempts, [lim; 4], &bad_body)
    } else { c.analyse(0, "Panicking", &bad_body).map(|_| ()) };
    let after = stamp();
    let s = sim();
    s.fail_spawn_at = 0;
    let refused = s.spawns_refused > refused0;
    disturb(false);
    stage(&format!("after {d}"));
    let b = BS.get();
    over(&d, after);
    if refuse {
        if refused { check!(r.is_err(), "passed", "{d}: the analysis ended without a panic though a thread could not be started"); probe("analyses with refused threads"); }
    } else if !b.fired.is_empty() {
        check!(r.is_err(), "passed", "{d}: a user function panicked, but the analysis ended without a panic");
        probe("panics in CRUD analyses");
        if b.fired.len() > 1 { probe("panics of several siblings"); }
        if b.fired[0].0.0 > 0 { probe("panics in a retry"); }
        let (ph, t) = b.fired[0];
        if let Some((p2, _)) = b.log.iter().find(|(p, t2)| *t2 > t && *p != ph) { violate("went-on", &format!("{d}: after a panic in (attempt, resets, operation, pass) {ph:?}, {p2:?} was started")); }
    }
    d
}

static PL: G<(Vec<(u32, u64)>, u32, u32)> = G::new();

fn bad_plain() -> String {
    let re = pick(3);
    let at = pick(3 * if coin(500) { 1 } else { re + 1 });
    let stage_ = pick(2);
    let payload = one_of(&[Payload::Str, Payload::Text, Payload::Number, Payload::Custom, Payload::Index]);
    let d = format!("plain test, {re} re-attempts, step {at} panics {}", if stage_ == 0 { "at once" } else { "after some work" });
    PL.set((vec![], 0, 0));
    let step = |i: u32| {
        let k = PL.get().1;
        PL.get().1 += 1;
        let t = stamp();
        PL.get().0.push((i, t));
        let b = Blk::new(1000);
        if k == at { if stage_ == 1 { work(5_000_000); } PL.get().2 = 1; throw(payload); }
        work(if i == 2 { 900_000_000 } else { 1_000_000 });
        drop(b);
    };
    disturb(true);
    let r = catch_unwind(AssertUnwindSafe(|| big_o_test::test_algorithm("Panicking", re, || step(0), 100, || { step(1); 1 }, 200, || { step(2); 2 }, C::O1, C::WorseThanExponential))).map_err(|p| crate::driver::payload_text(&*p));
    disturb(false);
    let p = PL.get();
    if p.2 == 1 {
        check!(r.is_err(), "passed", "{d}: the test ended without a panic");
        let n = p.0.len() as u32;
        if sim().live_threads() > 1 { work(100_000_000_000); }
        check!(n == at + 1 && PL.get().0.len() as u32 == n, "went-on", "{d}: a further step was executed: {:?}", PL.get().0);
        probe("panics in plain tests");
    }
    d
}

fn bad_async(rt: &tokio::runtime::Runtime) -> String {
    let mut c = asy::Conf::draw();
    c.space = None;
    let (plan, _) = c.plan(None);
    let per = c.steps().len() as u32;
    let at = pick(per * if coin(700) { 1 } else { c.re.unwrap_or(0) + 1 }) as usize;
    let at = (at, pick(3));
    let d = format!("async test {c:?}, step {} panics at stage {}", at.0, at.1);
    asy::prepare(0, &c, plan);
    asy::A[0].get().panic_at = Some(at);
    disturb(true);
    let r = asy::go_anyhow(rt, 0, "Panicking", &c);
    let after = stamp();
    disturb(false);
    KEPT.get().clear();
    rt.block_on(async { for _ in 0..4 { tokio::time::sleep(std::time::Duration::from_secs(3)).await; } });
    let ev = &asy::A[0].get().ev;
    if ev.len() > at.0 {
        check!(r.is_err(), "passed", "{d}: the test ended without a panic");
        check!(ev.len() == at.0 + 1, "went-on", "{d}: a further step was executed: {:?}", ev.iter().map(|e| e.step).collect::<Vec<_>>());
        probe("panics in async tests");
    }
    for e in ev { check!(e.end < after, "outlived", "{d}: {:?} went on after the test had ended", e.step); }
    asy::check_drops(0, "after a step's panic");
    d
}

/// C18
fn panics() {
    KEPT.set(vec![]);
    CALLS.set(vec![]);
    disturb(false);
    let rt = asy::runtime();
    let h = Healthy::draw(pick(3));
    let first = h.show(0, true).0;
    let h2 = coin(200).then(|| { CALLS.set(vec![]); let h = Healthy::draw((h.kind + 1 + pick(2)) % 3); let t = h.show(0, true).0; (h, t) });
    CALLS.set(vec![]);
    let mut ds = vec![];
    for _ in 0..1 + pick(2) {
        let d = match pick(6) { 0 => bad_plain(), 1 => bad_async(&rt), 2 => bad_crud(true), _ => bad_crud(false) };
        ds.push(d);
        desc(&format!("{}; before and afterwards {h:?}", ds.join("; ")));
    }
    stage("the analysis after the failed one");
    CALLS.set(vec![]);
    disturb(false);
    let second = h.show(0, true).0;
    let third = h2.as_ref().map(|(h, _)| { CALLS.set(vec![]); h.show(0, true).0 });
    if sim().forced_time == 0 {
        if let (Some(t), Some((_, f))) = (&third, &h2) { check!(t == f, "left-behind", "after {}, another analysis showed something else than before:\n{f}\n--- now:\n{t}", ds.join("; ")); }
        check!(first == second, "left-behind", "after {}, an analysis showed something else than before:\n{first}\n--- now:\n{second}", ds.join("; "));
        probe("later analyses compared");
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C18", run: panics, variants: &[], quick: 60_000, thorough: 1_500_000, real: super::verdict::REAL, stub: &["thread scheduler, clocks, timers, futexes and fd 1/2 below libc", "system allocator", "user functions (scripted time, memory and panics)"],
        assumptions: &["the process is built with unwinding panics, as test builds are"],
        rule: "analyses and tests of all three kinds in which user functions panic (any call, thread, phase, attempt; several siblings at once; payloads of any type; siblings still working) or threads are refused, between two executions of the same healthy analysis; failing verdict, no later call, nothing left running, both healthy analyses identical in calls, measurements, timing and printed text; non-trivial = preemption or fault; distinct = event-log hash" }]
}
