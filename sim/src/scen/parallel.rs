//! C20: analyses running at the same time in one process.

use super::asy;
use super::plain::{self, judge, Fate};
use super::run::*;
use super::*;
use crate::sim::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug)]
enum Job {
    Plain { re: u32, l: plain::Limits, plan: Vec<plain::Try>, fates: Vec<Fate> },
    Async { c: asy::Conf, plan: Vec<plain::Try>, fates: Vec<Fate> },
    /// analyse; test with time limits
    Crud { c: Crud, total: [[u64; 2]; 4], limits: Option<[(C, C); 4]> },
    /// two async tests on one runtime
    Joined { c: [asy::Conf; 2], plans: [Vec<plain::Try>; 2] },
    /// a CRUD analysis, one function of which panics
    Panic { c: Crud, op: u8, n: u32 },
    /// holds ever more memory
    Hoarder { sizes: Vec<usize> },
    /// takes more save points than fit
    Hammer { times: u32 },
    /// measures something else meanwhile, taking save points (as many as fit)
    Measurer { saves: u32 },
}

struct CrSt { c: Crud, dur: [[Vec<u64>; 2]; 4], mem: [[usize; 2]; 4], warm: bool, panic: Option<(u8, u32)> }
static CS: [G<CrSt>; 4] = [G::new(), G::new(), G::new(), G::new()];
static HELD: G<Vec<Blk>> = G::new();
enum Res { None, Verdict(Result<(), String>), An(Result<Analyses, String>) }
static RES: [G<Res>; 4] = [G::new(), G::new(), G::new(), G::new()];

fn cr_body(who: usize, op: u8, n: u32) {
    let s = CS[who].get();
    if s.panic == Some((op, n)) { count_fault("panic in a user function"); panic!("scripted panic"); }
    if op == RESET { s.warm = false; work(2_000_000_000); return; }
    if s.warm { work(one_of(&[1_000u64, 300_000_000])); return; }
    let o = op as usize;
    let (p, i) = ((n / s.c.it[o]) as usize, (n % s.c.it[o]) as usize);
    let d = s.dur[o][p.min(1)][i];
    let b = Blk::new(s.mem[o][p.min(1)]);
    HELD.get().extend(b);
    work(d);
}

fn crud_conf(small: bool) -> Crud {
    let n = if small { 2 + pick(8) } else { one_of(&[16u32, 18, 20]) };
    let mut c = Crud { w: one_of(&[0, 0, 50]), it: [n; 4], th: [1; 4] };
    for op in 0..4 { c.th[op] = one_of(&[1u32, 1, 2, 3]); if op > 0 && coin(500) { c.it[op] = 0; } }
    c
}

fn crud_state(who: usize, c: Crud, total: &mut [[u64; 2]; 4], limits: &mut [(C, C); 4], hold: bool) {
    let mut dur: [[Vec<u64>; 2]; 4] = Default::default();
    let mut mem = [[0; 2]; 4];
    for op in 0..4 {
        if c.it[op] == 0 { continue; }
        let k = c.it[op];
        let base = one_of(&[20_000_000u64, 10_000_019, 5_000_000_000]);
        let meets = coin(600);
        let (l, u) = if op == 0 || op == 3 { let l = one_of(&LIMITS_RESIZING); (l, if k >= 16 { usage_resizing(l, meets, k as f64, base) } else { (base, 2 * base) }) }
            else { let l = one_of(&LIMITS); (l, if k >= 16 { usage(l, meets, k as f64, 2.0 * k as f64, base) } else { (base, 2 * base) }) };
        limits[op].0 = l;
        total[op] = [u.0, u.1];
        for p in 0..2 { dur[op][p] = super::verdict::split(total[op][p] * c.th[op] as u64, k); }
        if hold { mem[op] = [one_of(&[0usize, 7, 1000]), one_of(&[0usize, 9, 3000])]; }
    }
    CS[who].set(CrSt { c, dur, mem, warm: c.w > 0, panic: None });
}

fn draw(who: usize, kind: u32, hold: bool) -> Job {
    match kind {
        0 => {
            let mut l = plain::Limits::draw();
            l.space = C::WorseThanExponential;
            let re = pick(3);
            let (mut plan, mut fates) = (vec![], vec![]);
            for _ in 0..re + 1 { let mut a = l.attempt(if coin(500) { Fate::Slow } else { Fate::Good }); a.keep = false; if hold { a.s = (0, 0); a.reset_s = 0; } fates.push(l.fate(&a).unwrap_or(Fate::Good)); plan.push(a); }
            Job::Plain { re, l, plan, fates }
        }
        1 => {
            let mut c = asy::Conf::draw();
            c.space = None;
            c.waits = c.waits.min(1);
            let (mut plan, _) = c.plan(None);
            let mut fates = vec![];
            let l = c.limits();
            for a in plan.iter_mut() { a.keep = false; if hold { a.s = (0, 0); a.reset_s = 0; } fates.push(l.fate(a).unwrap_or(Fate::Good)); }
            Job::Async { c, plan, fates }
        }
        2 | 3 => {
            let c = crud_conf(false);
            let mut total = [[0; 2]; 4];
            let mut limits = [NO_LIMIT; 4];
            crud_state(who, c, &mut total, &mut limits, hold);
            Job::Crud { c, total, limits: if kind == 3 && !hold { Some(limits) } else { None } }
        }
        4 => {
            let c = crud_conf(true);
            crud_state(who, c, &mut [[0; 2]; 4], &mut [NO_LIMIT; 4], false);
            let en: Vec<u8> = (0..4).filter(|o| c.enabled(*o as usize)).collect();
            let op = one_of(&en);
            let n = pick(2 * c.it[op as usize]);
            CS[who].get().panic = Some((op, n));
            Job::Panic { c, op, n }
        }
        5 => Job::Hoarder { sizes: (0..4 + pick(30)).map(|_| one_of(&[1usize, 500, 40_000])).collect() },
        6 => Job::Hammer { times: 1 + pick(3) },
        _ => Job::Measurer { saves: one_of(&[70u32, 10, 200, 300]) },
    }
}

fn execute(who: usize, j: &Job) {
    let res = match j {
        Job::Plain { re, l, plan, .. } => Res::Verdict(plain::run(who, NAMES[who], *re, l, plan.clone())),
        Job::Async { c, plan, .. } => { asy::prepare(who, c, plan.clone()); let rt = asy::runtime(); Res::Verdict(asy::go(&rt, who, NAMES[who], c)) }
        Job::Crud { c, limits, .. } => {
            let body = move |op: u8, n: u32| cr_body(who, op, n);
            match limits { None => Res::An(c.analyse(who, NAMES[who], &body)), Some(l) => Res::Verdict(c.test(who, NAMES[who], 1, *l, &body)) }
        }
        Job::Panic { c, .. } => { let body = move |op: u8, n: u32| cr_body(who, op, n); Res::Verdict(c.analyse(who, NAMES[who], &body).map(|_| ())) }
        Job::Joined { c, plans } => {
            asy::prepare(2, &c[0], plans[0].clone());
            asy::prepare(3, &c[1], plans[1].clone());
            let rt = asy::runtime();
            Res::Verdict(catch_unwind(AssertUnwindSafe(|| rt.block_on(async { tokio::join!(asy::test_future(2, NAMES[2], &c[0]), asy::test_future(3, NAMES[3], &c[1])); }))).map_err(|p| crate::driver::payload_text(&*p)))
        }
        Job::Hoarder { sizes } => { for s in sizes { let b = Blk::new(*s); HELD.get().extend(b); work(one_of(&[0u64, 3_000_000, 400_000_000])); } Res::None }
        Job::Hammer { times } => {
            for _ in 0..*times {
                work(one_of(&[0u64, 1_000_000, 30_000_000, 2_000_000_000]));
                for _ in 0..1030 { std::hint::black_box(big_o_test::ALLOC.save_point()); }
                count_fault("save points of an analysis pushed out");
            }
            Res::None
        }
        Job::Measurer { saves } => {
            let mut left = *saves;
            while left > 0 {
                work(one_of(&[0u64, 1_000_000, 30_000_000, 2_000_000_000]));
                let k = (1 + pick(left)).min(left);
                left -= k;
                for _ in 0..k { std::hint::black_box(big_o_test::ALLOC.save_point()); }
                probe_n("save points taken by others", k as u64);
            }
            Res::None
        }
    };
    RES[who].set(res);
}
const NAMES: [&str; 4] = ["First", "Second", "Third", "Fourth"];

fn judge_job(who: usize, j: &Job, hold: bool, timed: bool, hammered: bool) {
    let name = NAMES[who];
    match (j, RES[who].get()) {
        (Job::Plain { re, l, fates, .. }, Res::Verdict(r)) => {
            let made = plain::check_steps(who);
            if timed { judge(&format!("plain test '{name}'"), name, *re as usize, fates, made, r, (Some(l.time), None)); }
            probe("plain tests in parallel");
        }
        (Job::Async { c, fates, .. }, Res::Verdict(r)) => {
            asy::check_steps(who, true);
            asy::check_drops(who, "by the end of the test");
            if timed { judge(&format!("async test '{name}'"), name, c.re.unwrap_or(0) as usize, fates, asy::attempts(who), r, (c.time, None)); }
            probe("async tests in parallel");
        }
        (Job::Joined { .. }, Res::Verdict(r)) => {
            if let Err(p) = r { violate("failed-good", &format!("one of two async tests without limits on one runtime failed: {p}")); }
            for w in [2, 3] { asy::check_steps(w, true); asy::check_drops(w, "by the end of the tests"); }
            probe("async tests sharing a runtime");
        }
        (Job::Crud { c, total, limits: Some(l) }, Res::Verdict(r)) => {
            if !timed { return; }
            let k = |op: usize| c.it[op] as f64;
            let v: Vec<Option<bool>> = (0..4).map(|op| if !c.enabled(op) { Some(true) } else if op == 0 || op == 3 { accepts_resizing(l[op].0, total[op][0] as f64, total[op][1] as f64, k(op)) } else { accepts(l[op].0, total[op][0] as f64, total[op][1] as f64, k(0), 2.0 * k(0)) }).collect();
            match r {
                Ok(()) => check!(!v.contains(&Some(false)), "passed-bad", "CRUD test '{name}': times per pass {total:?} are not within {l:?}, but the test passed"),
                Err(p) => check!(v.iter().any(|x| *x != Some(true)), "failed-good", "CRUD test '{name}': times per pass {total:?} are within {l:?}, but the test failed: {p}"),
            }
            probe("CRUD tests in parallel");
        }
        (Job::Crud { c, total, .. }, Res::An(a)) => {
            let a = match a { Ok(a) => a, Err(p) => violate("panic", &format!("the CRUD analysis '{name}' panicked: {p}")) };
            let calls = sorted_calls(who);
            match c.assign(&calls) {
                Err(e) => violate("order", &format!("CRUD analysis '{name}': {e}")),
                Ok(of) => {
                    let ph = c.phases();
                    for (k, p) in ph.iter().enumerate() {
                        let mut n: Vec<u32> = calls.iter().zip(&of).filter(|(_, o)| **o == k).map(|(x, _)| x.n).collect();
                        n.sort();
                        let want: Vec<u32> = match p { Phase::Reset => vec![if c.enabled(0) { c.warm(0) } else { 0 }], Phase::Warm(o) => (0..c.warm(*o)).collect(), Phase::Pass(o, p) => (c.it[*o] * (p - 1)..c.it[*o] * p).collect() };
                        check!(n == want, "calls", "CRUD analysis '{name}': {p:?} called {n:?}, not {want:?}");
                    }
                }
            }
            for op in 0..4 {
                let Some(x) = &a.op[op] else { check!(!c.enabled(op), "analysis-presence", "'{name}' has no analysis of {}", OPS[op]); continue };
                for p in 0..2 {
                    if timed { let (got, want) = (x.t[p].as_nanos() as i128, total[op][p] as i128);
                        check!((got - want).abs() <= 3, "time", "'{name}': pass {} of {} is said to have taken {got}ns, its {} threads took {want}ns on average", p + 1, OPS[op], c.th[op]); }
                    // few enough save points were taken
                    if !hammered { check!(x.s[p].max_used_memory < 1 << 50, "memory", "'{name}': the memory measurements of pass {} of {} got lost: {:?}", p + 1, OPS[op], x.s[p]); }
                    if hold {
                        let (m, own) = (&x.s[p], CS[who].get().mem[op][p] * c.it[op] as usize);
                        check!(m.max_used_memory >= m.used_memory_before && m.max_used_memory - m.used_memory_before >= own, "memory", "'{name}': pass {} of {} is said to have used up to {m:?}, {own} bytes were its own", p + 1, OPS[op]);
                    }
                }
            }
            probe("CRUD analyses in parallel");
        }
        (Job::Panic { op, n, .. }, Res::Verdict(r)) => check!(r.is_err(), "passed", "{}({n}) of '{name}' panicked, but the analysis didn't", OPS[*op as usize]),
        _ => {}
    }
}

/// C20
fn parallel() {
    quiet_faults(false);
    let s = sim();
    s.cfg.spawn_delay_permille = one_of(&[0, 0, 200]);
    s.cfg.slow_thread_permille = one_of(&[0, 0, 150]);
    s.cfg.alloc_fail_permille = 0;
    KEPT.set(vec![]);
    HELD.set(vec![]);
    CALLS.set(vec![]);
    let hold = coin(300);
    let k = 2 + pick(2) as usize;
    let mut jobs: Vec<Job> = vec![];
    for who in 0..k {
        let kind = if hold { if who == 0 { 2 } else { one_of(&[0, 1, 2, 2, 5, 7]) } } else { one_of(&[0, 0, 1, 1, 2, 2, 3, 3, 4, 6, 7]) };
        if !hold && k == 2 && who == 1 && coin(300) {
            let mut c = [asy::Conf::draw(), asy::Conf::draw()];
            let mut plans = [vec![], vec![]];
            for i in 0..2 { c[i].time = None; c[i].space = None; plans[i] = c[i].plan(Some(Fate::Good)).0; for t in plans[i].iter_mut() { t.keep = false; } }
            jobs.push(Job::Joined { c, plans });
            continue;
        }
        if kind >= 6 { let s = sim(); s.max_steps = 1_000_000; s.force_after = 200_000; }
        jobs.push(draw(who, kind, hold));
    }
    desc(&format!("{}{}", if hold { "(nothing is freed) " } else { "" }, jobs.iter().map(|j| match j {
        Job::Plain { re, l, fates, .. } => format!("plain test {l:?}, {re} re-attempts, {fates:?}"),
        Job::Async { c, fates, .. } => format!("async test {c:?}, {fates:?}"),
        Job::Crud { c, total, limits } => format!("CRUD {}, {}, times {total:?}, {limits:?}", if limits.is_some() { "test" } else { "analysis" }, c.text()),
        x => format!("{x:?}") }).collect::<Vec<_>>().join(" || ")));
    for i in 0..4 { RES[i].set(Res::None); }
    let hs: Vec<_> = jobs.iter().enumerate().map(|(who, j)| { let j = j.clone(); spawn(move || execute(who, &j)) }).collect();
    for h in hs { join(h); }
    let timed = sim().forced_time == 0;
    if !timed { probe("times not judged"); }
    let hammered = jobs.iter().any(|j| matches!(j, Job::Hammer { .. }));
    for (who, j) in jobs.iter().enumerate() { judge_job(who, j, hold, timed, hammered); }
    if hold { probe("runs in which memory is only added"); }
}

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C20", run: parallel, variants: &[], quick: 50_000, thorough: 1_000_000, real: super::verdict::REAL, stub: &["thread scheduler, clocks, timers, futexes and fd 1/2 below libc", "system allocator", "user functions (scripted time, memory and panics)"],
        assumptions: &["2 or 3 analyses at a time", "the memory claim is judged while the other analyses only add memory", "analyses sharing one async runtime are judged on their steps only"],
        rule: "2 or 3 analyses at the same time, each plain, async or CRUD, some of them failing, panicking, or next to a thread that pushes their save points out; each one's steps, attempts, times and verdict compared with its script as if it ran alone, and its measured memory with what it used itself; non-trivial = preemption or fault; distinct = event-log hash" }]
}
