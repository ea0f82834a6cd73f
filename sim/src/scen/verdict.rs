//! C15, C16: space and time verdicts follow what the algorithm really used, and nothing else.

use super::asy::{self, Tok, Yield};
use super::run::*;
use crate::gate;
use super::*;
use crate::sim::*;
use big_o_test::RegularAsyncAnalyzerBuilder;
use std::collections::{HashMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

// ---- memory use of a known peak ---------------------------------------------------------------------------------------------

/// memory held by the user before a pass that frees it
static POOL: G<Vec<Blk>> = G::new();

fn fill_pool() -> usize {
    let mut n = 0;
    for _ in 0..pick(4) { let b = one_of(&[100usize, 5_000, 70_000]); POOL.get().extend(Blk::new(b)); n += b; }
    n
}

/// an algorithm whose memory in use gets exactly `s` above where it was when it started, never more
fn peak(s: usize, keep: bool) {
    let mut held: Vec<Blk> = vec![];
    if coin(25) {
        // the algorithm takes measurements of its own
        let k = one_of(&[3u32, 70, 300, 900]);
        let b = Blk::new(s);
        let mut sps = vec![];
        for i in 0..k { let sp = big_o_test::ALLOC.save_point(); if i % 64 == 0 { sps.push(sp); } }
        probe_n("save points taken inside of passes", k as u64);
        drop(b);
        held.extend(Blk::new(s / 2));
        if keep { KEPT.get().extend(held); }
        return;
    }
    match pick(8) {
        0 => { held.extend(Blk::new(s)); yp(); }
        1 => { for part in [s / 4, s / 3, s - s / 4 - s / 3] { held.extend(Blk::new(part)); yp(); } }
        2 if s > 8 => {
            // threads of its own
            let k = 2 + pick(3) as usize;
            let bar = std::sync::Arc::new(Barrier::new(k));
            let hs: Vec<_> = (0..k).map(|i| { let bar = bar.clone(); let part = if i == 0 { s - (s / k) * (k - 1) } else { s / k }; spawn(move || { let b = Blk::new(part); bar.wait(); drop(b); }) }).collect();
            for h in hs { join(h); }
            probe("peaks reached by several threads together");
        }
        3 if !POOL.get().is_empty() => {
            // first of all, something older is given back
            let f: usize = POOL.get().iter().map(|b| b.size()).sum();
            POOL.get().clear();
            yp();
            held.extend(Blk::new(f + s));
            probe("passes that free older memory first");
        }
        4 => { held.extend(Blk::new(s)); held.clear(); held.extend(Blk::new(s / 2)); }
        5 => { for i in 0..5 { held.extend(Blk::new(s * i / 5)); held.clear(); yp(); } held.extend(Blk::new(s)); held.clear(); }
        6 => { if let Some(mut b) = Blk::new(s / 5 + 1) { if s > 3 { b.resize(s); held.push(b); } else { drop(b); } } }
        _ => { held.extend(Blk::zeroed(s)); yp(); }
    }
    if keep { KEPT.get().extend(held); }
}

/// [peak()] may need a byte more for tiny usages in one of its styles
fn peak_of(s: usize, keep: bool) { if s == 0 { if coin(500) { POOL.get().clear(); } } else if s < 4 { let b = Blk::new(s); yp(); drop(b); } else { peak(s, keep) } }

/// memory used where it must not matter
fn noise(s: usize) {
    let b = Blk::new((one_of(&[0usize, 1, 10, 100]) * (s + 1000)).min(200_000_000));
    yp();
    drop(b);
    if coin(300) { KEPT.get().clear(); }
    if coin(400) { fill_pool(); }
}

// ---- plain tests ------------------------------------------------------------------------------------------------------------

fn limit_and_sizes() -> (C, u32, u32) {
    let n1 = one_of(&[16u32, 20, 64, 100, 333, 1000, 4096, 100_000]);
    (one_of(&LIMITS), n1, n1 * one_of(&[2u32, 2, 3, 5, 10]))
}

fn verdict_of(what: &str, r: Result<(), String>, limit: C, u: (u64, u64), n1: u32, n2: u32, kind: &str) {
    if REFUSED.load(std::sync::atomic::Ordering::SeqCst) { probe("not judged"); return; }
    if gate::deployed() && u.0 != u.1 {
        let judge = |u1: u64, u2: u64| accepts(limit, u1 as f64, u2 as f64, n1 as f64, n2 as f64);
        if judge(u.0 + 2048, u.1) != judge(u.0, u.1 + 2048) { return; }
    }
    match (accepts(limit, u.0 as f64, u.1 as f64, n1 as f64, n2 as f64), r) {
        (Some(true), Err(p)) => violate("failed-good", &format!("{what}: {kind} of {u:?} for n of {n1} and {n2} is within {limit:?}, but the test failed: {p}")),
        (Some(false), Ok(())) => violate("passed-bad", &format!("{what}: {kind} of {u:?} for n of {n1} and {n2} grows beyond {limit:?}, but the test passed")),
        (Some(true), _) => probe("accepted"),
        (Some(false), _) => probe("rejected"),
        _ => {}
    }
}

fn space_usage(limit: C, n1: u32, n2: u32) -> (u64, u64) {
    match pick(12) { 0 => (0, 0), 1 => (0, one_of(&[1u64, 5_000])), 2 => (one_of(&[1u64, 5_000]), 0), _ => {
        let meet = coin(500);
        let mut base = one_of(&[1_000u64, 999, 10_007, 65_536]);
        // real memory is obtained
        while base as f64 * limit_ratio(limit, n1 as f64, n2 as f64) * 20.0 > 1e8 && base > 100 { base /= 3; }
        if coin(60) {
            // beyond what 32 bits can tell
            let huge = one_of(&[5_000_000_001u64, 3 << 30, 1 << 32]);
            if huge as f64 * limit_ratio(limit, n1 as f64, n2 as f64) * 20.0 < 4e12 { base = huge; probe("passes that use more than 2 GiB"); }
        }
        usage(limit, meet, n1 as f64, n2 as f64, base)
    } }
}

fn space_plain() {
    let (limit, n1, n2) = limit_and_sizes();
    let u = space_usage(limit, n1, n2);
    let keep = coin(300);
    let retries = pick(3);
    desc(&format!("plain test, space {u:?} for n of {n1} and {n2}, maximum {limit:?}"));
    let r = catch_unwind(AssertUnwindSafe(|| gate::lib(|| big_o_test::test_algorithm("Simulated", retries, || gate::user(|| noise(u.0.max(u.1) as usize)), n1, || { gate::user(|| peak_of(u.0 as usize, keep)); 1 }, n2, || { gate::user(|| peak_of(u.1 as usize, keep)); 2 }, C::WorseThanExponential, limit)))).map_err(|p| crate::driver::payload_text(&*p));
    verdict_of("plain test", r, limit, u, n1, n2, "memory");
}

/// what the steps of an async test hand over
type Data = (u32, Vec<Blk>);

fn space_async() {
    let (limit, n1, n2) = limit_and_sizes();
    let u = space_usage(limit, n1, n2);
    let keep = coin(300);
    let c = asy::Conf { reset: coin(500), warm: coin(500), a1: coin(500), a2: coin(500), ..Default::default() };
    let y = pick(3);
    desc(&format!("async test, space {u:?} for n of {n1} and {n2}, maximum {limit:?}, {c:?}"));
    let m = u.0.max(u.1) as usize;
    // the data value may hold memory
    let quiet = move |d: Option<Data>| {
        gate::user(|| if coin(300) { noise(m); });
        gate::Of(async move {
            Yield(pick(3)).await;
            noise(m);
            Yield(pick(2)).await;
            let mut d = d.unwrap_or_default();
            match pick(4) { 0 => d.1.clear(), 1 => d.1.extend(Blk::new(one_of(&[100usize, 9_000, 70_000]))), _ => {} }
            d
        }, false)
    };
    let pass = move |s: u64| move |d: Option<Data>| {
        let s = s as usize;
        // some algorithms work before they return their future
        let mut early = None;
        let mut done = false;
        gate::user(|| match pick(5) { 0 => { early = Blk::new(s / 3); probe("passes that allocate before they return their future"); } 1 => { peak_of(s, keep); done = true; } _ => {} });
        gate::Of(async move {
            let mut d = d.unwrap_or_default();
            Yield(y).await;
            if done { Yield(y).await; return d; }
            if coin(300) && early.is_none() && s > 0 && !d.1.is_empty() {
                // what the previous step left is given back first
                let f: usize = d.1.iter().map(|b| b.size()).sum();
                d.1.clear();
                Yield(y).await;
                d.1.extend(Blk::new(f + s));
                probe("passes that free the previous step's memory first");
                return d;
            }
            if s > 1 && early.is_none() && coin(300) {
                d.1.extend(Blk::new(s));
                Yield(y).await;
                probe("passes that hand memory over to the next step");
                return d;
            }
            let left = s - early.as_ref().map_or(0, |b| b.size());
            if early.is_some() { let b = Blk::new(left); Yield(y).await; drop(b); } else { peak_of(left, keep); }
            Yield(y).await;
            drop(early);
            d.0 += 1;
            d
        }, false)
    };
    let mut b = RegularAsyncAnalyzerBuilder::new("Simulated").first_pass(n1, pass(u.0)).second_pass(n2, pass(u.1)).with_space_measurements(limit);
    if c.reset { b = b.with_reset_fn(quiet); }
    if c.warm { b = b.warmup_pass(quiet); }
    if c.a1 { b = b.first_pass_assertion(move |_: &Data| { gate::user(|| noise(m)); gate::Of(async move { Yield(1).await; noise(m) }, false) }); }
    if c.a2 { b = b.second_pass_assertion(move |_: &Data| { gate::user(|| noise(m)); gate::Of(async move { Yield(1).await; noise(m) }, false) }); }
    let rt = asy::runtime();
    let r = catch_unwind(AssertUnwindSafe(|| rt.block_on(asy::Hop::new(gate::Of(b.test_algorithm(), true))))).map_err(|p| crate::driver::payload_text(&*p));
    verdict_of("async test", r, limit, u, n1, n2, "memory");
}

// ---- CRUD -------------------------------------------------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Debug)]
enum Mode { Nothing, Retain, Transient, Free }

struct Cr {
    c: Crud, mode: [Mode; 4], amt: [[u64; 2]; 4], dur: [[Vec<u64>; 2]; 4], time: bool,
    warm: bool, held: HashMap<u32, Blk>, extra: Vec<Blk>, met: HashMap<(u8, u32), (usize, usize)>, seen: HashSet<(u8, u32, usize)>, alone: bool,
}
static CR: G<Cr> = G::new();

/// waits for the siblings: what every thread of the pass holds, is held at the same time
fn meet(op: u8, pass: u32) {
    let s = CR.get();
    let th = s.c.th[op as usize] as usize;
    if th < 2 || !s.seen.insert((op, pass, tid())) { return; }
    let e = s.met.entry((op, pass)).or_insert_with(|| { sim().next_user_key += 1; (0, sim().next_user_key) });
    e.0 += 1;
    let (have, key) = *e;
    if have >= th { sim().wake(Key::User(key), usize::MAX); return; }
    while CR.get().met[&(op, pass)].0 < th {
        let d = now() + 86_400_000_000_000;
        if sim().block(Key::User(key), Some(d)) == Wake::Timeout { CR.get().alone = true; return; }
    }
}

fn cr_body(op: u8, n: u32) {
    let s = CR.get();
    let o = op as usize;
    if op == RESET {
        s.extra.clear();
        drop(Blk::new(1_000_000));
        work(3_000_000_000);
        s.warm = false;
        return;
    }
    if s.warm {
        let b = Blk::new(10 * (s.amt[o][0] + s.amt[o][1]) as usize + 50);
        if coin(700) { s.extra.extend(b); }
        if s.time { work(one_of(&[1_000_000u64, 900_000_000])); }
        return;
    }
    let pass = n / s.c.it[o];
    let a = s.amt[o][pass as usize] as usize;
    match s.mode[o] {
        Mode::Nothing => {}
        Mode::Retain => { let b = Blk::new(a); if let Some(b) = b { CR.get().held.insert(n | (op as u32) << 28, b); } }
        Mode::Transient => { let b = Blk::new(a); meet(op, pass); drop(b); }
        Mode::Free => { let b = Blk::new(a); meet(op, pass); let old = CR.get().held.remove(&n); drop(old); drop(b); }
    }
    let s = CR.get();
    if s.time { let d = s.dur[o][pass as usize][(n % s.c.it[o]) as usize]; work(d); }
}

/// splits a total over `n` elements, unevenly
pub fn split(total: u64, n: u32) -> Vec<u64> {
    let style = pick(4);
    let mut w: Vec<u64> = (0..n).map(|i| match style { 0 => 1, 1 => i as u64 + 1, 2 => if i == 0 { 50 } else { 1 }, _ => (i as u64 * 7919) % 13 }).collect();
    let sum: u64 = w.iter().sum::<u64>().max(1);
    for x in w.iter_mut() { *x = (total as u128 * *x as u128 / sum as u128) as u64; }
    let rest = total - w.iter().sum::<u64>();
    w[n as usize - 1] += rest;
    w
}

fn crud_case(time: bool) {
    let n = one_of(&[16u32, 16, 20, 24, 30, 40]);
    let mut c = Crud { w: one_of(&[0, 0, 50, 25]), it: [n; 4], th: [1; 4] };
    let mut mode = [Mode::Nothing; 4];
    let mut amt = [[0u64; 2]; 4];
    let mut limits = [NO_LIMIT; 4];
    let mut total = [[0u64; 2]; 4];
    let mut dur: [[Vec<u64>; 2]; 4] = Default::default();
    for op in 0..4 {
        c.th[op] = one_of(&[1u32, 1, 2, 3, 4, 5]);
        if op > 0 && coin(350) { c.it[op] = 0; continue; }
        if (op == 1 || op == 2) && coin(300) { c.it[op] = one_of(&[16, 18, 25]); }
        let k = c.it[op];
        let limit = if op == 0 || op == 3 { one_of(&LIMITS_RESIZING) } else { one_of(&LIMITS) };
        let meets = coin(600);
        let draw = |base: u64| -> (u64, u64) { if op == 0 || op == 3 { usage_resizing(limit, meets, k as f64, base) } else { usage(limit, meets, n as f64, 2.0 * n as f64, base) } };
        if time {
            let u = draw(if coin(100) { time_base(if op == 0 || op == 3 { limit_ratio_resizing(limit, k as f64) } else { limit_ratio(limit, n as f64, 2.0 * n as f64) }) } else { one_of(&[20_000_000u64, 10_000_019, 5_000_000_000]) });
            for p in 0..2 { total[op][p] = [u.0, u.1][p]; dur[op][p] = split(total[op][p] * c.th[op] as u64, k); }
            limits[op].0 = limit;
        } else {
            limits[op].1 = limit;
            mode[op] = match (op, pick(6)) { (3, _) => Mode::Free, (_, 0) => Mode::Nothing, (0, 1..=3) | (1, 1) | (2, 1) => Mode::Retain, _ => Mode::Transient };
            let per = if mode[op] == Mode::Retain { k as u64 } else { c.th[op] as u64 };
            let base = match pick(8) { 0 => 0, 1 => 1, _ => one_of(&[1_000u64, 333, 4_096]) };
            let u = if base < 2 { (base, one_of(&[0u64, 1, 700])) } else { draw(base * per) };
            if mode[op] == Mode::Nothing { continue; }
            // whole bytes per call
            amt[op] = [u.0 / per, u.1 / per];
            total[op] = [amt[op][0] * per, amt[op][1] * per];
            // elements that were never created can't be freed
        }
    }
    CALLS.set(vec![]);
    CR.set(Cr { c, mode, amt, dur, time, warm: c.w > 0, held: HashMap::new(), extra: vec![], met: HashMap::new(), seen: HashSet::new(), alone: false });
    let kind = if time { "time" } else { "memory" };
    let judged = |op: usize, l: C| -> Option<bool> {
        let (u1, u2) = (total[op][0] as f64, total[op][1] as f64);
        if op == 0 || op == 3 { accepts_resizing(l, u1, u2, c.it[op] as f64) } else { accepts(l, u1, u2, n as f64, 2.0 * n as f64) }
    };
    let lim = |op: usize| if time { limits[op].0 } else { limits[op].1 };
    if !gate::deployed() && coin(300) {
        desc(&format!("CRUD test, {}, modes {mode:?}, {kind} per pass {total:?}, limits {limits:?}", c.text()));
        let r = c.test(0, "Simulated", 1, limits, &cr_body);
        if CR.get().alone || (time && sim().forced_time > 0) { return; }
        let verdicts: Vec<Option<bool>> = (0..4).map(|op| if c.enabled(op) { judged(op, lim(op)) } else { Some(true) }).collect();
        match r {
            Ok(()) => if let Some(op) = verdicts.iter().position(|v| *v == Some(false)) { violate("passed-bad", &format!("CRUD test: {kind} of {} in {} grows beyond {:?}, but the test passed", format!("{:?}", total[op]), OPS[op], lim(op))); } else { probe("accepted"); },
            Err(p) => if verdicts.iter().all(|v| *v == Some(true)) { violate("failed-good", &format!("CRUD test: every operation's {kind} {total:?} is within the limits {limits:?}, but the test failed: {p}")); } else { probe("rejected"); },
        }
        return;
    }
    desc(&format!("CRUD analysis, {}, modes {mode:?}, {kind} per pass {total:?}", c.text()));
    let a = match c.analyse(0, "Simulated", &cr_body) { Ok(a) => a, Err(p) => violate("panic", &format!("the analysis panicked: {p}")) };
    if CR.get().alone || (time && sim().forced_time > 0) { probe("not judged"); return; }
    for op in 0..4 {
        let Some(x) = &a.op[op] else { continue };
        for p in 0..2 {
            if time {
                let (got, want) = (x.t[p].as_nanos() as i128, total[op][p] as i128);
                check!((got - want).abs() <= 3 + want / 1_000_000_000, "time", "pass {} of {} is said to have taken {got}ns, its {} threads took {want}ns on average", p + 1, OPS[op], c.th[op]);
            } else {
                let m = &x.s[p];
                check!(m.max_used_memory >= m.used_memory_before, "memory", "pass {} of {}: {m:?}", p + 1, OPS[op]);
                let got = (m.max_used_memory - m.used_memory_before) as u64;
                // (the library may allocate a little, as long as it's as much for every number of elements: see deployed_crud())
                let more = if gate::deployed() { 2048 + 1024 * c.th[op] as u64 } else { 0 };
                check!(got >= total[op][p] && got <= total[op][p] + more, "memory", "pass {} of {} is said to have used up to {got} bytes, its {} threads used {} ({m:?})", p + 1, OPS[op], c.th[op], total[op][p]);
            }
            probe("passes measured");
        }
        if gate::deployed() { continue; }
        let class = if time { x.time } else { x.space };
        for l in LIMITS.iter().chain(&LIMITS_RESIZING).chain(&[C::WorseThanExponential]) {
            if let Some(v) = judged(op, *l) {
                check!((rank(class) <= rank(*l)) == v, "class", "{}: {kind} of {:?} (set sizes {n} and {}, {} iterations) is classified as {class:?}, though it is {} {l:?}", OPS[op], total[op], 2 * n, c.it[op], if v { "within" } else { "beyond" });
            }
        }
    }
}

/// the library's own allocations count, too: they may not show, however many elements and threads there are
fn deployed_crud() {
    gate::deploy();
    let n = one_of(&[64u32, 100, 2_000, 20_000]);
    let mut c = Crud { w: one_of(&[0, 0, 10]), it: [n; 4], th: [1; 4] };
    for op in 0..4 { c.th[op] = one_of(&[1u32, 1, 2, 3, 4, 5, 9]); }
    let nothing = coin(500);
    let mut limit = [C::WorseThanExponential; 4];
    let mut want = [(0u64, 0u64); 4];
    for op in 0..4 {
        if nothing || coin(300) { limit[op] = C::O1; continue; }
        let base = one_of(&[20_000u64, 50_000, 65_536]);
        if op == 0 || op == 3 { limit[op] = one_of(&LIMITS_RESIZING); want[op] = usage_resizing(limit[op], coin(500), n as f64, base); }
        else { limit[op] = one_of(&[C::O1, C::OLogN, C::ON, C::ON2]); want[op] = usage(limit[op], coin(500), n as f64, 2.0 * n as f64, base); }
    }
    desc(&format!("CRUD analysis, the crate's allocator being the global one, {}, memory per pass {want:?}", c.text()));
    // one element of each pass uses memory
    let body = move |op: usize| move |i: u32| {
        let k = i % n;
        if op == 4 || k != n / 2 { return i ^ 7; }
        gate::user(|| { let w = want[op]; let b = Blk::new(if i < n { w.0 } else { w.1 } as usize); work(1000); drop(b); });
        i ^ 5
    };
    sim().max_steps = 2_000_000;
    let f = body;
    let r = catch_unwind(AssertUnwindSafe(|| gate::lib(|| big_o_test::runners::crud::analyse_crud_algorithms("Simulated", f(4), f(0), f(1), f(2), f(3), c.w, c.it[0], c.it[1], c.it[2], c.it[3], c.th[0], c.th[1], c.th[2], c.th[3]))));
    let Ok((Some(a), Some(b), Some(d), Some(e), _)) = r else { violate("panic", &format!("the analysis panicked, or left something out: {}", crate::driver::last_panic())) };
    let classes = [a.space_complexity, b.space_complexity, d.space_complexity, e.space_complexity];
    let m = [a.algorithm_measurements.space_measurements, b.algorithm_measurements.space_measurements, d.algorithm_measurements.space_measurements, e.algorithm_measurements.space_measurements];
    for op in 0..4 {
        let got = [m[op].pass_1_measurements, m[op].pass_2_measurements].map(|m| m.max_used_memory.wrapping_sub(m.used_memory_before) as u64);
        let slack = 2048 + 1024 * c.th[op] as u64;
        for p in 0..2 {
            let w = [want[op].0, want[op].1][p];
            check!(got[p] >= w && got[p] <= w + slack, "deployed-memory", "pass {} of {}, {n} elements on {} threads, is said to have used up to {} bytes; the algorithm used {w}", p + 1, OPS[op], c.th[op], got[p]);
        }
        let judge = |u1: u64, u2: u64| if op == 0 || op == 3 { accepts_resizing(limit[op], u1 as f64, u2 as f64, n as f64) } else { accepts(limit[op], u1 as f64, u2 as f64, n as f64, 2.0 * n as f64) };
        let w = want[op];
        if w.0 == w.1 || (judge(w.0 + slack, w.1) == judge(w.0, w.1 + slack)) {
            let Some(v) = judge(w.0, w.1) else { continue };
            check!((rank(classes[op]) <= rank(limit[op])) == v, "deployed-class", "{} uses {w:?} bytes ({n} elements on {} threads): {} {:?}, but it is classified as {:?} (measured: {got:?})", OPS[op], c.th[op], if v { "within" } else { "beyond" }, limit[op], classes[op]);
            probe("passes measured with the crate's allocator as the global one");
        }
    }
}

/// C15
fn space() {
    let s = sim();
    s.cfg.stall_permille = one_of(&[0, 0, 10, 40]);
    s.cfg.spawn_delay_permille = one_of(&[0, 0, 200]);
    s.cfg.slow_thread_permille = one_of(&[0, 0, 150]);
    s.cfg.spurious_futex_permille = one_of(&[0, 100]);
    s.cfg.weak_fail_permille = one_of(&[0, 50]);
    s.cfg.wall_jump_permille = one_of(&[0, 100]);
    s.cfg.short_write_permille = one_of(&[0, 100]);
    KEPT.set(vec![]);
    POOL.set(vec![]);
    // something is in use already
    KEPT.get().extend(Blk::new(one_of(&[0usize, 1, 12_345, 1_000_000])));
    if coin(40) { return deployed_crud(); }
    if coin(100) { gate::deploy(); }
    // (the model knows nothing about what locks synchronise: see DESIGN.md)
    let k = pick(5);
    if k < 3 && coin(200) { sim().cfg.stale_permille = 100; }
    match k { 0 | 1 => space_plain(), 2 => space_async(), _ => crud_case(false) }
}

// ---- time -------------------------------------------------------------------------------------------------------------------

fn time_usage(limit: C, n1: u32, n2: u32) -> (u64, u64) {
    if coin(100) { let t = one_of(&[1u64, 40, 1_000_000, 7_200_000_000_000]); return (t, t); }
    usage(limit, coin(500), n1 as f64, n2 as f64, time_base(limit_ratio(limit, n1 as f64, n2 as f64)))
}
/// from a millisecond to weeks
fn time_base(growth: f64) -> u64 {
    let mut base = one_of(&[1_000_000u64, 50_000_000, 3_000_000_000, 123_456_789]);
    if coin(120) {
        base = one_of(&[6_000_000_000_000u64, 4_294_967_296_000, 4_400_000_000_000_000]);
        while base as f64 * growth * 20.0 > 1e17 { base /= 100; }
        if base > 1_000_000_000_000 { probe("passes that take longer than an hour"); }
    }
    base
}

fn toil(ns: u64) {
    let k = 1 + pick(4) as u64;
    for i in 0..k { work(if i == 0 { ns - ns / k * (k - 1) } else { ns / k }); }
}
fn idle(m: u64) { if coin(700) { work((one_of(&[0u64, 1, 3, 30]) * m).min(100_000_000_000_000_000)); } }

fn time_plain() {
    let (limit, n1, n2) = limit_and_sizes();
    let u = time_usage(limit, n1, n2);
    let m = u.0.max(u.1);
    desc(&format!("plain test, times {u:?} for n of {n1} and {n2}, maximum {limit:?}"));
    let r = catch_unwind(AssertUnwindSafe(|| big_o_test::test_algorithm("Simulated", 0, || idle(m), n1, || { toil(u.0); 1 }, n2, || { toil(u.1); 2 }, limit, C::WorseThanExponential))).map_err(|p| crate::driver::payload_text(&*p));
    if sim().forced_time > 0 { return; }
    verdict_of("plain test", r, limit, u, n1, n2, "time");
}

fn time_async() {
    let (limit, n1, n2) = limit_and_sizes();
    let u = time_usage(limit, n1, n2);
    let m = u.0.max(u.1);
    let c = asy::Conf { reset: coin(500), warm: coin(500), a1: coin(500), a2: coin(500), waits: pick(3), ..Default::default() };
    desc(&format!("async test, times {u:?} for n of {n1} and {n2}, maximum {limit:?}, {c:?}"));
    TOOK.set([0; 2]);
    let w = c.waits;
    let quiet = move |d: Option<u32>| { idle(m); async move { Yield(pick(3)).await; idle(m); if coin(200) { tokio::time::sleep(std::time::Duration::from_nanos(m * 3)).await; } d.unwrap_or(0) } };
    let pass = move |i: usize, t: u64| move |d: Option<u32>| {
        let t0 = now();
        // some algorithms work before they return their future
        let first = if coin(300) { t / 3 } else { 0 };
        work(first);
        async move {
            Yield(w).await;
            toil(t - first);
            if w == 2 && coin(300) { tokio::time::sleep(std::time::Duration::from_nanos(1 + t / 100)).await; }
            Yield(w).await;
            TOOK.get()[i] = now() - t0;
            d.unwrap_or(0) + 1
        }
    };
    let mut b = RegularAsyncAnalyzerBuilder::new("Simulated").first_pass(n1, pass(0, u.0)).second_pass(n2, pass(1, u.1)).with_time_measurements(limit);
    if c.reset { b = b.with_reset_fn(quiet); }
    if c.warm { b = b.warmup_pass(quiet); }
    if c.a1 { b = b.first_pass_assertion(move |_: &u32| { idle(m); async move { Yield(1).await; idle(m) } }); }
    if c.a2 { b = b.second_pass_assertion(move |_: &u32| { idle(m); async move { Yield(1).await; idle(m) } }); }
    let rt = asy::runtime();
    let r = catch_unwind(AssertUnwindSafe(|| rt.block_on(asy::Hop::new(b.test_algorithm())))).map_err(|p| crate::driver::payload_text(&*p));
    if sim().forced_time > 0 { return; }
    let took = *TOOK.get();
    verdict_of("async test", r, limit, (took[0], took[1]), n1, n2, "time");
}
static TOOK: G<[u64; 2]> = G::new();

/// C16
fn time() {
    let slow = coin(400);
    quiet_faults(slow);
    if slow { sim().cfg.slow_write_permille = one_of(&[100, 300]); }
    let s = sim();
    s.cfg.spawn_delay_permille = one_of(&[0, 200]);
    s.cfg.slow_thread_permille = one_of(&[0, 200]);
    KEPT.set(vec![]);
    match pick(5) { 0 => time_plain(), 1 | 2 => time_async(), _ => crud_case(true) }
}

pub const REAL: &[&str] = &["big-o-test library code (complete crate, compiled with --cfg big_o_sim)", "std threads (one runs at a time)", "tokio's current_thread runtime and timers"];

pub fn props() -> Vec<Prop> {
    let stub: &[&str] = &["thread scheduler, clocks, timers, futexes and fd 1/2 below libc", "system allocator", "user functions (scripted time and memory)"];
    let real = REAL;
    let _ = Tok::new;
    vec![
        Prop { id: "C15", run: space, variants: &[("err", 5)], quick: 120_000, thorough: 3_000_000, real, stub, assumptions: &["set sizes of at least 16 elements", "what the user's functions use is obtained explicitly through the crate's allocator; the library's own allocations go through it in about an eighth of the runs, in which slight deviations (2 KiB + 1 KiB per thread) are not judged, unless a class or a verdict changes"],
            rule: "plain, async and CRUD algorithms with an exactly known peak per pass (one thread, threads of their own, worker threads made to overlap, older memory freed first), set right below or above what a random limit allows, with allocations in resets, warm-ups and assertions, the crate's allocator being the global one for the library itself in some runs (up to 20000 elements, 9 threads); measured peaks, classes and verdicts compared with the reference; non-trivial = preemption or fault; distinct = event-log hash" },
        Prop { id: "C16", run: time, variants: &[("err", 5)], quick: 160_000, thorough: 3_000_000, real, stub, assumptions: &["set sizes of at least 16 elements"],
            rule: "plain, async and CRUD algorithms that take exactly known times, set right below or above what a random limit allows, with unequal loads per thread, slow thread starts and ends, slow writes, wall clock jumps, and time spent in resets, warm-ups and assertions; measured times, classes and verdicts compared with the reference; non-trivial = preemption or fault; distinct = event-log hash" },
    ]
}
