//! C09, C10, C11: the CRUD runner's calls, their order, and the retries.

use super::run::*;
use super::*;
use crate::sim::*;
use std::collections::{HashMap, HashSet};

fn config(zeroes: bool) -> Crud {
    let mut c = Crud { w: one_of(&[0, 50, 100, 25, 10, 37, 99, 1, 150, 200]), it: [0; 4], th: [1; 4] };
    let same = coin(300);
    let th = one_of(&[1u32, 2, 3, 4, 5, 7]);
    for op in 0..4 {
        c.it[op] = match pick(8) { 0 => 1 + pick(3), 1..=4 => 1 + pick(12), 5 => 4 * (1 + pick(4)), 6 => 1 + pick(24), _ => if op == 0 { 2 } else { 0 } };
        if c.w > 0 && coin(120) { c.it[op] = one_of(&[100, 40, 60]); }
        c.th[op] = if same { th } else { one_of(&[1u32, 2, 3, 4, 5, 8]) };
        // many threads
        if coin(40) { c.th[op] = one_of(&[16u32, 17, 24, 32, 40, 64]); if coin(700) { c.it[op] = c.th[op] * (1 + pick(2)); } }
        if zeroes && coin(150) { if coin(400) { c.th[op] = 0; } else { c.it[op] = 0; } }
    }
    if (0..4).all(|op| !c.enabled(op)) && !zeroes { c.it[0] = 3; c.th[0] = 1; }
    c
}

struct St { c: Crud, arrived: HashMap<(u8, u32), (usize, usize)>, seen: HashSet<(u8, u32, usize)>, reset: bool, style: u32, rendezvous: bool }
static ST: G<St> = G::new();

/// every thread of a pass waits for its siblings in its first call: they have to run at the same time
fn meet(op: u8, n: u32) {
    let s = ST.get();
    if !s.rendezvous || op == RESET || (s.c.w > 0 && !s.reset) { return; }
    let (it, th) = (s.c.it[op as usize], s.c.th[op as usize]);
    if it % th != 0 || th < 2 { return; }
    let pass = n / it;
    if !s.seen.insert((op, pass, tid())) { return; }
    let e = s.arrived.entry((op, pass)).or_insert_with(|| { sim().next_user_key += 1; (0, sim().next_user_key) });
    e.0 += 1;
    let (have, key) = *e;
    if have >= th as usize { sim().wake(Key::User(key), usize::MAX); probe("threads of a pass met"); return; }
    while ST.get().arrived[&(op, pass)].0 < th as usize {
        let d = now() + 86_400_000_000_000;
        if sim().block(Key::User(key), Some(d)) == Wake::Timeout && ST.get().arrived[&(op, pass)].0 < th as usize {
            violate("not-concurrent", &format!("only {} of {th} threads of the {} pass ran at the same time", ST.get().arrived[&(op, pass)].0, OPS[op as usize]));
        }
    }
}

fn body(op: u8, n: u32) {
    meet(op, n);
    match ST.get().style { 0 => {} 1 => work(1000), 2 => work(1 + (n as u64 * 7919) % 5000), _ => if n % 5 == 0 { work(50_000 * (1 + tid() as u64 % 3)) } else { yp() } }
    if op == RESET { ST.get().reset = true; }
}

fn faults() {
    let s = sim();
    s.cfg.stall_permille = one_of(&[0, 0, 10, 40]);
    s.cfg.spawn_delay_permille = one_of(&[0, 0, 200]);
    s.cfg.spurious_futex_permille = one_of(&[0, 100]);
    s.cfg.weak_fail_permille = one_of(&[0, 50]);
}

fn go(c: Crud, rendezvous: bool) -> Result<Analyses, String> {
    CALLS.set(vec![]);
    ST.set(St { c, arrived: HashMap::new(), seen: HashSet::new(), reset: false, style: pick(4), rendezvous });
    desc(&c.text());
    let r = c.analyse(0, "Simulated", &body);
    let after = stamp();
    stage("after the analysis");
    // whatever is still running now goes on
    if sim().live_threads() > 1 { work(1_000_000_000); }
    for x in CALLS.get().iter() { check!(x.end < after, "outlived", "{}({}) on thread {} was still going on after the analysis had ended", OPS[x.op as usize], x.n, x.tid); }
    r
}

/// C09
fn once() {
    if chosen(0) { return huge(1); }
    if chosen(1) { return huge(0); }
    if coin(10) { return huge(2); }
    let c = config(false);
    faults();
    if let Err(p) = go(c, coin(700)) { violate("panic", &format!("the analysis panicked: {p}")); }
    let calls = sorted_calls(0);
    let reset = calls.iter().filter(|x| x.op == RESET).map(|x| x.start).next().unwrap_or(0);
    for op in 0..4 {
        let n = if c.enabled(op) { c.it[op] } else { 0 };
        let mine: Vec<&Call> = calls.iter().filter(|x| x.op as usize == op).collect();
        let groups: [(String, u32, u32, Vec<&Call>); 3] = [
            ("warm-up".into(), 0, if c.w > 0 && n > 0 { c.warm(op) } else { 0 }, mine.iter().filter(|x| c.w > 0 && x.start < reset).copied().collect()),
            ("pass 1".into(), 0, n, mine.iter().filter(|x| x.start > reset && x.n < n).copied().collect()),
            ("pass 2".into(), n, 2 * n, mine.iter().filter(|x| x.start > reset && x.n >= n).copied().collect())];
        for (g, lo, hi, cs) in &groups {
            let mut count = HashMap::new();
            for x in cs { *count.entry(x.n).or_insert(0) += 1; }
            for k in *lo..*hi {
                let m = count.get(&k).copied().unwrap_or(0);
                check!(m == 1, "not-once", "{} of element {k} was called {m} times in {g} (elements {lo}..{hi}, {} threads)", OPS[op], c.th[op]);
            }
            if let Some(k) = count.keys().find(|k| **k < *lo || **k >= *hi) { violate("out-of-range", &format!("{} was called in {g} for element {k}, which isn't one of {lo}..{hi}", OPS[op])); }
            let mut tids: HashMap<usize, Vec<u32>> = HashMap::new();
            for x in cs { tids.entry(x.tid).or_default().push(x.n); }
            check!(tids.len() <= c.th[op] as usize, "too-many-threads", "{} threads worked on {g} of {}, {} were asked for", tids.len(), OPS[op], c.th[op]);
            for v in tids.values() {
                let up = v.windows(2).all(|w| w[1] == w[0] + 1);
                let down = v.windows(2).all(|w| w[0] == w[1] + 1);
                check!(up || down, "not-contiguous", "a thread got the elements {v:?} in {g} of {}", OPS[op]);
            }
            if cs.len() > 1 && tids.len() > 1 { probe("passes split over several threads"); }
            if (*hi - *lo) % c.th[op] != 0 { probe("passes that don't divide evenly"); }
            if hi > lo && c.th[op] > hi - lo { probe("passes with more threads than elements"); }
        }
    }
    probe_n("user calls", calls.len() as u64);
}

// ---- huge numbers of iterations ---------------------------------------------------------------------------------------------

/// a stretch of calls of one thread for consecutive elements
struct Seg { tid: usize, op: u8, first: u32, last: u32, count: u64, step: i64, after: usize }
/// the stretches, and the arguments of the resets, each with the number of stretches there were before
struct Huge { segs: Vec<Seg>, resets: Vec<(u32, usize)> }
static HUGE: G<Huge> = G::new();

#[inline]
fn huge_call(op: u8, n: u32) -> u32 {
    let h = HUGE.get();
    let t = tid();
    if op == RESET { let k = h.segs.len(); h.resets.push((n, k)); return n; }
    let len = h.segs.len();
    let resets = h.resets.len();
    for s in h.segs[len.saturating_sub(80)..].iter_mut().rev() {
        if s.tid != t { continue; }
        let d = n as i64 - s.last as i64;
        if s.op == op && s.after == resets && (d == s.step || s.step == 0 && (d == 1 || d == -1)) { s.last = n; s.count += 1; s.step = d; return n; }
        break;
    }
    if len > 5_000 { violate("not-contiguous", "the threads of the passes got thousands of separate runs of elements"); }
    h.segs.push(Seg { tid: t, op, first: n, last: n, count: 1, step: 0, after: resets });
    n
}

/// C09 and C10 with numbers of iterations as big as they can be called at all
fn huge(which: u32) {
    if which != 2 { allow_seconds(150); } else { sim().max_steps = 1_000_000; }
    let mut c = Crud { w: 0, it: [0; 4], th: [1; 4] };
    let op = pick(4) as usize;
    match which {
        // 32 bits products of iterations and percentages overflow
        0 => { c.w = 90 + pick(11); c.it[op] = 43_000_000 + pick(5_000_000); c.th[op] = 1 + pick(3); let o2 = pick(4) as usize; if c.it[o2] == 0 { c.it[o2] = 5; } }
        // (numbers of iterations and threads of all kinds)
        2 => { c.w = one_of(&[0, 0, 50, 100, 33]); for o in 0..4 { c.it[o] = match pick(4) { 0 => 0, 1 => 1 + pick(100), 2 => 1 + pick(700), _ => 1 + pick(5000) }; c.th[o] = 1 + if coin(500) { pick(64) } else { pick(16) }; } }
        // as do those of iterations and anything else; the last element's number is almost 2^32
        _ => { c.it[op] = (1 << 31) - 1 - pick(3); c.th[op] = one_of(&[1, 2, 3, 7, 64]); }
    }
    desc(&c.text());
    HUGE.set(Huge { segs: vec![], resets: vec![] });
    let f = |op: u8| move |n: u32| huge_call(op, n);
    stage("an analysis with a huge number of iterations");
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| big_o_test::runners::crud::analyse_crud_algorithms("Huge", f(RESET), f(CREATE), f(READ), f(UPDATE), f(DELETE), c.w,
        c.it[0], c.it[1], c.it[2], c.it[3], c.th[0], c.th[1], c.th[2], c.th[3])));
    let Ok(r) = r else { violate("panic", &format!("the analysis panicked: {}", crate::driver::last_panic())) };
    check!([r.0.is_some(), r.1.is_some(), r.2.is_some(), r.3.is_some()] == [c.it[0] > 0, c.it[1] > 0, c.it[2] > 0, c.it[3] > 0], "analysis-presence", "not exactly the operations with iterations have an analysis");
    let h = HUGE.get();
    if c.w > 0 { let got: Vec<u32> = h.resets.iter().map(|x| x.0).collect(); check!(got == vec![c.warm(0)], "reset", "the reset was called with {got:?}, the warm-up has {} elements", c.warm(0)); }
    else { check!(h.resets.is_empty(), "reset", "the reset was called without a warm-up"); }
    for o in 0..4usize {
        let n = c.it[o];
        let groups = [("warm-up", 0, if c.w > 0 { c.warm(o) } else { 0 }), ("pass 1", 0, n), ("pass 2", n, 2 * n)];
        for (g, (name, lo, hi)) in groups.into_iter().enumerate() {
            let after = if c.w > 0 && g > 0 { 1 } else { 0 };
            // stretches may go on from one pass into the other, on the same thread
            let mut v: Vec<(u64, u64)> = vec![];
            for s in h.segs.iter().filter(|s| s.op as usize == o && s.after == after && (g > 0 || c.w > 0)) {
                let (a, b) = (s.first.min(s.last) as u64, s.first.max(s.last) as u64 + 1);
                let limits = if g == 0 { (0, u64::MAX) } else if g == 1 { (0, n as u64) } else { (n as u64, u64::MAX) };
                let (a, b) = (a.max(limits.0), b.min(limits.1));
                if a < b { v.push((a, b)); }
            }
            v.sort();
            let mut at = lo as u64;
            for (a, b) in &v {
                check!(*a >= at, "not-once", "{name} of {}: element {a} was called more than once", OPS[o]);
                check!(*a == at, "not-once", "{name} of {}: element {at} (of {lo}..{hi}) wasn't called", OPS[o]);
                at = *b;
            }
            check!(at >= hi as u64, "not-once", "{name} of {}: element {at} (of {lo}..{hi}) wasn't called", OPS[o]);
            check!(at == hi as u64, "out-of-range", "{name} of {}: element {hi} was called, which isn't one of {lo}..{hi}", OPS[o]);
            check!(v.len() <= (c.th[o] as usize).max(1), "too-many-threads", "{name} of {}: {} runs of elements for {} threads", OPS[o], v.len(), c.th[o]);
        }
    }
    // each operation's passes in their order
    let first = |o: usize, pass: u32| h.segs.iter().position(|s| s.op as usize == o && s.after == (c.w > 0) as usize && (s.first.max(s.last) >= c.it[o]) == (pass == 2));
    for o in 0..4 { if let (Some(a), Some(b)) = (first(o, 1), first(o, 2)) { check!((a < b) == (o != 3), "order", "the passes of {} ran in the wrong order", OPS[o]); } }
    probe(if which == 2 { "analyses with any number of iterations and threads" } else { "analyses with huge numbers of iterations" });
}

/// C10
fn order() {
    if chosen(0) { return huge(0); }
    if coin(10) { return huge(2); }
    let c = config(true);
    faults();
    let r = match go(c, false) { Ok(r) => r, Err(p) => violate("panic", &format!("the analysis panicked: {p}")) };
    for op in 0..4 { check!(r.op[op].is_some() == c.enabled(op), "analysis-presence", "{} with {} iterations on {} threads {} an analysis", OPS[op], c.it[op], c.th[op], if r.op[op].is_some() { "has" } else { "has no" }); }
    let calls = sorted_calls(0);
    for x in &calls { if x.op != RESET { check!(c.enabled(x.op as usize), "skipped-ran", "{} was called, though it has {} iterations on {} threads", OPS[x.op as usize], c.it[x.op as usize], c.th[x.op as usize]); } }
    let ph = c.phases();
    match c.assign(&calls) {
        Err(e) => violate("order", &format!("{e}; documented: {ph:?}")),
        Ok(of) => {
            for k in 1..ph.len() {
                let end = calls.iter().zip(&of).filter(|(_, p)| **p < k).map(|(x, _)| x.end).max().unwrap_or(0);
                if let Some((x, _)) = calls.iter().zip(&of).filter(|(_, p)| **p == k).find(|(x, _)| x.start < end) {
                    violate("overlap", &format!("{}({}) of the phase {:?} started before the previous one had ended", OPS[x.op as usize], x.n, ph[k]));
                }
            }
            let resets: Vec<u32> = calls.iter().filter(|x| x.op == RESET).map(|x| x.n).collect();
            if c.w > 0 {
                let want = if c.enabled(0) { c.warm(0) } else { 0 };
                check!(resets == vec![want], "reset", "the reset was called with {resets:?}, the warm-up has {want} elements");
            } else { check!(resets.is_empty(), "reset", "the reset was called without a warm-up"); }
        }
    }
    if c.w > 0 { probe("warm-ups"); }
    if (0..4).any(|o| c.it[o] > 0 && c.th[o] == 0) { probe("operations without threads"); }
    if (0..4).any(|o| c.it[o] == 0) { probe("operations without iterations"); }
    probe_n("phases", ph.len() as u64);
}

// ---- retries ----------------------------------------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq)]
enum Fate { Good, Slow(usize), Fat(usize) }
struct Re { fates: Vec<Fate>, attempt: usize, w: u32, resets: u32, held: Vec<(usize, std::alloc::Layout)>, ops: Vec<HashSet<u8>>, creates: Vec<u32>, phase_creates: u32, order_d: u32 }
static RE: G<Re> = G::new();

fn retry_body(op: u8, n: u32) {
    use std::alloc::GlobalAlloc;
    let r = RE.get();
    if op == RESET {
        r.resets += 1;
        work(2_000);
        // the warm-up's reset, or the one before a retry?
        let warm = r.w > 0 && r.resets % 2 == 1;
        for (p, l) in r.held.drain(..) { unsafe { big_o_test::ALLOC.dealloc(p as *mut u8, l) } }
        if !warm { r.attempt += 1; r.ops.push(HashSet::new()); r.creates.push(0); }
        r.phase_creates = 0;
        return;
    }
    let warm = r.w > 0 && r.resets % 2 == 0;
    let a = r.attempt;
    if !warm { r.ops[a].insert(op); if op == CREATE { r.creates[a] += 1; } }
    let fate = *r.fates.get(a).unwrap_or(&Fate::Good);
    let slow = !warm && fate == Fate::Slow(op as usize);
    let fat = !warm && fate == Fate::Fat(op as usize);
    // steep growth with the element's number makes the second pass much bigger than the first one
    let k = n as u64 + 1;
    if op != DELETE || true {
        let size = if fat { (k * k) as usize * 8 } else { 64 };
        let l = std::alloc::Layout::from_size_align(size, 8).unwrap();
        let p = unsafe { big_o_test::ALLOC.alloc(l) } as usize;
        if p != 0 { RE.get().held.push((p, l)); }
    }
    work(if slow { 1000 + k * k * 1000 } else { 100_000 });
}

fn many_attempts((k, max): (u32, u32)) {
    static N: G<(u32, u32)> = G::new();
    N.set((1, 0));
    desc(&format!("a CRUD test whose first {k} attempts are too slow, {max} attempts"));
    CALLS.set(vec![]);
    let c = Crud { w: 0, it: [1, 0, 0, 0], th: [1; 4] };
    let body = move |op: u8, n: u32| {
        let s = N.get();
        if op == RESET {
            check!(n == 2 && s.1 == 2, "retry-reset", "the reset before a retry was called with {n}, though {} elements had been created", s.1);
            *s = (s.0 + 1, 0);
            return;
        }
        check!(op == CREATE && n == s.1, "operation", "{}({n}) was called, create({}) was due", OPS[op as usize], s.1);
        s.1 += 1;
        work(if n == 1 && s.0 <= k { 9_000_000 } else { 1_000_000 });
    };
    let t0 = now();
    let r = c.test(0, "Retried", max, [(C::O1, C::WorseThanExponential); 4], &body);
    super::plain::judge_lots("CRUD test", (k, max), N.get().0, now() - t0, 0, r);
}

/// C11
fn retries() {
    if let Some(l) = super::plain::lots_of(false) { return many_attempts(l); }
    let mut c = Crud { w: one_of(&[0, 0, 50, 25]), it: [0; 4], th: [1; 4] };
    let few = coin(250);
    // a retry may run with a tenth of the elements: limits that depend on their number are only told on many
    let many = coin(50);
    // the counts of each retry are adapted in a cycle: tests with many attempts go through all of it
    let long = !many && coin(60);
    let attempts = if long { 10 + pick(30) } else { pick(5) };
    // more attempts than will ever be needed
    let vast = coin(60);
    let attempts = if vast { one_of(&[1_000, 1_000_000, u32::MAX, u32::MAX - 1, 1 << 31]) } else { attempts };
    for op in 0..4 {
        c.it[op] = if few { 1 + pick(9) } else if many { 160 + pick(30) } else { 16 + pick(12) };
        if op > 0 && coin(400) { c.it[op] = 0; }
        c.th[op] = if long { 1 + pick(2) } else { one_of(&[1u32, 1, 2, 4]) };
    }
    let enabled: Vec<usize> = (0..4).filter(|&o| c.it[o] > 0).collect();
    let total = if vast { 3 + pick(4) as usize } else { attempts.max(1) as usize };
    let s = sim();
    s.max_steps = 4_000_000;
    s.cfg.eintr_sleep_permille = one_of(&[0, 100]);
    s.cfg.short_write_permille = one_of(&[0, 200]);
    s.cfg.eintr_write_permille = one_of(&[0, 100]);
    s.cfg.wall_jump_permille = one_of(&[0, 100]);
    s.cfg.spurious_futex_permille = one_of(&[0, 100]);
    // with few elements the counts may be too small for the growth to tell: nothing but the number of calls is judged then
    let mut fates = vec![];
    let until = if long && !vast { pick(attempts + 4) as usize } else { 0 };
    for i in 0..total { fates.push(if i < until { Fate::Slow(one_of(&enabled)) } else { match pick(5) { 0 => Fate::Good, 1 if !few => Fate::Fat(one_of(&enabled)), _ => Fate::Slow(one_of(&enabled)) } }); }
    let mut limits = [(C::O1, C::O1); 4];
    for l in limits.iter_mut() { *l = if many { (one_of(&[C::O1, C::OLogN]), one_of(&[C::O1, C::OLogN])) } else { (C::O1, C::O1) }; }
    if vast && !few { let i = total - 1; fates[i] = if coin(300) { Fate::Fat(one_of(&enabled)) } else { Fate::Good }; probe("tests with vast numbers of attempts"); }
    if few { for l in limits.iter_mut() { l.1 = C::WorseThanExponential; } fates = vec![]; }
    desc(&format!("{}, {attempts} attempts, fates {fates:?}", c.text()));
    CALLS.set(vec![]);
    RE.set(Re { fates: fates.clone(), attempt: 0, w: c.w, resets: 0, held: vec![], ops: vec![HashSet::new()], creates: vec![0], phase_creates: 0, order_d: 0 });
    if few {
        // constant set operations on few elements can't be told apart by growth: all of them take part, some attempts are slow for good
        let k = pick(total as u32 + if vast { 0 } else { 2 }) as usize;
        let slow_op = one_of(&enabled);
        for i in 0..total { RE.get().fates.push(if i < k { Fate::Slow(slow_op) } else { Fate::Good }); }
    }
    let name = "Retried";
    let r = c.test(0, name, attempts, limits, &retry_body);
    let st = RE.get();
    let made = st.attempt + 1;
    let calls = sorted_calls(0);
    // every requested operation, in every attempt that isn't cut short before it
    for (a, ops) in st.ops.iter().enumerate() {
        let last = a + 1 == made;
        for &op in &enabled {
            let due = op != 3 || (last && r.is_ok());
            check!(!due || ops.contains(&(op as u8)), "operation-dropped", "attempt {} of {total} never called {} ({} iterations asked for)", a + 1, OPS[op], c.it[op]);
        }
    }
    check!(made <= total, "too-many-attempts", "{made} attempts were made, {total} allowed");
    // resets before retries get the number of elements created
    let resets: Vec<&Call> = calls.iter().filter(|x| x.op == RESET).collect();
    for (i, x) in resets.iter().enumerate() {
        let warm = c.w > 0 && i % 2 == 0;
        if !warm {
            let a = if c.w > 0 { i / 2 } else { i };
            check!(x.n == st.creates[a], "retry-reset", "the reset before a retry was called with {}, though {} elements had been created", x.n, st.creates[a]);
            probe("resets before a retry");
        }
    }
    if few { probe("retries with few iterations"); return; }
    // the reference: attempts go on until the first one that's good or fat
    let want_made = (0..total).find(|&i| !matches!(fates[i], Fate::Slow(_))).map_or(total, |i| i + 1);
    check!(made == want_made, "attempts", "{made} attempts were made, {want_made} were due (fates {fates:?})");
    match (fates[want_made - 1], &r) {
        (Fate::Good, Ok(())) => { probe("tests passed"); if made > 15 { probe("tests passed after more than 15 attempts"); } }
        (Fate::Good, Err(p)) => violate("failed-good", &format!("attempt {want_made} met every limit, but the test panicked: {p}")),
        (f, Ok(())) => violate("passed-bad", &format!("the test passed, though attempt {want_made} was {f:?}")),
        (Fate::Slow(op), Err(p)) | (Fate::Fat(op), Err(p)) => {
            let kind = if matches!(fates[want_made - 1], Fate::Slow(_)) { "time" } else { "space" };
            let low = p.to_lowercase();
            check!(low.contains(kind) && low.contains(OPS[op]), "panic-message", "the panic doesn't name the {kind} limit of '{}': {p}", OPS[op]);
            probe("tests rejected");
        }
    }
    let _ = (st.order_d, st.phase_creates);
}

pub fn props() -> Vec<Prop> {
    let stub: &[&str] = &["thread scheduler, clocks, timers, futexes and fd 1/2 below libc", "user functions (recording closures)"];
    let a: &[&str] = &["analyses have up to 100 iterations per pass, but for one (C09: two) with up to 2^31-1 per check"];
    vec![
        Prop { id: "C09", run: once, variants: &[], quick: 40_000, thorough: 600_000, real: REAL_ALL, stub, assumptions: a,
            rule: "CRUD analyses with random iteration counts (uneven splits, fewer elements than threads), thread counts, warm-ups and call durations, stalled threads, delayed thread creation; every call compared with the pass's exact element range, threads of evenly split passes made to meet; non-trivial = preemption or fault; distinct = event-log hash" },
        Prop { id: "C10", run: order, variants: &[], quick: 60_000, thorough: 600_000, real: REAL_ALL, stub, assumptions: a,
            rule: "CRUD analyses with any subset of operations, zero iterations or threads, warm-ups, stalls and delayed thread creation; every call assigned to a phase of the documented sequence, no overlap allowed; non-trivial = preemption or fault; distinct = event-log hash" },
        Prop { id: "C11", run: retries, variants: &[], quick: 40_000, thorough: 300_000, real: REAL_ALL, stub, assumptions: a,
            rule: "CRUD tests whose attempts are scripted to be good, too slow or too fat in one operation; attempts, resets, verdict and message compared with the script; non-trivial = preemption or fault; distinct = event-log hash" },
    ]
}
