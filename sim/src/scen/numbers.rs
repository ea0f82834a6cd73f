//! C23: the numbers a report shows are those of the passes it reports.

use super::asy::{self, Yield};
use super::report::any_name;
use super::run::*;
use super::verdict::split;
use super::*;
use crate::sim::*;
use big_o_test::RegularAsyncAnalyzerBuilder;
use std::collections::{HashMap, VecDeque};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// what a pass really took: time, and the memory in use relative to its start -- at most, at least, and at the end
#[derive(Clone, Copy, Default, Debug, PartialEq)]
struct Took { ns: u64, hi: i64, lo: i64, end: i64 }
impl Took {
    /// the biggest change of the memory in use, either way
    fn change(&self) -> f64 { self.hi.max(-self.lo) as f64 }
    fn auxiliary(&self) -> i64 { self.hi - self.end.max(0) }
}

/// the memory obtained by the user's functions, and its course since the pass in progress began
struct Mem { blocks: VecDeque<Blk>, level: i64, hi: i64, lo: i64 }
static MEM: G<Mem> = G::new();
impl Mem {
    fn moved(&mut self, by: i64) { self.level += by; self.hi = self.hi.max(self.level); self.lo = self.lo.min(self.level); }
    fn get(size: usize) { if let Some(b) = Blk::new(size) { MEM.get().moved(size as i64); MEM.get().blocks.push_back(b); } }
    fn zeroed(size: usize) { if let Some(b) = Blk::zeroed(size) { MEM.get().moved(size as i64); MEM.get().blocks.push_back(b); } }
    fn give(newest: bool) {
        let m = MEM.get();
        let b = if newest { m.blocks.pop_back() } else { m.blocks.pop_front() };
        if let Some(b) = b { let n = b.size() as i64; drop(b); MEM.get().moved(-n); }
    }
    fn resize(size: usize) {
        let Some(mut b) = MEM.get().blocks.pop_back() else { return };
        let old = b.size() as i64;
        b.resize(size.max(1));
        MEM.get().moved(b.size() as i64 - old);
        MEM.get().blocks.push_back(b);
    }
    fn begin() { let m = MEM.get(); m.level = 0; m.hi = 0; m.lo = 0; }
    fn took(ns: u64) -> Took { let m = MEM.get(); Took { ns, hi: m.hi, lo: m.lo, end: m.level } }
}

fn amount() -> usize {
    match pick(8) { 0 => 1 + pick(10) as usize, 1 => one_of(&[1000, 1023, 1024, 1025]), 2 => one_of(&[(1 << 20) - 1, 1 << 20, (1 << 20) + 1]), 3 => 1 + pick(5_000_000) as usize, 4 => one_of(&[300_000_000usize, (1 << 30) + 1, 5 << 30, 1 << 30]) , _ => 1 + pick(100_000) as usize }
}

/// memory in use that has nothing to do with the pass
fn older() { for _ in 0..pick(4) { Mem::get(match pick(4) { 0 => one_of(&[16_777_216usize, 16_777_217, 50_000_001, 3 << 30]), _ => amount() }); } }

/// obtains, gives back and resizes memory
fn some_memory() {
    for _ in 0..pick(5) {
        match pick(9) { 0..=3 => Mem::get(amount()), 4 => Mem::zeroed(amount()), 5 => Mem::give(true), 6 => Mem::give(false), 7 => Mem::resize(amount()), _ => yp() }
    }
    // just about as much as before
    if coin(150) { let d = MEM.get().level; if d > 0 { Mem::give(true); } else if d < 0 && d > -(1 << 33) { Mem::get((-d + one_of(&[0i64, 1])) as usize); } }
}

fn some_time() -> u64 {
    match pick(8) { 0 => pick(3) as u64, 1 => one_of(&[999u64, 1_000, 1_001, 999_999, 1_000_000, 999_999_999, 1_000_000_000]), 2 => 1 + pick(2_000) as u64, 3 => 59_000_000_000 + pick(2_000_000_000) as u64, 4 => 7_200_000_000_000, _ => 1 + pick(2_000_000_000) as u64 }
}

// ---- reading a report -----------------------------------------------------------------------------------------------------

/// the two numbers of a table's row, or nothing
fn rows(text: &str) -> Vec<(u32, Vec<String>)> {
    text.lines().map(|l| l.trim()).filter_map(|l| {
        let n = if l.starts_with("1) ") { 1 } else if l.starts_with("2) ") { 2 } else { return None };
        Some((n, l[3..].split_whitespace().map(|s| s.to_string()).collect()))
    }).collect()
}

const TIME_UNITS: [(&str, f64); 4] = [("ns", 1.0), ("µs", 1e3), ("ms", 1e6), ("s", 1e9)];
const SPACE_UNITS: [(&str, f64); 4] = [("GiB", (1u64 << 30) as f64), ("MiB", (1u64 << 20) as f64), ("KiB", 1024.0), ("b", 1.0)];

fn number(s: &str, units: &[(&str, f64)]) -> Option<(f64, f64)> {
    let cut = s.find(|c: char| !(c.is_ascii_digit() || c == '.'))?;
    let u = units.iter().find(|u| u.0 == &s[cut..])?;
    Some((s[..cut].parse::<f64>().ok()? * u.1, u.1))
}

/// a time, shown with at least `digits` decimals of its unit (None: exactly)
fn check_time(what: &str, shown: &str, ns: f64, digits: Option<i32>) {
    let Some((got, _)) = number(shown, &TIME_UNITS) else { violate("unreadable", &format!("{what}: {shown:?} is not a time")) };
    let unit = TIME_UNITS.iter().rev().find(|u| u.1 <= ns).map_or(1.0, |u| u.1);
    let slack = match digits { None => 0.5, Some(d) => 0.501 * unit * 10f64.powi(-d) + 1.0 } + ns * 2e-9;
    check!((got - ns).abs() <= slack, "time", "{what}: {shown} is shown, it was {ns}ns");
}

/// an amount of memory, shown with two decimals of its unit
fn check_amount(what: &str, shown: &str, bytes: f64) {
    let Some((got, _)) = number(shown, &SPACE_UNITS) else { violate("unreadable", &format!("{what}: {shown:?} is not an amount of memory")) };
    let unit = SPACE_UNITS.iter().find(|u| u.1 <= bytes).map_or(1.0, |u| u.1);
    check!((got - bytes).abs() <= 0.00501 * unit + 0.001 + bytes * 2e-6, "memory", "{what}: {shown} is shown, it was {bytes} bytes");
}

/// an amount of memory with the sign that tells whether it was retained or freed
fn check_signed(what: &str, shown: &str, m: &Took, over: f64) {
    let (sign, rest) = match shown.as_bytes().first() { Some(b'+') => (1, &shown[1..]), Some(b'-') => (-1, &shown[1..]), _ => (0, shown) };
    check!(sign == m.end.signum(), "sign", "{what}: {shown} is shown, though the pass {} ({m:?})", match m.end.signum() { 1 => "retained memory", -1 => "freed memory", _ => "neither retained nor freed memory" });
    check_amount(what, rest, m.change() / over);
}

/// "time/memory"
fn check_token(what: &str, text: &str, m: &Took) {
    let end = text.find(|c: char| c.is_whitespace() || ";,)".contains(c)).unwrap_or(text.len());
    let Some((t, s)) = text[..end].split_once('/') else { violate("unreadable", &format!("{what}: a time and an amount of memory were expected at: {}", &text[..end])) };
    check_time(what, t, m.ns as f64, None);
    check_signed(what, s, m, 1.0);
}

fn after<'a>(text: &'a str, mark: &str, from: &mut usize) -> &'a str {
    match text[*from..].find(mark) {
        Some(i) => { *from += i + mark.len(); &text[*from..] }
        None => violate("incomplete", &format!("{mark:?} is missing in, or in a wrong place of:\n{text}")),
    }
}

/// what an analysis' table says
struct Table { size: [u64; 2], reps: Option<u64>, each: [u64; 2], per_size: bool }

fn check_table(what: &str, rows: &[(u32, Vec<String>)], t: &Table, took: &[Took; 2]) {
    for p in 0..2 {
        let w = format!("{what}, pass {}", p + 1);
        let (n, r) = &rows[p];
        check!(*n as usize == p + 1, "order", "{what}: the rows of the table are out of order");
        check!(r.len() == 4 + (t.reps.is_some() || t.per_size) as usize, "unreadable", "{w}: the row is {r:?}");
        let m = &took[p];
        check_time(&format!("{w}, Δt"), &r[0], m.ns as f64, None);
        check_signed(&format!("{w}, Δs"), &r[1], m, 1.0);
        check!(r[2] == t.size[p].to_string(), "size", "{w}: a set of {} is shown, it had {}", r[2], t.size[p]);
        if let Some(k) = t.reps { check!(r[3] == k.to_string(), "size", "{w}: {} repetitions are shown, there were {k}", r[3]); }
        if t.per_size { check_signed(&format!("{w}, s⁻"), &r[3], m, t.size[p] as f64); }
        check_time(&format!("{w}, t⁻"), &r[r.len() - 1], m.ns as f64 / t.each[p] as f64, Some(3));
    }
    probe("tables compared");
}

const NAMES: [(&str, C); 17] = [("Better than O(1)", C::BetterThanO1), ("O(1)", C::O1), ("Worse than O(1), but better than O(log(n))", C::BetweenO1AndOLogN), ("O(log(n))", C::OLogN),
    ("Worse than O(log(n)), but better than O(n)", C::BetweenOLogNAndON), ("O(n)", C::ON), ("Worse than O(n), but better than O(n.log(n))", C::BetweenONAndONLogN), ("O(n.log(n))", C::ONLogN),
    ("Worse than O(n.log(n)), but better than O(n²)", C::BetweenONLogNAndON2), ("O(n²)", C::ON2), ("Worse than O(n²), but better than O(n³)", C::BetweenON2AndON3), ("O(n³)", C::ON3),
    ("Worse than O(n³), but better than O(n⁴)", C::BetweenON3AndON4), ("O(n⁴)", C::ON4), ("Worse than O(n⁴), but better than O(kⁿ)", C::BetweenON4AndOkN), ("O(kⁿ)", C::OkN), ("Worse than Exponential!!", C::WorseThanExponential)];

fn class_of(what: &str, text: &str) -> C {
    // (advice may follow, and the memory in parentheses)
    let t = text.split(" -- ").next().unwrap_or("").trim();
    let mut best: Option<(usize, C)> = None;
    for (n, c) in NAMES { if t == n || t.strip_prefix(n).is_some_and(|r| r.starts_with(" (allocated") || r.starts_with(" (freed")) { if best.map_or(true, |b| n.len() > b.0) { best = Some((n.len(), c)); } } }
    match best { Some((_, c)) => c, None => violate("unreadable", &format!("{what}: no class of complexities is called {t:?}")) }
}

/// the two lines below a table: the classes, and the memory of both passes together
fn check_lines(what: &str, text: &str, from: &mut usize, took: &[Took; 2]) -> (C, C) {
    let t = after(text, "--> Algorithm  Time Analysis: ", from).lines().next().unwrap_or("");
    let s = after(text, "--> Algorithm Space Analysis: ", from).lines().next().unwrap_or("");
    let net = took[0].end + took[1].end;
    let Some(i) = s.rfind(if net >= 0 { "(allocated: " } else { "(freed: " }) else { violate("sign", &format!("{what}: both passes together {} {} bytes, but the report says: {s}", if net >= 0 { "retained" } else { "freed" }, net.abs())) };
    let Some((a, b)) = s[i..].trim_end_matches(')').split_once("; auxiliary used space: ") else { violate("unreadable", &format!("{what}: no auxiliary space in: {s}")) };
    check_amount(&format!("{what}, {}", if net >= 0 { "allocated" } else { "freed" }), a.rsplit(' ').next().unwrap_or(""), net.unsigned_abs() as f64);
    check_amount(&format!("{what}, auxiliary used space"), b, (took[0].auxiliary() + took[1].auxiliary()) as f64);
    (class_of(what, t), class_of(what, s))
}

// ---- plain and async tests -----------------------------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Debug)]
enum K { Reset, Warm, P1, P2 }
struct R { steps: Vec<(K, Took)>, slow: Vec<bool>, base: u64 }
static RS: G<R> = G::new();

/// one step, and what it takes
fn did(k: K) {
    Mem::begin();
    if k == K::Reset || k == K::Warm || coin(50) { older(); }
    let r = RS.get();
    let attempt = r.steps.iter().filter(|s| s.0 == K::P2).count();
    let bad = *r.slow.get(attempt).unwrap_or(&false);
    let ns = match k { K::P1 => r.base, K::P2 => if bad { r.base * 3 + 10 } else if coin(300) { r.base } else { r.base - r.base / one_of(&[2, 3, 100]) }, _ => some_time() };
    work(ns / 3);
    some_memory();
    work(ns - ns / 3);
    RS.get().steps.push((k, Mem::took(ns)));
}
/// [older()], where it is part of no step's measurements
fn outside() { if coin(300) { older(); } }

fn regular(is_async: bool) {
    let re = pick(3);
    let fails = if coin(300) { pick(re + 2) } else { 0 } as usize;
    let n1 = one_of(&[1u32, 2, 3, 7, 16, 17, 100, 1000, 65_537, 1_000_003, 16_777_217, 2_000_000_011]);
    let n2 = one_of(&[n1 * 2, n1 + n1 / 2, n1 + 1, u32::MAX]).max(n1);
    let limit = C::O1;
    let name = any_name();
    let (warm, reset) = (coin(400), coin(600));
    desc(&format!("{} test of n {n1} and {n2}, {re} re-attempts, the first {fails} too slow", if is_async { "async" } else { "plain" }));
    RS.set(R { steps: vec![], slow: (0..4).map(|i| i < fails).collect(), base: some_time() });
    let r = if is_async {
        let s = move |k: K| move |d: Option<u32>| async move { Yield(pick(2)).await; match k { K::P1 | K::P2 => did(k), _ => did(k) } Yield(pick(2)).await; d.unwrap_or(0) + 1 };
        let mut b = RegularAsyncAnalyzerBuilder::new(name).first_pass(n1, s(K::P1)).second_pass(n2, s(K::P2)).with_time_measurements(limit).with_space_measurements(C::WorseThanExponential).with_max_reattempts(re);
        if reset { b = b.with_reset_fn(s(K::Reset)); }
        if warm { b = b.warmup_pass(s(K::Warm)); }
        if coin(300) { b = b.first_pass_assertion(|_: &u32| { outside(); async { outside() } }); }
        if coin(300) { b = b.second_pass_assertion(|_: &u32| { outside(); async { outside() } }); }
        let rt = asy::runtime();
        catch_unwind(AssertUnwindSafe(|| rt.block_on(asy::Hop::new(b.test_algorithm())))).map_err(|p| crate::driver::payload_text(&*p))
    } else {
        catch_unwind(AssertUnwindSafe(|| big_o_test::test_algorithm(name, re, || did(K::Reset), n1, || { did(K::P1); 1 }, n2, || { did(K::P2); 2 }, limit, C::WorseThanExponential))).map_err(|p| crate::driver::payload_text(&*p))
    };
    if sim().forced_time > 0 || REFUSED.load(std::sync::atomic::Ordering::SeqCst) { return; }
    let st = RS.get();
    let made = (fails + 1).min(re as usize + 1);
    let table: Vec<(u32, Vec<String>)>;
    let text = String::from_utf8_lossy(&sim().out).into_owned();
    table = rows(&text);
    let twos = st.steps.iter().filter(|s| s.0 == K::P2).count();
    check!(twos == made, "attempts", "{twos} attempts were made, {made} were due (the test ended {r:?})");
    check!(table.len() == 2 * made, "incomplete", "{made} attempts were made, but there are {} rows of measurements in:\n{text}", table.len());
    let mut from = 0;
    let mut at = 0;
    for a in 0..made {
        let what = format!("attempt {}", a + 1);
        let mut took = [Took::default(); 2];
        // the progress
        let mut first = true;
        while at < st.steps.len() {
            let (k, m) = st.steps[at];
            at += 1;
            let mark = match k { K::P1 => "Pass 1: ", K::P2 => "Pass 2: ", K::Warm => "Warming up: ", K::Reset if first => "Resetting: ", K::Reset if took[0] == Took::default() && !st.steps[..at].iter().rev().skip(1).take(1).any(|s| s.0 == K::P1) => "Resetting again: ", K::Reset => "In-between-passes Reset: " };
            first = false;
            let shown = after(&text, mark, &mut from);
            check_token(&format!("{what}, {mark}"), shown, &m);
            if k == K::P1 { took[0] = m; }
            if k == K::P2 { took[1] = m; break; }
        }
        check_table(&what, &table[2 * a..2 * a + 2], &Table { size: [n1 as u64, n2 as u64], reps: None, each: [n1 as u64, n2 as u64], per_size: true }, &took);
        let (time, space) = check_lines(&what, &text, &mut from, &took);
        for l in LIMITS.iter().filter(|_| n1 >= 16) {
            for (kind, class, u) in [("time", time, [took[0].ns, took[1].ns]), ("memory", space, [took[0].hi as u64, took[1].hi as u64])] {
                if let Some(v) = accepts(*l, u[0] as f64, u[1] as f64, n1 as f64, n2 as f64) {
                    check!((rank(class) <= rank(*l)) == v, "class", "{what}: {kind} of {u:?} for n of {n1} and {n2} is reported as {class:?}, though it is {} {l:?}", if v { "within" } else { "beyond" });
                }
            }
        }
        if n1 < 16 { probe("tables of tiny sets"); }
        if rank(time) > rank(limit) {
            let _ = after(&text, "TIME complexity mismatch", &mut from);
            let line = after(&text, "measured: ", &mut from).lines().next().unwrap_or("");
            check!(line.split(|c: char| !c.is_alphanumeric()).next() == Some(&format!("{time:?}")), "class", "{what}: the table tells {time:?}, the mismatch is announced as: {line}");
        }
    }
}

// ---- CRUD ------------------------------------------------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Debug)]
enum Mode { Nothing, Retain, Free, Anything }
struct Cr { c: Crud, mode: [Mode; 4], amt: [[usize; 2]; 4], dur: [[Vec<u64>; 2]; 4], total: [[u64; 2]; 4], warm: bool, took: HashMap<(u8, u32), (u32, Took)>, now: (u8, u32) }
static CR: G<Cr> = G::new();

fn cr_body(op: u8, n: u32) {
    let s = CR.get();
    let o = op as usize;
    if op == RESET { s.warm = false; while !MEM.get().blocks.is_empty() { Mem::give(true); } older(); work(some_time()); return; }
    if s.warm { if s.c.th[o] == 1 { some_memory(); } work(1 + pick(5000) as u64); return; }
    let pass = n / s.c.it[o];
    if s.now != (op, pass) { s.now = (op, pass); Mem::begin(); }
    match s.mode[o] {
        Mode::Nothing => {}
        Mode::Retain => Mem::get(s.amt[o][pass as usize]),
        Mode::Free => Mem::give(coin(500)),
        Mode::Anything => if coin(300) { some_memory() },
    }
    let s = CR.get();
    let d = s.dur[o][pass as usize][(n % s.c.it[o]) as usize];
    work(d);
    let ns = s.total[o][pass as usize];
    let e = CR.get().took.entry((op, pass)).or_default();
    *e = (e.0 + 1, Mem::took(ns));
}

fn crud() {
    let same = one_of(&[1u32, 2, 5, 16, 20]);
    let mut c = Crud { w: one_of(&[0, 0, 0, 50, 100]), it: [0; 4], th: [1; 4] };
    let mut mode = [Mode::Nothing; 4];
    let mut amt = [[0; 2]; 4];
    let mut total = [[0u64; 2]; 4];
    let mut dur: [[Vec<u64>; 2]; 4] = Default::default();
    for op in 0..4 {
        c.it[op] = match pick(4) { 0 if op > 0 => 0, 1 => 1 + pick(30), _ => same };
        c.th[op] = one_of(&[1u32, 1, 1, 2, 3, 4]);
        if coin(30) { c.th[op] = 0; }
        mode[op] = match pick(5) { 0 => Mode::Nothing, 1 => Mode::Free, 2 => Mode::Retain, _ => if c.th[op] == 1 { Mode::Anything } else { Mode::Retain } };
        for p in 0..2 {
            amt[op][p] = loop { let a = amount(); if a < 1 << 28 { break a; } };
            total[op][p] = some_time();
            if c.enabled(op) { dur[op][p] = split(total[op][p] * c.th[op] as u64, c.it[op]); }
        }
    }
    let name = any_name();
    desc(&format!("CRUD analysis, {}, modes {mode:?}, time per pass {total:?}", c.text()));
    CALLS.set(vec![]);
    CR.set(Cr { c, mode, amt, dur, total, warm: c.w > 0, took: HashMap::new(), now: (9, 0) });
    let tested = coin(300);
    let (text, classes) = if tested {
        if let Err(p) = c.test(0, "Simulated", 1, [NO_LIMIT; 4], &cr_body) { violate("panic", &format!("a test without limits failed: {p}")) }
        (String::from_utf8_lossy(&sim().out).into_owned(), None)
    } else {
        match c.analyse(0, name, &cr_body) { Ok(a) => (a.report.clone(), Some(a)), Err(p) => violate("panic", &format!("the analysis panicked: {p}")) }
    };
    if sim().forced_time > 0 || REFUSED.load(std::sync::atomic::Ordering::SeqCst) { return; }
    let took = |op: usize| [0u32, 1].map(|p| CR.get().took[&(op as u8, p)].1);
    let table = rows(&text);
    let on: Vec<usize> = (0..4).filter(|o| c.enabled(*o)).collect();
    check!(table.len() == 2 * on.len(), "incomplete", "{} operations were analysed, but there are {} rows of measurements in:\n{text}", on.len(), table.len());
    let mut from = text.find("First Pass (").unwrap_or(0);
    for (p, mark) in ["First Pass (", "Second Pass ("].iter().enumerate() {
        let _ = after(&text, mark, &mut from);
        for &op in on.iter().filter(|o| **o < 3) {
            let shown = after(&text, &format!("{}: ", OPS[op]), &mut from);
            check_token(&format!("{mark}{})", OPS[op]), shown, &took(op)[p]);
        }
    }
    let created = if c.enabled(0) { c.it[0] as u64 } else { 0 };
    for (i, &op) in on.iter().enumerate() {
        if op == 3 { for (p, mark) in [(1usize, "2nd: "), (0, "1st: ")] { let shown = after(&text, mark, &mut from); check_token(&format!("deleting, {mark}"), shown, &took(3)[p]); } }
        let it = c.it[op] as u64;
        let t = if op == 0 || op == 3 { Table { size: [it, 2 * it], reps: None, each: [it, it], per_size: false } } else { Table { size: [created, 2 * created], reps: Some(it), each: [it, it], per_size: false } };
        let head = ["'Create'", "'Read'", "'Update'", "'Delete'"][op];
        let _ = after(&text, head, &mut from);
        check_table(OPS[op], &table[2 * i..2 * i + 2], &t, &took(op));
        let (time, space) = check_lines(OPS[op], &text, &mut from, &took(op));
        if let Some(a) = &classes {
            let x = a.op[op].as_ref().unwrap();
            check!(time == x.time && space == x.space, "class", "{}: {time:?} and {space:?} are reported, the analysis returned tells {:?} and {:?}", OPS[op], x.time, x.space);
        }
    }
}

struct Rt { attempt: usize, fails: usize, calls: HashMap<(usize, u8), u64>, each: [u64; 4] }
static RT: G<Rt> = G::new();

/// retries adjust the numbers of iterations: the report of the last attempt tells the ones that ran
fn crud_retried() {
    let fails = 1 + pick(7) as usize;
    let mut c = Crud { w: 0, it: [16 + pick(40), 0, 0, 0], th: [1; 4] };
    for op in 1..4 { if coin(700) { c.it[op] = 1 + pick(60); } }
    desc(&format!("CRUD test, {}, whose first {fails} attempts are too slow", c.text()));
    CALLS.set(vec![]);
    RT.set(Rt { attempt: 0, fails, calls: HashMap::new(), each: [1 + some_time() / 1000, some_time() / 1000, some_time() / 1000, some_time() / 1000] });
    let body = |op: u8, n: u32| {
        let r = RT.get();
        if op == RESET { r.attempt += 1; return; }
        *r.calls.entry((r.attempt, op)).or_insert(0) += 1;
        let k = n as u64 + 1;
        if r.attempt < r.fails && op == CREATE { work(k * k * 1000); } else { work(r.each[op as usize]); }
    };
    let mut limits = [NO_LIMIT; 4];
    limits[0].0 = one_of(&[C::O1, C::OLogN]);
    if let Err(p) = c.test(0, "Simulated", fails as u32 + 1 + pick(3), limits, &body) { violate("failed-good", &format!("attempt {} met every limit, but the test panicked: {p}", fails + 1)) }
    if sim().forced_time > 0 { return; }
    let text = String::from_utf8_lossy(&sim().out).into_owned();
    let table = rows(&text);
    let r = RT.get();
    let it = |op: usize| r.calls.get(&(fails, op as u8)).copied().unwrap_or(0) / 2;
    let on: Vec<usize> = (0..4).filter(|o| it(*o) > 0).collect();
    let done = &table[table.len().saturating_sub(2 * on.len())..];
    check!(done.len() == 2 * on.len(), "incomplete", "{} operations were analysed in the last attempt, but there are {} rows of measurements in:\n{text}", on.len(), table.len());
    for (i, &op) in on.iter().enumerate() {
        let n = it(op);
        let t = if op == 0 || op == 3 { Table { size: [n, 2 * n], reps: None, each: [n, n], per_size: false } } else { Table { size: [it(0), 2 * it(0)], reps: Some(n), each: [n, n], per_size: false } };
        check_table(&format!("{}, attempt {}", OPS[op], fails + 1), &done[2 * i..2 * i + 2], &t, &[Took { ns: n * r.each[op], ..Default::default() }; 2]);
    }
    probe("tables of retried CRUD tests compared");
}

/// C23
fn numbers() {
    KEPT.set(vec![]);
    MEM.set(Mem { blocks: VecDeque::new(), level: 0, hi: 0, lo: 0 });
    quiet_faults(true);
    older();
    if coin(30) { return crud_retried(); }
    match pick(5) { 0 => regular(false), 1 => regular(true), _ => crud() }
}

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C23", run: numbers, variants: &[], quick: 100_000, thorough: 1_500_000, real: super::verdict::REAL, stub: &["thread scheduler, clocks, timers, futexes and fd 1/2 below libc", "system allocator", "user functions (scripted time and memory)"],
        assumptions: &["operations on several threads only retain or only free memory (the measured peak of anything else depends on the schedule)"],
        rule: "plain, async and CRUD tests and analyses whose passes take scripted times and obtain, resize and give back scripted memory, with any amount of memory in use before, under partial, interrupted and slow writes, interrupted sleeps and wall clock jumps; every time, amount, sign, size, rate and class of the report compared with the script; non-trivial = fault or preemption; distinct = event-log hash" }]
}
