//! C17: what the library reports is printed completely, once and in order -- whatever the output stream does.

use super::asy::{self, Yield};
use super::panic::Healthy;
use super::run::*;
use super::*;
use crate::driver::VARIANT;
use crate::sim::*;
use big_o_test::RegularAsyncAnalyzerBuilder;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// what the user prints, to the same stream
fn say(m: &str) { if VARIANT == "err" { eprint!("{m}") } else { print!("{m}") } }

/// is anything reported at all?
const TELLS: bool = !cfg!(feature = "none");

/// nothing of the library may have gone to the other stream
fn nowhere_else() {
    let _ = std::io::stdout().flush();
    check!(sim().err.is_empty(), "elsewhere", "the reports go to {}, but this was written to the other stream:\n{}", match VARIANT { "err" => "stderr", "out" => "stdout", _ => "no stream" }, String::from_utf8_lossy(&sim().err));
}

fn stream_faults(slow: bool) {
    let s = sim();
    s.cfg.short_write_permille = one_of(&[0, 200, 600]);
    s.cfg.eintr_write_permille = one_of(&[0, 100, 400]);
    s.cfg.slow_write_permille = if slow { one_of(&[0, 100, 300]) } else { 0 };
}

/// what users may call their tests
pub fn any_name() -> &'static str {
    if coin(3) { return Box::leak("long ".repeat(1000 + pick(20_000) as usize).into_boxed_str()); }
    if coin(20) { return Box::leak("long ".repeat(40 + pick(1200) as usize).into_boxed_str()); }
    one_of(&["Told", "Told_off", "A-much-longer-name of a container, with spaces", "Ünïcödé ✓", "", "{}", "{name:?} %s \\n", "two\nlines", " ", "\u{1F980}\r\n\t"])
}

/// the position behind the next occurrence of `what`
fn expect(text: &str, from: usize, what: &str, kind: &str) -> usize {
    match text[from..].find(what) {
        Some(i) => from + i + what.len(),
        None => violate(if text.contains(what) { "order" } else { "incomplete" }, &format!("{kind}: {what:?} is {} in:\n{text}", if text.contains(what) { "out of order" } else { "missing" })),
    }
}

// ---- the report of a CRUD analysis is what was printed -------------------------------------------------------------------------

struct M { c: Crud, marks: Vec<String>, newlines: bool, permille: u32, held: Vec<Blk>, t: [u64; 4] }
static MS: G<M> = G::new();

fn m_body(op: u8, n: u32) {
    let s = MS.get();
    if coin(s.permille) && s.marks.len() < 40 {
        // user functions print, too
        let m = format!("<<#{}{}>>{}", s.marks.len(), if coin(100) { "~".repeat(1200) } else { String::new() }, if s.newlines { "\n" } else { "" });
        s.marks.push(m.clone());
        say(&m);
    }
    if op == RESET { MS.get().held.clear(); } else { let b = Blk::new(100 * op as usize); MS.get().held.extend(b); work(MS.get().t[op as usize] + n as u64); }
}

fn crud_report() {
    stream_faults(true);
    let s = sim();
    s.cfg.stall_permille = one_of(&[0, 10]);
    s.cfg.spurious_futex_permille = one_of(&[0, 100]);
    let mut c = Crud { w: one_of(&[0, 50, 20]), it: [0; 4], th: [1; 4] };
    for op in 0..4 { c.it[op] = if coin(250) { 0 } else { 1 + pick(12) }; c.th[op] = one_of(&[1u32, 1, 2, 3]); if coin(80) { c.th[op] = 0; } }
    let name = any_name();
    desc(&format!("{name}: {}", c.text()));
    CALLS.set(vec![]);
    MS.set(M { c, marks: vec![], newlines: coin(500), permille: one_of(&[0, 300, 900]), held: vec![], t: [one_of(&[1u64, 900, 2_500_000]), one_of(&[5u64, 77_000]), 1_000_000_000, one_of(&[3u64, 600_000_000])] });
    if coin(300) { say("something the user printed before"); let m = "something the user printed before".to_string(); MS.get().marks.push(m); }
    let a = match c.analyse(0, name, &m_body) { Ok(a) => a, Err(p) => violate("panic", &format!("the analysis panicked: {p}")) };
    MS.get().held.clear();
    let _ = std::io::stdout().flush();
    let mut out = match String::from_utf8(sim().out.clone()) { Ok(o) => o, Err(e) => violate("garbled", &format!("what was printed isn't a text any more: {e}")) };
    for m in &MS.get().marks {
        check!(out.matches(m.as_str()).count() == 1, "not-once", "the user printed {m:?} once, it is there {} times in:\n{out}", out.matches(m.as_str()).count());
        out = out.replacen(m.as_str(), "", 1);
    }
    nowhere_else();
    if !TELLS { check!(out.is_empty(), "elsewhere", "no reports were asked for, but this was printed:\n{out}"); }
    else { check!(out == a.report, "report-differs", "the report returned is not what was printed for it; returned:\n{}\n--- printed:\n{out}", a.report); }
    probe_n("texts of the user in between", MS.get().marks.len() as u64);
    let k = "CRUD report";
    let r = &a.report;
    let mut p = expect(r, 0, name, k);
    let low = r.to_ascii_lowercase();
    for pass in 0..2 {
        for op in 0..3 {
            if let Some(x) = &a.op[op] { p = expect(&low, p, OPS[op], k); p = expect(r, p, &format!("{:?}", x.t[pass]), k); }
        }
    }
    for op in 0..4 {
        if let Some(x) = &a.op[op] {
            if op == 3 { for pass in [1, 0] { p = expect(r, p, &format!("{:?}", x.t[pass]), k); } }
            p = expect(r, p, &x.text, k);
            check!(r.matches(x.text.as_str()).count() == a.op.iter().flatten().filter(|y| y.text == x.text).count(), "not-once", "the analysis of {} is there several times in:\n{r}", OPS[op]);
        } else {
            let head = ["'Create'", "'Read'", "'Update'", "'Delete'"][op];
            check!(!r.contains(head), "not-run", "{} was not analysed, but is reported in:\n{r}", OPS[op]);
        }
        check!(a.op[op].is_some() == c.enabled(op), "incomplete", "{} has {} analysis", OPS[op], if c.enabled(op) { "no" } else { "an" });
        if a.op[op].is_some() { let name = ["Create", "Read", "Update", "Delete"][op]; check!(r.contains(name), "incomplete", "the report doesn't name {name}:\n{r}"); probe("operations reported"); }
    }
}

// ---- the same text, whatever the stream does -----------------------------------------------------------------------------------

/// is a mismatch announced as often as attempts failed?
fn mismatches(text: &str) -> usize { text.to_ascii_lowercase().matches("complexity mismatch").count() }

fn same_text() {
    let mut h = Healthy::draw(pick(3));
    if h.kind == 2 { h.test = coin(700); }
    h.re = pick(4);
    CALLS.set(vec![]);
    desc(&format!("{h:?}"));
    let (a, r) = h.show(0, true);
    let printed = String::from_utf8_lossy(&sim().out).into_owned();
    sim().out.clear();
    CALLS.set(vec![]);
    stream_faults(false);
    let (b, r2) = h.show(0, true);
    if sim().forced_time > 0 { return; }
    let printed2 = String::from_utf8_lossy(&sim().out).into_owned();
    check!(r == r2, "verdict-differs", "on an output stream with partial and interrupted writes the verdict is {r2:?} instead of {r:?}");
    check!(a == b, "text-differs", "on an output stream with partial and interrupted writes, this was shown:\n{b}\n--- without them:\n{a}");
    probe("texts compared");
    let _ = printed2;
    nowhere_else();
    if !TELLS { check!(printed.is_empty(), "elsewhere", "no reports were asked for, but this was printed:\n{printed}"); return; }
    let k = ["plain test", "async test", "CRUD test"][h.kind as usize];
    if h.kind < 2 || h.test { let _ = expect(&printed, 0, "Healthy", k); }
}

// ---- failed attempts are told before the test fails ----------------------------------------------------------------------------

static N: G<u32> = G::new();

/// a test of which every attempt has `bad` in mind; tells what it printed by the time it failed, the result, and the attempts made
fn failing(kind: u32, re: u32, time: bool, good_at: u32, name: &'static str) -> (Result<(), String>, u32) {
    N.set(0);
    let lim = if time { (C::O1, C::WorseThanExponential) } else { (C::WorseThanExponential, C::O1) };
    let step = move |i: u32| {
        if i == 1 { *N.get() += 1; }
        let bad = *N.get() != good_at;
        let b = Blk::new(if !time && bad && i == 2 { 50_000 } else if i > 0 { 1_000 } else { 0 });
        work(if time && bad && i == 2 { 900_000_000 } else { 10_000_000 });
        drop(b);
    };
    let r = match kind {
        0 => catch_unwind(AssertUnwindSafe(|| big_o_test::test_algorithm(name, re, || step(0), 100, || { step(1); 1 }, 200, || { step(2); 2 }, lim.0, lim.1))).map_err(|p| crate::driver::payload_text(&*p)),
        1 => {
            let s = move |i: u32| move |d: Option<u32>| async move { Yield(1).await; step(i); Yield(1).await; d.unwrap_or(7) + 1 };
            let mut b = RegularAsyncAnalyzerBuilder::new(name).first_pass(100, s(1)).second_pass(200, s(2)).with_time_measurements(lim.0).with_space_measurements(lim.1).with_max_reattempts(re);
            if coin(500) { b = b.with_reset_fn(s(0)); }
            let rt = asy::runtime();
            catch_unwind(AssertUnwindSafe(|| rt.block_on(asy::Hop::new(b.test_algorithm())))).map_err(|p| crate::driver::payload_text(&*p))
        }
        _ => {
            let op = one_of(&[0usize, 1, 2, 3]);
            let mut c = Crud { w: 0, it: [20; 4], th: [1; 4] };
            for o in 1..4 { if o != op && coin(500) { c.it[o] = 0; } }
            MS.set(M { c, marks: vec![], newlines: false, permille: 0, held: vec![], t: [0; 4] });
            *N.get() = 1;
            let body = move |o: u8, n: u32| {
                if o == RESET { *N.get() += 1; MS.get().held.clear(); return; }
                let bad = *N.get() != good_at && o as usize == op;
                let k = n as u64 + 1;
                let b = Blk::new(if !time && bad { (k * k * 8) as usize } else if o == 3 { 0 } else { 8 });
                work(if time && bad { k * k * 1_000_000 } else { 1_000_000 });
                if o == 3 { drop(b); } else { MS.get().held.extend(b); }
            };
            // deleting must not look like something that grows
            let r = c.test(0, name, re + 1, [lim; 4], &body);
            MS.get().held.clear();
            r
        }
    };
    (r, *N.get())
}

fn told() {
    stream_faults(true);
    let kind = pick(3);
    let re = pick(4);
    let time = kind == 2 || coin(600);
    let good_at = if coin(400) { 1 + pick(re + 1) } else { u32::MAX };
    let name = any_name();
    desc(&format!("{} failing on {}, {re} re-attempts, attempt {good_at} is good", ["plain test", "async test", "CRUD test"][kind as usize], if time { "time" } else { "space" }));
    CALLS.set(vec![]);
    let (r, made) = failing(kind, re, time, good_at, name);
    let printed = String::from_utf8_lossy(&sim().out).into_owned();
    nowhere_else();
    if !TELLS { check!(printed.is_empty(), "elsewhere", "no reports were asked for, but this was printed:\n{printed}"); probe("silent tests"); return; }
    let failed = if r.is_ok() { made - 1 } else { made } as usize;
    check!(mismatches(&printed) == failed, "mismatch-untold", "{made} attempts were made, {} of them failed, but {} mismatches had been printed when the test ended {}:\n{printed}", failed, mismatches(&printed), if r.is_ok() { "well" } else { "in a panic" });
    let kinds = printed.to_ascii_lowercase().matches(if time { "time complexity mismatch" } else { "space complexity mismatch" }).count();
    check!(kinds == failed, "mismatch-untold", "{failed} {} mismatches happened, {kinds} of them were printed:\n{printed}", if time { "time" } else { "space" });
    check!(printed.contains(name), "incomplete", "'{name}' isn't named in:\n{printed}");
    if r.is_err() { probe("failed tests told"); }
    probe_n("failed attempts told", failed as u64);
}

// ---- a dead stream never lets a bad test pass ------------------------------------------------------------------------------------

fn dead() {
    let s = sim();
    s.cfg.short_write_permille = one_of(&[0, 200]);
    s.cfg.eintr_write_permille = one_of(&[0, 200]);
    s.dead_errno = one_of(&[libc::ENOSPC, libc::EIO, libc::EPIPE, libc::EBADF, libc::EAGAIN]);
    if coin(200) { s.out_dead = true; } else { s.cfg.dead_write_permille = one_of(&[20, 100, 300]); }
    let kind = pick(3);
    let re = pick(3);
    let time = kind == 2 || coin(600);
    desc(&format!("{} failing on {} every time, {re} re-attempts, the output stream fails with errno {}", ["plain test", "async test", "CRUD test"][kind as usize], if time { "time" } else { "space" }, s.dead_errno));
    CALLS.set(vec![]);
    let (r, _) = failing(kind, re, time, u32::MAX, "Dead");
    check!(r.is_err(), "passed-bad", "the test passed as the output stream failed, though no attempt met its limits");
    if sim().out_dead { probe("tests on a dead output stream"); count_fault("output stream dead at the end"); }
}

/// C17
fn report() {
    KEPT.set(vec![]);
    match pick(5) { 0 | 1 => crud_report(), 2 => same_text(), 3 => told(), _ => dead() }
}

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C17", run: report, variants: &[("err", 5), ("none", 10)], quick: 120_000, thorough: 1_500_000, real: super::verdict::REAL, stub: &["thread scheduler, clocks, timers, futexes and fd 1/2 below libc", "system allocator", "user functions (scripted time, memory and printing)"],
        assumptions: &[],
        rule: "analyses and tests on an output stream with partial, interrupted and slow writes, or one that fails for good at any write: the returned report against what arrived (the user's own prints in between taken out), contents in the order of the phases, mismatches against failed attempts, the same deterministic test with and without faults, builds of the crate that report to stdout, to stderr (nothing on stdout then) and not at all, no pass of a bad test on a dead stream; non-trivial = preemption or fault; distinct = event-log hash" }]
}
