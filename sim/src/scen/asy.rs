//! C13, C14, C19: async tests -- their steps and data, their retries and verdicts, and their cancellation.

use super::plain::{judge, Fate};
use super::run::*;
use super::*;
use crate::sim::*;
use big_o_test::RegularAsyncAnalyzerBuilder;
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::task::{Context, Poll};
use std::time::Duration;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Step { Reset, Warm, Pass1, Assert1, Pass2, Assert2 }

/// the data handed from step to step: every value is watched
#[derive(Debug)]
pub struct Tok { pub id: usize }
impl Tok {
    pub fn new(who: usize) -> Tok { let a = A[who].get(); a.drops.push(0); Tok { id: (who << 32) | (a.drops.len() - 1) } }
}
impl Drop for Tok {
    fn drop(&mut self) {
        if !active() { return; }
        let d = &mut A[self.id >> 32].get().drops[self.id & 0xffff_ffff];
        *d += 1;
        if *d > 1 { violate("dropped-twice", &format!("the data value #{} was dropped twice", self.id & 0xffff_ffff)); }
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Ev { pub step: Step, pub input: Option<usize>, pub output: usize, pub start: u64, pub end: u64, pub t0: u64, pub t1: u64, pub cancelled: bool }

#[derive(Clone, Debug, Default)]
pub struct Conf {
    pub reset: bool, pub warm: bool, pub a1: bool, pub a2: bool,
    pub re: Option<u32>, pub time: Option<C>, pub space: Option<C>, pub n1: u32, pub n2: u32,
    /// builder calls in another order
    pub shuffled: bool,
    /// how steps wait: 0 never, 1 by yielding, 2 on timers too
    pub waits: u32,
    /// the builder is given more re-attempts than will ever be needed
    pub vast: bool,
}

pub struct Asy { pub c: Conf, pub plan: Vec<super::plain::Try>, pub attempt: usize, pub ev: Vec<Ev>, pub drops: Vec<u32>, pub panic_at: Option<(usize, u32)> }
pub static A: [G<Asy>; 4] = [G::new(), G::new(), G::new(), G::new()];

/// pends `n` times
pub struct Yield(pub u32);
impl Future for Yield {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        yp();
        if self.0 == 0 { return Poll::Ready(()); }
        self.0 -= 1;
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}

struct Open { who: usize, i: usize, done: bool }
impl Drop for Open {
    fn drop(&mut self) {
        if !active() { return; }
        let e = &mut A[self.who].get().ev[self.i];
        if !self.done { e.cancelled = true; }
        e.end = stamp();
        e.t1 = now();
        let s = e.step;
        let d = self.done;
        tr(|| format!("{s:?} {}", if d { "ends" } else { "is dropped" }));
    }
}

fn begin(who: usize, step: Step, input: Option<usize>) -> Open {
    track(who);
    let a = A[who].get();
    tr(|| format!("{step:?} starts with {input:?}"));
    log(0x80 + step as u64, who as u64);
    a.ev.push(Ev { step, input, output: usize::MAX, start: stamp(), end: u64::MAX, t0: now(), t1: u64::MAX, cancelled: false });
    let i = a.ev.len() - 1;
    if a.panic_at == Some((i, 0)) { let o = Open { who, i, done: false }; count_fault("panic in a user function"); let _o = o; std::panic::panic_any("scripted panic"); }
    Open { who, i, done: false }
}

/// a panic scripted for a later stage of the step
fn maybe_panic(who: usize, i: usize, stage: u32) {
    if A[who].get().panic_at == Some((i, stage)) { count_fault("panic in a user function"); std::panic::panic_any("scripted panic"); }
}

async fn wait(who: usize, timers: bool) {
    let w = A[who].get().c.waits;
    if w == 0 { return; }
    Yield(pick(3)).await;
    if timers && w == 2 && coin(400) { tokio::time::sleep(Duration::from_millis(pick(30) as u64)).await; }
}

/// the time and memory of a step
async fn effort(who: usize, step: Step) {
    let a = A[who].get();
    let p = *a.plan.get(a.attempt).unwrap_or(&super::plain::Try::default());
    let (t, s, pass) = match step { Step::Pass1 => (p.t.0, p.s.0, true), Step::Pass2 => (p.t.1, p.s.1, true), _ => (p.reset_t, p.reset_s, false) };
    if step == Step::Reset { KEPT.get().clear(); }
    let (keep, s) = (pass && p.keep, s as usize);
    let b = Blk::new(s - s / 3);
    work(t / 2);
    wait(who, !pass).await;
    let b2 = Blk::new(s / 3);
    work(t - t / 2);
    if keep { KEPT.get().extend(b); } else { drop(b); }
    wait(who, !pass).await;
    drop(b2);
}

pub fn run_step(who: usize, step: Step, input: Option<Tok>) -> impl Future<Output = Tok> + Send {
    let mut open = begin(who, step, input.as_ref().map(|t| t.id));
    yp();
    async move {
        let i = open.i;
        // timers count in a pass' time
        wait(who, !matches!(step, Step::Pass1 | Step::Pass2) || A[who].get().c.time.is_none()).await;
        maybe_panic(who, i, 1);
        let early = coin(500);
        let mut input = input;
        if early { input = None; }
        effort(who, step).await;
        maybe_panic(who, i, 2);
        let out = match input { Some(t) if coin(500) => t, _ => Tok::new(who) };
        A[who].get().ev[i].output = out.id;
        open.done = true;
        drop(open);
        out
    }
}

pub fn run_assert(who: usize, step: Step, data: &Tok) -> impl Future<Output = ()> + Send + 'static {
    let mut open = begin(who, step, Some(data.id));
    async move {
        let i = open.i;
        wait(who, true).await;
        maybe_panic(who, i, 1);
        effort(who, step).await;
        maybe_panic(who, i, 2);
        open.done = true;
        drop(open);
    }
}

/// the future of a whole async test
pub fn test_future(who: usize, name: &'static str, c: &Conf) -> impl Future<Output = ()> + Send {
    let b = RegularAsyncAnalyzerBuilder::new(name);
    let p1 = move |d| run_step(who, Step::Pass1, d);
    let p2 = move |d| run_step(who, Step::Pass2, d);
    // the order of these calls doesn't matter
    let mut calls = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9];
    if c.shuffled { for i in (1..calls.len()).rev() { calls.swap(i, pick(i as u32 + 1) as usize); } }
    let (mut p1, mut p2, mut b) = (Some(p1), Some(p2), b);
    for call in calls {
        b = match call {
            0 => b.first_pass(c.n1, p1.take().unwrap()),
            1 => b.second_pass(c.n2, p2.take().unwrap()),
            2 if c.reset => b.with_reset_fn(move |d| run_step(who, Step::Reset, d)),
            3 if c.warm => b.warmup_pass(move |d| run_step(who, Step::Warm, d)),
            4 if c.a1 => b.first_pass_assertion(move |d: &Tok| run_assert(who, Step::Assert1, d)),
            5 if c.a2 => b.second_pass_assertion(move |d: &Tok| run_assert(who, Step::Assert2, d)),
            6 => match c.re { Some(r) => b.with_max_reattempts(if c.vast { u32::MAX } else { r }), None => b },
            7 => match c.time { Some(l) => b.with_time_measurements(l), None => b },
            8 => match c.space { Some(l) => b.with_space_measurements(l), None => b },
            // a limit that every algorithm keeps
            9 if c.shuffled => b.with_auxiliary_space_measurements(C::WorseThanExponential),
            _ => b,
        };
    }
    b.test_algorithm()
}

pub fn prepare(who: usize, c: &Conf, plan: Vec<super::plain::Try>) { A[who].set(Asy { c: c.clone(), plan, attempt: 0, ev: vec![], drops: vec![], panic_at: None }); }

pub fn runtime() -> tokio::runtime::Runtime { tokio::runtime::Builder::new_current_thread().enable_time().build().expect("runtime") }

impl Conf {
    /// the documented steps of one attempt
    pub fn steps(&self) -> Vec<Step> {
        let mut v = vec![];
        if self.reset { v.push(Step::Reset); }
        if self.warm { v.push(Step::Warm); if self.reset { v.push(Step::Reset); } }
        v.push(Step::Pass1);
        if self.a1 { v.push(Step::Assert1); }
        if self.reset { v.push(Step::Reset); }
        v.push(Step::Pass2);
        if self.a2 { v.push(Step::Assert2); }
        v
    }
    pub fn draw() -> Conf {
        let (n1, n2) = super::plain::Limits::sizes();
        Conf { reset: coin(600), warm: coin(500), a1: coin(500), a2: coin(500), re: if coin(30) { Some(8 + pick(24)) } else if coin(600) { Some(pick(4)) } else { None }, time: if coin(700) { Some(one_of(&LIMITS)) } else { None },
            space: if coin(700) { Some(one_of(&LIMITS)) } else { None }, n1, n2, shuffled: coin(300), waits: pick(3), vast: coin(40) }
    }
    pub fn limits(&self) -> super::plain::Limits { super::plain::Limits { time: self.time.unwrap_or(C::WorseThanExponential), space: self.space.unwrap_or(C::WorseThanExponential), n1: self.n1, n2: self.n2 } }
    pub fn plan(&self, always: Option<Fate>) -> (Vec<super::plain::Try>, Vec<Fate>) {
        let l = self.limits();
        let mut plan = vec![]; let mut fates = vec![];
        let re = self.re.unwrap_or(0);
        let until = if re > 4 { pick(re + 2) } else { 0 };
        for i in 0..re + 1 {
            let want = always.unwrap_or_else(|| match pick(10) { _ if i < until => Fate::Slow, 0..=4 => Fate::Slow, 5 => Fate::Fat, 6 => Fate::Both, 7 if i == 0 => Fate::Slow, _ => Fate::Good });
            let mut a = l.attempt(want);
            // unlimited: anything goes
            if self.time.is_none() && coin(500) { a.t = (1_000, 900_000_000); }
            if self.space.is_none() && coin(500) { a.s = (0, 5_000_000); }
            plan.push(a);
            fates.push(l.fate(&a).unwrap_or(Fate::Good));
        }
        if self.vast && self.re.is_some() && always.is_none() { let a = l.attempt(if coin(300) { Fate::Fat } else { Fate::Good }); plan[re as usize] = a; fates[re as usize] = l.fate(&a).unwrap_or(Fate::Good); }
        (plan, fates)
    }
}

/// the attempt a step belongs to is told by the steps before it
pub fn attempts(who: usize) -> usize {
    let a = A[who].get();
    let per = a.c.steps().len();
    a.ev.len() / per
}

/// compares the steps made so far with the documented sequence; `whole`: nothing may be missing
pub fn check_steps(who: usize, whole: bool) {
    let a = A[who].get();
    let seq = a.c.steps();
    let per = seq.len();
    let ev = &a.ev;
    for (i, e) in ev.iter().enumerate() {
        let due = seq[i % per];
        check!(e.step == due, "order", "{:?} was called where {due:?} was due (steps so far: {:?})", e.step, ev[..=i].iter().map(|e| e.step).collect::<Vec<_>>());
        if i > 0 { check!(e.start > ev[i - 1].end, "overlap", "{:?} started before {:?} had ended", e.step, ev[i - 1].step); check!(!ev[i - 1].cancelled, "cut-short", "{:?} was called though {:?} never came to its end", e.step, ev[i - 1].step); }
        if whole { check!(!e.cancelled && e.end != u64::MAX, "cut-short", "{:?} was dropped before its end", e.step); }
        // the data
        let k = i % per;
        let last_out = |from: usize| (0..from).rev().find(|&j| !matches!(ev[j].step, Step::Assert1 | Step::Assert2)).map(|j| ev[j].output);
        let ok = match e.step {
            Step::Reset if k == 0 => if i < per { e.input.is_none() } else { e.input == last_out(i) },
            Step::Warm => if a.c.reset { e.input == last_out(i) } else if i < per { e.input.is_none() } else { e.input.is_none() || e.input == last_out(i) },
            // after the warm-up: its data or nothing
            Step::Reset if seq[k - 1] == Step::Warm => e.input.is_none() || e.input == last_out(i),
            Step::Pass1 if k == 0 => if i < per { e.input.is_none() } else { e.input.is_none() || e.input == last_out(i) },
            _ => e.input == last_out(i),
        };
        check!(ok, "data", "{:?} (step {i}) got the data {:?}; the steps so far returned {:?}", e.step, e.input, ev[..i].iter().map(|e| (e.step, e.output)).collect::<Vec<_>>());
    }
    if whole { check!(!ev.is_empty() && ev.len() % per == 0, "steps-missing", "the steps {:?} were called, {seq:?} were due", ev.iter().map(|e| e.step).collect::<Vec<_>>()); }
}

pub fn check_drops(who: usize, when: &str) {
    for (i, d) in A[who].get().drops.iter().enumerate() { check!(*d == 1, "leaked", "the data value #{i} was dropped {d} times {when}"); }
}

/// keeps the attempt number in step with the calls: called before each step
fn track(who: usize) {
    let a = A[who].get();
    let per = a.c.steps().len();
    a.attempt = a.ev.len() / per;
}

pub fn go(rt: &tokio::runtime::Runtime, who: usize, name: &'static str, c: &Conf) -> Result<(), String> {
    catch_unwind(AssertUnwindSafe(|| rt.block_on(test_future(who, name, c)))).map_err(|p| crate::driver::payload_text(&*p))
}

struct Anything<T>(T);
unsafe impl<T> Send for Anything<T> {}

/// calls `f` on another thread of the runtime
fn elsewhere<R>(f: impl FnOnce() -> R) -> R {
    let h = tokio::runtime::Handle::try_current().ok();
    let f = Anything(f);
    let mut r: Option<std::thread::Result<R>> = None;
    let out = Anything(&mut r as *mut Option<std::thread::Result<R>> as usize);
    // joined below
    let body: Box<dyn FnOnce() + '_> = Box::new(move || {
        let (f, out) = (f, out);
        let _in = h.as_ref().map(|h| h.enter());
        let got = catch_unwind(AssertUnwindSafe(f.0));
        unsafe { *(out.0 as *mut Option<std::thread::Result<R>>) = Some(got); }
    });
    let body: Anything<Box<dyn FnOnce() + 'static>> = Anything(unsafe { std::mem::transmute(body) });
    join(spawn(move || { let b = body; (b.0)() }));
    match r.unwrap() { Ok(r) => r, Err(p) => std::panic::resume_unwind(p) }
}

/// what other executors do with a future: each poll may happen on another thread than the last one, and there may be polls nobody asked for
pub struct Hop<F> { f: Pin<Box<F>>, hops: u32, idle_polls: u32 }
impl<F> Hop<F> {
    pub fn new(f: F) -> Self { let (hops, idle_polls) = if coin(300) { (one_of(&[100u32, 500, 1000]), one_of(&[0u32, 0, 300])) } else { (0, one_of(&[0u32, 0, 0, 300])) }; Hop { f: Box::pin(f), hops, idle_polls } }
}
impl<F: Future> Future for Hop<F> {
    type Output = F::Output;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> {
        for _ in 0..2 {
            let hop = self.hops > 0 && coin(self.hops);
            let f = self.f.as_mut();
            let r = if hop {
                probe("polls on another thread");
                let w = cx.waker().clone();
                elsewhere(move || f.poll(&mut Context::from_waker(&w)))
            } else { f.poll(cx) };
            if let Poll::Ready(r) = r { return Poll::Ready(r); }
            if self.idle_polls == 0 || !coin(self.idle_polls) { break; }
            count_fault("poll nobody asked for");
        }
        Poll::Pending
    }
}

/// [go()], on any kind of executor
pub fn go_anyhow(rt: &tokio::runtime::Runtime, who: usize, name: &'static str, c: &Conf) -> Result<(), String> {
    catch_unwind(AssertUnwindSafe(|| rt.block_on(Hop::new(test_future(who, name, c))))).map_err(|p| crate::driver::payload_text(&*p))
}

/// C13
fn data() {
    if let Some(l) = super::plain::lots() { return many_attempts(l); }
    let c = Conf::draw();
    quiet_faults(coin(200));
    KEPT.set(vec![]);
    let (plan, fates) = c.plan(None);
    desc(&format!("{c:?}, fates {fates:?}"));
    prepare(0, &c, plan);
    let rt = runtime();
    let r = go_anyhow(&rt, 0, "Simulated", &c);
    check_steps(0, true);
    check_drops(0, "by the end of the test");
    probe_n("steps", A[0].get().ev.len() as u64);
    probe_n("data values", A[0].get().drops.len() as u64);
    if attempts(0) > 1 { probe("retried tests"); }
    if r.is_err() { probe("failed tests"); }
}

/// C13's and C14's part in tests of many attempts
fn many_attempts((k, max): (u32, u32)) {
    static N: G<(u32, u32)> = G::new();
    N.set((0, 0));
    desc(&format!("an async test whose first {k} attempts are too slow, {} re-attempts", max - 1));
    let t0 = now();
    // every step gets what the one before it returned
    let step = |kind: u32| move |d: Option<u32>| {
        let n = N.get();
        check!(d == if n.1 == 0 { None } else { Some(n.1) }, "data", "step {} got {d:?}, the one before it returned {}", n.1 + 1, n.1);
        check!(n.1 % 4 == [0, 1, 3][kind as usize] || (kind == 0 && n.1 % 4 == 2), "order", "a step was called out of order");
        n.1 += 1;
        if n.1 % 4 == 1 { n.0 += 1; }
        let (id, attempt) = (n.1, n.0);
        async move { work(if kind == 2 && attempt <= k { 9_000_000 } else if kind == 0 { 1_000 } else { 1_000_000 }); id }
    };
    let b = RegularAsyncAnalyzerBuilder::new("Simulated").with_reset_fn(step(0)).first_pass(100, step(1)).second_pass(200, step(2)).with_time_measurements(C::O1).with_max_reattempts(max - 1);
    let rt = runtime();
    let r = catch_unwind(AssertUnwindSafe(|| rt.block_on(b.test_algorithm()))).map_err(|p| crate::driver::payload_text(&*p));
    super::plain::judge_lots("async test", (k, max), N.get().0, now() - t0, 1_000_000_000, r);
}

static TICKS: G<Vec<u64>> = G::new();

/// C14
fn verdict() {
    if let Some(l) = super::plain::lots() { return many_attempts(l); }
    let c = Conf::draw();
    let slow_writes = coin(150);
    quiet_faults(slow_writes);
    KEPT.set(vec![]);
    TICKS.set(vec![]);
    let (plan, fates) = c.plan(None);
    desc(&format!("{c:?}, fates {fates:?}"));
    prepare(0, &c, plan);
    let rt = runtime();
    rt.spawn(async { loop { tokio::time::sleep(Duration::from_millis(50)).await; TICKS.get().push(now()); } });
    let r = go_anyhow(&rt, 0, "Simulated", &c);
    let per = c.steps().len();
    let ev = &A[0].get().ev;
    // attempts are told by the second pass, which every one has exactly once
    let made = ev.iter().filter(|e| e.step == Step::Pass2).count();
    judge("async test", "Simulated", c.re.unwrap_or(0) as usize, &fates, made, &r, (c.time, c.space));
    for k in 1..made {
        let (a, b) = (&ev[per * k - 1], &ev[per * k]);
        let pause = b.t0 - a.t1;
        check!(pause >= 1_000_000_000, "pause", "only {pause}ns passed before re-attempt {k}");
        check!(slow_writes || pause < 1_200_000_000, "pause", "{pause}ns passed before re-attempt {k}, 1 second was due");
        let ticks = TICKS.get().iter().filter(|t| **t > a.t1 && **t < b.t0).count();
        check!(ticks >= 10, "blocked", "another task of the runtime, due every 50 ms, ran only {ticks} times during the pause before re-attempt {k}");
        probe_n("other task's ticks during pauses", ticks as u64);
    }
}

/// polls a future at most `left` times
struct Cut<F> { f: Pin<Box<F>>, left: u32, done: bool }
impl<F: Future<Output = ()>> Future for Cut<F> {
    type Output = bool;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<bool> {
        if self.left == 0 { return Poll::Ready(false); }
        self.left -= 1;
        match self.f.as_mut().poll(cx) { Poll::Ready(()) => { self.done = true; Poll::Ready(true) } Poll::Pending => Poll::Pending }
    }
}

/// C19
fn cancel() {
    let mut c = Conf::draw();
    if c.waits == 0 { c.waits = 1; }
    CALLS.set(vec![]);
    let healthy = coin(400).then(|| { let h = super::panic::Healthy::draw(if coin(600) { 1 } else { pick(3) }); let t = h.show(0, true).0; (h, t) });
    quiet_faults(coin(100));
    KEPT.set(vec![]);
    let (plan, fates) = c.plan(None);
    let polls = match pick(4) { 0 => pick(4), 1 => pick(12), 2 => pick(40), _ => 1 + pick(20) };
    desc(&format!("{c:?}, fates {fates:?}, dropped after {polls} polls"));
    prepare(0, &c, plan);
    let rt = runtime();
    let mut f = Cut { f: Box::pin(Hop::new(test_future(0, "Cancelled", &c))), left: polls, done: false };
    let r = catch_unwind(AssertUnwindSafe(|| rt.block_on(&mut f)));
    let gone = if coin(200) { probe("dropped on another thread"); let _in = rt.enter(); catch_unwind(AssertUnwindSafe(|| elsewhere(move || drop(f)))) } else { catch_unwind(AssertUnwindSafe(|| drop(f))) };
    if let Err(p) = gone { violate("panic", &format!("dropping the test's future panicked: {}", crate::driver::payload_text(&*p))); }
    let cut = stamp();
    let cancelled = matches!(r, Ok(false));
    if cancelled { count_fault("async test dropped half-way"); let e = A[0].get().ev.last(); if e.map_or(false, |e| e.cancelled) { probe("dropped inside of a step"); } else { probe("dropped between steps"); } }
    check_drops(0, "once the test's future was gone");
    // tasks that were told to end do so as soon as they are looked after
    rt.block_on(async { for _ in 0..4 { tokio::task::yield_now().await; } });
    let tasks = rt.metrics().num_alive_tasks();
    check!(tasks == 0, "left-running", "{tasks} tasks of the runtime were left running when the test's future was gone");
    let threads = sim().live_threads();
    rt.block_on(async { for _ in 0..8 { tokio::time::sleep(Duration::from_secs(3)).await; tokio::task::yield_now().await; } });
    check!(sim().live_threads() <= threads.max(1), "left-running", "a thread was started after the test's future was gone");
    check_steps(0, !cancelled && r.is_ok());
    for e in &A[0].get().ev {
        check!(e.end != u64::MAX, "left-running", "{:?} is still going on after the test's future was dropped", e.step);
        check!(e.start < cut, "left-running", "{:?} was called after the test's future had been dropped", e.step);
        check!(e.end < cut, "left-running", "{:?} went on after the test's future had been dropped", e.step);
    }
    if let Some((h, before)) = healthy {
        let cfg = std::mem::take(&mut sim().cfg);
        // what the cancelled test's steps had left behind themselves
        KEPT.get().clear();
        CALLS.set(vec![]);
        let t = h.show(0, true).0;
        if sim().forced_time == 0 {
            check!(t == before, "left-behind", "an analysis showed something else after a cancelled test than before it:\n{before}\n--- now:\n{t}");
            probe("analyses before and after compared");
        }
        sim().cfg = cfg;
    }
    // a later test is as good as ever
    let mut c2 = Conf::draw();
    if c2.time.is_none() && c2.space.is_none() { c2.time = Some(C::ON); }
    let (plan2, fates2) = c2.plan(None);
    prepare(1, &c2, plan2);
    desc(&format!("{c:?}, fates {fates:?}, dropped after {polls} polls; later {c2:?}, fates {fates2:?}"));
    let r2 = go(&rt, 1, "Later", &c2);
    check_steps(1, true);
    check_drops(1, "by the end of the later test");
    judge("later async test", "Later", c2.re.unwrap_or(0) as usize, &fates2, attempts(1), &r2, (c2.time, c2.space));
}

pub fn props() -> Vec<Prop> {
    let stub: &[&str] = &["clocks, futexes, sleeps and fd 1/2 below libc", "system allocator", "user functions (scripted time, memory and suspension points)"];
    let a: &[&str] = &["tokio's time driver is that of a current_thread runtime (polls are moved to other threads by the harness)", "up to 31 re-attempts per test in most runs, up to 66000 in a few"];
    vec![
        Prop { id: "C13", run: data, variants: &[], quick: 180_000, thorough: 1_500_000, real: REAL_ASYNC, stub, assumptions: a,
            rule: "async tests with any subset of the optional steps, scripted attempts and suspensions at random points of every step; the sequence of steps and the data each got compared with the documented one, drops counted; non-trivial = fault or preemption; distinct = event-log hash" },
        Prop { id: "C14", run: verdict, variants: &[], quick: 180_000, thorough: 1_500_000, real: REAL_ASYNC, stub, assumptions: a,
            rule: "async tests whose attempts are scripted to meet or break the limits that are set, while another task of the runtime is due every 50 ms; attempts, pauses, verdict and message compared with the script; non-trivial = fault or preemption; distinct = event-log hash" },
        Prop { id: "C19", run: cancel, variants: &[], quick: 160_000, thorough: 1_500_000, real: REAL_ASYNC, stub, assumptions: a,
            rule: "async tests whose future is dropped after a random number of polls (in any step, between steps, in a retry's pause), followed by a second test on the same runtime; no further step, every data value dropped once, second test judged as in C13 and C14; non-trivial = fault or preemption; distinct = event-log hash" },
    ]
}
