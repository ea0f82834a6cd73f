//! C01-C04: the ring buffer, as simulated producers and consumers, against a log model.

use super::*;
use crate::sim::*;
use big_o_test::metrics_allocator::ring_buffer::{RingBuffer, RingBufferConsumer};
use std::mem::MaybeUninit;

const MAGIC: u64 = 0xE1E4E27A11DA7E55;

#[derive(Clone, Copy, Debug)]
struct El { magic: u64, id: u64, fill: [u64; 2] }
impl El {
    fn new(id: u64) -> Self { Self { magic: MAGIC ^ id, id, fill: [id.wrapping_mul(3), !id] } }
    /// the element's id, if completely written
    fn check(&self) -> Option<u64> { if self.magic == MAGIC ^ self.id && self.fill == [self.id.wrapping_mul(3), !self.id] { Some(self.id) } else { None } }
}

/// an element that notices how it is dropped
#[derive(Debug)]
struct Tok(El);
static LIVE: G<Vec<bool>> = G::new();
impl Drop for Tok {
    fn drop(&mut self) {
        match self.0.check() {
            None => violate("drop-of-garbage", "a slot that never held an element (or a half-written one) was dropped as if it were one"),
            Some(id) => {
                let l = LIVE.get();
                if !l[id as usize] { violate("double-drop", &format!("element {id} was dropped twice")); }
                l[id as usize] = false;
            }
        }
    }
}

/// what a slot holds
trait Elem: Send + Sync + std::fmt::Debug + 'static { fn mk(id: u64) -> Self; fn id(&self) -> Option<u64>; }
impl Elem for El { fn mk(id: u64) -> Self { El::new(id) } fn id(&self) -> Option<u64> { self.check() } }
impl Elem for Tok { fn mk(id: u64) -> Self { LIVE.get()[id as usize] = true; Tok(El::new(id)) } fn id(&self) -> Option<u64> { self.0.check() } }
/// a slot of 4 bytes
#[derive(Debug)]
struct Small(u32);
impl Elem for Small {
    fn mk(id: u64) -> Self { Small((id as u32 & 0xffff) | (!(id as u32) << 16)) }
    fn id(&self) -> Option<u64> { if self.0 as u16 == !(self.0 >> 16) as u16 { Some(self.0 as u16 as u64) } else { None } }
}
/// a big, over-aligned slot
#[repr(align(128))]
#[derive(Debug)]
struct Big { first: u64, fill: [u64; 50], last: u64 }
impl Elem for Big {
    fn mk(id: u64) -> Self { Big { first: MAGIC ^ id, fill: [id; 50], last: id } }
    fn id(&self) -> Option<u64> { if self.first == MAGIC ^ self.last && self.fill.iter().all(|x| *x == self.last) { Some(self.last) } else { None } }
}

type Got = Result<Option<Option<u64>>, ()>;     // Err: overflow; Ok(None): nothing; Ok(Some(None)): garbage
trait Cons: Sync { fn deq(&self) -> Got; fn peek(&self) -> Result<Vec<Option<u64>>, ()>; }
trait Ring: Sync { fn enq(&self, id: u64); /// false: gave up, as it takes too long
    fn enq_many(&self, times: u64) -> bool; fn cons(&'static self) -> &'static dyn Cons; }

impl<E: Elem, const N: usize> Cons for RingBufferConsumer<'static, E, N> {
    fn deq(&self) -> Got { self.dequeue().map(|o| o.map(|e| e.id())).map_err(|_| ()) }
    fn peek(&self) -> Result<Vec<Option<u64>>, ()> { self.peek_all().map(|v| v.iter().flat_map(|s| s.iter().map(|e| e.id())).collect()).map_err(|_| ()) }
}
impl<E: Elem, const N: usize> Ring for RingBuffer<E, N> {
    fn enq(&self, id: u64) { self.enqueue(E::mk(id)) }
    fn enq_many(&self, times: u64) -> bool {
        let (mut left, t0) = (times, crate::interpose::cpu_seconds());
        while left > 0 {
            let k = left.min(1 << 22);
            for _ in 0..k { self.enqueue(E::mk(0)); }
            left -= k;
            if left > 0 && crate::interpose::cpu_seconds() - t0 > 100.0 { probe("long histories given up"); return false; }
        }
        true
    }
    fn cons(&'static self) -> &'static dyn Cons { Box::leak(Box::new(self.consumer())) }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Slot { Plain, Droppable, Small, Big }

fn make(n: usize, slot: Slot) -> &'static dyn Ring {
    fn mk<S: Sync + 'static, const N: usize>() -> &'static RingBuffer<S, N> {
        // over known, zeroed memory
        let b: &'static mut MaybeUninit<RingBuffer<S, N>> = unsafe {
            let l = std::alloc::Layout::new::<RingBuffer<S, N>>();
            &mut *(std::alloc::alloc_zeroed(l) as *mut MaybeUninit<RingBuffer<S, N>>)
        };
        b.write(RingBuffer::new());
        unsafe { b.assume_init_ref() }
    }
    macro_rules! sizes { ($($x: literal),*) => { match (n, slot) { $(
        ($x, Slot::Plain) => mk::<El, $x>() as &'static dyn Ring, ($x, Slot::Droppable) => mk::<Tok, $x>() as &'static dyn Ring,
        ($x, Slot::Small) => mk::<Small, $x>() as &'static dyn Ring, ($x, Slot::Big) => mk::<Big, $x>() as &'static dyn Ring,)* _ => unreachable!() } } }
    sizes!(1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 32, 64, 300, 1000)
}

/// elements the ring has gone through long before: published by a lone thread, outside the simulation
fn prehistory(most: u64) -> u64 {
    if !coin(120) { return 0; }
    let h = match pick(4) { 0 => 256 - pick(12) as u64, 1 => 65_536 - pick(12) as u64, 2 => pick(600) as u64, _ => pick(70_000) as u64 };
    if h > most { return 0; }
    let ring = REC.get().ring.unwrap();
    in_bulk(|| ring.enq_many(h));
    probe("runs on a ring with a history");
    h
}

#[derive(Clone)]
struct At { t: u64, tid: usize, tick: u32, vc: View }
fn at() -> At { hb_tick(); let (tid, tick) = hb_stamp(); At { t: stamp(), tid, tick, vc: my_view() } }

struct Enq { start: At, end: Option<At> }
#[derive(Clone, PartialEq, Debug)]
enum Res { Err, None, Some(u64), Garbage, List(Vec<u64>), BadList }
struct COp { peek: bool, start: At, end: At, res: Res, unsync: Option<u64> }
struct Con { h: &'static dyn Cons, start: At, end: At, ops: Vec<COp>, owners: Vec<usize>, }

struct Rec { enq: Vec<Enq>, cons: Vec<Con>, weak: bool, ring: Option<&'static dyn Ring>, producers: Vec<usize>, overflows: bool }
static REC: G<Rec> = G::new();

fn before(end: &At, start: &At) -> bool { if REC.get().weak { start.vc.vc(end.tid) >= end.tick } else { end.t < start.t } }

fn do_enq() {
    let r = REC.get();
    let id = r.enq.len() as u64;
    let ring = r.ring.unwrap();
    r.producers.push(tid());
    r.enq.push(Enq { start: at(), end: None });
    tr(|| format!("enqueue({id})"));
    ring.enq(id);
    tr(|| format!("enqueue({id}) returned"));
    let e = at();
    REC.get().enq[id as usize].end = Some(e);
    log(1, id);
}

fn new_cons() -> usize {
    let start = at();
    tr(|| "consumer()".into());
    let h = REC.get().ring.unwrap().cons();
    let end = at();
    let r = REC.get();
    r.cons.push(Con { h, start, end, ops: vec![], owners: vec![] });
    log(2, r.cons.len() as u64);
    r.cons.len() - 1
}

/// the receiving thread must be ordered, under the memory model, after the element was written
fn received(id: u64, ops_before: u64) -> Option<u64> {
    if !REC.get().weak || my_ops() == ops_before { return None; }
    let e = &REC.get().enq[id as usize];
    if !hb_after((e.start.tid, e.start.tick)) {
        if !REC.get().overflows { unsynchronised(id); }
        return Some(id);
    }
    None
}
fn unsynchronised(id: u64) -> ! {
    violate("unsynchronised-element", &format!("element {id} was handed to a thread that is not ordered after the writing of it: a data race under the memory model"))
}

fn known(id: u64) -> bool { (id as usize) < REC.get().enq.len() }

fn do_deq(c: usize) -> Res {
    let h = REC.get().cons[c].h;
    let (start, ops) = (at(), my_ops());
    tr(|| format!("dequeue(consumer {c})"));
    let r = h.deq();
    let res = match r { Err(()) => Res::Err, Ok(None) => Res::None, Ok(Some(None)) => Res::Garbage, Ok(Some(Some(id))) => if known(id) { Res::Some(id) } else { Res::Garbage } };
    let unsync = if let Res::Some(id) = res { received(id, ops) } else { None };
    let end = at();
    tr(|| format!("dequeue(consumer {c}) -> {res:?}"));
    let con = &mut REC.get().cons[c];
    if !con.owners.contains(&tid()) { con.owners.push(tid()); }
    con.ops.push(COp { peek: false, start, end, res: res.clone(), unsync });
    log(3, match &res { Res::Some(i) => *i + 10, Res::Err => 1, _ => 2 });
    res
}

fn do_peek(c: usize) -> Res {
    let h = REC.get().cons[c].h;
    let (start, ops) = (at(), my_ops());
    tr(|| format!("peek_all(consumer {c})"));
    let r = h.peek();
    let res = match r {
        Err(()) => Res::Err,
        Ok(v) => if v.iter().all(|x| x.is_some_and(known)) { Res::List(v.into_iter().flatten().collect()) } else { Res::BadList },
    };
    let unsync = if let Res::List(v) = &res { v.iter().filter_map(|id| received(*id, ops)).next() } else { None };
    let end = at();
    tr(|| format!("peek_all(consumer {c}) -> {res:?}"));
    let con = &mut REC.get().cons[c];
    if !con.owners.contains(&tid()) { con.owners.push(tid()); }
    log(4, match &res { Res::List(v) => v.iter().fold(v.len() as u64, |a, x| a.wrapping_mul(31) + x), Res::Err => 1, _ => 2 });
    con.ops.push(COp { peek: true, start, end, res: res.clone(), unsync });
    res
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Op { Enq, Deq(usize), Peek(usize), New, DeqMine, PeekMine }

fn run_program(p: Vec<Op>) {
    let mut mine = None;
    for op in p {
        match op {
            Op::Enq => do_enq(),
            Op::Deq(c) => { do_deq(c); }
            Op::Peek(c) => { do_peek(c); }
            Op::New => mine = Some(new_cons()),
            Op::DeqMine => if let Some(c) = mine { do_deq(c); },
            Op::PeekMine => if let Some(c) = mine { do_peek(c); },
        }
    }
}

fn setup(n: usize, slot: Slot, weak: bool) {
    let s = sim();
    if weak { s.cfg.stale_permille = one_of(&[250, 80, 500]); }
    s.cfg.weak_fail_permille = one_of(&[0, 50, 250]);
    s.cfg.stall_permille = one_of(&[0, 0, 5]);
    LIVE.set(vec![false; 8192]);
    REC.set(Rec { enq: vec![], cons: vec![], weak, ring: Some(make(n, slot)), producers: vec![], overflows: false });
}

fn go(programs: Vec<Vec<Op>>) {
    let hs: Vec<_> = programs.into_iter().map(|p| spawn(move || run_program(p))).collect();
    for h in hs { join(h); }
}

fn any_slot() -> Slot { if coin(800) { Slot::Plain } else { one_of(&[Slot::Small, Slot::Big]) } }

// ---- without overflows: C01, C03 ------------------------------------------------------------------------------------------

fn no_overflow(peeks: bool) { no_overflow_run(peeks, false, if chosen(0) { (1 << 32) - pick(40) as u64 } else { 0 }) }
/// `liveness`: judges only that everything ends and arrives
/// `history`: elements the buffer had gone through long before
fn no_overflow_run(peeks: bool, liveness: bool, history: u64) {
    let weak = coin(450);
    let mut n = one_of(&[8usize, 4, 5, 6, 7, 12, 16, 32, 3, 2, 64, 1]);
    // many threads, or many elements, at once
    let crowd = history == 0 && coin(15);
    let plenty = history == 0 && !crowd && coin(12);
    if crowd { n = one_of(&[64usize, 32]); }
    if plenty { n = one_of(&[300usize, 1000]); }
    setup(n, any_slot(), weak);
    REC.get().overflows = liveness;
    if crowd || plenty { sim().max_steps = 1_000_000; }
    if history > 0 {
        allow_seconds(150);
        stage("a long history");
        let ring = REC.get().ring.unwrap();
        let old = in_bulk(|| ring.cons());
        if !in_bulk(|| ring.enq_many(history)) { return; }
        stage("after a long history");
        for _ in 0..3 {
            check!(in_bulk(|| old.deq()) == Err(()), "missed-overflow", "a consumer {history} elements behind in a ring of {n} doesn't answer with the overflow error");
            check!(in_bulk(|| old.peek()) == Err(()), "missed-overflow", "a consumer {history} elements behind in a ring of {n} doesn't answer a peek with the overflow error");
        }
        probe("runs after 2^32 elements");
    }
    if history == 0 { prehistory(u64::MAX); }
    let pre = if coin(500) { range(0, 2 * n.min(16) as u32) } else { 0 };
    for _ in 0..pre { do_enq(); }
    let rounds = if history > 0 { 6 } else if crowd || plenty { 1 } else { 1 + (coin(350) as usize) };
    let (mut logv, mut total): (Vec<u64>, usize) = ((0..pre as u64).collect(), pre as usize);
    desc(&format!("ring of {n}, {} memory, {pre} elements first{}, {rounds} rounds{}", if weak { "weak" } else { "sequentially consistent" }, if history > 0 { format!(", after {history} others") } else { String::new() }, if peeks { ", peeking" } else { "" }));
    let shared_before = REC.get().cons.len();
    let nshared = if crowd { 1 + pick(30) as usize } else { 1 + pick(3) as usize };
    for _ in 0..nshared { new_cons(); }
    for round in 0..rounds {
        let witness = REC.get().cons.len();
        new_cons();
        let threads = if crowd { 9 + pick(30) as usize } else { 1 + pick(4) as usize };
        // at most n elements per round, so nobody is lapped: everybody is drained in between
        let mut budget = if crowd { n } else { n.min(24) };
        if plenty {
            // the consumers are far behind when the others come in
            let lot = n as u32 - 24 - pick(if coin(500) { 40 } else { n as u32 - 24 });
            sim().quiet += 1;
            for _ in 0..lot { do_enq(); }
            sim().quiet -= 1;
            probe("consumers hundreds of elements behind");
        }
        if crowd { probe("9 to 38 threads at once"); }
        let mut progs = vec![];
        for t in 0..threads {
            let len = if crowd { 1 + pick(3) } else { 1 + pick(9) } as usize;
            let kind = if crowd && coin(500) { 0 } else { pick(4) };
            let mut p = vec![];
            for _ in 0..len {
                let c = shared_before + pick(nshared as u32) as usize;
                let k = pick(10);
                let op = match (kind, k) {
                    (0, _) | (3, 0..=3) | (2, 0) => Op::Enq,
                    (1, 0) => Op::New,
                    (1, 1..=4) => if peeks && k < 3 { Op::PeekMine } else { Op::DeqMine },
                    _ => if peeks && k % 2 == 0 { Op::Peek(c) } else { Op::Deq(c) },
                };
                if op == Op::Enq { if budget == 0 { continue; } budget -= 1; }
                p.push(op);
            }
            let _ = t;
            progs.push(p);
        }
        go(progs);
        // everything is over: whatever was published is available now, to everyone
        loop { match do_deq(witness) { Res::Some(id) => logv.push(id), Res::None => break, r => violate("witness", &format!("a consumer that wasn't lapped got {r:?}")) } if logv.len() > 4000 { break; } }
        let ncons = REC.get().cons.len();
        for c in 0..ncons {
            if c == witness { continue; }
            if peeks { do_peek(c); }
            let mut guard = 0;
            loop {
                let r = do_deq(c);
                if !matches!(r, Res::Some(_)) { break; }
                if peeks && guard < 2 && coin(200) { do_peek(c); }
                guard += 1;
                if guard > 4000 { violate("endless", "a consumer never gets to the end of the published elements"); }
            }
            if peeks { do_peek(c); }
        }
        let r = REC.get();
        check!(r.enq.iter().all(|e| e.end.is_some()), "lost", "a publication did not end");
        total = r.enq.len();
        let _ = round;
    }
    if liveness {
        for id in 0..total as u64 { check!(logv.contains(&id), "lost", "element {id} was published but never delivered to a consumer created before it"); }
        return;
    }
    judge_no_overflow(&logv, total, pre as usize, n);
}

fn judge_no_overflow(logv: &[u64], total: usize, pre: usize, n: usize) {
    let r = REC.get();
    let mut pos = vec![usize::MAX; total];
    for (i, id) in logv.iter().enumerate() {
        check!(pos[*id as usize] == usize::MAX, "duplicate", "element {id} was delivered twice to one consumer");
        pos[*id as usize] = i;
    }
    for (id, p) in pos.iter().enumerate() { check!(*p != usize::MAX, "lost", "element {id} was published but never delivered to a consumer created before it (delivered: {logv:?})"); }
    // one order, respecting the producers' and the publications that didn't overlap
    for a in 0..total { for b in 0..total {
        if a != b && (before(r.enq[a].end.as_ref().unwrap(), &r.enq[b].start) || (r.producers[a] == r.producers[b] && r.enq[a].start.t < r.enq[b].start.t)) {
            check!(pos[a] < pos[b], "order", "element {a} was published before element {b} was, but is delivered after it: {logv:?}");
        }
    } }
    let p_lo = |s: &At| (0..total).filter(|&i| before(r.enq[i].end.as_ref().unwrap(), s)).map(|i| pos[i] + 1).max().unwrap_or(0);
    let p_hi = |e: &At| (0..total).filter(|&i| r.enq[i].start.t > e.t).map(|i| pos[i]).min().unwrap_or(total);
    let (mut multi, mut empties, mut wraps, mut nonempty_peeks) = (0, 0, 0, 0);
    // (how many were published at some instant of, from, to, by which consumer)
    let mut seen: Vec<(usize, u64, u64, usize)> = vec![];
    for (ci, c) in r.cons.iter().enumerate() {
        let mut got: Vec<usize> = vec![];
        for o in c.ops.iter().filter(|o| !o.peek) {
            match &o.res {
                Res::Some(id) => got.push(pos[*id as usize]),
                Res::Garbage => violate("garbage", &format!("consumer {ci} was given something that is not a completely written element")),
                Res::Err => violate("false-overflow", &format!("consumer {ci}, which was never lapped, got the overflow error")),
                _ => {}
            }
        }
        let mut sorted = got.clone(); sorted.sort();
        let first = sorted.first().copied().unwrap_or(total);
        check!(sorted.windows(2).all(|w| w[0] != w[1]), "duplicate", "consumer {ci} was given an element more than once (log positions {got:?})");
        check!(sorted.len() == total - first, "lost", "consumer {ci} missed elements: got log positions {sorted:?} of {total}");
        let (lo, hi) = (p_lo(&c.start), p_hi(&c.end));
        check!(first >= lo, "before-creation", "consumer {ci} was given an element published before it was created (log position {first}, at least {lo} were there already)");
        check!(first <= hi, "lost", "consumer {ci} missed an element published after its creation (its first is log position {first}; {hi} may be its first at most)");
        if c.owners.len() > 1 { multi += 1; }
        seen.push((first, c.start.t, c.end.t, ci));
        let taken: Vec<&COp> = c.ops.iter().filter(|o| matches!(o.res, Res::Some(_))).collect();
        for x in &taken { for y in &taken {
            if before(&x.end, &y.start) {
                let (Res::Some(a), Res::Some(b)) = (&x.res, &y.res) else { unreachable!() };
                check!(pos[*a as usize] < pos[*b as usize], "order", "consumer {ci} gave element {b} only after element {a}, against the common order {logv:?}");
            }
        } }
        // when may exactly the log positions below `a` have been taken, and exactly those below `b` published?
        let mut take_at: Vec<(usize, u64, u64)> = taken.iter().map(|x| { let Res::Some(i) = &x.res else { unreachable!() }; (pos[*i as usize], x.start.t, x.end.t) }).collect();
        take_at.sort();
        let instant = |a: usize, b: usize, o: &COp| -> bool {
            let mut from = o.start.t; let mut to = o.end.t;
            for (p, s, e) in &take_at { if *p < a { from = from.max(*s); } else { to = to.min(*e); } }
            for i in 0..total { if pos[i] < b { from = from.max(r.enq[i].start.t); } else { to = to.min(r.enq[i].end.as_ref().unwrap().t); } }
            from <= to
        };
        for o in &c.ops {
            let t_hi = taken.iter().filter(|x| x.start.t < o.end.t && !std::ptr::eq(**x, o)).count();
            let t_lo = taken.iter().filter(|x| before(&x.end, &o.start)).count();
            match &o.res {
                Res::None => {
                    empties += 1;
                    if t_lo == t_hi { seen.push((first + t_lo, o.start.t, o.end.t, ci)); }
                    check!(p_lo(&o.start) <= first + t_hi, "false-empty", "consumer {ci} answered 'empty' with {} elements pending", p_lo(&o.start) - first - t_hi);
                    if !r.weak { check!((first..=total).any(|v| instant(v, v, o)), "false-empty", "consumer {ci} answered 'empty', but at every instant of the call something was pending"); }
                }
                Res::List(v) => {
                    let (alo, ahi, blo, bhi) = (first + t_lo, first + t_hi, p_lo(&o.start), p_hi(&o.end));
                    let ps: Vec<usize> = v.iter().map(|i| pos[*i as usize]).collect();
                    check!(v.len() <= n, "peek", "a view of {} elements out of a ring of {n}", v.len());
                    check!(ps.windows(2).all(|w| w[1] == w[0] + 1), "peek-content", "the view of consumer {ci} is not a contiguous part of the common order: log positions {ps:?}");
                    if ps.is_empty() {
                        check!(alo.max(blo) <= ahi.min(bhi), "peek-empty", "consumer {ci}'s view is empty, with at least {} elements pending", blo.saturating_sub(ahi));
                        if !r.weak { check!((first..=total).any(|v| instant(v, v, o)), "peek-empty", "consumer {ci}'s view is empty, but at every instant of the call something was pending"); }
                    } else {
                        nonempty_peeks += 1;
                        let (a, b) = (ps[0], ps[ps.len() - 1] + 1);
                        if a / n != (b - 1) / n { wraps += 1; }
                        seen.push((b, o.start.t, o.end.t, ci));
                        check!(a >= alo && a <= ahi, "peek-first", "consumer {ci}'s view starts at log position {a}, but its position was in {alo}..={ahi}");
                        check!(b >= blo && b <= bhi, "peek-last", "consumer {ci}'s view ends before log position {b}, but {blo}..={bhi} were published");
                        if !r.weak { check!(instant(a, b, o), "peek-instant", "consumer {ci}'s view shows log positions {a}..{b}: at no instant of the call were exactly these pending"); }
                    }
                }
                Res::BadList => violate("garbage", &format!("consumer {ci}'s view shows something that is not a completely written element")),
                Res::Err => violate("false-overflow", &format!("consumer {ci}, which was never lapped, got the overflow error")),
                _ => {}
            }
        }
    }
    if !r.weak {
        // what is published once stays published
        seen.sort_by_key(|x| x.1);
        for x in &seen { for y in &seen {
            check!(x.2 >= y.1 || x.0 <= y.0, "unpublished", "consumer {} answered (or started) as if {} elements had been published; consumer {} did, later, as if {} had", x.3, x.0, y.3, y.0);
        } }
    }
    probe_n("elements published", total as u64);
    probe_n("consumers shared by several threads", multi);
    probe_n("'empty' answers judged", empties);
    if nonempty_peeks > 0 { probe_n("non-empty views judged", nonempty_peeks); }
    if wraps > 0 { probe_n("views wrapping around the end of the buffer", wraps); }
    if pre > n { probe("runs starting after more than a lap"); }
}

// ---- with overflows: C02 (and parts of C03) -------------------------------------------------------------------------------

fn overflow() { if chosen(0) { return vastly_behind(); } overflow_run(false) }
/// consumers around 2^32 elements behind: where 32 bits counters would take them for just created ones
fn vastly_behind() {
    allow_seconds(150);
    let n = one_of(&[1usize, 2, 3, 4, 8]);
    setup(n, any_slot(), false);
    REC.get().overflows = true;
    stage("consumers 2^32 elements behind");
    let ring = REC.get().ring.unwrap();
    let h = pick(2 * n as u32 + 3) as u64;
    in_bulk(|| ring.enq_many(h));
    let old: Vec<_> = (0..2 * n + 3).map(|_| in_bulk(|| { let c = ring.cons(); ring.enq_many(1); c })).collect();
    // from n + 1 elements less than 2^32 to n + 1 more
    if !in_bulk(|| ring.enq_many((1 << 32) - n as u64 - 2)) { return; }
    for i in 0..2 + pick(4) {
        for (k, c) in old.iter().enumerate() {
            check!(in_bulk(|| if (i as usize + k) % 2 == 0 { c.deq().err() } else { c.peek().err() }).is_some(), "missed-overflow", "a consumer {} elements behind in a ring of {n} doesn't answer with the overflow error", (1u64 << 32) + n as u64 + 1 - k as u64);
        }
        if coin(500) { in_bulk(|| ring.enq_many(1)); }
    }
    let fresh = in_bulk(|| ring.cons());
    check!(matches!(in_bulk(|| fresh.deq()), Ok(None)), "wrong-element", "a consumer just created after more than 2^32 elements has something to deliver");
    in_bulk(|| ring.enq_many(n as u64));
    for _ in 0..n { check!(matches!(in_bulk(|| fresh.deq()), Ok(Some(_))), "lost", "an element published after more than 2^32 others isn't delivered"); }
    check!(matches!(in_bulk(|| fresh.deq()), Ok(None)), "wrong-element", "nothing is pending, but something was delivered");
    probe("consumers 2^32 elements behind");
}
fn overflow_run(liveness: bool) {
    let weak = coin(350);
    let n = one_of(&[2usize, 3, 4, 1, 5, 8]);
    setup(n, any_slot(), weak);
    REC.get().overflows = true;
    far_behind(n);
    let nprod = if n >= 2 && coin(400) { 2 + pick((n as u32 - 1).min(2)) as usize } else { 1 };
    let nprod = nprod.min(n);
    let pre = if coin(400) { range(0, 2 * n as u32) } else { 0 };
    for _ in 0..pre { do_enq(); }
    let ncons = 1 + pick(3) as usize;
    for _ in 0..ncons { new_cons(); }
    // consumers used before the race starts, so they're at different positions
    let warm = if coin(500) { range(0, 2 * n as u32) } else { 0 };
    for _ in 0..warm { match pick(3) { 0 => do_enq(), 1 => { do_deq(pick(ncons as u32) as usize); } _ => { do_peek(pick(ncons as u32) as usize); } } }
    desc(&format!("ring of {n}, {} memory, {nprod} producers, {ncons} consumers, overflows allowed", if weak { "weak" } else { "sequentially consistent" }));
    let mut progs = vec![];
    for _ in 0..nprod { let k = range(1, 2 * n as u32 + 3); progs.push(vec![Op::Enq; k as usize]); }
    let shared = coin(200);
    for t in 0..(if shared { 2 + pick(2) as usize } else { ncons }) {
        let len = 1 + pick(8) as usize;
        let mut p = vec![];
        let create = !shared && coin(150);
        if create { p.push(Op::New); }
        for _ in 0..len {
            let peek = coin(300);
            p.push(match (create, shared) {
                (true, _) => if peek { Op::PeekMine } else { Op::DeqMine },
                (_, true) => { let c = pick(ncons as u32) as usize; if peek { Op::Peek(c) } else { Op::Deq(c) } }
                _ => if peek { Op::Peek(t) } else { Op::Deq(t) },
            });
        }
        progs.push(p);
    }
    go(progs);
    // afterwards: more of it, quietly
    let after = pick(6);
    for _ in 0..after {
        match pick(3) { 0 => do_enq(), k => { let c = pick(REC.get().cons.len() as u32) as usize; if k == 1 { do_deq(c); } else { do_peek(c); } } }
    }
    for c in 0..REC.get().cons.len() {
        let mut guard = 0;
        while let Res::Some(_) = do_deq(c) { guard += 1; if guard > 300 { violate("endless", "a consumer never gets to the end of the published elements"); } }
        do_peek(c);
        do_deq(c);
    }
    if !liveness { judge_overflow(n, nprod); }
}

/// consumers that are many laps behind
fn far_behind(n: usize) {
    if !coin(60) { return; }
    let ring = REC.get().ring.unwrap();
    if coin(500) { let h = pick(300) as u64; in_bulk(|| ring.enq_many(h)); }
    let old = in_bulk(|| ring.cons());
    let used = pick(2) == 0;
    if used { in_bulk(|| ring.enq_many(1)); check!(matches!(in_bulk(|| old.deq()), Ok(Some(_))), "lost", "the only pending element isn't delivered"); }
    let k = match pick(5) { 0 => n as u64 * pick(600) as u64, 1 => 256 * (1 + pick(3) as u64) + pick(2 * n as u32) as u64, 2 => 65_536 + pick(2 * n as u32) as u64, 3 => n as u64 * (65_536 / n as u64), _ => pick(70_000) as u64 }.max(n as u64 + 1);
    in_bulk(|| ring.enq_many(k));
    for i in 0..2 + pick(2 * n as u32 + 3) {
        check!(in_bulk(|| if i % 2 == used as u32 { old.deq().err() } else { old.peek().err() }).is_some(), "missed-overflow", "a consumer {k} elements behind in a ring of {n} doesn't answer with the overflow error");
        if coin(300) { in_bulk(|| ring.enq_many(1)); }
    }
    probe("consumers many laps behind");
}

fn judge_overflow(n: usize, nprod: usize) {
    let r = REC.get();
    let weak = r.weak;
    check!(r.enq.iter().all(|e| e.end.is_some()), "lost", "a publication did not end");
    let completed = |s: &At| r.enq.iter().filter(|e| before(e.end.as_ref().unwrap(), s)).count();
    let started = |t: u64| r.enq.iter().filter(|e| e.start.t < t).count();
    // element at a log position, where known: single producers at a time publish in order of their ids
    let single = nprod == 1;
    let mut at_pos: std::collections::BTreeMap<usize, u64> = Default::default();
    let (mut errs, mut due, mut sticky, mut raced) = (0u64, 0u64, 0u64, 0u64);
    for (ci, c) in r.cons.iter().enumerate() {
        let shared = c.owners.iter().filter(|t| **t != 0).count() > 1;
        let (olo, ohi) = (completed(&c.start), started(c.end.t));
        let mut best: Option<(usize, String, &'static str)> = None;
        let mut ok = false;
        'cand: for o in olo..=ohi {
            let mut found: Vec<(usize, u64)> = vec![];
            for (k, op) in c.ops.iter().enumerate() {
                let mut fail = |class: &'static str, m: String| { if best.as_ref().map_or(true, |b| b.0 < k) { best = Some((k, m, class)); } };
                let some = |x: &COp| matches!(x.res, Res::Some(_) | Res::Garbage);
                let tlo = c.ops.iter().filter(|x| some(x) && before(&x.end, &op.start)).count();
                // (a dequeue that failed meanwhile had taken a position too)
                let thi = c.ops.iter().filter(|x| (some(x) || x.res == Res::Err && !x.peek) && x.start.t < op.end.t && !std::ptr::eq(*x, op)).count();
                let (hlo, hhi) = (o + tlo, o + thi);
                let must_err = completed(&op.start) > hhi + n;
                let stuck = c.ops.iter().any(|x| x.res == Res::Err && before(&x.end, &op.start));
                let may_err = started(op.end.t) > hlo + n || c.ops.iter().any(|x| x.res == Res::Err && x.start.t < op.end.t && !std::ptr::eq(x, op));
                // a view is taken at one instant: it may only fail if the consumer was lapped at one
                let may_err = if op.peek && !weak && may_err && !c.ops.iter().any(|x| x.res == Res::Err && x.start.t < op.end.t && !std::ptr::eq(x, op)) {
                    let taken_at = |t: u64| c.ops.iter().filter(|x| some(x) && x.end.t < t).count();
                    let lapped = |t: u64| started(t) > o + taken_at(t) + n;
                    lapped(op.start.t) || r.enq.iter().any(|e| e.start.t >= op.start.t && e.start.t < op.end.t && lapped(e.start.t + 1))
                } else { may_err };
                let racy = started(op.end.t) > hlo + n;
                let what = if op.peek { "peek_all" } else { "dequeue" };
                if op.res != Res::Err && stuck { fail("not-sticky", format!("consumer {ci} answered {:?} to a {what} after having answered with the overflow error before", op.res)); continue 'cand; }
                if op.res != Res::Err && must_err { fail("missed-overflow", format!("consumer {ci} at position {hhi} of a ring of {n} answered {:?} to a {what}, although {} elements had been published before the call", op.res, completed(&op.start))); continue 'cand; }
                if op.res == Res::Err && !may_err { fail("false-overflow", format!("consumer {ci} at position {hlo} of a ring of {n} answered with the overflow error to a {what}, although only {} publications had started", started(op.end.t))); continue 'cand; }
                if let (Some(id), false) = (op.unsync, racy) { unsynchronised(id); }
                match &op.res {
                    Res::None => if completed(&op.start) > hhi { fail("false-empty", format!("consumer {ci} answered 'empty' with {} elements pending", completed(&op.start) - hhi)); continue 'cand; },
                    Res::Garbage | Res::BadList => if !racy { fail("garbage", format!("consumer {ci} was given something that is not an element")); continue 'cand; },
                    Res::Some(id) => if !shared && !racy {
                        if single && *id as usize != hlo { fail("wrong-element", format!("consumer {ci} at position {hlo} was given element {id}")); continue 'cand; }
                        found.push((hlo, *id));
                    } else if !shared && single && (*id as usize) < hlo { fail("wrong-element", format!("consumer {ci} at position {hlo} was given the older element {id}")); continue 'cand; },
                    Res::List(v) => if !shared {
                        if v.len() > n || hlo + v.len() < completed(&op.start) || hlo + v.len() > started(op.end.t) { fail("peek", format!("consumer {ci} at position {hlo} was shown {} elements, {} published before the call and {} started at its end", v.len(), completed(&op.start), started(op.end.t))); continue 'cand; }
                        if !racy { for (i, id) in v.iter().enumerate() {
                            if single && *id as usize != hlo + i { fail("wrong-element", format!("consumer {ci} at position {hlo} was shown {v:?}")); continue 'cand; }
                            found.push((hlo + i, *id));
                        } }
                    },
                    Res::Err => {}
                }
            }
            ok = true;
            if olo == ohi { for (p, id) in found {
                let e = *at_pos.entry(p).or_insert(id);
                check!(e == id, "wrong-element", "position {p} was element {e} for one consumer or view and {id} for another");
            } }
            break;
        }
        if !ok { if let Some((_, m, class)) = best { violate(class, &m); } }
        for op in &c.ops {
            if op.res == Res::Err { errs += 1; if c.ops.iter().any(|x| x.res == Res::Err && before(&x.end, &op.start)) { sticky += 1; } else { due += 1; } }
            if !matches!(op.res, Res::Err) && started(op.end.t) > n + olo { raced += 1; }
        }
    }
    // what is known of the order must respect the publications that didn't overlap
    let k: Vec<(usize, u64)> = at_pos.into_iter().collect();
    for (p, a) in &k { for (q, b) in &k {
        check!(p == q || a != b, "duplicate", "element {a} was delivered at positions {p} and {q}");
        if before(r.enq[*a as usize].end.as_ref().unwrap(), &r.enq[*b as usize].start) { check!(p < q, "order", "element {a} (published first) was delivered at position {p} and element {b} at position {q}"); }
    } }
    probe_n("overflow errors", errs);
    probe_n("first overflow errors of a consumer", due);
    probe_n("overflow errors after the first", sticky);
    probe_n("answers given near or beyond a lap", raced);
}

// ---- C04: stalled producers, dropped slots ----------------------------------------------------------------------------------

fn stalled() {
    let weak = coin(300);
    let tok = coin(500);
    let n = one_of(&[4usize, 3, 8, 2, 5]);
    setup(n, if tok { Slot::Droppable } else { any_slot() }, weak);
    sim().cfg.stall_permille = 0;
    REC.get().overflows = true;
    let ncons = 1 + pick(2) as usize;
    for _ in 0..ncons { new_cons(); }
    let pre = range(0, 2 * n as u32 + 1);
    let mut behind = 0;
    for _ in 0..pre { do_enq(); behind += 1; if behind == n || coin(300) { for c in 0..ncons { while let Res::Some(_) = do_deq(c) {} } behind = 0; } }
    desc(&format!("ring of {n}{}, {} memory, a producer stalled half-way", if tok { " of droppable elements" } else { "" }, if weak { "weak" } else { "sequentially consistent" }));
    let nprod = 1 + pick((n as u32).min(2)) as usize;
    let mut hs = vec![];
    let base = sim().threads.len();
    if coin(750) { sim().park.push((base, pick(4) as u64)); }
    for _ in 0..nprod { let k = range(1, n as u32 + 1); hs.push(spawn(move || run_program(vec![Op::Enq; k as usize]))); }
    let mut cs = vec![];
    for _ in 0..1 + pick(3) {
        let len = 1 + pick(6);
        let p: Vec<Op> = (0..len).map(|_| { let c = pick(ncons as u32) as usize; if coin(350) { Op::Peek(c) } else { Op::Deq(c) } }).collect();
        cs.push(spawn(move || run_program(p)));
    }
    stage("consumers, while a producer is stalled");
    for h in cs { join(h); }
    unpark_all();
    stage("the stalled producer goes on");
    for h in hs { join(h); }
    stage("draining");
    let r = REC.get();
    check!(r.enq.iter().all(|e| e.end.is_some()), "lost", "a publication did not end");
    // a fresh consumer, after everything: sees all it should and nothing else
    let c = new_cons();
    check!(do_deq(c) == Res::None, "lost", "a consumer created after every publication has something to deliver");
    let k = range(1, n as u32) as u64;
    let first = REC.get().enq.len() as u64;
    for _ in 0..k { do_enq(); }
    for i in 0..k { let g = do_deq(c); check!(g == Res::Some(first + i), "lost", "element {} was published, the consumer got {g:?} instead", first + i); }
    check!(do_deq(c) == Res::None, "lost", "nothing is pending, but something was delivered");
    if tok {
        // the elements dropped are those that were overwritten, each once
        let total = REC.get().enq.len();
        let live = (0..total).filter(|&i| LIVE.get()[i]).count();
        check!(live == total.min(n), "element-leak", "{live} of {total} elements are still alive in a ring of {n}");
        probe("runs with droppable elements");
    }
}

/// a producer is stalled half-way for as long as a sibling needs for millions of attempts at publishing
fn long_stall() {
    allow_seconds(150);
    setup(4, Slot::Plain, false);
    let s = sim();
    s.cfg.weak_fail_permille = 0; s.cfg.stall_permille = 0;
    s.max_steps = 100_000_000; s.force_after = 12_000_000;
    desc("ring of 4, a producer stalled half-way while a sibling waits for it");
    let c = new_cons();
    let base = sim().threads.len();
    sim().park.push((base, 1));
    let mut hs: Vec<_> = (0..2).map(|_| spawn(|| run_program(vec![Op::Enq]))).collect();
    hs.push(spawn(|| { work(1_000_000_000); unpark_all(); }));
    stage("a producer waits for a stalled one");
    for h in hs { join(h); }
    stage("draining");
    let mut got = vec![];
    while let Res::Some(id) = do_deq(c) { got.push(id); }
    got.sort();
    check!(got == [0, 1], "lost", "2 elements were published, the consumer got {got:?}");
    probe("producers stalled for millions of attempts of a sibling");
}

pub fn c04_ring() {
    if chosen(1) { return long_stall(); }
    // positions around 2^32, where 32 bits counters would wrap
    if chosen(0) { return no_overflow_run(true, false, (1 << 32) - 12); }
    match pick(4) { 0 | 1 => stalled(), 2 => no_overflow_run(true, true, 0), _ => overflow_run(true) }
}

const ASSUME: &[&str] = &["elements are moved into and out of slots between two points the simulator controls: half-written slots are detected through missing synchronisation and wrong order, not as torn bytes"];

pub fn props() -> Vec<crate::driver::Prop> {
    let real: &[&str] = &["metrics_allocator::ring_buffer (RingBuffer, RingBufferConsumer)", "std threads (one runs at a time)"];
    let stub: &[&str] = &["memory model below the crate's atomics (view-based simulation of relaxed/acquire/release/seq-cst)", "thread scheduler"];
    vec![
        crate::driver::Prop { id: "C01", run: || no_overflow(false), variants: &[], quick: 160_000, thorough: 2_000_000, real, stub, assumptions: ASSUME,
            rule: "random rings (1..64, 300 or 1000 slots of plain, droppable, small or over-aligned elements, 0..2 laps in, or after 2^8, 2^16 or any number of earlier elements, one run after 2^32), up to 5 threads (crowds: 9..38) mixing enqueue/dequeue/consumer(), up to 3 (crowds: 30) shared consumers plus a witness, consumers up to hundreds of elements behind, 1-2 rounds, SC or weak memory; non-trivial = at least one preemption or injected fault; distinct = event-log hash" },
        crate::driver::Prop { id: "C02", run: overflow, variants: &[], quick: 160_000, thorough: 2_000_000, real, stub, assumptions: ASSUME,
            rule: "random rings (1..8 slots; many laps behind: up to 1000; one run with consumers 2^32 elements behind), 1-3 producers publishing beyond the capacity while 1-3 consumers (owned or shared, old or created meanwhile) dequeue and peek; every answer judged against what was completed before and started by the end of the call; non-trivial = preemption or fault; distinct = event-log hash" },
        crate::driver::Prop { id: "C03", run: || no_overflow(true), variants: &[], quick: 160_000, thorough: 2_000_000, real, stub, assumptions: ASSUME,
            rule: "as C01 with half of the consumer operations being peeks; every view judged as a contiguous part of the common order between the bounds the call's interval allows; non-trivial = preemption or fault; distinct = event-log hash" },
    ]
}
