//! C05-C08 (and C04's part): the metrics allocator under simulated threads and a simulated, refusing system allocator.

use super::*;
use crate::sim::*;
use crate::sysalloc::{self, Kind};
use big_o_test::metrics_allocator::{MetricsAllocator, MetricsAllocatorSavePoint, MetricsAllocatorStatistics};
use std::alloc::{GlobalAlloc, Layout};
use std::collections::{HashMap, HashSet};

/// 0..4: allocations, deallocations, zeroed, reallocations (counts); 4..9: bytes allocated, deallocated, zeroed, realloc originals, realloc news
#[derive(Clone, PartialEq, Debug)]
pub struct St { f: [usize; 9], cur: usize, min: usize, max: usize }
const NAMES: [&str; 9] = ["allocations", "deallocations", "zeroed allocations", "reallocations", "allocated bytes", "deallocated bytes", "zeroed bytes", "reallocated original bytes", "reallocated new bytes"];

fn st(m: &MetricsAllocatorStatistics<usize>) -> St {
    St { f: [m.allocations_count, m.deallocations_count, m.zeroed_allocations_count, m.reallocations_count, m.allocated_bytes, m.deallocated_bytes,
             m.zeroed_allocated_bytes, m.reallocated_originals_bytes, m.reallocated_news_bytes], cur: m.current_used_memory, min: m.min_used_memory, max: m.max_used_memory }
}

trait Alloc: Sync {
    fn g(&self) -> &dyn GlobalAlloc;
    fn save(&self) -> (usize, usize);
    fn delta(&self, sp: usize) -> Result<St, ()>;
    /// requests and save points of long ago
    fn history(&self, requests: u32, saves: u32);
}
struct W<const R: usize> { m: &'static MetricsAllocator<'static, R>, sps: G<Vec<(Box<MetricsAllocatorSavePoint<'static, R>>, View)>> }
impl<const R: usize> Alloc for W<R> {
    fn g(&self) -> &dyn GlobalAlloc { self.m }
    fn save(&self) -> (usize, usize) {
        let sp = self.m.save_point();
        let cur = sp.metrics.current_used_memory;
        self.sps.get().push((Box::new(sp), hb_send()));
        (self.sps.get().len() - 1, cur)
    }
    fn delta(&self, sp: usize) -> Result<St, ()> {
        hb_receive(&self.sps.get()[sp].1);
        let sp: *const MetricsAllocatorSavePoint<'static, R> = &*self.sps.get()[sp].0;
        self.m.delta_statistics(unsafe { &*sp }).map(|m| st(&m)).map_err(|_| ())
    }
    fn history(&self, requests: u32, saves: u32) {
        in_bulk(|| unsafe {
            let l = |n| Layout::from_size_align_unchecked(n, 8);
            for i in 0..requests {
                let p = if i % 5 == 0 { self.m.alloc_zeroed(l(48)) } else { self.m.alloc(l(48)) };
                if i % 3 == 0 { let q = self.m.realloc(p, l(48), 96); self.m.dealloc(q, l(96)); } else { self.m.dealloc(p, l(48)); }
            }
            for _ in 0..saves { drop(self.m.save_point()); }
        });
        probe("runs on an allocator with a history");
    }
}
fn make(r: usize) -> &'static dyn Alloc {
    fn mk<const R: usize>() -> &'static dyn Alloc {
        let w = W::<R> { m: Box::leak(Box::new(MetricsAllocator::new())), sps: G::new() };
        w.sps.set(vec![]);
        Box::leak(Box::new(w))
    }
    match r { 1 => mk::<1>(), 2 => mk::<2>(), 3 => mk::<3>(), 4 => mk::<4>(), 8 => mk::<8>(), 100 => mk::<100>(), 300 => mk::<300>(), 1024 => mk::<1024>(), _ => mk::<64>() }
}

#[derive(Clone, Debug)]
enum What {
    /// which kind (0..4), bytes of the request, bytes of the original (reallocations), served?, change of the memory in use
    Mem { kind: usize, size: usize, old: usize, ok: bool, delta: i64 },
    Save { sp: usize, cur: usize },
    Query { sp: usize, res: Result<St, ()> },
}
#[derive(Clone, Debug)]
struct Ev { tid: usize, start: u64, end: u64, what: What }

struct Blk { ptr: usize, layout: Layout, seed: u8, busy: bool, view: View }
struct Rec { a: &'static dyn Alloc, cap: usize, ev: Vec<Ev>, blocks: Vec<Blk>, seeds: u32, checks8: bool }
static REC: G<Rec> = G::new();

/// the parts of a block of `n` bytes that are used: all of it, or (of big ones) both its ends
fn used(n: usize) -> impl Iterator<Item = usize> { let big = n > 1 << 18; (0..if big { 64 } else { n }).chain(if big { n - 64..n } else { 0..0 }) }
fn fill(b: &Blk) { unsafe { for i in used(b.layout.size()) { *(b.ptr as *mut u8).add(i) = b.seed.wrapping_add(i as u8).wrapping_mul(5); } } }
/// are the first `n` bytes those of a block of `old` bytes?
fn holds(ptr: usize, old: usize, n: usize, seed: u8) -> bool { unsafe { used(old).filter(|i| *i < if old > 1 << 18 && n < old { n.min(64) } else { n }).all(|i| *(ptr as *const u8).add(i) == seed.wrapping_add(i as u8).wrapping_mul(5)) } }

fn check_new(ptr: usize, l: Layout, zeroed: bool) {
    let r = REC.get();
    if !r.checks8 { return; }
    check!(ptr % l.align() == 0, "misaligned", "memory at an address that is no multiple of {} was handed out", l.align());
    check!(!r.blocks.iter().any(|b| ptr < b.ptr + b.layout.size() && b.ptr < ptr + l.size()), "shared-block", "memory that is still in use by another block was handed out");
    if zeroed { check!(unsafe { used(l.size()).all(|i| *(ptr as *const u8).add(i) == 0) }, "not-zeroed", "zeroed memory was asked for, but other contents were handed out"); }
}
fn add_block(ptr: usize, layout: Layout) {
    let r = REC.get();
    r.seeds += 1;
    let b = Blk { ptr, layout, seed: (r.seeds * 37) as u8, busy: false, view: hb_send() };
    fill(&b);
    r.blocks.push(b);
}
/// an allocator that itself asks for memory asks itself, once it's the global one
fn alone<T>(f: impl FnOnce() -> T) -> T {
    let (v, n) = crate::gate::counting(f);
    check!(n == 0, "reentrant", "to serve one request, the allocator asked the global allocator -- itself, as it's deployed -- for memory {n} time(s)");
    v
}
/// the system allocator must have seen exactly this
fn check_system(from: usize, kind: Kind, ptr: usize, l: Layout, new_size: usize, result: usize) {
    if !REC.get().checks8 { return; }
    let me = tid();
    let mine: Vec<_> = sysalloc::st().log[from..].iter().filter(|c| c.tid == me).collect();
    check!(mine.len() == 1, "system-calls", "one {kind:?} request was made, but the system allocator got {}: {mine:?}", mine.len());
    let c = mine[0];
    check!(c.kind == kind && c.layout == l && (kind == Kind::Alloc || kind == Kind::Zeroed || c.ptr == ptr) && (kind != Kind::Realloc || c.new_size == new_size), "system-request", "the request {kind:?} {l:?} -> {new_size} reached the system allocator as {c:?}");
    check!(c.result == result, "system-answer", "the system allocator answered {:#x}, the caller got {:#x}", c.result, result);
}

fn mem(zeroed: bool, size: usize, align: usize) {
    let a = REC.get().a;
    let l = Layout::from_size_align(size, align).unwrap();
    let from = sysalloc::st().log.len();
    let start = stamp();
    tr(|| format!("{}({size})", if zeroed { "alloc_zeroed" } else { "alloc" }));
    let p = alone(|| unsafe { if zeroed { a.g().alloc_zeroed(l) } else { a.g().alloc(l) } } as usize);
    tr(|| format!("-> {}", if p == 0 { "refused" } else { "served" }));
    check_system(from, if zeroed { Kind::Zeroed } else { Kind::Alloc }, 0, l, 0, p);
    if p != 0 { check_new(p, l, zeroed); add_block(p, l); }
    let ok = p != 0;
    REC.get().ev.push(Ev { tid: tid(), start, end: stamp(), what: What::Mem { kind: if zeroed { 2 } else { 0 }, size, old: 0, ok, delta: if ok { size as i64 } else { 0 } } });
    log(1, size as u64 * 2 + ok as u64);
}

fn take_block(i: u32) -> Option<Blk> {
    let r = REC.get();
    let n = r.blocks.len();
    if n == 0 { return None; }
    let k = (0..n).map(|d| (i as usize + d) % n).find(|&k| !r.blocks[k].busy)?;
    let b = r.blocks.swap_remove(k);
    hb_receive(&b.view);
    Some(b)
}

fn free(i: u32) {
    let Some(b) = take_block(i) else { return };
    let a = REC.get().a;
    if REC.get().checks8 { check!(holds(b.ptr, b.layout.size(), b.layout.size(), b.seed), "contents", "the contents of a block of {} bytes changed while it was in use", b.layout.size()); }
    let from = sysalloc::st().log.len();
    let start = stamp();
    tr(|| format!("dealloc({})", b.layout.size()));
    alone(|| unsafe { a.g().dealloc(b.ptr as *mut u8, b.layout) });
    tr(|| "dealloc returned".into());
    check_system(from, Kind::Dealloc, b.ptr, b.layout, 0, 0);
    let size = b.layout.size();
    REC.get().ev.push(Ev { tid: tid(), start, end: stamp(), what: What::Mem { kind: 1, size, old: 0, ok: true, delta: -(size as i64) } });
    log(2, size as u64);
}

fn resize(i: u32, new: usize) {
    let Some(mut b) = take_block(i) else { return };
    let a = REC.get().a;
    let old = b.layout.size();
    let from = sysalloc::st().log.len();
    let start = stamp();
    tr(|| format!("realloc({old} -> {new})"));
    let p = alone(|| unsafe { a.g().realloc(b.ptr as *mut u8, b.layout, new) } as usize);
    tr(|| format!("-> {}", if p == 0 { "refused" } else { "served" }));
    check_system(from, Kind::Realloc, b.ptr, b.layout, new, p);
    let ok = p != 0;
    if ok {
        let nl = Layout::from_size_align(new, b.layout.align()).unwrap();
        check_new(p, nl, false);
        if REC.get().checks8 { check!(holds(p, old, old.min(new), b.seed), "contents", "a reallocation from {old} to {new} bytes lost the old contents"); }
        add_block(p, nl);
    } else {
        if REC.get().checks8 { check!(holds(b.ptr, old, old, b.seed), "contents", "a refused reallocation changed the contents of the old block"); }
        b.busy = false;
        b.view = hb_send();
        REC.get().blocks.push(b);
    }
    REC.get().ev.push(Ev { tid: tid(), start, end: stamp(), what: What::Mem { kind: 3, size: new, old, ok, delta: if ok { new as i64 - old as i64 } else { 0 } } });
    log(3, (old as u64) << 20 ^ new as u64 ^ (ok as u64) << 50);
}

fn save() -> usize {
    let a = REC.get().a;
    let start = stamp();
    tr(|| "save_point()".into());
    let (sp, cur) = a.save();
    tr(|| format!("save point {sp}, {cur} bytes in use"));
    REC.get().ev.push(Ev { tid: tid(), start, end: stamp(), what: What::Save { sp, cur } });
    log(4, cur as u64);
    sp
}

fn query(sp: usize) -> Result<St, ()> {
    let a = REC.get().a;
    let start = stamp();
    tr(|| format!("delta_statistics({sp})"));
    let res = a.delta(sp);
    tr(|| format!("delta_statistics({sp}) -> {res:?}"));
    REC.get().ev.push(Ev { tid: tid(), start, end: stamp(), what: What::Query { sp, res: res.clone() } });
    log(5, match &res { Ok(s) => (s.cur ^ s.max << 16 ^ s.min << 32) as u64, Err(_) => 1 });
    res
}

#[derive(Clone, Copy, PartialEq)]
enum Op { Alloc(usize, usize), Zeroed(usize, usize), Free(u32), Realloc(u32, usize), Save, Saves(u32), QueryMine, QueryAny(u32) }

fn run_program(p: Vec<Op>) {
    let mut mine: Vec<usize> = vec![];
    for op in p {
        match op {
            Op::Alloc(s, a) => mem(false, s, a),
            Op::Zeroed(s, a) => mem(true, s, a),
            Op::Free(i) => free(i),
            Op::Realloc(i, s) => resize(i, s),
            Op::Save => mine.push(save()),
            Op::Saves(k) => { sim().quiet += 1; for _ in 0..k { save(); } sim().quiet -= 1; probe("save points with hundreds of later ones"); }
            Op::QueryMine => if let Some(&sp) = mine.last() { let _ = query(sp); },
            Op::QueryAny(i) => {
                let n = REC.get().ev.iter().filter(|e| matches!(e.what, What::Save { .. })).count();
                if n > 0 { let _ = query(i as usize % n); }
            }
        }
    }
}

/// beyond what 32 bits can tell, every now and then
fn size() -> usize { if coin(25) { probe("requests of 1 GiB and more"); return one_of(&[5usize << 30, 1 << 32, (1 << 32) + 7, 1 << 31, 1 << 30, 1 << 40]); } one_of(&[10usize, 100, 1, 1000, 7, 64, 300, 100_000]) }
fn align() -> usize { if coin(20) { return one_of(&[1usize << 16, 1 << 20, 2]); } one_of(&[8usize, 1, 16, 64, 4096]) }
/// no machine has this much
fn absurd() -> usize { one_of(&[1usize << 46, (isize::MAX as usize) & !0xf_ffff, 1 << 62, 1 << 61]) }
fn mem_op() -> Op {
    match pick(8) { 0 | 1 | 2 => Op::Alloc(size(), align()), 3 => Op::Zeroed(size(), align()), 4 | 5 => Op::Free(pick(6)), 6 => Op::Realloc(pick(6), size()),
                    _ => if coin(60) { let n = absurd(); match pick(3) { 0 => Op::Alloc(n, align()), 1 => Op::Zeroed(n, align()), _ => Op::Realloc(pick(6), n) } } else { Op::Free(pick(6)) } }
}

fn init(cap: usize, refusals: bool, checks8: bool) {
    let s = sim();
    s.cfg.stall_permille = one_of(&[0, 0, 4]);
    s.cfg.weak_fail_permille = one_of(&[0, 100]);
    if refusals { s.cfg.alloc_fail_permille = one_of(&[150, 30, 400]); }
    REC.set(Rec { a: make(cap), cap, ev: vec![], blocks: vec![], seeds: 0, checks8 });
    if coin(50) {
        let k = |r: u32| match r { 0 => 0, 1 => 256 - pick(4), 2 => 65_536 - pick(6), 3 => pick(600), _ => pick(3000) };
        let (requests, saves) = (k(pick(5)), k(pick(5)));
        REC.get().a.history(requests, saves);
    }
}

fn go(programs: Vec<Vec<Op>>) {
    let hs: Vec<_> = programs.into_iter().map(|p| spawn(move || run_program(p))).collect();
    for h in hs { join(h); }
}

fn mems(evs: &[Ev]) -> impl Iterator<Item = (usize, usize, usize, bool, i64, &Ev)> {
    evs.iter().filter_map(|e| if let What::Mem { kind, size, old, ok, delta } = e.what { Some((kind, size, old, ok, delta, e)) } else { None })
}

/// the counters' values for a set of requests
fn totals<'a>(it: impl Iterator<Item = (usize, usize, usize, bool, i64, &'a Ev)>) -> [usize; 9] {
    let mut f = [0; 9];
    for (kind, size, old, ok, _, _) in it {
        if !ok { continue; }
        f[kind] += 1;
        match kind { 0 => f[4] += size, 1 => f[5] += size, 2 => f[6] += size, _ => { f[7] += old; f[8] += size; } }
    }
    f
}

// ---- judging ------------------------------------------------------------------------------------------------------------

/// C05, at rest
fn judge_counts_at_rest(sp: usize, from: u64) {
    let res = query(sp);
    let r = REC.get();
    let Ok(s) = res else { violate("overflow", "a save point within the capacity answered with the overflow error") };
    let want = totals(mems(&r.ev).filter(|m| m.5.start > from));
    for i in 0..9 { check!(s.f[i] == want[i], "conservation", "the statistics tell {} {}, but there were {}", s.f[i], NAMES[i], want[i]); }
    let held: i64 = mems(&r.ev).map(|m| m.4).sum();
    check!(s.cur as i64 == held, "conservation", "the memory in use is told to be {} bytes, but {held} are held", s.cur);
}

/// sums of memory that may have been in use at some instant of [from, to]
fn reachable(from: u64, to: u64) -> HashSet<i64> {
    let r = REC.get();
    let all: Vec<(u64, u64, i64)> = mems(&r.ev).filter(|m| m.4 != 0).map(|m| (m.5.start, m.5.end, m.4)).collect();
    let mut times = vec![from, to];
    for (s, e, _) in &all { for t in [*s, *e] { if t > from && t < to { times.push(t); } } }
    let mut set = HashSet::new();
    for t in times {
        // an operation's own instants count as in progress
        let base: i64 = all.iter().filter(|x| x.1 < t).map(|x| x.2).sum();
        let mut sums = vec![base];
        for x in all.iter().filter(|x| x.0 <= t && x.1 >= t) { for i in 0..sums.len() { sums.push(sums[i] + x.2); } }
        set.extend(sums);
    }
    set
}

/// over every order of the operations that real time allows, the lowest possible highest memory in use between the save point and the query
fn forced_max(sp: &Ev, q: &Ev, sign: i64) -> i64 {
    let r = REC.get();
    let mut base = 0;
    let mut per: Vec<(usize, Vec<(u64, u64, i64, u8)>)> = vec![];
    let mut put = |tid: usize, x: (u64, u64, i64, u8)| match per.iter_mut().find(|p| p.0 == tid) { Some(p) => p.1.push(x), None => per.push((tid, vec![x])) };
    let mut evs: Vec<&Ev> = r.ev.iter().collect();
    evs.sort_by_key(|e| e.start);
    for e in evs {
        if std::ptr::eq(e, sp) { put(e.tid, (e.start, e.end, 0, 1)); continue; }
        if std::ptr::eq(e, q) { put(e.tid, (e.start, e.end, 0, 2)); continue; }
        if let What::Mem { delta, .. } = e.what {
            if delta == 0 || e.start > q.end { continue; }
            if e.end < sp.start { base += delta * sign; continue; }
            put(e.tid, (e.start, e.end, delta * sign, 0));
        }
    }
    // state: progress of each thread; value: (memory in use, lowest possible peak since the save point or None if not taken yet)
    let n = per.len();
    let mut layer: HashMap<Vec<u8>, (i64, Option<i64>)> = HashMap::new();
    layer.insert(vec![0; n], (base, None));
    let mut best = i64::MAX;
    let mut work = 0;
    while !layer.is_empty() {
        let mut next: HashMap<Vec<u8>, (i64, Option<i64>)> = HashMap::new();
        for (st, (u, peak)) in &layer {
            work += 1;
            if work > 60_000 { return i64::MIN; }
            for i in 0..n {
                let Some(x) = per[i].1.get(st[i] as usize) else { continue };
                // everything that had ended before it started goes first
                if (0..n).any(|j| j != i && per[j].1.get(st[j] as usize).is_some_and(|y| y.1 < x.0)) { continue; }
                let u2 = u + x.2;
                let p2 = match (x.3, peak) {
                    (1, _) => Some(u2),
                    (2, Some(p)) => { best = best.min(*p); continue; }
                    (2, None) => continue,
                    (_, Some(p)) => Some((*p).max(u2)),
                    (_, None) => None,
                };
                let mut s2 = st.clone(); s2[i] += 1;
                next.entry(s2).and_modify(|v| if let (Some(a), Some(b)) = (v.1, p2) { v.1 = Some(a.min(b)) }).or_insert((u2, p2));
            }
        }
        layer = next;
    }
    if best == i64::MAX { i64::MIN } else { best }
}

struct Judge { extremes: bool, counts: bool, capacity: bool }

/// C06, C07: every query against its window
fn judge_windows(j: &Judge) {
    let r = REC.get();
    let saves: HashMap<usize, &Ev> = r.ev.iter().filter_map(|e| if let What::Save { sp, .. } = e.what { Some((sp, e)) } else { None }).collect();
    let (mut judged, mut overflows, mut overlapping, mut nested) = (0u64, 0u64, 0u64, 0u64);
    for q in &r.ev {
        let What::Query { sp, res } = &q.what else { continue };
        let s = saves[sp];
        let later_sure = saves.values().filter(|x| x.start > s.end && x.end < q.start).count();
        let later_maybe = saves.values().filter(|x| !std::ptr::eq(**x, s) && x.end > s.start && x.start < q.end).count();
        if later_maybe > 0 { nested += 1; }
        let v = match res {
            Err(()) => {
                overflows += 1;
                if j.capacity { check!(later_maybe > r.cap, "false-overflow", "save point {sp} answered with the overflow error after {later_maybe} later ones, with a capacity of {}", r.cap); }
                continue;
            }
            Ok(v) => v,
        };
        if later_sure > r.cap {
            if j.capacity { violate("missed-overflow", &format!("save point {sp} gave an answer after {later_sure} later ones, with a capacity of {}", r.cap)); }
            continue;
        }
        judged += 1;
        if j.counts {
            let lo = totals(mems(&r.ev).filter(|m| m.5.start > s.end && m.5.end < q.start));
            let hi = totals(mems(&r.ev).filter(|m| m.5.end > s.start && m.5.start < q.end));
            for i in 0..9 { check!(v.f[i] >= lo[i] && v.f[i] <= hi[i], "window-counts", "save point {sp}: {} {} told, at least {} and at most {} belong to its window", v.f[i], NAMES[i], lo[i], hi[i]); }
        }
        if j.extremes {
            let What::Save { cur: at_save, .. } = s.what else { unreachable!() };
            check!(v.min <= v.cur && v.cur <= v.max, "inconsistent", "save point {sp}: told lowest {}, current {}, highest {}", v.min, v.cur, v.max);
            check!(v.min <= at_save && at_save <= v.max, "inconsistent", "save point {sp} recorded {at_save} bytes in use, but the query tells lowest {} and highest {}", v.min, v.max);
            check!(reachable(q.start, q.end).contains(&(v.cur as i64)), "unreachable-current", "save point {sp}: told {} bytes in use, which no order of the overlapping operations gives", v.cur);
            check!(reachable(s.start, s.end).contains(&(at_save as i64)), "unreachable-current", "save point {sp} recorded {at_save} bytes in use, which no order of the overlapping operations gives");
            // an operation in progress when the save point was taken may contribute from its start on
            let from = r.ev.iter().filter(|e| e.end > s.start && e.start < s.end).map(|e| e.start).min().unwrap_or(s.start).min(s.start);
            if from < s.start { overlapping += 1; }
            let set = reachable(from, q.end);
            for (n, x) in [("lowest", v.min), ("highest", v.max)] {
                check!(set.contains(&(x as i64)), "unreachable-extreme", "save point {sp}: told {x} bytes as the {n} memory in use, which was never in use in its window under any order of the overlapping operations");
            }
            let fmax = forced_max(s, q, 1);
            check!(fmax == i64::MIN || v.max as i64 >= fmax, "missed-peak", "save point {sp}: told {} bytes as the highest memory in use, but at least {fmax} were, under every order of the overlapping operations", v.max);
            let fmin = forced_max(s, q, -1);
            check!(fmin == i64::MIN || v.min as i64 <= -fmin, "missed-trough", "save point {sp}: told {} bytes as the lowest memory in use, but at most {} were, under every order of the overlapping operations", v.min, -fmin);
        }
    }
    if j.extremes && sim().cfg.stale_permille == 0 {
        // what one report shows was in use, once settled, in every enclosing window, for every later report
        let seen: Vec<(&Ev, usize, usize, usize)> = r.ev.iter().filter_map(|e| match &e.what { What::Save { sp, cur } => Some((e, *sp, *cur, *cur)), What::Query { sp, res: Ok(v) } => Some((e, *sp, v.min, v.max)), _ => None }).collect();
        let mut pairs = 0;
        for q in &r.ev {
            let What::Query { sp, res: Ok(v) } = &q.what else { continue };
            for (e, sp1, lo, hi) in &seen {
                if e.end >= q.start || (sp1 != sp && saves[sp1].start <= saves[sp].end) { continue; }
                if mems(&r.ev).any(|m| m.4 != 0 && m.5.start < e.end && m.5.end > q.start) { continue; }
                check!(v.min <= *lo && v.max >= *hi, "forgotten-extreme", "save point {sp}: told {} to {} bytes as what was in use, though an earlier report, for the same or an enclosed window, had told {lo} to {hi}", v.min, v.max);
                pairs += 1;
            }
        }
        probe_n("pairs of reports compared", pairs);
    }
    probe_n("windows judged", judged);
    probe_n("windows with operations in progress at the save point", overlapping);
    probe_n("windows with other save points inside", nested);
    probe_n("overflow errors of save points", overflows);
}

// ---- scenarios ------------------------------------------------------------------------------------------------------------

/// C05
fn conservation() {
    let weak = coin(300);
    init(one_of(&[8usize, 64]), coin(600), false);
    if weak { sim().cfg.stale_permille = one_of(&[200, 500]); }
    for _ in 0..pick(3) { mem(coin(300), size(), align()); }
    let crowd = coin(15);
    if crowd { sim().max_steps = 1_000_000; probe("9 to 38 threads at once"); }
    let threads = if crowd { 9 + pick(30) } else { 1 + pick(4) } as usize;
    let savers = coin(300);
    desc(&format!("{threads} threads, {} memory, refusals {}permille{}", if weak { "weak" } else { "sequentially consistent" }, sim().cfg.alloc_fail_permille, if savers { ", save points meanwhile" } else { "" }));
    for _ in 0..1 + coin(300) as usize {
        let from = stamp();
        let sp = save();
        let mut nsaves = 0;
        let progs: Vec<Vec<Op>> = (0..threads).map(|_| (0..1 + pick(6)).map(|_| if savers && nsaves < 5 && coin(200) { nsaves += 1; if coin(500) { Op::Save } else { Op::QueryAny(pick(4)) } } else { mem_op() }).collect()).collect();
        go(progs);
        judge_counts_at_rest(sp, from);
    }
    // whatever is still held is given back
    sim().cfg.alloc_fail_permille = 0;
    while !REC.get().blocks.is_empty() { free(0); }
    let sp = save();
    let Ok(s) = query(sp) else { violate("overflow", "a fresh save point answered with the overflow error") };
    check!(s.cur == 0, "leak", "everything was given back, but {} bytes are told to be in use", s.cur);
    probe_n("requests refused", sysalloc::st().refusals);
    probe_n("requests made", REC.get().ev.len() as u64);
}

/// C06
fn extremes() {
    init(one_of(&[8usize, 64]), coin(150), false);
    for _ in 0..pick(3) { mem(false, size(), 8); }
    let threads = 1 + pick(3) as usize;
    let mut saves = 0;
    desc(&format!("{threads} threads allocating, freeing, saving and querying"));
    let sp = save();
    let progs: Vec<Vec<Op>> = (0..threads).map(|_| (0..1 + pick(6)).map(|_| match pick(10) {
        0..=6 => mem_op(),
        7 if saves < 7 => { saves += 1; Op::Save }
        8 => Op::QueryAny(0),
        _ => Op::QueryMine }).collect()).collect();
    go(progs);
    let _ = query(sp);
    judge_windows(&Judge { extremes: true, counts: false, capacity: false });
}

/// C07
fn nesting() {
    let plenty = coin(10);
    let cap = if plenty { one_of(&[100usize, 300, 1024]) } else { one_of(&[2usize, 3, 1, 4, 8]) };
    init(cap, coin(150), false);
    let threads = if plenty { pick(2) } else { pick(4) } as usize;
    if plenty { sim().max_steps = 1_000_000; }
    desc(&format!("capacity {cap}, {threads} threads plus the main one"));
    let op = || match pick(8) { 0 | 1 | 2 => mem_op(), 3 | 4 => Op::Save, 5 => Op::QueryMine, _ => Op::QueryAny(pick(12)) };
    let first: Vec<Op> = (0..pick(8)).map(|_| op()).collect();
    run_program(first);
    if threads > 0 { let progs = (0..threads).map(|_| (0..1 + pick(5)).map(|_| op()).collect()).collect(); go(progs); }
    let last: Vec<Op> = (0..pick(8)).map(|_| op()).collect();
    if plenty {
        // about as many as there's room for
        run_program(vec![Op::Saves(pick(cap as u32)), mem_op(), mem_op()]);
        let have = REC.get().ev.iter().filter(|e| matches!(e.what, What::Save { .. })).count();
        run_program(vec![Op::QueryAny(0), Op::Saves((cap as u32 + pick(12)).saturating_sub(have as u32 + pick(12)))]);
    }
    run_program(last);
    if plenty {
        let n = REC.get().ev.iter().filter(|e| matches!(e.what, What::Save { .. })).count() as u32;
        for i in 0..24 { let k = if i < 16 { i } else { pick(n) } as usize; let (a, b) = (query(k), query(k)); check!(a == b, "not-repeatable", "save point {k} answered {a:?} and then, with nothing happening in between, {b:?}"); }
        judge_windows(&Judge { extremes: true, counts: true, capacity: true });
        return;
    }
    let n = REC.get().ev.iter().filter(|e| matches!(e.what, What::Save { .. })).count();
    for i in 0..n {
        // the same answer twice, if nothing happened in between
        let a = query(i);
        if coin(300) { let _ = query((i + 1) % n); }
        let b = query(i);
        check!(a == b, "not-repeatable", "save point {i} answered {a:?} and then, with nothing happening in between, {b:?}");
    }
    judge_windows(&Judge { extremes: true, counts: true, capacity: true });
}

/// C08
fn transparent() {
    init(one_of(&[8usize, 2]), coin(750), true);
    let crowd = coin(15);
    if crowd { sim().max_steps = 1_000_000; probe("9 to 38 threads at once"); }
    let threads = if crowd { 9 + pick(30) } else { 1 + pick(4) } as usize;
    desc(&format!("{threads} threads, refusals {}permille", sim().cfg.alloc_fail_permille));
    let progs: Vec<Vec<Op>> = (0..threads).map(|_| (0..1 + pick(8)).map(|_| match pick(10) { 0 => Op::Save, 1 => Op::QueryAny(pick(5)), 2 => Op::Realloc(pick(6), size()), _ => mem_op() }).collect()).collect();
    go(progs);
    sim().cfg.alloc_fail_permille = 0;
    while !REC.get().blocks.is_empty() { free(0); }
    check!(sysalloc::st().live.is_empty(), "leak", "{} blocks were never given back to the system allocator", sysalloc::st().live.len());
    probe_n("requests refused", sysalloc::st().refusals);
    probe_n("requests compared", sysalloc::st().log.len() as u64);
}

/// C04: nothing hangs or panics, and queries finish while others are stalled half-way
pub fn c04_alloc() {
    init(one_of(&[4usize, 2, 64, 1]), coin(300), false);
    let weak = coin(300);
    if weak { sim().cfg.stale_permille = one_of(&[200, 500]); }
    desc(&format!("metrics allocator, {} memory, threads stalled half-way", if weak { "weak" } else { "sequentially consistent" }));
    let sp = save();
    let base = sim().threads.len();
    let park = coin(600);
    if park { sim().park.push((base, pick(24) as u64)); }
    let saver = coin(600);
    let mut hs = vec![];
    let p: Vec<Op> = (0..1 + pick(4)).map(|_| if saver && coin(500) { Op::Save } else { mem_op() }).collect();
    hs.push(spawn(move || run_program(p)));
    let mut qs = vec![];
    for _ in 0..1 + pick(2) {
        let p: Vec<Op> = (0..1 + pick(5)).map(|_| if coin(500) { Op::QueryAny(0) } else if park { Op::QueryAny(pick(3)) } else { match pick(4) { 0 => Op::Save, _ => mem_op() } }).collect();
        qs.push(spawn(move || run_program(p)));
    }
    stage("queries, while another thread is stalled");
    for h in qs { join(h); }
    unpark_all();
    stage("the stalled thread goes on");
    for h in hs { join(h); }
    let _ = query(sp);
    let sp = save();
    check!(query(sp).is_ok(), "lost", "a fresh save point answered with the overflow error");
}

/// a thread is stalled inside of save_point() for as long as a sibling needs for millions of attempts
fn c04_long_stall() {
    allow_seconds(150);
    init(8, false, true);
    let s = sim();
    s.cfg.weak_fail_permille = 0; s.cfg.stall_permille = 0;
    s.max_steps = 100_000_000; s.force_after = 12_000_000;
    desc("metrics allocator, a save point stalled half-way while another one is being taken");
    let base = sim().threads.len();
    sim().park.push((base, one_of(&[3u64, 1, 5, 7])));
    let mut hs: Vec<_> = (0..2).map(|_| spawn(|| { let sp = save(); let _ = query(sp); })).collect();
    hs.push(spawn(|| { mem(false, 1000, 8); free(0); mem(true, 70, 8); }));
    hs.push(spawn(|| { work(1_000_000_000); unpark_all(); }));
    stage("a save point waits for a stalled one");
    for h in hs { join(h); }
    stage("afterwards");
    let from = stamp();
    let sp = save();
    mem(false, 100, 8);
    judge_counts_at_rest(sp, from);
    judge_windows(&Judge { extremes: true, counts: true, capacity: true });
    probe("save points stalled for millions of attempts of a sibling");
}

fn c04() { if chosen(2) { return c04_long_stall(); } if coin(350) { c04_alloc() } else { super::ring::c04_ring() } }

pub fn props() -> Vec<crate::driver::Prop> {
    use crate::driver::Prop;
    let real: &[&str] = &["metrics_allocator (MetricsAllocator, save points, statistics)", "metrics_allocator::ring_buffer", "std threads (one runs at a time)"];
    let stub: &[&str] = &["system allocator (real memory; refusals, call log, poisoning and quarantine simulated)", "memory model below the crate's atomics", "thread scheduler"];
    let a: &[&str] = &["the allocator is called explicitly rather than as the process's global allocator: the same code, with the simulator's own allocations kept out of it",
                       "an operation in progress when a save point is taken may contribute to its window any amount in use since that operation's start (the counters are lock-free)"];
    vec![
        Prop { id: "C04", run: c04, variants: &[], quick: 80_000, thorough: 3_000_000, real, stub, assumptions: a,
            rule: "ring and allocator workloads with threads stalled half-way through an operation until the others are done, droppable elements, overflows, spurious failures; fair scheduling with a step budget (no-progress), deadlock, panic and loss detection; non-trivial = preemption or fault; distinct = event-log hash" },
        Prop { id: "C05", run: conservation, variants: &[], quick: 140_000, thorough: 2_000_000, real, stub, assumptions: a,
            rule: "random programs of alloc/zeroed/realloc/dealloc (blocks freed by any thread) on 1-4 threads (crowds: 9..38), some after 2^8, 2^16 or any number of earlier requests, refusals, other save points and queries meanwhile, SC or weak memory; every counter compared at rest; non-trivial = preemption or fault; distinct = event-log hash" },
        Prop { id: "C06", run: extremes, variants: &[], quick: 200_000, thorough: 1_500_000, real, stub, assumptions: a,
            rule: "random programs on 1-3 threads with save points and queries by anyone at any time; every answer compared with the extremes that every order of the overlapping operations forces (dynamic programming over all orders) and with the amounts some order reaches; non-trivial = preemption or fault; distinct = event-log hash" },
        Prop { id: "C07", run: nesting, variants: &[], quick: 200_000, thorough: 2_000_000, real, stub, assumptions: a,
            rule: "random programs of requests, save points and queries of any open save point, on the main thread and up to 3 others, with capacities 1..8, 100, 300 or 1024 (filled up to about the capacity by quiet save points); every answer judged against exactly its window; repeated queries compared; non-trivial = preemption or fault; distinct = event-log hash" },
        Prop { id: "C08", run: transparent, variants: &[], quick: 300_000, thorough: 2_000_000, real, stub, assumptions: a,
            rule: "random programs on 1-4 threads (crowds: 9..38) with refusals, sizes from 0 to near isize::MAX, alignments from 1 to 1 MiB; every request compared with what the system allocator saw and answered, contents, alignment and overlap of every block checked; non-trivial = preemption or fault; distinct = event-log hash" },
    ]
}
