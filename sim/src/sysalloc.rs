//! The simulated system allocator below the crate's metrics allocator: real memory, with refusals decided by the
//! simulator, a log of every call, live-block tracking, and freed memory poisoned and quarantined.

use crate::sim::*;
use std::alloc::{GlobalAlloc, Layout, System};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind { Alloc, Zeroed, Dealloc, Realloc }

#[derive(Clone, Copy, Debug)]
pub struct Call { pub kind: Kind, pub tid: usize, pub ptr: usize, pub layout: Layout, pub new_size: usize, pub result: usize }

#[derive(Clone, Copy)]
pub struct Block { pub ptr: usize, pub layout: Layout }

#[derive(Default)]
pub struct State { pub log: Vec<Call>, pub live: Vec<Block>, pub refusals: u64 }

static mut ST: Option<State> = None;

#[allow(static_mut_refs)]
pub fn st() -> &'static mut State { unsafe { if ST.is_none() { ST = Some(State::default()); } ST.as_mut().unwrap() } }

/// from here on, this run's blocks are neither watched nor kept (it allocates and frees more than fits in memory)
pub static mut UNWATCHED: bool = false;
fn unwatched() -> bool { !active() || unsafe { crate::interpose::BULK || UNWATCHED } }

fn refused() -> bool {
    let s = sim();
    if s.cfg.alloc_fail_permille > 0 && s.fault("system allocator refuses", s.cfg.alloc_fail_permille) { st().refusals += 1; true } else { false }
}

/// big blocks are only touched at their ends
unsafe fn poison(p: *mut u8, v: u8, n: usize) {
    if n <= 1 << 16 { std::ptr::write_bytes(p, v, n); } else { std::ptr::write_bytes(p, v, 64); std::ptr::write_bytes(p.add(n - 64), v, 64); }
}

/// from here on, blocks are address space without memory behind it, except for the pages at both ends
pub const HUGE: usize = 1 << 28;

/// lets the process have `by` bytes more (or less) of address space
unsafe fn address_space(by: i64) {
    let mut l: libc::rlimit = std::mem::zeroed();
    libc::getrlimit(libc::RLIMIT_AS, &mut l);
    l.rlim_cur = (l.rlim_cur as i64 + by) as u64;
    libc::setrlimit(libc::RLIMIT_AS, &l);
}
unsafe fn real_alloc(l: Layout) -> *mut u8 {
    if l.size() < HUGE { return System.alloc(l); }
    // beyond what any machine has
    if l.size() > 1 << 43 || l.align() > 4096 { return std::ptr::null_mut(); }
    address_space(l.size() as i64 + 4096);
    let p = libc::mmap(std::ptr::null_mut(), l.size(), libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
    if p == libc::MAP_FAILED { address_space(-(l.size() as i64 + 4096)); return std::ptr::null_mut(); }
    p as *mut u8
}
unsafe fn real_zeroed(l: Layout) -> *mut u8 { if l.size() < HUGE { System.alloc_zeroed(l) } else { real_alloc(l) } }
/// freed blocks are poisoned & quarantined (never reused within a run); huge ones are gone right away
unsafe fn retire(p: *mut u8, l: Layout) {
    if l.size() < HUGE { poison(p, 0xDD, l.size()); return; }
    libc::munmap(p as *mut _, l.size());
    address_space(-(l.size() as i64 + 4096));
}

pub fn alloc(l: Layout, zeroed: bool) -> *mut u8 {
    unsafe {
        if unwatched() { return if zeroed { System.alloc_zeroed(l) } else { System.alloc(l) }; }
        sim().yield_point();
        let kind = if zeroed { Kind::Zeroed } else { Kind::Alloc };
        let p = if refused() { std::ptr::null_mut() } else {
            let p = if zeroed { real_zeroed(l) } else { real_alloc(l) };
            if !p.is_null() {
                if !zeroed { poison(p, 0xA5, l.size()); }
                st().live.push(Block { ptr: p as usize, layout: l });
            }
            p
        };
        st().log.push(Call { kind, tid: tid(), ptr: 0, layout: l, new_size: 0, result: p as usize });
        tr(|| format!("system {kind:?}({}) -> {}", l.size(), if p.is_null() { "refused" } else { "ok" }));
        log(0xA10C, l.size() as u64 ^ (p.is_null() as u64) << 40);
        sim().yield_point();
        p
    }
}

pub fn dealloc(p: *mut u8, l: Layout) {
    unsafe {
        if unwatched() { System.dealloc(p, l); return; }
        sim().yield_point();
        st().log.push(Call { kind: Kind::Dealloc, tid: tid(), ptr: p as usize, layout: l, new_size: 0, result: 0 });
        match st().live.iter().position(|b| b.ptr == p as usize) {
            None => violate("bad-system-dealloc", &format!("the system allocator was asked to free a block that isn't live (size {})", l.size())),
            Some(i) => {
                let b = st().live.swap_remove(i);
                if b.layout != l { violate("bad-system-layout", &format!("a block allocated with {:?} is freed with {:?}", b.layout, l)); }
                retire(p, l);
            }
        }
        tr(|| format!("system Dealloc({})", l.size()));
        log(0xDE, l.size() as u64);
        sim().yield_point();
    }
}

pub fn realloc(p: *mut u8, l: Layout, n: usize) -> *mut u8 {
    unsafe {
        if unwatched() { return System.realloc(p, l, n); }
        sim().yield_point();
        let i = match st().live.iter().position(|b| b.ptr == p as usize) {
            None => violate("bad-system-realloc", &format!("the system allocator was asked to reallocate a block that isn't live (size {})", l.size())),
            Some(i) => i,
        };
        if st().live[i].layout != l { violate("bad-system-layout", &format!("a block allocated with {:?} is reallocated with {:?}", st().live[i].layout, l)); }
        let r = if refused() { std::ptr::null_mut() } else {
            let nl = Layout::from_size_align_unchecked(n, l.align());
            let q = real_alloc(nl);
            if !q.is_null() {
                poison(q, 0xA5, n);
                if l.size() < HUGE { std::ptr::copy_nonoverlapping(p, q, n.min(l.size())); } else {
                    // of huge blocks, only the ends have contents
                    std::ptr::copy_nonoverlapping(p, q, n.min(4096));
                    if n >= l.size() { std::ptr::copy_nonoverlapping(p.add(l.size() - 64), q.add(l.size() - 64), 64); }
                }
                retire(p, l);
                let i = st().live.iter().position(|b| b.ptr == p as usize).unwrap();
                st().live[i] = Block { ptr: q as usize, layout: nl };
            }
            q
        };
        st().log.push(Call { kind: Kind::Realloc, tid: tid(), ptr: p as usize, layout: l, new_size: n, result: r as usize });
        tr(|| format!("system Realloc({} -> {n}) -> {}", l.size(), if r.is_null() { "refused" } else { "ok" }));
        log(0x4EA, l.size() as u64 ^ (n as u64) << 20 ^ (r.is_null() as u64) << 50);
        sim().yield_point();
        r
    }
}
