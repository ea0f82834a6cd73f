//! The crate's allocator as it is deployed: as the global one, for what the library itself allocates. What the harness
//! and the scripted user functions allocate stays with the system allocator (they use the crate's explicitly).

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering as O};
use std::task::{Context, Poll};

pub struct Gate;
#[global_allocator]
static GATE: Gate = Gate;

static ON: AtomicBool = AtomicBool::new(false);
thread_local! {
    static LIB: Cell<bool> = const { Cell::new(false) };
    static SEEN: Cell<usize> = const { Cell::new(0) };
}

/// for the rest of the run
pub fn deploy() { ON.store(true, O::SeqCst); }
pub fn deployed() -> bool { ON.load(O::Relaxed) }

pub struct Back(bool);
impl Drop for Back { fn drop(&mut self) { let _ = LIB.try_with(|l| l.set(self.0)); } }
fn set(v: bool) -> Back { Back(LIB.try_with(|l| l.replace(v)).unwrap_or(false)) }

/// is the library running on this thread?
pub fn is_lib() -> bool { LIB.try_with(|l| l.get()).unwrap_or(false) }
/// until the returned value is dropped, it's the simulator that runs
pub fn out() -> Back { set(false) }
pub fn lib<R>(f: impl FnOnce() -> R) -> R { let _b = set(true); f() }
pub fn user<R>(f: impl FnOnce() -> R) -> R { let _b = set(false); f() }
/// runs an operation of the library, counting its own requests for memory
pub fn counting<R>(f: impl FnOnce() -> R) -> (R, usize) { let before = SEEN.get(); let r = lib(f); (r, SEEN.get() - before) }
fn mine() -> bool {
    if !is_lib() { return false; }
    let _ = SEEN.try_with(|s| s.set(s.get() + 1));
    deployed()
}
/// for the rest of the thread (or until told otherwise)
pub fn become_lib(v: bool) { let _ = LIB.try_with(|l| l.set(v)); }

/// a future of the library (or of the user)
pub struct Of<F>(pub F, pub bool);
impl<F: Future> Future for Of<F> {
    type Output = F::Output;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> {
        let v = self.1;
        let f = unsafe { self.map_unchecked_mut(|s| &mut s.0) };
        let _b = set(v);
        f.poll(cx)
    }
}

// ---- which blocks are the library's -----------------------------------------------------------------------------------------

const SLOTS: usize = 1 << 18;
static TABLE: [AtomicUsize; SLOTS] = [const { AtomicUsize::new(0) }; SLOTS];
static COUNT: AtomicUsize = AtomicUsize::new(0);
const GONE: usize = 1;

fn slot(p: usize) -> usize { (p >> 4).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 20 & (SLOTS - 1) }
fn register(p: usize) {
    if COUNT.fetch_add(1, O::Relaxed) > SLOTS / 2 { crate::sim::violate("harness", "too many blocks of the library") }
    let mut i = slot(p);
    while TABLE[i].load(O::Relaxed) > GONE { i = (i + 1) & (SLOTS - 1); }
    TABLE[i].store(p, O::Relaxed);
}
fn find(p: usize) -> Option<usize> {
    let mut i = slot(p);
    loop {
        match TABLE[i].load(O::Relaxed) { 0 => return None, q if q == p => return Some(i), _ => i = (i + 1) & (SLOTS - 1) }
    }
}
fn forget(p: usize) -> bool { match find(p) { Some(i) => { TABLE[i].store(GONE, O::Relaxed); true } None => false } }

unsafe impl GlobalAlloc for Gate {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !mine() { return System.alloc(l); }
        let _o = out();
        let p = big_o_test::ALLOC.alloc(l);
        if !p.is_null() { register(p as usize); }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !mine() { return System.alloc_zeroed(l); }
        let _o = out();
        let p = big_o_test::ALLOC.alloc_zeroed(l);
        if !p.is_null() { register(p as usize); }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if !deployed() || !forget(p as usize) { return System.dealloc(p, l); }
        let _o = out();
        if crate::sim::active() { big_o_test::ALLOC.dealloc(p, l); }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !deployed() || !forget(p as usize) { return System.realloc(p, l, n); }
        let _o = out();
        let q = big_o_test::ALLOC.realloc(p, l, n);
        register(if q.is_null() { p as usize } else { q as usize });
        q
    }
}
