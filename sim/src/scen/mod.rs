use crate::driver::Prop;
pub mod alloc;
pub mod asy;
pub mod crud;
pub mod numbers;
pub mod panic;
pub mod parallel;
pub mod plain;
pub mod report;
pub mod ring;
pub mod run;
pub mod verdict;

pub const REAL_ALL: &[&str] = &["big-o-test library code (complete crate, compiled with --cfg big_o_sim)", "std threads (one runs at a time)"];

pub const REAL_ASYNC: &[&str] = &["big-o-test library code (complete crate, compiled with --cfg big_o_sim)", "tokio's current_thread runtime and timers", "keen-retry"];

pub fn props() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(ring::props());
    v.extend(alloc::props());
    v.extend(crud::props());
    v.extend(plain::props());
    v.extend(asy::props());
    v.extend(verdict::props());
    v.extend(report::props());
    v.extend(panic::props());
    v.extend(parallel::props());
    v.extend(numbers::props());
    v
}

/// an unsynchronised global: exactly one simulated thread runs at a time
pub struct G<T>(pub std::cell::UnsafeCell<Option<T>>);
unsafe impl<T> Sync for G<T> {}
impl<T> G<T> {
    pub const fn new() -> Self { Self(std::cell::UnsafeCell::new(None)) }
    pub fn set(&self, v: T) { unsafe { *self.0.get() = Some(v); } }
    #[allow(clippy::mut_from_ref)]
    pub fn get(&self) -> &mut T { unsafe { (*self.0.get()).as_mut().expect("not set") } }
}

/// spawns a simulated thread
pub fn spawn(f: impl FnOnce() + Send + 'static) -> std::thread::JoinHandle<()> {
    std::thread::Builder::new().stack_size(512 * 1024).spawn(f).expect("spawn")
}
pub fn join(h: std::thread::JoinHandle<()>) {
    if h.join().is_err() { crate::sim::violate("panic", &format!("an operation panicked: {}", crate::driver::last_panic())); }
}

/// is this the one run (of many) that does `what`, the n-th?
pub fn chosen(n: u64) -> bool {
    let i = crate::driver::RUN_INDEX.load(std::sync::atomic::Ordering::SeqCst);
    crate::sim::sim().ch.draw(crate::choice::Stream::Workload, 2, |_| (i == n) as u32) == 1
}
/// lets the run take up to `s` seconds of real time
pub fn allow_seconds(s: u32) {
    unsafe {
        let l = libc::rlimit { rlim_cur: s as u64, rlim_max: s as u64 + 5 };
        libc::setrlimit(libc::RLIMIT_CPU, &l);
        libc::alarm(s + 300);
    }
}
/// performs atomic operations right away, bypassing the simulation: only for single-threaded use of what the simulation hasn't seen yet
pub fn in_bulk<R>(f: impl FnOnce() -> R) -> R {
    use crate::interpose::BULK;
    unsafe { BULK = true; }
    let r = f();
    unsafe { BULK = false; }
    r
}
