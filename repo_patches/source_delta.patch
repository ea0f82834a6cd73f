From f7d63ca5fc5e9b82e87e76090ff782ef9ce61e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:22 +0000
Subject: [PATCH 01/21] simulation seam behind --cfg big_o_sim: interceptable
 atomics and system allocator

---
 src/lib.rs     |  15 ++++
 src/sim_std.rs | 197 +++++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 212 insertions(+)
 create mode 100644 src/sim_std.rs

diff --git a/src/lib.rs b/src/lib.rs
index 6651f60..a16dd1f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,4 +1,19 @@
 #![doc = include_str!("../README.md")]
+#![allow(unexpected_cfgs)]
+
+// simulation seam: see `sim_std.rs` -- never compiled unless `--cfg big_o_sim` is given
+#[cfg(big_o_sim)]
+extern crate std as real_std;
+#[cfg(big_o_sim)]
+extern crate self as std;
+#[cfg(big_o_sim)]
+mod sim_std;
+#[cfg(big_o_sim)]
+#[allow(unused_imports)]
+pub(crate) use real_std::*;
+#[cfg(big_o_sim)]
+#[allow(unused_imports)]
+pub(crate) use sim_std::{alloc, sync};
 
 
 mod api;
diff --git a/src/sim_std.rs b/src/sim_std.rs
new file mode 100644
index 0000000..07ef2ad
--- /dev/null
+++ b/src/sim_std.rs
@@ -0,0 +1,197 @@
+//! Simulation seam -- compiled only with `--cfg big_o_sim` (never set by Cargo features nor by default).
+//!
+//! Under that cfg, the name `std` inside this crate resolves to the crate root, which re-exports the real `std`
+//! with [sync::atomic] and [alloc::System] replaced by the versions in here: every atomic operation and every request
+//! made to the system allocator are handed to functions the simulation harness provides at link time -- so it may decide
+//! on the interleavings, on the values the memory model allows to be read and on allocation failures.
+
+use real_std as rstd;
+
+pub mod sync {
+    pub use real_std::sync::*;
+
+    pub mod atomic {
+        use real_std::sync::atomic as real;
+        use real_std::fmt;
+        pub use real_std::sync::atomic::Ordering;
+        pub use real_std::sync::atomic::compiler_fence;
+
+        /// operations, as informed to the harness
+        pub mod op {
+            pub const LOAD: u32 = 0;
+            pub const STORE: u32 = 1;
+            pub const SWAP: u32 = 2;
+            pub const ADD: u32 = 3;
+            pub const SUB: u32 = 4;
+            pub const AND: u32 = 5;
+            pub const NAND: u32 = 6;
+            pub const OR: u32 = 7;
+            pub const XOR: u32 = 8;
+            pub const MAX: u32 = 9;
+            pub const MIN: u32 = 10;
+            pub const CAS: u32 = 11;
+            pub const CAS_WEAK: u32 = 12;
+        }
+
+        extern "Rust" {
+            /// Performs the atomic operation `op` on the `bytes` wide (and maybe signed) `cell`,
+            /// whose identity is kept in `id` (starting with 0). Returns the value read and if the operation succeeded.
+            fn __big_o_sim_atomic(id: &real::AtomicU32, cell: *mut u8, bytes: u32, signed: bool, op: u32,
+                                  operand: u64, new: u64, success: Ordering, failure: Ordering) -> (u64, bool);
+            fn __big_o_sim_fence(order: Ordering);
+        }
+
+        pub fn fence(order: Ordering) {
+            unsafe { __big_o_sim_fence(order) }
+        }
+
+        #[deprecated]
+        pub fn spin_loop_hint() {
+            real_std::hint::spin_loop()
+        }
+
+        macro_rules! common_methods {
+            ($int: ty, $real: ty, $signed: literal, [$($to_u64: tt)*], [$($from_u64: tt)*]) => {
+                #[inline]
+                fn sim(&self, op: u32, operand: $int, new: $int, success: Ordering, failure: Ordering) -> ($int, bool) {
+                    let to_u64 = $($to_u64)*;
+                    let from_u64 = $($from_u64)*;
+                    let (value, succeeded) = unsafe {
+                        __big_o_sim_atomic(&self.id, self.cell.as_ptr() as *mut u8, real_std::mem::size_of::<$int>() as u32, $signed, op,
+                                           to_u64(operand), to_u64(new), success, failure)
+                    };
+                    (from_u64(value), succeeded)
+                }
+                pub fn get_mut(&mut self) -> &mut $int { self.cell.get_mut() }
+                pub fn into_inner(self) -> $int { self.cell.into_inner() }
+                pub const fn as_ptr(&self) -> *mut $int { self.cell.as_ptr() as *mut $int }
+                pub fn store(&self, val: $int, order: Ordering) { self.sim(op::STORE, val, val, order, Ordering::Relaxed); }
+                pub fn swap(&self, val: $int, order: Ordering) -> $int { self.sim(op::SWAP, val, val, order, Ordering::Relaxed).0 }
+                pub fn compare_exchange(&self, current: $int, new: $int, success: Ordering, failure: Ordering) -> Result<$int, $int> {
+                    match self.sim(op::CAS, current, new, success, failure) { (v, true) => Ok(v), (v, false) => Err(v) }
+                }
+                pub fn compare_exchange_weak(&self, current: $int, new: $int, success: Ordering, failure: Ordering) -> Result<$int, $int> {
+                    match self.sim(op::CAS_WEAK, current, new, success, failure) { (v, true) => Ok(v), (v, false) => Err(v) }
+                }
+                #[allow(deprecated)]
+                #[deprecated]
+                pub fn compare_and_swap(&self, current: $int, new: $int, order: Ordering) -> $int {
+                    let failure = match order { Ordering::AcqRel => Ordering::Acquire, Ordering::Release => Ordering::Relaxed, order => order };
+                    self.sim(op::CAS, current, new, order, failure).0
+                }
+                pub fn fetch_update<F: FnMut($int) -> Option<$int>>(&self, set_order: Ordering, fetch_order: Ordering, mut f: F) -> Result<$int, $int> {
+                    let mut prev = self.load(fetch_order);
+                    while let Some(next) = f(prev) {
+                        match self.compare_exchange_weak(prev, next, set_order, fetch_order) {
+                            x @ Ok(_) => return x,
+                            Err(next_prev) => prev = next_prev,
+                        }
+                    }
+                    Err(prev)
+                }
+                pub fn try_update(&self, set_order: Ordering, fetch_order: Ordering, f: impl FnMut($int) -> Option<$int>) -> Result<$int, $int> {
+                    self.fetch_update(set_order, fetch_order, f)
+                }
+                pub fn update(&self, set_order: Ordering, fetch_order: Ordering, mut f: impl FnMut($int) -> $int) -> $int {
+                    let mut prev = self.load(fetch_order);
+                    loop {
+                        match self.compare_exchange_weak(prev, f(prev), set_order, fetch_order) {
+                            Ok(x) => return x,
+                            Err(next_prev) => prev = next_prev,
+                        }
+                    }
+                }
+            };
+        }
+
+        macro_rules! int_atomic {
+            ($name: ident, $real: ty, $int: ty, $signed: literal) => {
+                pub struct $name { cell: $real, id: real::AtomicU32 }
+                impl $name {
+                    pub const fn new(v: $int) -> Self { Self { cell: <$real>::new(v), id: real::AtomicU32::new(0) } }
+                    pub fn load(&self, order: Ordering) -> $int { self.sim(op::LOAD, 0, 0, order, Ordering::Relaxed).0 }
+                    common_methods!($int, $real, $signed, [|v: $int| v as u64], [|v: u64| v as $int]);
+                    pub fn fetch_add (&self, val: $int, order: Ordering) -> $int { self.sim(op::ADD,  val, val, order, Ordering::Relaxed).0 }
+                    pub fn fetch_sub (&self, val: $int, order: Ordering) -> $int { self.sim(op::SUB,  val, val, order, Ordering::Relaxed).0 }
+                    pub fn fetch_and (&self, val: $int, order: Ordering) -> $int { self.sim(op::AND,  val, val, order, Ordering::Relaxed).0 }
+                    pub fn fetch_nand(&self, val: $int, order: Ordering) -> $int { self.sim(op::NAND, val, val, order, Ordering::Relaxed).0 }
+                    pub fn fetch_or  (&self, val: $int, order: Ordering) -> $int { self.sim(op::OR,   val, val, order, Ordering::Relaxed).0 }
+                    pub fn fetch_xor (&self, val: $int, order: Ordering) -> $int { self.sim(op::XOR,  val, val, order, Ordering::Relaxed).0 }
+                    pub fn fetch_max (&self, val: $int, order: Ordering) -> $int { self.sim(op::MAX,  val, val, order, Ordering::Relaxed).0 }
+                    pub fn fetch_min (&self, val: $int, order: Ordering) -> $int { self.sim(op::MIN,  val, val, order, Ordering::Relaxed).0 }
+                }
+                impl Default for $name { fn default() -> Self { Self::new(Default::default()) } }
+                impl From<$int> for $name { fn from(v: $int) -> Self { Self::new(v) } }
+                impl fmt::Debug for $name {
+                    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(&self.load(Ordering::Relaxed), f) }
+                }
+            };
+        }
+
+        int_atomic!(AtomicI8,    real::AtomicI8,    i8,    true);
+        int_atomic!(AtomicU8,    real::AtomicU8,    u8,    false);
+        int_atomic!(AtomicI16,   real::AtomicI16,   i16,   true);
+        int_atomic!(AtomicU16,   real::AtomicU16,   u16,   false);
+        int_atomic!(AtomicI32,   real::AtomicI32,   i32,   true);
+        int_atomic!(AtomicU32,   real::AtomicU32,   u32,   false);
+        int_atomic!(AtomicI64,   real::AtomicI64,   i64,   true);
+        int_atomic!(AtomicU64,   real::AtomicU64,   u64,   false);
+        int_atomic!(AtomicIsize, real::AtomicIsize, isize, true);
+        int_atomic!(AtomicUsize, real::AtomicUsize, usize, false);
+
+        pub struct AtomicBool { cell: real::AtomicBool, id: real::AtomicU32 }
+        impl AtomicBool {
+            pub const fn new(v: bool) -> Self { Self { cell: real::AtomicBool::new(v), id: real::AtomicU32::new(0) } }
+            pub fn load(&self, order: Ordering) -> bool { self.sim(op::LOAD, false, false, order, Ordering::Relaxed).0 }
+            common_methods!(bool, real::AtomicBool, false, [|v: bool| v as u64], [|v: u64| v & 1 != 0]);
+            pub fn fetch_and (&self, val: bool, order: Ordering) -> bool { self.sim(op::AND, val, val, order, Ordering::Relaxed).0 }
+            pub fn fetch_or  (&self, val: bool, order: Ordering) -> bool { self.sim(op::OR,  val, val, order, Ordering::Relaxed).0 }
+            pub fn fetch_xor (&self, val: bool, order: Ordering) -> bool { self.sim(op::XOR, val, val, order, Ordering::Relaxed).0 }
+            pub fn fetch_not (&self, order: Ordering) -> bool { self.fetch_xor(true, order) }
+            pub fn fetch_nand(&self, val: bool, order: Ordering) -> bool {
+                if val { self.fetch_xor(true, order) } else { self.swap(true, order) }
+            }
+        }
+        impl Default for AtomicBool { fn default() -> Self { Self::new(false) } }
+        impl From<bool> for AtomicBool { fn from(v: bool) -> Self { Self::new(v) } }
+        impl fmt::Debug for AtomicBool {
+            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(&self.load(Ordering::Relaxed), f) }
+        }
+
+        pub struct AtomicPtr<T> { cell: real::AtomicPtr<T>, id: real::AtomicU32 }
+        impl<T> AtomicPtr<T> {
+            pub const fn new(v: *mut T) -> Self { Self { cell: real::AtomicPtr::new(v), id: real::AtomicU32::new(0) } }
+            pub fn load(&self, order: Ordering) -> *mut T {
+                self.sim(op::LOAD, real_std::ptr::null_mut(), real_std::ptr::null_mut(), order, Ordering::Relaxed).0
+            }
+            common_methods!(*mut T, real::AtomicPtr<T>, false, [|v: *mut T| v as usize as u64], [|v: u64| v as usize as *mut T]);
+        }
+        impl<T> Default for AtomicPtr<T> { fn default() -> Self { Self::new(real_std::ptr::null_mut()) } }
+        impl<T> From<*mut T> for AtomicPtr<T> { fn from(v: *mut T) -> Self { Self::new(v) } }
+        impl<T> fmt::Debug for AtomicPtr<T> {
+            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(&self.load(Ordering::Relaxed), f) }
+        }
+    }
+}
+
+pub mod alloc {
+    pub use real_std::alloc::*;
+    use super::rstd;
+
+    extern "Rust" {
+        fn __big_o_sim_alloc(layout: rstd::alloc::Layout, zeroed: bool) -> *mut u8;
+        fn __big_o_sim_dealloc(ptr: *mut u8, layout: rstd::alloc::Layout);
+        fn __big_o_sim_realloc(ptr: *mut u8, layout: rstd::alloc::Layout, new_size: usize) -> *mut u8;
+    }
+
+    /// replacement for [rstd::alloc::System]
+    #[derive(Debug, Default, Copy, Clone)]
+    pub struct System;
+
+    unsafe impl GlobalAlloc for System {
+        unsafe fn alloc(&self, layout: rstd::alloc::Layout) -> *mut u8 { __big_o_sim_alloc(layout, false) }
+        unsafe fn alloc_zeroed(&self, layout: rstd::alloc::Layout) -> *mut u8 { __big_o_sim_alloc(layout, true) }
+        unsafe fn dealloc(&self, ptr: *mut u8, layout: rstd::alloc::Layout) { __big_o_sim_dealloc(ptr, layout) }
+        unsafe fn realloc(&self, ptr: *mut u8, layout: rstd::alloc::Layout, new_size: usize) -> *mut u8 { __big_o_sim_realloc(ptr, layout, new_size) }
+    }
+}
-- 
2.43.0


From 246a185d6582262aa59ca18e87e9cdf9328a0b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:15 +0000
Subject: [PATCH 02/21] fix: ring buffer consumers didn't synchronise with the
 producers: published elements could be read before they were visible, and
 peek_all() could underflow

---
 src/metrics_allocator/ring_buffer.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/metrics_allocator/ring_buffer.rs b/src/metrics_allocator/ring_buffer.rs
index 1b1784a..8aefe07 100644
--- a/src/metrics_allocator/ring_buffer.rs
+++ b/src/metrics_allocator/ring_buffer.rs
@@ -47,7 +47,7 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBuffer<Slot, RING_BUFFER_SIZE> {
     /// creates a consumer able to consume elements produced after this call
     pub fn consumer(&self) -> RingBufferConsumer<'_, Slot, RING_BUFFER_SIZE> {
         RingBufferConsumer {
-            head: AtomicU32::new(self.published_tail.load(Ordering::Relaxed)),
+            head: AtomicU32::new(self.published_tail.load(Ordering::Acquire)),
             ring_buffer: self,
         }
     }
@@ -115,7 +115,7 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBufferConsumer<'_, Slot, RING_BUFF
     pub fn dequeue(&self) -> Result<Option<&Slot>, RingBufferOverflowError> {
         let mut head = self.head.load(Ordering::Relaxed);
         loop {
-            let published_tail = self.ring_buffer.published_tail.load(Ordering::Relaxed);
+            let published_tail = self.ring_buffer.published_tail.load(Ordering::Acquire);
             if head > published_tail {
                 head = self.head.load(Ordering::Relaxed);
                 continue;
@@ -123,7 +123,7 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBufferConsumer<'_, Slot, RING_BUFF
             if head == published_tail {
                 return Ok(None);
             }
-            match self.head.compare_exchange_weak(head, head + 1, Ordering::Acquire, Ordering::Relaxed) {
+            match self.head.compare_exchange_weak(head, head + 1, Ordering::AcqRel, Ordering::Relaxed) {
                 Ok(_) => unsafe {
                     let ptr = self.ring_buffer.buffer.as_ptr();
                     let array = &*ptr;
@@ -159,8 +159,8 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBufferConsumer<'_, Slot, RING_BUFF
     ///   }
     ///   # Ok(())}
     pub fn peek_all(&self) -> Result<[&[Slot];2], RingBufferOverflowError> {
-        let head = self.head.load(Ordering::Relaxed);
-        let published_tail = self.ring_buffer.published_tail.load(Ordering::Relaxed);
+        let head = self.head.load(Ordering::Acquire);
+        let published_tail = self.ring_buffer.published_tail.load(Ordering::Acquire);
         let head_index           = head as usize % RING_BUFFER_SIZE;
         let published_tail_index = published_tail as usize % RING_BUFFER_SIZE;
         if head == published_tail {
-- 
2.43.0


From 3d34b0f6a56535b604259b9d9f8365f444235f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:15 +0000
Subject: [PATCH 03/21] fix: a ring buffer consumer that reported an overflow
 went on delivering elements on further operations

---
 src/metrics_allocator/ring_buffer.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/metrics_allocator/ring_buffer.rs b/src/metrics_allocator/ring_buffer.rs
index 8aefe07..5e22f4b 100644
--- a/src/metrics_allocator/ring_buffer.rs
+++ b/src/metrics_allocator/ring_buffer.rs
@@ -4,7 +4,7 @@
 //!   3) Each consumer holds their own state (their 'head' pointer), therefore access should be done through a special structure [RingBufferConsumer]
 //!   4) Due to (1), any buffer overflows happens silently in the producer, when enqueueing -- overflows are only detectable by the consumers.
 //!      Please see more on [RingBufferConsumer] docs;
-use std::sync::atomic::{AtomicU32, Ordering};
+use std::sync::atomic::{AtomicBool, AtomicU32, Ordering};
 use std::mem::MaybeUninit;
 use std::io::ErrorKind;
 use std::fmt::{Display, Formatter};
@@ -48,6 +48,7 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBuffer<Slot, RING_BUFFER_SIZE> {
     pub fn consumer(&self) -> RingBufferConsumer<'_, Slot, RING_BUFFER_SIZE> {
         RingBufferConsumer {
             head: AtomicU32::new(self.published_tail.load(Ordering::Acquire)),
+            overflowed: AtomicBool::new(false),
             ring_buffer: self,
         }
     }
@@ -103,6 +104,8 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBuffer<Slot, RING_BUFFER_SIZE> {
 /// single-consumer ring-buffer. If you know of a way of solving this limitation here, please share.
 pub struct RingBufferConsumer<'a, Slot, const RING_BUFFER_SIZE: usize> {
     head: AtomicU32,
+    /// set once an overflow was detected: from then on, this consumer is no longer valid
+    overflowed: AtomicBool,
     ring_buffer: &'a RingBuffer<Slot, RING_BUFFER_SIZE>,
 }
 impl<Slot, const RING_BUFFER_SIZE: usize> RingBufferConsumer<'_, Slot, RING_BUFFER_SIZE> {
@@ -114,6 +117,9 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBufferConsumer<'_, Slot, RING_BUFF
     /// Otherwise, returns a reference (if there is some slot to dequeue) or *None* (if there isn't).
     pub fn dequeue(&self) -> Result<Option<&Slot>, RingBufferOverflowError> {
         let mut head = self.head.load(Ordering::Relaxed);
+        if self.overflowed.load(Ordering::Relaxed) {
+            return Err(self.overflow_error(self.ring_buffer.published_tail.load(Ordering::Relaxed), head));
+        }
         loop {
             let published_tail = self.ring_buffer.published_tail.load(Ordering::Acquire);
             if head > published_tail {
@@ -128,7 +134,7 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBufferConsumer<'_, Slot, RING_BUFF
                     let ptr = self.ring_buffer.buffer.as_ptr();
                     let array = &*ptr;
                     if self.ring_buffer.reserved_tail.load(Ordering::Relaxed) - head > RING_BUFFER_SIZE as u32 {
-                        return Err(RingBufferOverflowError { msg: format!("Ring-Buffer overflow: published_tail={}, head={} -- tail could not be farther from head than the ring buffer size of {}", published_tail, head, RING_BUFFER_SIZE) });
+                        return Err(self.overflow_error(published_tail, head));
                     }
                     return Ok(Some(&array[head as usize % RING_BUFFER_SIZE]))
                 },
@@ -163,10 +169,12 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBufferConsumer<'_, Slot, RING_BUFF
         let published_tail = self.ring_buffer.published_tail.load(Ordering::Acquire);
         let head_index           = head as usize % RING_BUFFER_SIZE;
         let published_tail_index = published_tail as usize % RING_BUFFER_SIZE;
-        if head == published_tail {
+        if self.overflowed.load(Ordering::Relaxed) {
+            Err(self.overflow_error(published_tail, head))
+        } else if head == published_tail {
             Ok([&[],&[]])
         } else if published_tail - head > RING_BUFFER_SIZE as u32 {
-            Err(RingBufferOverflowError { msg: format!("Ring-Buffer overflow: published_tail={}, head={} -- tail could not be farther from head than the ring buffer size of {}", published_tail, head, RING_BUFFER_SIZE) })
+            Err(self.overflow_error(published_tail, head))
         } else if head_index < published_tail_index {
             unsafe {
                 // sorcery to get back an array from a MaybeUninit using only const stable functions (as of Rust 1.55)
@@ -184,6 +192,12 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBufferConsumer<'_, Slot, RING_BUFF
         }
     }
 
+    /// marks this consumer as no longer valid & returns the error its operations should yield from now on
+    fn overflow_error(&self, published_tail: u32, head: u32) -> RingBufferOverflowError {
+        self.overflowed.store(true, Ordering::Relaxed);
+        RingBufferOverflowError { msg: format!("Ring-Buffer overflow: published_tail={}, head={} -- tail could not be farther from head than the ring buffer size of {}", published_tail, head, RING_BUFFER_SIZE) }
+    }
+
 }
 
 
-- 
2.43.0


From 189b7a480636e6543f2fd6e0135d8ef9e02c0df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:15 +0000
Subject: [PATCH 04/21] fix: the first lap of the ring buffer dropped
 uninitialised slots

---
 src/metrics_allocator/ring_buffer.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/metrics_allocator/ring_buffer.rs b/src/metrics_allocator/ring_buffer.rs
index 5e22f4b..3d21f32 100644
--- a/src/metrics_allocator/ring_buffer.rs
+++ b/src/metrics_allocator/ring_buffer.rs
@@ -64,7 +64,13 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBuffer<Slot, RING_BUFFER_SIZE> {
             let mut_ptr = const_ptr as *mut [Slot; RING_BUFFER_SIZE];
             &mut *mut_ptr
         };
-        mutable_buffer[reserved_tail as usize % RING_BUFFER_SIZE] = element;
+        let slot = &mut mutable_buffer[reserved_tail as usize % RING_BUFFER_SIZE];
+        if (reserved_tail as usize) < RING_BUFFER_SIZE {
+            // first lap: the slot is still uninitialized, so there is no previous element to be dropped
+            unsafe { std::ptr::write(slot, element) };
+        } else {
+            *slot = element;
+        }
 
         // publish the new element for consumption
         loop {
-- 
2.43.0


From a50d7a8bb9b38215b987d6e83d2367c25cc87c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:15 +0000
Subject: [PATCH 05/21] fix: peek_all() on a shared ring buffer consumer mixed
 a stale head with a newer tail: elements already dequeued and false overflows

---
 src/metrics_allocator/ring_buffer.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/metrics_allocator/ring_buffer.rs b/src/metrics_allocator/ring_buffer.rs
index 3d21f32..18c3fb1 100644
--- a/src/metrics_allocator/ring_buffer.rs
+++ b/src/metrics_allocator/ring_buffer.rs
@@ -171,8 +171,16 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBufferConsumer<'_, Slot, RING_BUFF
     ///   }
     ///   # Ok(())}
     pub fn peek_all(&self) -> Result<[&[Slot];2], RingBufferOverflowError> {
-        let head = self.head.load(Ordering::Acquire);
-        let published_tail = self.ring_buffer.published_tail.load(Ordering::Acquire);
+        let mut head = self.head.load(Ordering::Acquire);
+        let published_tail = loop {
+            let published_tail = self.ring_buffer.published_tail.load(Ordering::Acquire);
+            // if elements were dequeued meanwhile, 'head' and 'published_tail' don't belong together
+            let reloaded_head = self.head.load(Ordering::Acquire);
+            if reloaded_head == head {
+                break published_tail;
+            }
+            head = reloaded_head;
+        };
         let head_index           = head as usize % RING_BUFFER_SIZE;
         let published_tail_index = published_tail as usize % RING_BUFFER_SIZE;
         if self.overflowed.load(Ordering::Relaxed) {
-- 
2.43.0


From 17e2ce3b16b69dbd223bb76277128322f77cb5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:00 +0000
Subject: [PATCH 06/21] fix: allocation requests refused by the system
 allocator were counted as memory in use

---
 src/metrics_allocator/metrics_allocator.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/metrics_allocator/metrics_allocator.rs b/src/metrics_allocator/metrics_allocator.rs
index b18cbd8..0c5cbdf 100644
--- a/src/metrics_allocator/metrics_allocator.rs
+++ b/src/metrics_allocator/metrics_allocator.rs
@@ -267,20 +267,29 @@ impl<const RING_BUFFER_SIZE: usize> MetricsAllocator<'_, RING_BUFFER_SIZE> {
 /// the global allocator
 unsafe impl<const RING_BUFFER_SIZE: usize> GlobalAlloc for MetricsAllocator<'_, RING_BUFFER_SIZE> {
     unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
-        self.compute_alloc_metrics(&layout);
-        self.system_allocator.alloc(layout)
+        let ptr = self.system_allocator.alloc(layout);
+        if !ptr.is_null() {
+            self.compute_alloc_metrics(&layout);
+        }
+        ptr
     }
     unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
         self.compute_dealloc_metrics(&layout);
         self.system_allocator.dealloc(ptr, layout)
     }
     unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
-        self.compute_alloc_zeroed_metrics(&layout);
-        self.system_allocator.alloc_zeroed(layout)
+        let ptr = self.system_allocator.alloc_zeroed(layout);
+        if !ptr.is_null() {
+            self.compute_alloc_zeroed_metrics(&layout);
+        }
+        ptr
     }
     unsafe fn realloc(&self, ptr: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
-        self.compute_realloc_metrics(&layout, new_size);
-        self.system_allocator.realloc(ptr, layout, new_size)
+        let new_ptr = self.system_allocator.realloc(ptr, layout, new_size);
+        if !new_ptr.is_null() {
+            self.compute_realloc_metrics(&layout, new_size);
+        }
+        new_ptr
     }
 }
 
-- 
2.43.0


From cec68ef76a5773d0c5eea3f184a5e1dede8edfa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:11 +0000
Subject: [PATCH 07/21] fix: concurrent requests could hide each other's lowest
 & highest used memory from the allocator metrics

---
 src/metrics_allocator/metrics_allocator.rs | 50 +++++++---------------
 1 file changed, 16 insertions(+), 34 deletions(-)

diff --git a/src/metrics_allocator/metrics_allocator.rs b/src/metrics_allocator/metrics_allocator.rs
index 0c5cbdf..2cccad8 100644
--- a/src/metrics_allocator/metrics_allocator.rs
+++ b/src/metrics_allocator/metrics_allocator.rs
@@ -203,24 +203,24 @@ impl<const RING_BUFFER_SIZE: usize> MetricsAllocator<'_, RING_BUFFER_SIZE> {
     fn compute_alloc_metrics(&self, layout: &Layout) {
         self.statistics.allocations_count.fetch_add(1, Ordering::Relaxed);
         self.statistics.allocated_bytes.fetch_add(layout.size(), Ordering::Relaxed);
-        self.statistics.current_used_memory.fetch_add(layout.size(), Ordering::Relaxed);
-        self.compute_min_and_max_used_memories();
+        let used_memory = self.statistics.current_used_memory.fetch_add(layout.size(), Ordering::Relaxed) + layout.size();
+        self.compute_min_and_max_used_memories(used_memory);
     }
 
     /// compute metrics for de-allocation
     fn compute_dealloc_metrics(&self, layout: &Layout) {
         self.statistics.deallocations_count.fetch_add(1, Ordering::Relaxed);
         self.statistics.deallocated_bytes.fetch_add(layout.size(), Ordering::Relaxed);
-        self.statistics.current_used_memory.fetch_sub(layout.size(), Ordering::Relaxed);
-        self.compute_min_and_max_used_memories();
+        let used_memory = self.statistics.current_used_memory.fetch_sub(layout.size(), Ordering::Relaxed) - layout.size();
+        self.compute_min_and_max_used_memories(used_memory);
     }
 
     /// compute metrics for zeroed allocation
     fn compute_alloc_zeroed_metrics(&self, layout: &Layout) {
         self.statistics.zeroed_allocations_count.fetch_add(1, Ordering::Relaxed);
         self.statistics.zeroed_allocated_bytes.fetch_add(layout.size(), Ordering::Relaxed);
-        self.statistics.current_used_memory.fetch_add(layout.size(), Ordering::Relaxed);
-        self.compute_min_and_max_used_memories();
+        let used_memory = self.statistics.current_used_memory.fetch_add(layout.size(), Ordering::Relaxed) + layout.size();
+        self.compute_min_and_max_used_memories(used_memory);
     }
 
     /// compute metrics for re-allocation
@@ -229,38 +229,20 @@ impl<const RING_BUFFER_SIZE: usize> MetricsAllocator<'_, RING_BUFFER_SIZE> {
         self.statistics.reallocated_originals_bytes.fetch_add(layout.size(), Ordering::Relaxed);
         self.statistics.reallocated_news_bytes.fetch_add(new_size, Ordering::Relaxed);
         if new_size > layout.size() {
-            self.statistics.current_used_memory.fetch_add(new_size-layout.size(), Ordering::Relaxed);
+            let growth = new_size - layout.size();
+            let used_memory = self.statistics.current_used_memory.fetch_add(growth, Ordering::Relaxed) + growth;
+            self.compute_min_and_max_used_memories(used_memory);
         } else if new_size < layout.size() {
-            self.statistics.current_used_memory.fetch_sub(layout.size()-new_size, Ordering::Relaxed);
+            let shrinkage = layout.size() - new_size;
+            let used_memory = self.statistics.current_used_memory.fetch_sub(shrinkage, Ordering::Relaxed) - shrinkage;
+            self.compute_min_and_max_used_memories(used_memory);
         }
-        self.compute_min_and_max_used_memories();
     }
 
-    /// helper functions for metrics computation
-    fn compute_min_and_max_used_memories(&self) {
-        let current_used_memory = self.statistics.current_used_memory.load(Ordering::Relaxed);
-        let mut min_used_memory = self.statistics.min_used_memory.load(Ordering::Relaxed);
-        loop {
-            if current_used_memory < min_used_memory {
-                match self.statistics.min_used_memory.compare_exchange_weak(min_used_memory, current_used_memory, Ordering::Relaxed, Ordering::Relaxed) {
-                    Ok(_) => break,
-                    Err(reloaded_val) => min_used_memory = reloaded_val,
-                }
-            } else {
-                break;
-            }
-        }
-        let mut max_used_memory = self.statistics.max_used_memory.load(Ordering::Relaxed);
-        loop {
-            if current_used_memory > max_used_memory {
-                match self.statistics.max_used_memory.compare_exchange_weak(max_used_memory, current_used_memory, Ordering::Relaxed, Ordering::Relaxed) {
-                    Ok(_) => break,
-                    Err(reloaded_val) => max_used_memory = reloaded_val,
-                }
-            } else {
-                break;
-            }
-        }
+    /// helper functions for metrics computation -- `used_memory` is the memory in use as soon as an operation took effect
+    fn compute_min_and_max_used_memories(&self, used_memory: usize) {
+        self.statistics.min_used_memory.fetch_min(used_memory, Ordering::Relaxed);
+        self.statistics.max_used_memory.fetch_max(used_memory, Ordering::Relaxed);
     }
 }
 
-- 
2.43.0


From 54e538c82944f404560239230f1a52e3b6e4728a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:21 +0000
Subject: [PATCH 08/21] fix: lowest & highest used memory were lost (or
 attributed to other windows) when save points were taken concurrently with
 other requests, save points or queries

---
 src/metrics_allocator/metrics_allocator.rs | 44 +++++++++++++++-------
 src/metrics_allocator/ring_buffer.rs       | 12 ++++++
 2 files changed, 42 insertions(+), 14 deletions(-)

diff --git a/src/metrics_allocator/metrics_allocator.rs b/src/metrics_allocator/metrics_allocator.rs
index 2cccad8..92ca4aa 100644
--- a/src/metrics_allocator/metrics_allocator.rs
+++ b/src/metrics_allocator/metrics_allocator.rs
@@ -1,7 +1,7 @@
 //! See [super]
 
 use std::fmt::{Formatter, Display, Debug};
-use std::sync::atomic::{AtomicUsize, Ordering};
+use std::sync::atomic::{fence, AtomicBool, AtomicUsize, Ordering};
 use std::alloc::{System, GlobalAlloc, Layout};
 
 use crate::metrics_allocator::ring_buffer::{RingBuffer, RingBufferConsumer, RingBufferOverflowError};
@@ -105,6 +105,8 @@ pub struct MetricsAllocator<'a, const RING_BUFFER_SIZE: usize> {
     system_allocator:        &'a System,
     statistics:              MetricsAllocatorStatistics<AtomicUsize>,
     used_memory_ring_buffer: RingBuffer<SavePointRingBufferSlot<usize>, RING_BUFFER_SIZE>,
+    /// set while a "save point" is being taken: they are taken one at a time, or else the (min,max) of one would be attributed to another
+    taking_save_point:       AtomicBool,
 }
 impl<const RING_BUFFER_SIZE: usize>
 Default
@@ -135,20 +137,29 @@ impl<const RING_BUFFER_SIZE: usize> MetricsAllocator<'_, RING_BUFFER_SIZE> {
                 max_used_memory:             AtomicUsize::new(0),
             },
             used_memory_ring_buffer: RingBuffer::new(),
+            taking_save_point:       AtomicBool::new(false),
         }
     }
 
     /// Prepares a new measurement for future allocations, to be inferred by [delta_statistics()](MetricsAllocator::delta_statistics()).
     pub fn save_point(&self) -> MetricsAllocatorSavePoint<RING_BUFFER_SIZE> {
+        while self.taking_save_point.compare_exchange_weak(false, true, Ordering::Acquire, Ordering::Relaxed).is_err() {
+            std::hint::spin_loop();
+        }
         // add the current (min,max) to the ring buffer and start a new counter
         // the new consumer will consume any further saved_points + the current (min,max)
-        self.used_memory_ring_buffer.enqueue(SavePointRingBufferSlot {
-            min_used_memory: self.statistics.min_used_memory.load(Ordering::Relaxed),
-            max_used_memory: self.statistics.max_used_memory.load(Ordering::Relaxed),
-        });
+        let min_used_memory = self.statistics.min_used_memory.load(Ordering::Relaxed);
+        let max_used_memory = self.statistics.max_used_memory.load(Ordering::Relaxed);
+        self.used_memory_ring_buffer.enqueue(SavePointRingBufferSlot { min_used_memory, max_used_memory });
         let used_memory_ring_buffer_consumer = self.used_memory_ring_buffer.consumer();
-        self.statistics.min_used_memory.store(self.statistics.current_used_memory.load(Ordering::Relaxed), Ordering::Relaxed);
-        self.statistics.max_used_memory.store(self.statistics.current_used_memory.load(Ordering::Relaxed), Ordering::Relaxed);
+        // (min,max) values set after the ones just enqueued are kept, as previous "save points" are still to see them
+        let current_used_memory = self.statistics.current_used_memory.load(Ordering::Relaxed);
+        _ = self.statistics.min_used_memory.compare_exchange(min_used_memory, current_used_memory, Ordering::Release, Ordering::Relaxed);
+        _ = self.statistics.max_used_memory.compare_exchange(max_used_memory, current_used_memory, Ordering::Release, Ordering::Relaxed);
+        // from here on nothing gets lost: the new counter starts with the memory in use now
+        let current_used_memory = self.statistics.current_used_memory.load(Ordering::Relaxed);
+        self.compute_min_and_max_used_memories(current_used_memory);
+        self.taking_save_point.store(false, Ordering::Release);
         MetricsAllocatorSavePoint {
             metrics: MetricsAllocatorStatistics {
                 allocations_count:           self.statistics.allocations_count          .load(Ordering::Relaxed),
@@ -160,7 +171,7 @@ impl<const RING_BUFFER_SIZE: usize> MetricsAllocator<'_, RING_BUFFER_SIZE> {
                 zeroed_allocated_bytes:      self.statistics.zeroed_allocated_bytes     .load(Ordering::Relaxed),
                 reallocated_originals_bytes: self.statistics.reallocated_originals_bytes.load(Ordering::Relaxed),
                 reallocated_news_bytes:      self.statistics.reallocated_news_bytes     .load(Ordering::Relaxed),
-                current_used_memory:         self.statistics.current_used_memory        .load(Ordering::Relaxed),
+                current_used_memory,
                 min_used_memory:             self.statistics.min_used_memory            .load(Ordering::Relaxed),
                 max_used_memory:             self.statistics.max_used_memory            .load(Ordering::Relaxed),
             },
@@ -171,8 +182,9 @@ impl<const RING_BUFFER_SIZE: usize> MetricsAllocator<'_, RING_BUFFER_SIZE> {
     /// Returns the allocation statistics between now and the point in time when `save_point` was generated
     /// (with a call to [save_point()](MetricsAllocator::save_point())).
     pub fn delta_statistics(&self, save_point: &MetricsAllocatorSavePoint<RING_BUFFER_SIZE>) -> Result<MetricsAllocatorStatistics<usize>, RingBufferOverflowError> {
-        let mut min = usize::MAX;
-        let mut max = usize::MIN;
+        // compute the current (min,max) -- before the subsequent "save points": one taken meanwhile would start a new counter
+        let mut min = self.statistics.min_used_memory.load(Ordering::Acquire);
+        let mut max = self.statistics.max_used_memory.load(Ordering::Acquire);
         // compute (min,max) since the given 'save_point'
         for peeked_chunk in save_point.used_memory_ring_buffer_consumer.peek_all()? {
             for subsequent_save_point in peeked_chunk {
@@ -180,9 +192,13 @@ impl<const RING_BUFFER_SIZE: usize> MetricsAllocator<'_, RING_BUFFER_SIZE> {
                 max = max.max(subsequent_save_point.max_used_memory);
             }
         }
-        // compute the current (min,max)
-        min = min.min(self.statistics.min_used_memory.load(Ordering::Relaxed));
-        max = max.max(self.statistics.max_used_memory.load(Ordering::Relaxed));
+        // the slots just used were valid only if no further "save points" cycled over them meanwhile
+        fence(Ordering::Acquire);
+        save_point.used_memory_ring_buffer_consumer.check_overflow()?;
+        // the memory in use at both ends also counts
+        let current_used_memory = self.statistics.current_used_memory.load(Ordering::Relaxed);
+        min = min.min(current_used_memory).min(save_point.metrics.current_used_memory);
+        max = max.max(current_used_memory).max(save_point.metrics.current_used_memory);
         Ok(MetricsAllocatorStatistics::<usize> {
             allocations_count:           self.statistics.allocations_count          .load(Ordering::Relaxed) - save_point.metrics.allocations_count,
             deallocations_count:         self.statistics.deallocations_count        .load(Ordering::Relaxed) - save_point.metrics.deallocations_count,
@@ -193,7 +209,7 @@ impl<const RING_BUFFER_SIZE: usize> MetricsAllocator<'_, RING_BUFFER_SIZE> {
             zeroed_allocated_bytes:      self.statistics.zeroed_allocated_bytes     .load(Ordering::Relaxed) - save_point.metrics.zeroed_allocated_bytes,
             reallocated_originals_bytes: self.statistics.reallocated_originals_bytes.load(Ordering::Relaxed) - save_point.metrics.reallocated_originals_bytes,
             reallocated_news_bytes:      self.statistics.reallocated_news_bytes     .load(Ordering::Relaxed) - save_point.metrics.reallocated_news_bytes,
-            current_used_memory:         self.statistics.current_used_memory        .load(Ordering::Relaxed),
+            current_used_memory,
             min_used_memory:             min,
             max_used_memory:             max,
         })
diff --git a/src/metrics_allocator/ring_buffer.rs b/src/metrics_allocator/ring_buffer.rs
index 18c3fb1..4b78542 100644
--- a/src/metrics_allocator/ring_buffer.rs
+++ b/src/metrics_allocator/ring_buffer.rs
@@ -206,6 +206,18 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBufferConsumer<'_, Slot, RING_BUFF
         }
     }
 
+    /// Tells if references got from a previous [Self::peek_all()] are no longer valid, for elements enqueued meanwhile
+    /// (or being enqueued right now) have cycled over the elements yet to be [Self::dequeue()]d
+    pub(crate) fn check_overflow(&self) -> Result<(), RingBufferOverflowError> {
+        let head = self.head.load(Ordering::Relaxed);
+        let reserved_tail = self.ring_buffer.reserved_tail.load(Ordering::Relaxed);
+        if self.overflowed.load(Ordering::Relaxed) || reserved_tail - head > RING_BUFFER_SIZE as u32 {
+            Err(self.overflow_error(reserved_tail, head))
+        } else {
+            Ok(())
+        }
+    }
+
     /// marks this consumer as no longer valid & returns the error its operations should yield from now on
     fn overflow_error(&self, published_tail: u32, head: u32) -> RingBufferOverflowError {
         self.overflowed.store(true, Ordering::Relaxed);
-- 
2.43.0


From ee9428e239be14e6e257533eb4f4e5f6c8a2d901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:02 +0000
Subject: [PATCH 09/21] fix: CRUD passes skipped the last elements when their
 count wasn't a multiple of the number of threads

---
 src/runners/common.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/runners/common.rs b/src/runners/common.rs
index d8a62d8..56189a4 100644
--- a/src/runners/common.rs
+++ b/src/runners/common.rs
@@ -121,13 +121,14 @@ pub(crate) fn run_iterator_pass<'a, _AlgorithmClosure: Fn(u32) -> u32 + Sync>
     crossbeam::scope(|scope| {
 
         // start all threads
-        let i32_range = range.end as i32 .. range.start as i32;
-        let chunk_size = (i32_range.end-i32_range.start)/threads as i32;
+        // -- the boundaries are computed so that every element belongs to exactly one chunk, even if they can't be evenly divided
+        let i64_range = range.end as i64 .. range.start as i64;
+        let chunk_boundary = |n: u32| (i64_range.start + (i64_range.end-i64_range.start) * n as i64 / threads as i64) as u32;
         let mut thread_handlers: Vec<crossbeam::thread::ScopedJoinHandle<ThreadLoopResult>> = Vec::with_capacity(threads as usize);
         let allocator_savepoint = features::ALLOC.save_point();
-        for n in 0..threads as i32 {
-            let chunked_range = i32_range.start+chunk_size*n..i32_range.start+chunk_size*(n+1);
-            thread_handlers.push( scope.spawn(move |_| thread_loop(iterator_algorithm, algorithm_type, chunked_range.start as u32 .. chunked_range.end as u32)) );
+        for n in 0..threads {
+            let chunked_range = chunk_boundary(n) .. chunk_boundary(n+1);
+            thread_handlers.push( scope.spawn(move |_| thread_loop(iterator_algorithm, algorithm_type, chunked_range)) );
         }
 
         // wait for them all to finish
-- 
2.43.0


From 6248d5f8e857dc0aa14df19202e397e52dc8b426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:02 +0000
Subject: [PATCH 10/21] fix: CRUD operations with 0 threads caused a division
 by zero instead of having no analysis

---
 src/runners/crud.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/runners/crud.rs b/src/runners/crud.rs
index 2765e75..13ce7fe 100644
--- a/src/runners/crud.rs
+++ b/src/runners/crud.rs
@@ -233,6 +233,12 @@ fn internal_analyse_crud_algorithms<ResetClosure:  Fn(u32) -> u32 + Sync,
 
     const NUMBER_OF_PASSES: u32 = 2;
 
+    // operations without threads to run them are not to be analysed -- just like the ones without iterations
+    let create_iterations_per_pass = if create_threads > 0 {create_iterations_per_pass} else {0};
+    let   read_iterations_per_pass = if   read_threads > 0 {  read_iterations_per_pass} else {0};
+    let update_iterations_per_pass = if update_threads > 0 {update_iterations_per_pass} else {0};
+    let delete_iterations_per_pass = if delete_threads > 0 {delete_iterations_per_pass} else {0};
+
     // accumulation of computed results from [create_fn], [read_fn], [update_fn] and [delete_fn]
     // to avoid any call cancellation optimizations when running in release mode
     let mut r: u32 = 0;
-- 
2.43.0


From 0a225516722716e8ed018db6e293d7b27195fa41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:02 +0000
Subject: [PATCH 11/21] fix: CRUD tests with max_retry_attempts = 0 passed
 without running anything

---
 src/runners/crud.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/runners/crud.rs b/src/runners/crud.rs
index 13ce7fe..ce51c52 100644
--- a/src/runners/crud.rs
+++ b/src/runners/crud.rs
@@ -55,6 +55,9 @@ pub fn test_crud_algorithms<ResetClosure:  Fn(u32) -> u32 + Sync,
 
     }
 
+    // without any attempt, nothing would be tested & the test would always pass
+    let max_retry_attempts = max_retry_attempts.max(1);
+
     let mut collected_errors = Vec::<CRUDComplexityAnalysisError>::with_capacity(max_retry_attempts as usize);
 
     // in order to reduce false-negatives, retry up to 'max_retry_attempts' if time complexity don't match
-- 
2.43.0


From d0dd74157a9988ba77689424b66edee2964de705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:02 +0000
Subject: [PATCH 12/21] fix: retries of CRUD tests with few iterations skipped
 the operations whose time complexity didn't match

---
 src/runners/crud.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/runners/crud.rs b/src/runners/crud.rs
index ce51c52..720db6d 100644
--- a/src/runners/crud.rs
+++ b/src/runners/crud.rs
@@ -43,7 +43,7 @@ pub fn test_crud_algorithms<ResetClosure:  Fn(u32) -> u32 + Sync,
     // adapts the 'iterations_per_pass' to the 'attempt' number, so each retry uses slightly different values
     fn adapt(attempt: u32, iterations_per_pass: u32) -> u32 {
         let factor = 10-(((attempt % 15)/3)*2); // [10,8,6,4,2,10,8,6,4,2,...]
-        match attempt {
+        let adapted_iterations = match attempt {
             0 => iterations_per_pass,
             _ => match (attempt-1) % 3 {
                 0 => iterations_per_pass / factor,
@@ -51,8 +51,9 @@ pub fn test_crud_algorithms<ResetClosure:  Fn(u32) -> u32 + Sync,
                 2 => iterations_per_pass + (iterations_per_pass / factor),
                 _ => panic!("fix this match")
             }
-        }
-
+        };
+        // requested operations must always be run, even if they have too few iterations
+        adapted_iterations.max(iterations_per_pass.min(1))
     }
 
     // without any attempt, nothing would be tested & the test would always pass
-- 
2.43.0


From e94d533129477fa334747e947386d6f24f39fb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:17 +0000
Subject: [PATCH 13/21] fix: before retrying CRUD tests, reset was given a
 constant instead of the number of created elements

---
 src/runners/crud.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/runners/crud.rs b/src/runners/crud.rs
index 720db6d..c6b3004 100644
--- a/src/runners/crud.rs
+++ b/src/runners/crud.rs
@@ -88,7 +88,8 @@ pub fn test_crud_algorithms<ResetClosure:  Fn(u32) -> u32 + Sync,
                 if attempt < max_retry_attempts-1 {
                     collected_errors.push(crud_analysis_error);
                     OUTPUT(&format!("\nAttempt {} failed. Resetting before retrying", attempt+1));
-                    reset_fn(100);  // 100% of the created elements
+                    let created_elements = if create_threads > 0 {adapted_create_iterations_per_pass.saturating_mul(2)} else {0};   // on both passes
+                    reset_fn(created_elements);
                     OUTPUT("...\n");
                     continue;
                 } else {
-- 
2.43.0


From 1d7e6707042ad874e95e11a2897383aed4d9bd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:41 +0000
Subject: [PATCH 14/21] fix: algorithms that use no memory at all on both
 passes were classified as worse than exponential instead of O(1)

---
 src/low_level_analysis/low_level_analysis.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/low_level_analysis/low_level_analysis.rs b/src/low_level_analysis/low_level_analysis.rs
index 9b7c051..c59faa4 100644
--- a/src/low_level_analysis/low_level_analysis.rs
+++ b/src/low_level_analysis/low_level_analysis.rs
@@ -10,7 +10,10 @@ use super::{
 /// utilization on passes 1 & 2 and, likewise, `n1` & `n2` represent the number of element, iterations or computations
 /// -- in other words, represents the `n` in the Big-O notation... `O(n)`, `O(log(n))`, `O(n²)`, etc...
 pub fn analyse_complexity(u1: f64, u2: f64, n1: f64, n2: f64) -> BigOAlgorithmComplexity {
-    if (u2 / u1) < 1.0 - PERCENT_TOLERANCE {
+    if u1 == 0.0 && u2 == 0.0 {
+        // the resource isn't used at all, regardless of `n`
+        BigOAlgorithmComplexity::O1
+    } else if (u2 / u1) < 1.0 - PERCENT_TOLERANCE {
         BigOAlgorithmComplexity::BetterThanO1
     } else if ((u2 / u1) - 1.0).abs() <= PERCENT_TOLERANCE {
         BigOAlgorithmComplexity::O1
@@ -52,7 +55,10 @@ pub fn analyse_complexity(u1: f64, u2: f64, n1: f64, n2: f64) -> BigOAlgorithmCo
 ///   - `u1` & `u2` are the resource utilization on passes 1 & 2
 ///   - `n` represent the number of element added or remove on each pass
 pub fn analyse_set_resizing_iterator_complexity(u1: f64, u2: f64, n: f64) -> BigOAlgorithmComplexity {
-    if ((u1 / u2) - 1.0) > PERCENT_TOLERANCE {
+    if u1 == 0.0 && u2 == 0.0 {
+        // the resource isn't used at all, regardless of `n`
+        BigOAlgorithmComplexity::O1
+    } else if ((u1 / u2) - 1.0) > PERCENT_TOLERANCE {
         // sanity check
         BigOAlgorithmComplexity::BetterThanO1
     } else if ((u2 / u1) - 1.0).abs() <= PERCENT_TOLERANCE {
-- 
2.43.0


From c267152874acfaf86fceea98cce4583fe25e4f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:41 +0000
Subject: [PATCH 15/21] fix: reports overflowed when only the first pass'
 memory extremes were lost (the auxiliary space of the second was added before
 the subtraction)

---
 src/low_level_analysis/types/types_impl.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/low_level_analysis/types/types_impl.rs b/src/low_level_analysis/types/types_impl.rs
index 5b6d52d..fcfe493 100644
--- a/src/low_level_analysis/types/types_impl.rs
+++ b/src/low_level_analysis/types/types_impl.rs
@@ -154,8 +154,8 @@ impl BigOSpaceMeasurements {
     /// auxiliary space refers to the memory used during the computation and then freed before ending the computation --
     /// returns max_used_ram - max(used_memory_delta, used_memory_start), meaning: >0 if auxiliary memory was allocated
     pub fn used_auxiliary_space(&self) -> usize {
-        self.pass_2_measurements.max_used_memory - std::cmp::max(self.pass_2_measurements.used_memory_after, self.pass_2_measurements.used_memory_before) +
-            self.pass_1_measurements.max_used_memory - std::cmp::max(self.pass_1_measurements.used_memory_after, self.pass_1_measurements.used_memory_before)
+        (self.pass_2_measurements.max_used_memory - std::cmp::max(self.pass_2_measurements.used_memory_after, self.pass_2_measurements.used_memory_before)) +
+            (self.pass_1_measurements.max_used_memory - std::cmp::max(self.pass_1_measurements.used_memory_after, self.pass_1_measurements.used_memory_before))
     }
 }
 impl Display for BigOSpaceMeasurements {
-- 
2.43.0


From ac07bed0ed98c445efc732484dbed828bc85b6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:56 +0000
Subject: [PATCH 16/21] fix: the ring buffer stopped working after 2^32
 elements: producers panicked & consumers hung as their 32 bits counters
 wrapped around

---
 src/metrics_allocator/ring_buffer.rs | 34 +++++++++++++++-------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/src/metrics_allocator/ring_buffer.rs b/src/metrics_allocator/ring_buffer.rs
index 4b78542..9aba520 100644
--- a/src/metrics_allocator/ring_buffer.rs
+++ b/src/metrics_allocator/ring_buffer.rs
@@ -4,7 +4,9 @@
 //!   3) Each consumer holds their own state (their 'head' pointer), therefore access should be done through a special structure [RingBufferConsumer]
 //!   4) Due to (1), any buffer overflows happens silently in the producer, when enqueueing -- overflows are only detectable by the consumers.
 //!      Please see more on [RingBufferConsumer] docs;
-use std::sync::atomic::{AtomicBool, AtomicU32, Ordering};
+use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
+#[cfg(test)]
+use std::sync::atomic::AtomicU32;
 use std::mem::MaybeUninit;
 use std::io::ErrorKind;
 use std::fmt::{Display, Formatter};
@@ -19,9 +21,9 @@ use std::fmt::{Display, Formatter};
 /// See [self] for more info.
 pub struct RingBuffer<Slot, const RING_BUFFER_SIZE: usize> {
     /// if ahead of [published_tail], indicates new slots is being filled in, to soon be published
-    reserved_tail: AtomicU32,
+    reserved_tail: AtomicUsize,
     /// once the slot data is set in place, this counter increases to indicate a new element is ready to be consumed
-    published_tail: AtomicU32,
+    published_tail: AtomicUsize,
     /// the data
     buffer: MaybeUninit<[Slot; RING_BUFFER_SIZE]>,
 }
@@ -38,8 +40,8 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBuffer<Slot, RING_BUFFER_SIZE> {
 
     pub const fn new() -> Self {
         Self {
-            reserved_tail: AtomicU32::new(0),
-            published_tail: AtomicU32::new(0),
+            reserved_tail: AtomicUsize::new(0),
+            published_tail: AtomicUsize::new(0),
             buffer: MaybeUninit::uninit(),
         }
     }
@@ -47,7 +49,7 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBuffer<Slot, RING_BUFFER_SIZE> {
     /// creates a consumer able to consume elements produced after this call
     pub fn consumer(&self) -> RingBufferConsumer<'_, Slot, RING_BUFFER_SIZE> {
         RingBufferConsumer {
-            head: AtomicU32::new(self.published_tail.load(Ordering::Acquire)),
+            head: AtomicUsize::new(self.published_tail.load(Ordering::Acquire)),
             overflowed: AtomicBool::new(false),
             ring_buffer: self,
         }
@@ -64,8 +66,8 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBuffer<Slot, RING_BUFFER_SIZE> {
             let mut_ptr = const_ptr as *mut [Slot; RING_BUFFER_SIZE];
             &mut *mut_ptr
         };
-        let slot = &mut mutable_buffer[reserved_tail as usize % RING_BUFFER_SIZE];
-        if (reserved_tail as usize) < RING_BUFFER_SIZE {
+        let slot = &mut mutable_buffer[reserved_tail % RING_BUFFER_SIZE];
+        if reserved_tail < RING_BUFFER_SIZE {
             // first lap: the slot is still uninitialized, so there is no previous element to be dropped
             unsafe { std::ptr::write(slot, element) };
         } else {
@@ -109,7 +111,7 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBuffer<Slot, RING_BUFFER_SIZE> {
 /// If these 3 steps are not enough, you might consider using a non-zero-cost multiple consumers ring-buffer, a non-zero-copy one or even a
 /// single-consumer ring-buffer. If you know of a way of solving this limitation here, please share.
 pub struct RingBufferConsumer<'a, Slot, const RING_BUFFER_SIZE: usize> {
-    head: AtomicU32,
+    head: AtomicUsize,
     /// set once an overflow was detected: from then on, this consumer is no longer valid
     overflowed: AtomicBool,
     ring_buffer: &'a RingBuffer<Slot, RING_BUFFER_SIZE>,
@@ -139,10 +141,10 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBufferConsumer<'_, Slot, RING_BUFF
                 Ok(_) => unsafe {
                     let ptr = self.ring_buffer.buffer.as_ptr();
                     let array = &*ptr;
-                    if self.ring_buffer.reserved_tail.load(Ordering::Relaxed) - head > RING_BUFFER_SIZE as u32 {
+                    if self.ring_buffer.reserved_tail.load(Ordering::Relaxed) - head > RING_BUFFER_SIZE {
                         return Err(self.overflow_error(published_tail, head));
                     }
-                    return Ok(Some(&array[head as usize % RING_BUFFER_SIZE]))
+                    return Ok(Some(&array[head % RING_BUFFER_SIZE]))
                 },
                 Err(reloaded_head) => head = reloaded_head,
             }
@@ -181,13 +183,13 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBufferConsumer<'_, Slot, RING_BUFF
             }
             head = reloaded_head;
         };
-        let head_index           = head as usize % RING_BUFFER_SIZE;
-        let published_tail_index = published_tail as usize % RING_BUFFER_SIZE;
+        let head_index           = head % RING_BUFFER_SIZE;
+        let published_tail_index = published_tail % RING_BUFFER_SIZE;
         if self.overflowed.load(Ordering::Relaxed) {
             Err(self.overflow_error(published_tail, head))
         } else if head == published_tail {
             Ok([&[],&[]])
-        } else if published_tail - head > RING_BUFFER_SIZE as u32 {
+        } else if published_tail - head > RING_BUFFER_SIZE {
             Err(self.overflow_error(published_tail, head))
         } else if head_index < published_tail_index {
             unsafe {
@@ -211,7 +213,7 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBufferConsumer<'_, Slot, RING_BUFF
     pub(crate) fn check_overflow(&self) -> Result<(), RingBufferOverflowError> {
         let head = self.head.load(Ordering::Relaxed);
         let reserved_tail = self.ring_buffer.reserved_tail.load(Ordering::Relaxed);
-        if self.overflowed.load(Ordering::Relaxed) || reserved_tail - head > RING_BUFFER_SIZE as u32 {
+        if self.overflowed.load(Ordering::Relaxed) || reserved_tail - head > RING_BUFFER_SIZE {
             Err(self.overflow_error(reserved_tail, head))
         } else {
             Ok(())
@@ -219,7 +221,7 @@ impl<Slot, const RING_BUFFER_SIZE: usize> RingBufferConsumer<'_, Slot, RING_BUFF
     }
 
     /// marks this consumer as no longer valid & returns the error its operations should yield from now on
-    fn overflow_error(&self, published_tail: u32, head: u32) -> RingBufferOverflowError {
+    fn overflow_error(&self, published_tail: usize, head: usize) -> RingBufferOverflowError {
         self.overflowed.store(true, Ordering::Relaxed);
         RingBufferOverflowError { msg: format!("Ring-Buffer overflow: published_tail={}, head={} -- tail could not be farther from head than the ring buffer size of {}", published_tail, head, RING_BUFFER_SIZE) }
     }
-- 
2.43.0


From 444f17c89229f6794fb9e1f046a87a3c7324b345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:56 +0000
Subject: [PATCH 17/21] fix: warm-ups of CRUD analyses with tens of millions of
 iterations overflowed

---
 src/runners/crud.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/runners/crud.rs b/src/runners/crud.rs
index c6b3004..afea3e1 100644
--- a/src/runners/crud.rs
+++ b/src/runners/crud.rs
@@ -442,8 +442,9 @@ fn internal_analyse_crud_algorithms<ResetClosure:  Fn(u32) -> u32 + Sync,
     if warmup_percentage > 0 {
 
         // warmup ranges
-        let calc_warmup_cru_range = |iterations_per_pass|  0 .. iterations_per_pass * warmup_percentage / 100;
-        let calc_warmup_d_range = |iterations_per_pass| iterations_per_pass * warmup_percentage / 100 .. 0;
+        let calc_warmup_iterations = |iterations_per_pass: u32| (iterations_per_pass as u64 * warmup_percentage as u64 / 100) as u32;
+        let calc_warmup_cru_range = |iterations_per_pass|  0 .. calc_warmup_iterations(iterations_per_pass);
+        let calc_warmup_d_range = |iterations_per_pass| calc_warmup_iterations(iterations_per_pass) .. 0;
 
         let warmup_start = Instant::now();
         _output("warming up [");
@@ -469,7 +470,7 @@ fn internal_analyse_crud_algorithms<ResetClosure:  Fn(u32) -> u32 + Sync,
             r ^= warmup_r;
         }
         _output("] ");
-        reset_fn(create_iterations_per_pass * warmup_percentage / 100);
+        reset_fn(calc_warmup_iterations(create_iterations_per_pass));
 
         let warmup_end = Instant::now();
         let warmup_elapsed = warmup_end.duration_since(warmup_start);
-- 
2.43.0


From cf3ed5f8de9d7067e87323600a7d5a4e8402f610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:08 +0000
Subject: [PATCH 18/21] fix: CRUD tests with a huge max_retry_attempts aborted,
 as room for the errors of all attempts was allocated upfront

---
 src/runners/crud.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runners/crud.rs b/src/runners/crud.rs
index afea3e1..82cc3f1 100644
--- a/src/runners/crud.rs
+++ b/src/runners/crud.rs
@@ -59,7 +59,7 @@ pub fn test_crud_algorithms<ResetClosure:  Fn(u32) -> u32 + Sync,
     // without any attempt, nothing would be tested & the test would always pass
     let max_retry_attempts = max_retry_attempts.max(1);
 
-    let mut collected_errors = Vec::<CRUDComplexityAnalysisError>::with_capacity(max_retry_attempts as usize);
+    let mut collected_errors = Vec::<CRUDComplexityAnalysisError>::new();
 
     // in order to reduce false-negatives, retry up to 'max_retry_attempts' if time complexity don't match
     // the maximum acceptable create, read, update or delete 'expected_*_time_complexity'(ies)
-- 
2.43.0


From 481d6dfe8eaa2841ba76d521a40013ffa92b7070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:59 +0000
Subject: [PATCH 19/21] fix: the memory taken to start and end the threads of a
 pass is no longer attributed to the algorithm

---
 src/runners/common.rs | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/runners/common.rs b/src/runners/common.rs
index 56189a4..bf5f32e 100644
--- a/src/runners/common.rs
+++ b/src/runners/common.rs
@@ -6,8 +6,10 @@ use crate::{
 };
 use std::{
     ops::Range,
+    sync::{Condvar, Mutex, RwLock},
     time::{Instant, Duration},
 };
+use crossbeam::sync::WaitGroup;
 use std::fmt::Debug;
 use std::future::Future;
 use std::hint::black_box;
@@ -117,6 +119,9 @@ pub(crate) fn run_iterator_pass<'a, _AlgorithmClosure: Fn(u32) -> u32 + Sync>
         (thread_duration, thread_r)
     }
 
+    // used to hold the threads until all of them were started
+    let (started_threads, thread_started, start_gate) = (&Mutex::new(0u32), &Condvar::new(), &RwLock::new(()));
+
     // use crossbeam's scoped threads to avoid requiring a 'static lifetime for our algorithm's closure
     crossbeam::scope(|scope| {
 
@@ -125,11 +130,27 @@ pub(crate) fn run_iterator_pass<'a, _AlgorithmClosure: Fn(u32) -> u32 + Sync>
         let i64_range = range.end as i64 .. range.start as i64;
         let chunk_boundary = |n: u32| (i64_range.start + (i64_range.end-i64_range.start) * n as i64 / threads as i64) as u32;
         let mut thread_handlers: Vec<crossbeam::thread::ScopedJoinHandle<ThreadLoopResult>> = Vec::with_capacity(threads as usize);
-        let allocator_savepoint = features::ALLOC.save_point();
+        let all_finished = WaitGroup::new();
+        let closed_gate = start_gate.write();
         for n in 0..threads {
             let chunked_range = chunk_boundary(n) .. chunk_boundary(n+1);
-            thread_handlers.push( scope.spawn(move |_| thread_loop(iterator_algorithm, algorithm_type, chunked_range)) );
+            let finished = all_finished.clone();
+            thread_handlers.push( scope.spawn(move |_| {
+                *started_threads.lock().unwrap() += 1;
+                thread_started.notify_one();
+                drop(start_gate.read());
+                let thread_result = thread_loop(iterator_algorithm, algorithm_type, chunked_range);
+                finished.wait();
+                thread_result
+            }) );
         }
+        drop(all_finished);
+
+        // the memory taken to start the threads (and given back when they end) shouldn't be attributed to the algorithm:
+        // they will all be there from the save point until the last one is done
+        drop(thread_started.wait_while(started_threads.lock().unwrap(), |started| *started < threads).unwrap());
+        let allocator_savepoint = features::ALLOC.save_point();
+        drop(closed_gate);
 
         // wait for them all to finish
         let mut r = range.start+1;
-- 
2.43.0


From f39ec99ba5407cd3a76e7ea686813e763bbfb74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:52 +0000
Subject: [PATCH 20/21] fix: the sign of a pass' memory change is no longer
 lost when much memory was in use before

---
 src/low_level_analysis/types/types_impl.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/low_level_analysis/types/types_impl.rs b/src/low_level_analysis/types/types_impl.rs
index fcfe493..3a0b781 100644
--- a/src/low_level_analysis/types/types_impl.rs
+++ b/src/low_level_analysis/types/types_impl.rs
@@ -186,8 +186,8 @@ impl BigOSpacePassMeasurements {
     /// When `n` is 1.0, shows the absolute RAM usage;
     /// otherwise, `n` should be the number of elements and the output will represent the memory usage per element
     pub fn fmt_over_n(&self, n: u32) -> String {
-        let used_memory = (self.used_memory_after as f32 - self.used_memory_before as f32) / n as f32;
-        let sign = if used_memory > 0.0 {"+"} else if used_memory < 0.0 {"-"} else {""};
+        // (compared as integers, for small differences would vanish if big amounts were converted to floats)
+        let sign = if self.used_memory_after > self.used_memory_before {"+"} else if self.used_memory_after < self.used_memory_before {"-"} else {""};
         let used_memory = std::cmp::max( self.max_used_memory    - self.used_memory_before,
                                               self.used_memory_before - self.min_used_memory ) as f32 / n as f32;
         let memory_unit = if used_memory.abs() > (1<<30) as f32 {"GiB"}                        else if used_memory.abs() > (1<<20) as f32 {"MiB"}                              else if used_memory.abs() > (1<<10) as f32 {"KiB"}                              else {"b"};
-- 
2.43.0


From 56b0fd682ab6084a33cbd3bac4e1415bea372b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:42 +0000
Subject: [PATCH 21/21] Simulation seam: cover the name core, too

---
 src/lib.rs     | 2 ++
 src/sim_std.rs | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index a16dd1f..f14eece 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -7,6 +7,8 @@ extern crate std as real_std;
 #[cfg(big_o_sim)]
 extern crate self as std;
 #[cfg(big_o_sim)]
+extern crate self as core;
+#[cfg(big_o_sim)]
 mod sim_std;
 #[cfg(big_o_sim)]
 #[allow(unused_imports)]
diff --git a/src/sim_std.rs b/src/sim_std.rs
index 07ef2ad..2da3b59 100644
--- a/src/sim_std.rs
+++ b/src/sim_std.rs
@@ -1,6 +1,6 @@
 //! Simulation seam -- compiled only with `--cfg big_o_sim` (never set by Cargo features nor by default).
 //!
-//! Under that cfg, the name `std` inside this crate resolves to the crate root, which re-exports the real `std`
+//! Under that cfg, the names `std` and `core` inside this crate resolve to the crate root, which re-exports the real `std`
 //! with [sync::atomic] and [alloc::System] replaced by the versions in here: every atomic operation and every request
 //! made to the system allocator are handed to functions the simulation harness provides at link time -- so it may decide
 //! on the interleavings, on the values the memory model allows to be read and on allocation failures.
-- 
2.43.0

