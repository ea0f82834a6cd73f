//! Memory shared between a worker process and the forked children that execute the runs.

use std::ptr;

pub const CAPS: [usize; 3] = [1 << 15, 1 << 18, 1 << 15];
pub const MAX_COUNTERS: usize = 160;
pub const MSG: usize = 4096;

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Counter { pub name: *const u8, pub len: usize, pub count: u64, pub kind: u32 }

pub const KIND_FAULT: u32 = 1;
pub const KIND_PROBE: u32 = 2;

pub const ST_NONE: u32 = 0;
pub const ST_OK: u32 = 1;
pub const ST_VIOLATION: u32 = 2;
pub const ST_HARNESS: u32 = 3;

#[repr(C)]
pub struct Shared {
    pub status: u32,
    pub nontrivial: u32,
    pub hash: u64,
    pub steps: u64,
    pub switches: u64,
    pub sim_ns: u64,
    pub stage: [u8; 64],
    pub class: [u8; 128],
    pub msg: [u8; MSG],
    pub desc: [u8; 1024],
    pub lens: [u32; 4],
    pub ncounters: usize,
    pub counters: [Counter; MAX_COUNTERS],
    pub tape0: [u32; CAPS[0]],
    pub tape1: [u32; CAPS[1]],
    pub tape2: [u32; CAPS[2]],
}

pub fn map_shared(bytes: usize) -> *mut u8 {
    unsafe {
        let p = libc::mmap(ptr::null_mut(), bytes, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
        assert!(p != libc::MAP_FAILED, "mmap failed");
        p as *mut u8
    }
}

pub fn put(dst: &mut [u8], s: &str) {
    let mut n = s.len().min(dst.len() - 1);
    while !s.is_char_boundary(n) { n -= 1; }
    dst[..n].copy_from_slice(&s.as_bytes()[..n]);
    dst[n] = 0;
}

pub fn get(src: &[u8]) -> String {
    let n = src.iter().position(|&b| b == 0).unwrap_or(src.len());
    String::from_utf8_lossy(&src[..n]).into_owned()
}

impl Shared {
    pub fn new() -> *mut Shared { map_shared(std::mem::size_of::<Shared>()) as *mut Shared }

    pub fn reset(&mut self) {
        self.status = ST_NONE; self.nontrivial = 0; self.hash = 0; self.steps = 0; self.switches = 0; self.sim_ns = 0;
        self.stage[0] = 0; self.class[0] = 0; self.msg[0] = 0; self.desc[0] = 0;
        self.lens = [0; 4];
        self.ncounters = 0;
    }

    pub fn count(&mut self, kind: u32, name: &'static str, by: u64) {
        for i in 0..self.ncounters {
            let c = &mut self.counters[i];
            if c.name == name.as_ptr() && c.len == name.len() && c.kind == kind { c.count += by; return; }
        }
        if self.ncounters < MAX_COUNTERS {
            self.counters[self.ncounters] = Counter { name: name.as_ptr(), len: name.len(), count: by, kind };
            self.ncounters += 1;
        }
    }

    pub fn streams(&self) -> [Vec<u32>; 3] {
        let n = |i: usize| (self.lens[i] as usize).min(CAPS[i]);
        [self.tape0[..n(0)].to_vec(), self.tape1[..n(1)].to_vec(), self.tape2[..n(2)].to_vec()]
    }
}
