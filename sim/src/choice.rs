//! The choice streams: every decision of a run (workload, schedule, faults) is drawn here, so a run is exactly
//! described by the values drawn. In random mode they come from a PRNG; in replay mode from the recorded values,
//! and once these are exhausted every further choice takes its default, 0 ("simplest", "continue", "no fault").

#[derive(Clone, Copy)]
pub struct Rng(pub u64);

impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        mix(self.0)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 { 0 } else { ((self.next() as u128 * n as u128) >> 64) as u64 }
    }
    /// true with probability `permille`/1000
    pub fn chance(&mut self, permille: u32) -> bool {
        self.below(1000) < permille as u64
    }
}

pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3); }
    mix(h)
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Stream { Workload = 0, Schedule = 1, Fault = 2 }

/// Where drawn values are stored: memory shared with the worker process, so they survive a crash of the run
#[derive(Clone, Copy)]
pub struct Tape { pub ptr: *mut u32, pub cap: usize, pub len: *mut u32 }

pub struct Choices {
    pub rng: Rng,
    pub replay: Option<[Vec<u32>; 3]>,
    pub pos: [usize; 3],
    pub tapes: [Tape; 3],
}

impl Choices {
    /// draws a value in [0, n): `random` proposes the value in random mode
    pub fn draw(&mut self, stream: Stream, n: u32, random: impl FnOnce(&mut Rng) -> u32) -> u32 {
        let s = stream as usize;
        let pos = self.pos[s];
        self.pos[s] += 1;
        let tape = self.tapes[s];
        let v = match &self.replay {
            Some(rec) => { let v = rec[s].get(pos).copied().unwrap_or(0); if n == 0 { 0 } else if v >= n { n - 1 } else { v } },
            None => if pos < tape.cap { random(&mut self.rng).min(n.saturating_sub(1)) } else { 0 },
        };
        if pos < tape.cap {
            unsafe { *tape.ptr.add(pos) = v; *tape.len = (pos + 1) as u32; }
        }
        v
    }
}
