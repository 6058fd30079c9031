//! Choice streams: every decision of a run is drawn from one of these, all
//! derived from one seed.  Value 0 is always the "nothing special" choice, so
//! a replay only has to list the non-zero ones.

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed ^ 0x9E37_79B9_7F4A_7C15)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 { 0 } else { self.next() % n }
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a.wrapping_mul(0xD6E8_FEB8_6659_FD93) ^ b.rotate_left(29));
    r.next()
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum S {
    /// workload
    W = 0,
    /// faults
    F = 1,
    /// schedule
    S = 2,
    /// network and external programs
    N = 3,
}
pub const STREAM_NAMES: [&str; 4] = ["W", "F", "S", "N"];

#[derive(Clone)]
pub struct Stream {
    rng: Rng,
    replay: Option<Vec<(u32, u64)>>, // sorted by index
    rpos: usize,
    pub idx: u32,
    pub taken: Vec<(u32, u64)>, // non-zero choices
}
impl Stream {
    pub fn random(seed: u64) -> Stream {
        Stream { rng: Rng::new(seed), replay: None, rpos: 0, idx: 0, taken: Vec::new() }
    }
    pub fn replay(v: Vec<(u32, u64)>) -> Stream {
        Stream { rng: Rng::new(0), replay: Some(v), rpos: 0, idx: 0, taken: Vec::new() }
    }
    fn replayed(&mut self) -> Option<u64> {
        let v = self.replay.as_ref()?;
        while self.rpos < v.len() && v[self.rpos].0 < self.idx {
            self.rpos += 1;
        }
        Some(if self.rpos < v.len() && v[self.rpos].0 == self.idx { v[self.rpos].1 } else { 0 })
    }
    fn note(&mut self, v: u64) -> u64 {
        if v != 0 {
            self.taken.push((self.idx, v));
        }
        self.idx += 1;
        v
    }
    /// uniform in 0..n
    pub fn draw(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let v = match self.replayed() {
            Some(v) => v.min(n - 1),
            None => self.rng.below(n),
        };
        self.note(v)
    }
    /// true with probability num/den
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        if num == 0 {
            return false;
        }
        let v = match self.replayed() {
            Some(v) => v.min(1),
            None => (self.rng.below(den) < num) as u64,
        };
        self.note(v) == 1
    }
    /// index into weights; entry 0 should be the boring one
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let v = match self.replayed() {
            Some(v) => v.min(w.len() as u64 - 1),
            None => {
                let mut x = self.rng.below(total.max(1));
                let mut r = 0;
                for (i, k) in w.iter().enumerate() {
                    if x < *k {
                        r = i as u64;
                        break;
                    }
                    x -= *k;
                }
                r
            }
        };
        self.note(v) as usize
    }
}
