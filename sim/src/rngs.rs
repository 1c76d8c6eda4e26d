//! The simulator's own PRNG and the recorded random streams it feeds to the library.
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug)]
pub struct Prng {
    s: [u64; 4],
}

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn mix(parts: &[u64]) -> u64 {
    let mut h = 0x243F_6A88_85A3_08D3u64;
    for &p in parts {
        h ^= p;
        h = splitmix(&mut h);
    }
    h
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for &x in b {
        h ^= x as u64;
        h = h.wrapping_mul(0x1000_0000_01b3);
    }
    let mut x = h;
    splitmix(&mut x)
}

impl Prng {
    pub fn new(seed: u64) -> Prng {
        let mut x = seed;
        Prng { s: [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)] }
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    /// uniform in 0..n (n > 0)
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.u64() as u128 * n as u128) >> 64) as u64
    }
    pub fn us(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn range(&mut self, lo: usize, hi_incl: usize) -> usize {
        lo + self.us(hi_incl - lo + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.us(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.us(i + 1);
            v.swap(i, j);
        }
    }
}

/// One segment of a recorded random stream. Every draw takes one 64 bit value.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Seg {
    Const { v: u64, n: u32 },
    Cycle { vals: Vec<u64>, n: u32 },
    Count { start: u64, step: u64, n: u32 },
    Few { seed: u64, distinct: u8, n: u32 },
}

impl Seg {
    fn len(&self) -> u32 {
        match self {
            Seg::Const { n, .. } | Seg::Cycle { n, .. } | Seg::Count { n, .. } | Seg::Few { n, .. } => *n,
        }
    }
    fn at(&self, i: u32) -> u64 {
        match self {
            Seg::Const { v, .. } => *v,
            Seg::Cycle { vals, .. } => {
                if vals.is_empty() {
                    0
                } else {
                    vals[i as usize % vals.len()]
                }
            }
            Seg::Count { start, step, .. } => start.wrapping_add(step.wrapping_mul(i as u64)),
            Seg::Few { seed, distinct, .. } => {
                let mut h = mix(&[*seed, i as u64]);
                let k = h % (*distinct as u64).max(1);
                h = mix(&[*seed, 0x5eed, k]);
                h
            }
        }
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Default)]
pub struct StreamSpec {
    /// degenerate prefix
    pub segs: Vec<Seg>,
    /// healthy numbers afterwards
    pub seed: u64,
    /// panic at this draw (0-based), once
    pub fail_at: Option<u64>,
    /// call back into the library every n draws
    pub reenter: Option<u32>,
    /// what kind of object hands the numbers out
    #[serde(default)]
    pub wrap: u8,
}

impl StreamSpec {
    pub fn healthy(seed: u64) -> StreamSpec {
        StreamSpec { segs: vec![], seed, fail_at: None, reenter: None, wrap: 0 }
    }
    pub fn prefix_len(&self) -> u64 {
        self.segs.iter().map(|s| s.len() as u64).sum()
    }
    /// a random stream shape; `nasty` in percent
    pub fn gen(r: &mut Prng, nasty: u64) -> StreamSpec {
        let mut s = StreamSpec::healthy(r.u64());
        if r.chance(nasty, 100) {
            let n = 1 + r.us(3);
            for _ in 0..n {
                let len = match r.us(4) {
                    0 => 1 + r.us(4),
                    1 => 1 + r.us(20),
                    2 => 1 + r.us(100),
                    _ => 1 + r.us(400),
                } as u32;
                s.segs.push(match r.us(5) {
                    0 => Seg::Const { v: *r.pick(&[0, u64::MAX, 1, 1 << 63, 0x8000_0000, 0x7fff_ffff_7fff_ffff, 0xffff_ffff, 0xffff_ffff_0000_0000]), n: len },
                    1 => Seg::Const { v: r.u64(), n: len },
                    2 => {
                        let k = 1 + r.us(6);
                        Seg::Cycle { vals: (0..k).map(|_| if r.chance(1, 3) { *r.pick(&[0, u64::MAX]) } else { r.u64() }).collect(), n: len }
                    }
                    3 => Seg::Count { start: r.u64(), step: *r.pick(&[1, 1 << 32, 0x1_0000_0001, 0x1999_9999_1999_9999, 0x0123_4567_89ab_cdef]), n: len },
                    _ => Seg::Few { seed: r.u64(), distinct: 1 + r.us(4) as u8, n: len },
                });
            }
        }
        s
    }
    pub fn kind(&self) -> &'static str {
        match self.segs.first() {
            None => "healthy",
            Some(Seg::Const { .. }) => "stuck",
            Some(Seg::Cycle { .. }) => "cycling",
            Some(Seg::Count { .. }) => "counting",
            Some(Seg::Few { .. }) => "low-entropy",
        }
    }
}

/// Reading position in a stream
#[derive(Clone, Debug)]
pub struct Stream {
    spec: StreamSpec,
    seg: usize,
    off: u32,
    tail: Prng,
    pub draws: u64,
    pub failed: bool,
}

impl Stream {
    pub fn new(spec: &StreamSpec) -> Stream {
        Stream { spec: spec.clone(), seg: 0, off: 0, tail: Prng::new(spec.seed), draws: 0, failed: false }
    }
    pub fn fails_now(&mut self) -> bool {
        if !self.failed && self.spec.fail_at == Some(self.draws) {
            self.failed = true;
            return true;
        }
        false
    }
    pub fn reenters_now(&self) -> bool {
        matches!(self.spec.reenter, Some(n) if n > 0 && self.draws % n as u64 == n as u64 - 1)
    }
    pub fn prefix_len(&self) -> u64 {
        self.spec.prefix_len()
    }
    pub fn next(&mut self) -> u64 {
        self.draws += 1;
        while self.seg < self.spec.segs.len() {
            let s = &self.spec.segs[self.seg];
            if self.off < s.len() {
                let v = s.at(self.off);
                self.off += 1;
                return v;
            }
            self.seg += 1;
            self.off = 0;
        }
        self.tail.u64()
    }
}
