//! Random numbers, the per-case context, and small helpers shared by the monitors.

use std::collections::BTreeMap;
use std::hash::{Hash, Hasher};
use std::path::PathBuf;

pub type Res = Result<(), String>;

/// Return early with a violation message.
#[macro_export]
macro_rules! fail {
    ($($arg:tt)*) => { return Err(format!($($arg)*)) };
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => { if !($cond) { return Err(format!($($arg)*)); } };
}

#[derive(Clone)]
pub struct Rng {
    s: [u64; 2],
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64, stream: &str, case: u64) -> Rng {
        let mut h = Fnv::default();
        stream.hash(&mut h);
        let mut x = seed ^ h.finish().rotate_left(17) ^ case.wrapping_mul(0xD134_2543_DE82_EF95);
        Rng { s: [splitmix(&mut x), splitmix(&mut x) | 1] }
    }
    pub fn next(&mut self) -> u64 {
        let (mut a, b) = (self.s[0], self.s[1]);
        let out = a.wrapping_add(b);
        a ^= a << 23;
        self.s[0] = b;
        self.s[1] = a ^ b ^ (a >> 18) ^ (b >> 5);
        out ^ (out >> 29)
    }
    /// Uniform in 0..n (n > 0).
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// Uniform in lo..=hi.
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<T: Clone>(&mut self, from: &[T]) -> T {
        let i = self.idx(from.len());
        from[i].clone()
    }
    pub fn u128(&mut self) -> u128 {
        ((self.next() as u128) << 64) | self.next() as u128
    }
    pub fn f64(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn shuffle<T>(&mut self, v: &mut Vec<T>) {
        for i in (1..v.len()).rev() {
            let j = self.idx(i + 1);
            v.swap(i, j);
        }
    }
}

#[derive(Clone)]
pub struct Fnv(u64);
impl Default for Fnv {
    fn default() -> Self {
        Fnv(0xcbf2_9ce4_8422_2325)
    }
}
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        let mut x = self.0;
        splitmix(&mut x)
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.0 = (self.0 ^ *b as u64).wrapping_mul(0x1000_0000_01b3);
        }
    }
}

pub fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = Fnv::default();
    t.hash(&mut h);
    h.finish()
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// What one case sees and what it reports about itself.
pub struct Ctx {
    pub rng: Rng,
    pub case: u64,
    pub tier: Tier,
    pub dir: PathBuf,
    dirs: u32,
    /// things the monitors observed, summed over the run
    pub counts: BTreeMap<&'static str, u64>,
    /// greatest value observed
    pub maxima: BTreeMap<&'static str, u64>,
    sig: Fnv,
    pub nontrivial: bool,
    pub sample: Option<String>,
}

impl Ctx {
    pub fn new(rng: Rng, case: u64, tier: Tier, dir: PathBuf) -> Ctx {
        Ctx {
            rng,
            case,
            tier,
            dir,
            dirs: 0,
            counts: BTreeMap::new(),
            maxima: BTreeMap::new(),
            sig: Fnv::default(),
            nontrivial: false,
            sample: None,
        }
    }
    pub fn count(&mut self, what: &'static str, n: u64) {
        *self.counts.entry(what).or_insert(0) += n;
    }
    pub fn max(&mut self, what: &'static str, n: u64) {
        let e = self.maxima.entry(what).or_insert(0);
        *e = (*e).max(n);
    }
    /// Mix something that identifies this case into its signature.
    pub fn sign<T: Hash>(&mut self, t: &T) {
        t.hash(&mut self.sig);
    }
    pub fn signature(&self) -> u64 {
        self.sig.finish()
    }
    pub fn sample<F: FnOnce() -> String>(&mut self, f: F) {
        if self.sample.is_none() {
            let mut s = f();
            if s.len() > 600 {
                let mut cut = 600;
                while !s.is_char_boundary(cut) {
                    cut -= 1;
                }
                s.truncate(cut);
                s.push_str("...");
            }
            self.sample = Some(s);
        }
    }
    /// A path inside the case's scratch directory that has not been handed out yet.
    pub fn fresh_path(&mut self) -> PathBuf {
        self.dirs += 1;
        let path = self.dir.join(format!("s{}", self.dirs));
        // where now and then another store has been, has been read, and has been removed again
        if !cfg!(miri) && self.rng.chance(1, 24) {
            crate::model::predecessor(&path, &mut self.rng);
            self.count("stores_at_the_path_of_a_removed_one", 1);
        }
        path
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
}
