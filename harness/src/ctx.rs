//! Case context: deterministic randomness, observation counters, violations.
use ark_bls12_381::{Bls12_381, Fr};
use ark_ff::{Field, One, UniformRand, Zero};
use ark_poly::DenseMultilinearExtension;
use ark_std::rand::{Rng, RngCore, SeedableRng};
use rand_chacha::ChaCha20Rng;
use std::collections::BTreeMap;
use zk_sql::subroutines::MultilinearKzgPCS;

pub type E = Bls12_381;
pub type F = Fr;
pub type Pcs = MultilinearKzgPCS<Bls12_381>;
pub type Mle = DenseMultilinearExtension<F>;

/// A refuted property: `sig` is the stable signature used to match known
/// findings, `msg` says what was observed.
#[derive(Clone, Debug)]
pub struct Viol {
    pub sig: String,
    pub msg: String,
}
pub type Res = Result<(), Viol>;
pub fn viol<T>(sig: &str, msg: impl Into<String>) -> Result<T, Viol> {
    Err(Viol { sig: sig.to_string(), msg: msg.into() })
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $sig:expr, $($a:tt)*) => {
        if !($c) { return $crate::ctx::viol($sig, format!($($a)*)); }
    };
}

pub struct Ctx {
    pub rng: ChaCha20Rng,
    pub thorough: bool,
    pub dbg: bool,
    pub idx: u64,
    pub desc: String,
    pub nontrivial: bool,
    pub counts: BTreeMap<String, u64>,
    /// expected-failure signatures seen (known findings are matched by the runner)
    pub soft: Vec<Viol>,
    /// variables added to the usual table sizes (families of large tables)
    pub grow: usize,
    /// no table of fewer variables than this: tables of one size
    pub least: usize,
}

impl Ctx {
    pub fn new(seed: u64, idx: u64, thorough: bool, dbg: bool) -> Self {
        Self {
            rng: ChaCha20Rng::seed_from_u64(seed),
            thorough,
            dbg,
            idx,
            desc: String::new(),
            nontrivial: false,
            counts: BTreeMap::new(),
            soft: vec![],
            grow: 0,
            least: 0,
        }
    }
    pub fn count(&mut self, k: &str, n: u64) {
        *self.counts.entry(k.to_string()).or_insert(0) += n;
    }
    /// record a violation without stopping the case
    pub fn soft(&mut self, sig: &str, msg: impl Into<String>) {
        self.soft.push(Viol { sig: sig.to_string(), msg: msg.into() });
    }
    pub fn describe(&mut self, s: impl Into<String>) {
        if !self.desc.is_empty() {
            self.desc.push_str("; ");
        }
        self.desc.push_str(&s.into());
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    /// the number of variables of a table
    pub fn size(&mut self, lo: usize, hi: usize) -> usize {
        if self.grow > 0 {
            let lo = if self.coin(1, 2) { hi + self.grow } else { hi };
            self.range(lo, hi + self.grow)
        } else {
            self.range(lo, hi)
        }
    }
    /// mostly lo..=hi, now and then hi..=big: what only shows above a size
    pub fn wide(&mut self, lo: usize, hi: usize, big: usize) -> usize {
        if self.coin(1, 10) {
            self.range(hi, big)
        } else {
            self.range(lo, hi)
        }
    }
    /// a number of variables: like `wide`, above `big` for grown cases
    pub fn dim(&mut self, lo: usize, hi: usize, big: usize) -> usize {
        if self.grow > 0 {
            self.range(big + 1, big + self.grow)
        } else {
            self.wide(lo, hi, big)
        }
    }
    pub fn range(&mut self, lo: usize, hi_incl: usize) -> usize {
        self.rng.gen_range(lo..=hi_incl)
    }
    pub fn coin(&mut self, num: u32, den: u32) -> bool {
        self.rng.gen_range(0..den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.rng.gen_range(0..v.len());
        &v[i]
    }
    pub fn u64(&mut self) -> u64 {
        self.rng.next_u64()
    }
    pub fn rand_f(&mut self) -> F {
        F::rand(&mut self.rng)
    }
    /// never 0
    pub fn nz(&mut self) -> F {
        loop {
            let x = if self.coin(1, 2) { F::from(1 + self.rng.gen_range(0..5u64)) } else { self.rand_f() };
            if !x.is_zero() {
                return x;
            }
        }
    }
    /// field elements biased to the corners
    pub fn felt(&mut self) -> F {
        match self.rng.gen_range(0..10u32) {
            0 => F::zero(),
            1 => F::one(),
            2 => -F::one(),
            3 => F::from(self.rng.gen_range(0..8u64)),
            4 => F::from(2u64).inverse().unwrap(),
            5 => F::from(u64::MAX),
            _ => self.rand_f(),
        }
    }
    /// a table of values in one of several shapes
    pub fn table(&mut self, nv: usize) -> Vec<F> {
        let n = 1usize << nv;
        let style = self.rng.gen_range(0..8u32);
        let c = self.felt();
        (0..n)
            .map(|i| match style {
                0 => c,
                1 => F::from((self.rng.next_u32() & 1) as u64),
                2 => F::from(self.rng.gen_range(0..6u64)),
                3 => F::from(i as u64),
                4 => {
                    if self.rng.gen_range(0..n as u64) == 0 {
                        self.rand_f()
                    } else {
                        F::zero()
                    }
                },
                5 => self.felt(),
                _ => self.rand_f(),
            })
            .collect()
    }
    pub fn mle(&mut self, nv: usize) -> Mle {
        let t = self.table(nv);
        Mle::from_evaluations_vec(nv, t)
    }
    /// a table that no accidental symmetry can hide behind
    pub fn rand_table(&mut self, nv: usize) -> Vec<F> {
        (0..1usize << nv).map(|_| self.rand_f()).collect()
    }
    pub fn point(&mut self, n: usize) -> Vec<F> {
        match self.rng.gen_range(0..6u32) {
            0 => (0..n).map(|_| F::from((self.rng.next_u32() & 1) as u64)).collect(),
            1 => (0..n).map(|_| self.felt()).collect(),
            _ => (0..n).map(|_| self.rand_f()).collect(),
        }
    }
    pub fn rand_point(&mut self, n: usize) -> Vec<F> {
        (0..n).map(|_| self.rand_f()).collect()
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.rng.gen_range(0..=i);
            v.swap(i, j);
        }
    }
}

pub fn hash64(parts: &[&[u8]]) -> u64 {
    // FNV-1a with a final mix; only used for seeds and distinct counts
    let mut h: u64 = 0xcbf29ce484222325;
    for p in parts {
        for b in p.iter() {
            h ^= *b as u64;
            h = h.wrapping_mul(0x100000001b3);
        }
        h ^= 0xff;
        h = h.wrapping_mul(0x100000001b3);
    }
    h ^= h >> 33;
    h = h.wrapping_mul(0xff51afd7ed558ccd);
    h ^= h >> 33;
    h
}

/// short printable form of a field element
pub fn sf(x: &F) -> String {
    let s = x.to_string();
    let h = F::from(1u64 << 40);
    if s.is_empty() {
        return "0".into();
    }
    if *x < h {
        return s;
    }
    if -*x < h {
        return format!("-{}", -*x);
    }
    format!("#{}", &s[s.len() - 6..])
}
pub fn sv(v: &[F]) -> String {
    if v.len() > 16 {
        let mut s: Vec<String> = v[..12].iter().map(sf).collect();
        s.push(format!("..{} values, hash {:x}", v.len(), fhash(v)));
        return format!("[{}]", s.join(","));
    }
    format!("[{}]", v.iter().map(sf).collect::<Vec<_>>().join(","))
}
pub fn fhash(v: &[F]) -> u64 {
    let s: String = v.iter().map(|x| x.to_string() + ",").collect();
    hash64(&[s.as_bytes()])
}
/// a case with more variables than usual
pub fn grown(c: &mut Ctx, grow: usize, f: fn(&mut Ctx) -> Res) -> Res {
    c.grow = grow;
    f(c)
}
