//! Reference mathematics, written from the definitions and independent of
//! the code under test.
use crate::ctx::F;
use ark_ff::{Field, One, Zero};

pub fn bit(i: usize, k: usize) -> bool {
    (i >> k) & 1 == 1
}
/// chi_i(x) for every i: variable 0 is the least significant index bit
pub fn chi(x: &[F]) -> Vec<F> {
    (0..1usize << x.len())
        .map(|i| {
            let mut r = F::one();
            for (k, xk) in x.iter().enumerate() {
                r *= if bit(i, k) { *xk } else { F::one() - xk };
            }
            r
        })
        .collect()
}
pub fn mle_eval(t: &[F], x: &[F]) -> F {
    assert_eq!(t.len(), 1 << x.len());
    chi(x).iter().zip(t).map(|(c, v)| *c * v).sum()
}
pub fn eq(x: &[F], y: &[F]) -> F {
    x.iter()
        .zip(y)
        .map(|(a, b)| *a * b + (F::one() - a) * (F::one() - b))
        .product()
}
pub fn hyper(i: usize, n: usize) -> Vec<F> {
    (0..n).map(|k| F::from(bit(i, k) as u64)).collect()
}
/// value at `at` of the polynomial of degree < evals.len() through (j, evals[j])
pub fn lagrange(evals: &[F], at: F) -> F {
    let n = evals.len();
    let mut s = F::zero();
    for i in 0..n {
        let (mut num, mut den) = (F::one(), F::one());
        for j in 0..n {
            if i != j {
                num *= at - F::from(j as u64);
                den *= F::from(i as u64) - F::from(j as u64);
            }
        }
        s += evals[i] * num * den.inverse().unwrap();
    }
    s
}
/// sum of products of tables: the reference for virtual polynomials
#[derive(Clone, Debug)]
pub struct RefVp {
    pub nv: usize,
    pub terms: Vec<(F, Vec<Vec<F>>)>,
}
impl RefVp {
    pub fn eval(&self, x: &[F]) -> F {
        self.terms
            .iter()
            .map(|(c, fs)| *c * fs.iter().map(|t| mle_eval(t, x)).product::<F>())
            .sum()
    }
    pub fn table(&self) -> Vec<F> {
        (0..1usize << self.nv)
            .map(|i| {
                self.terms
                    .iter()
                    .map(|(c, fs)| *c * fs.iter().map(|t| t[i]).product::<F>())
                    .sum()
            })
            .collect()
    }
    pub fn sum(&self) -> F {
        self.table().iter().sum()
    }
    pub fn degree(&self) -> usize {
        self.terms.iter().map(|(_, f)| f.len()).max().unwrap_or(0)
    }
}
