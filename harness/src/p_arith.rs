//! C01 multilinear tables, C02 virtual polynomials and eq, C03 transcript.
use crate::{ctx::*, ensure, refs::*, run::*};
use ark_ff::{BigInteger, Field, One, PrimeField, Zero};
use ark_poly::MultilinearExtension;
use std::sync::Arc;
use zk_sql::{
    arithmetic::*,
    tracker::prelude::{
        binary_decompose, build_eq_x_r as dm_build_eq, dmle_increase_nv_back, dmle_increase_nv_front,
        eq_eval as dm_eq_eval,
    },
    transcript::IOPTranscript,
};

pub fn families() -> Vec<Family> {
    vec![
        fam("C01", "evaluate", REL | DBG, 16000, 160000, c01_evaluate),
        fam("C01", "partial", REL | DBG, 16000, 160000, c01_partial),
        fam("C01", "merge", REL | DBG, 10000, 64000, c01_merge),
        fam("C01", "extend", REL | DBG, 12000, 80000, c01_extend),
        fam("C01", "bits", REL | DBG, 12000, 80000, c01_bits),
        fam("C01", "samplers", REL | DBG, 8000, 32000, c01_samplers),
        fam("C02", "build", REL | DBG, 28000, 240000, c02_build),
        fam("C02", "eq", REL | DBG, 16000, 80000, c02_eq),
        fam("C02", "rejects", REL | DBG, 12000, 64000, c02_rejects),
        fam("C02", "samplers", REL | DBG, 6000, 24000, c02_samplers),
        fam("C03", "binding", REL | DBG, 20000, 160000, c03_binding),
        fam("C03", "spread", REL | DBG, 800, 1600, c03_spread),
        fam("C01", "evaluate_large", REL | DBG, 160, 1600, |c| grown(c, 4, c01_evaluate)),
        fam("C01", "partial_large", REL | DBG, 160, 1600, |c| grown(c, 4, c01_partial)),
        fam("C01", "merge_large", REL | DBG, 80, 800, |c| grown(c, 4, c01_merge)),
        fam("C01", "extend_large", REL | DBG, 160, 1600, |c| grown(c, 4, c01_extend)),
        fam("C02", "build_large", REL | DBG, 80, 800, |c| grown(c, 3, c02_build)),
        fam("C02", "eq_large", REL | DBG, 80, 800, |c| grown(c, 3, c02_eq)),
    ]
}

// ---------------------------------------------------------------- C01
fn c01_evaluate(c: &mut Ctx) -> Res {
    let nv = c.dim(0, 9, if c.thorough { 14 } else { 12 });
    let m = c.mle(nv);
    let x = c.point(nv);
    c.describe(format!("nv={} table={} x={}", nv, sv(&m.evaluations), sv(&x)));
    if nv > 0 {
        c.nontrivial();
    }
    let want = mle_eval(&m.evaluations, &x);
    ensure!(evaluate_opt(&m, &x) == want, "evaluate_opt", "evaluate_opt differs from the multilinear extension");
    ensure!(evaluate_no_par(&m, &x) == want, "evaluate_no_par", "evaluate_no_par differs from the multilinear extension");
    // every hypercube point gives back the table entry
    let i = c.range(0, (1 << nv) - 1);
    ensure!(evaluate_opt(&m, &hyper(i, nv)) == m.evaluations[i], "hypercube", "value at index {} is not the table entry", i);
    c.count("evaluations compared", 3);
    Ok(())
}
fn c01_partial(c: &mut Ctx) -> Res {
    let nv = c.dim(1, 8, if c.thorough { 13 } else { 11 });
    let m = c.mle(nv);
    let k = c.range(0, nv);
    let p = c.point(k);
    let rest = c.point(nv - k);
    c.describe(format!("nv={} k={} table={} p={} rest={}", nv, k, sv(&m.evaluations), sv(&p), sv(&rest)));
    c.nontrivial();
    let before = m.evaluations.clone();
    // first variables
    let full: Vec<F> = p.iter().chain(rest.iter()).cloned().collect();
    let want = mle_eval(&m.evaluations, &full);
    let f = fix_variables(&m, &p);
    ensure!(f.num_vars == nv - k && f.evaluations.len() == 1 << (nv - k), "fix_shape", "fix_variables gives {} variables, {} entries", f.num_vars, f.evaluations.len());
    ensure!(mle_eval(&f.evaluations, &rest) == want, "fix_variables", "fixing the first {} variables changes the polynomial", k);
    // entry by entry
    let j = c.range(0, (1 << (nv - k)) - 1);
    let pt: Vec<F> = p.iter().cloned().chain(hyper(j, nv - k)).collect();
    ensure!(f.evaluations[j] == mle_eval(&m.evaluations, &pt), "fix_variables_entry", "entry {} of the restriction is wrong", j);
    // last variables
    let full: Vec<F> = rest.iter().chain(p.iter()).cloned().collect();
    let want = mle_eval(&m.evaluations, &full);
    let f = fix_last_variables(&m, &p);
    ensure!(f.num_vars == nv - k && f.evaluations.len() == 1 << (nv - k), "fix_last_shape", "fix_last_variables gives {} variables, {} entries", f.num_vars, f.evaluations.len());
    ensure!(mle_eval(&f.evaluations, &rest) == want, "fix_last_variables", "fixing the last {} variables changes the polynomial", k);
    if k > 0 {
        let f = fix_last_variables_no_par(&m, &p);
        ensure!(f.num_vars == nv - k, "fix_last_np_shape", "fix_last_variables_no_par gives {} variables", f.num_vars);
        ensure!(mle_eval(&f.evaluations, &rest) == want, "fix_last_variables_no_par", "fixing the last {} variables changes the polynomial", k);
    }
    ensure!(m.evaluations == before, "mutated", "the input table was changed");
    c.count("restrictions compared", 4);
    Ok(())
}
fn c01_merge(c: &mut Ctx) -> Res {
    let nv = c.dim(0, 5, 7);
    let n = c.wide(1, 9, 70);
    let ms: Vec<Arc<Mle>> = (0..n).map(|_| Arc::new(c.mle(nv))).collect();
    let x = c.point(nv);
    let i = c.range(0, n - 1);
    c.describe(format!("nv={} count={} i={} tables={:?} x={}", nv, n, i, ms.iter().map(|m| sv(&m.evaluations)).collect::<Vec<_>>(), sv(&x)));
    c.nontrivial();
    let bnv = get_batched_nv(nv, n);
    ensure!(1usize << (bnv - nv) >= n && (bnv == nv || (1usize << (bnv - nv - 1)) < n), "batched_nv", "batched nv of {} polys in {} vars is {}", n, nv, bnv);
    let g = match merge_polynomials(&ms) {
        Ok(g) => g,
        Err(e) => return viol("merge_err", format!("merging equal-sized polynomials fails: {}", e)),
    };
    ensure!(g.num_vars == bnv && g.evaluations.len() == 1 << bnv, "merge_shape", "merged polynomial has {} variables", g.num_vars);
    let p = gen_eval_point(i, bnv - nv, &x);
    ensure!(p.len() == bnv, "gen_eval_point", "evaluation point has {} coordinates", p.len());
    ensure!(mle_eval(&g.evaluations, &p) == mle_eval(&ms[i].evaluations, &x), "merge", "merged polynomial at slot {} is not the {}-th polynomial", i, i);
    if bnv > nv && n < 1 << (bnv - nv) {
        let p = gen_eval_point(n, bnv - nv, &x);
        ensure!(mle_eval(&g.evaluations, &p).is_zero(), "merge_pad", "an unused slot of the merged polynomial is not zero");
    }
    // unequal sizes are refused
    if n > 1 {
        let mut bad = ms.clone();
        let j = c.range(1, n - 1);
        bad[j] = Arc::new(c.mle(nv + 1));
        ensure!(merge_polynomials(&bad).is_err(), "merge_accepts_mixed", "polynomials of different sizes are merged");
    }
    c.count("merges compared", 1);
    Ok(())
}
fn c01_extend(c: &mut Ctx) -> Res {
    let nv = c.dim(0, 5, 8);
    let add = c.wide(0, 4, 7);
    let t = c.table(nv);
    let m = Arc::new(Mle::from_evaluations_vec(nv, t));
    let x = c.rand_point(nv + add);
    c.describe(format!("nv={} added={} table={} x={}", nv, add, sv(&m.evaluations), sv(&x)));
    c.nontrivial();
    let f = dmle_increase_nv_front(&m, nv + add);
    ensure!(f.num_vars == nv + add && f.evaluations.len() == 1 << (nv + add), "front_shape", "front extension has {} variables", f.num_vars);
    ensure!(mle_eval(&f.evaluations, &x) == mle_eval(&m.evaluations, &x[add..]), "front", "front extension does not ignore exactly the first {} variables", add);
    let b = dmle_increase_nv_back(&m, nv + add);
    ensure!(b.num_vars == nv + add && b.evaluations.len() == 1 << (nv + add), "back_shape", "back extension has {} variables", b.num_vars);
    ensure!(mle_eval(&b.evaluations, &x) == mle_eval(&m.evaluations, &x[..nv]), "back", "back extension does not ignore exactly the last {} variables", add);
    let s: F = m.evaluations.iter().sum();
    let k = F::from(1u64 << add);
    ensure!(f.evaluations.iter().sum::<F>() == s * k && b.evaluations.iter().sum::<F>() == s * k, "ext_sum", "an extension does not scale the sum by 2^{}", add);
    c.count("extensions compared", 2);
    Ok(())
}
fn c01_bits(c: &mut Ctx) -> Res {
    let v = match c.range(0, 4) {
        0 => u64::MAX,
        1 => 1u64 << c.range(0, 63),
        2 => c.range(0, 40) as u64,
        _ => c.u64(),
    };
    let n = c.range(0, 64);
    c.describe(format!("value={} bits={}", v, n));
    c.nontrivial();
    let b = bit_decompose(v, n);
    ensure!(b.len() == n && b.iter().enumerate().all(|(i, x)| *x == ((v >> i) & 1 == 1)), "bit_decompose", "not the little-endian bits of {}", v);
    let fb: Vec<F> = binary_decompose(v, n);
    ensure!(fb.len() == n && fb.iter().enumerate().all(|(i, x)| *x == F::from((v >> i) & 1)), "binary_decompose", "not the little-endian bits of {}", v);
    // get_index: successors of i when shifting a bit in at the bottom
    let nv = c.range(1, 16);
    let i = c.range(0, (1 << nv) - 1);
    let (x0, x1, s) = get_index(i, nv);
    let low = i & ((1 << (nv - 1)) - 1);
    ensure!((x0, x1, s) == (low << 1, (low << 1) | 1, (i >> (nv - 1)) & 1 == 1), "get_index", "get_index({},{}) = {:?}", i, nv, (x0, x1, s));
    // gen_eval_point
    let l = c.range(0, 8);
    let k = c.range(0, 4);
    let p = c.rand_point(k);
    let idx = c.range(0, (1 << l) - 1);
    let g = gen_eval_point(idx, l, &p);
    let want: Vec<F> = p.iter().cloned().chain(hyper(idx, l)).collect();
    ensure!(g == want, "gen_eval_point", "gen_eval_point({},{}) is wrong", idx, l);
    c.count("bit operations compared", 4);
    Ok(())
}
fn c01_samplers(c: &mut Ctx) -> Res {
    let nv = c.dim(0, 5, 9);
    let d = c.wide(1, 4, 12);
    c.describe(format!("nv={} degree={} case={}", nv, d, c.idx));
    c.nontrivial();
    let (l, s) = random_mle_list::<F, _>(nv, d, &mut c.rng);
    ensure!(l.len() == d && l.iter().all(|m| m.num_vars == nv && m.evaluations.len() == 1 << nv), "random_list_shape", "wrong shape");
    let sum: F = (0..1usize << nv).map(|i| l.iter().map(|m| m.evaluations[i]).product::<F>()).sum();
    ensure!(sum == s, "random_list_sum", "announced sum of the random list is wrong");
    let z = random_zero_mle_list::<F, _>(nv, d, &mut c.rng);
    ensure!(z.len() == d && (0..1usize << nv).all(|i| z.iter().map(|m| m.evaluations[i]).product::<F>().is_zero()), "random_zero", "a zero list is not zero everywhere");
    let k = if nv > 6 { 1 } else { c.wide(1, 4, 9) };
    let len = k << nv;
    let id: Vec<F> = identity_permutation(nv, k);
    let want: Vec<F> = (0..len as u64).map(F::from).collect();
    ensure!(id == want, "identity_permutation", "identity permutation is {}", sv(&id));
    let ms = identity_permutation_mles::<F>(nv, k);
    let cat: Vec<F> = ms.iter().flat_map(|m| m.evaluations.clone()).collect();
    ensure!(ms.len() == k && cat == want, "identity_permutation_mles", "identity permutation tables are {}", sv(&cat));
    let ps = random_permutation_mles::<F, _>(nv, k, &mut c.rng);
    let mut cat: Vec<F> = ps.iter().flat_map(|m| m.evaluations.clone()).collect();
    cat.sort();
    ensure!(ps.len() == k && cat == want, "random_permutation", "random permutation is not a permutation of 0..{}", len);
    c.count("samplers compared", 5);
    Ok(())
}

// ---------------------------------------------------------------- C02
/// a random virtual polynomial built through the public operations, next to
/// its reference; factors are shared between products on purpose
pub fn gen_vp(c: &mut Ctx, nv: usize, max_terms: usize, max_deg: usize) -> (VirtualPolynomial<F>, RefVp) {
    let pool: Vec<Arc<Mle>> = (0..c.range(1, 4)).map(|_| Arc::new(c.mle(nv))).collect();
    let mut vp;
    let mut rf;
    if c.coin(1, 3) {
        let co = c.felt();
        let m = c.pick(&pool).clone();
        vp = VirtualPolynomial::new_from_mle(&m, co);
        rf = RefVp { nv, terms: vec![(co, vec![m.evaluations.clone()])] };
    } else {
        vp = VirtualPolynomial::new(nv);
        rf = RefVp { nv, terms: vec![] };
    }
    let ops = c.range(1, max_terms);
    for _ in 0..ops {
        let co = c.felt();
        match c.range(0, 5) {
            0 if rf.degree() > 0 && rf.degree() < max_deg => {
                let m = if c.coin(1, 2) { c.pick(&pool).clone() } else { Arc::new(c.mle(nv)) };
                vp.mul_by_mle(m.clone(), co).unwrap();
                for t in rf.terms.iter_mut() {
                    t.0 *= co;
                    t.1.push(m.evaluations.clone());
                }
            },
            1 => {
                // add another virtual polynomial
                let k = c.range(1, max_deg.min(3));
                let fs: Vec<Arc<Mle>> = (0..k)
                    .map(|_| if c.coin(1, 2) { c.pick(&pool).clone() } else { Arc::new(c.mle(nv)) })
                    .collect();
                let mut other = VirtualPolynomial::new(nv);
                other.add_mle_list(fs.clone(), co).unwrap();
                vp = &vp + &other;
                rf.terms.push((co, fs.iter().map(|m| m.evaluations.clone()).collect()));
            },
            _ => {
                let k = c.range(1, max_deg);
                let fs: Vec<Arc<Mle>> = (0..k)
                    .map(|_| if c.coin(2, 3) { c.pick(&pool).clone() } else { Arc::new(c.mle(nv)) })
                    .collect();
                vp.add_mle_list(fs.clone(), co).unwrap();
                rf.terms.push((co, fs.iter().map(|m| m.evaluations.clone()).collect()));
            },
        }
    }
    (vp, rf)
}
pub fn vp_desc(r: &RefVp) -> String {
    let s: Vec<String> = r
        .terms
        .iter()
        .map(|(c, f)| format!("{}*{}", sf(c), f.iter().map(|t| format!("{:08x}", fhash(t) as u32)).collect::<Vec<_>>().join("*")))
        .collect();
    format!("nv={} deg={} f={}", r.nv, r.degree(), s.join("+"))
}
fn c02_build(c: &mut Ctx) -> Res {
    let nv = c.dim(1, 5, 9);
    let (terms, deg) = (c.wide(6, 6, 40), c.wide(5, 5, 14));
    let (vp, rf) = gen_vp(c, nv, terms, deg);
    let x = c.point(nv);
    c.describe(vp_desc(&rf));
    if rf.terms.len() > 1 {
        c.nontrivial();
    }
    let v = match vp.evaluate(&x) {
        Ok(v) => v,
        Err(e) => return viol("evaluate_err", e.to_string()),
    };
    ensure!(v == rf.eval(&x), "evaluate", "value at {} differs from the formula", sv(&x));
    ensure!(vp.aux_info.num_variables == nv, "num_variables", "number of variables is {}", vp.aux_info.num_variables);
    ensure!(vp.aux_info.max_degree == rf.degree(), "max_degree", "degree bound {} but the largest product has {} factors", vp.aux_info.max_degree, rf.degree());
    let m = vp.materialize();
    ensure!(m.num_vars == nv && m.evaluations == rf.table(), "materialize", "materialized table differs from the formula");
    // products refer only to existing factors
    ensure!(vp.products.iter().all(|p| p.1.iter().all(|i| *i < vp.flattened_ml_extensions.len())), "dangling", "a product refers to a missing factor");
    // f_hat = f * eq(., r)
    let r = c.rand_point(nv);
    let fh = vp.build_f_hat(&r).map_err(|e| Viol { sig: "f_hat_err".into(), msg: e.to_string() })?;
    ensure!(fh.evaluate(&x).unwrap() == v * eq(&x, &r), "f_hat", "f_hat is not f times eq");
    ensure!(fh.aux_info.max_degree == rf.degree() + 1, "f_hat_degree", "degree bound of f_hat is {}", fh.aux_info.max_degree);
    // addition does not disturb its operands
    let (vq, rq) = gen_vp(c, nv, 3, 3);
    let s = &vp + &vq;
    ensure!(s.evaluate(&x).unwrap() == rf.eval(&x) + rq.eval(&x), "add", "sum of two polynomials is wrong");
    ensure!(vp.evaluate(&x).unwrap() == v && vq.evaluate(&x).unwrap() == rq.eval(&x), "add_mutates", "adding changed an operand");
    c.count("virtual polynomials compared", 3);
    Ok(())
}
fn c02_eq(c: &mut Ctx) -> Res {
    let n = c.dim(1, 9, if c.thorough { 15 } else { 13 });
    let (x, y) = (c.point(n), c.point(n));
    c.describe(format!("n={} x={} y={}", n, sv(&x), sv(&y)));
    c.nontrivial();
    let e = eq_eval(&x, &y).map_err(|e| Viol { sig: "eq_err".into(), msg: e.to_string() })?;
    ensure!(e == eq(&x, &y), "eq_eval", "eq evaluation is wrong");
    let e = dm_eq_eval(&x, &y).map_err(|e| Viol { sig: "eq_err".into(), msg: e.to_string() })?;
    ensure!(e == eq(&x, &y), "tracker_eq_eval", "eq evaluation is wrong");
    let v = build_eq_x_r_vec(&x).map_err(|e| Viol { sig: "eqvec_err".into(), msg: e.to_string() })?;
    ensure!(v == chi(&x), "build_eq_vec", "table of eq(.,r) is wrong");
    let m = build_eq_x_r(&x).unwrap();
    ensure!(m.num_vars == n && m.evaluations == chi(&x), "build_eq", "eq(.,r) is wrong");
    let m = dm_build_eq(&x).unwrap();
    ensure!(m.num_vars == n && m.evaluations == chi(&x), "tracker_build_eq", "eq(.,r) is wrong");
    let k = c.range(1, 3);
    let mut z = x.clone();
    z.extend(c.point(k));
    for (a, b) in [(&x, &z), (&z, &x)] {
        ensure!(eq_eval(a, b).is_err() && dm_eq_eval(a, b).is_err(), "eq_len", "eq of vectors of lengths {} and {} is accepted", a.len(), b.len());
    }
    let e: &[F] = &[];
    ensure!(eq_eval(e, &x).is_err() && eq_eval(&x, e).is_err() && dm_eq_eval(e, &x).is_err() && dm_eq_eval(&x, e).is_err(), "eq_len", "eq of a vector with no coordinates is accepted");
    c.count("eq tables compared", 3);
    Ok(())
}
fn c02_rejects(c: &mut Ctx) -> Res {
    let nv = c.range(1, 5);
    let (vp, rf) = gen_vp(c, nv, 4, 3);
    c.describe(vp_desc(&rf));
    let x = c.rand_point(nv);
    let other = if c.coin(1, 2) { nv + 1 } else { nv - 1 };
    let mut w = vp.clone();
    let kind = c.range(0, 5);
    c.describe(format!("kind={}", kind));
    c.nontrivial();
    let refused = match kind {
        0 => w.add_mle_list(vec![], F::one()).is_err(),
        1 => w.add_mle_list(vec![Arc::new(c.mle(other))], F::one()).is_err(),
        2 => {
            // good factors first, then a bad one
            let k = c.range(1, 6);
            let mut l: Vec<Arc<Mle>> = (0..k).map(|_| Arc::new(c.mle(nv))).collect();
            l.push(Arc::new(c.mle(other)));
            w.add_mle_list(l, F::one()).is_err()
        },
        3 => w.mul_by_mle(Arc::new(c.mle(other)), F::one()).is_err(),
        4 => w.evaluate(&c.rand_point(other)).is_err(),
        _ => w.build_f_hat(&c.rand_point(other)).is_err(),
    };
    ensure!(refused, "accepts_mismatch", "an operand of the wrong size is accepted (kind {})", kind);
    ensure!(w.evaluate(&x).unwrap() == rf.eval(&x), "refused_changes_value", "a refused operation changed the polynomial");
    ensure!(w == vp, "refused_changes_state", "a refused operation left its traces (kind {}): degree bound {} -> {}, factors {} -> {}", kind, vp.aux_info.max_degree, w.aux_info.max_degree, vp.flattened_ml_extensions.len(), w.flattened_ml_extensions.len());
    c.count("refusals checked", 1);
    Ok(())
}
fn c02_samplers(c: &mut Ctx) -> Res {
    let nv = c.dim(1, 5, 8);
    let lo = c.wide(1, 3, 12);
    let hi = lo + c.range(1, 3);
    let np = c.wide(1, 4, 24);
    c.describe(format!("nv={} factors={}..{} products={} case={}", nv, lo, hi, np, c.idx));
    c.nontrivial();
    let (vp, s) = VirtualPolynomial::<F>::rand(nv, (lo, hi), np, &mut c.rng).unwrap();
    let t = vp.materialize();
    ensure!(t.evaluations.iter().sum::<F>() == s, "rand_sum", "announced sum is wrong");
    ensure!(vp.products.len() == np && vp.products.iter().all(|p| p.1.len() >= lo && p.1.len() < hi), "rand_shape", "wrong shape");
    let z = VirtualPolynomial::<F>::rand_zero(nv, (lo, hi), np, &mut c.rng).unwrap();
    ensure!(z.materialize().evaluations.iter().all(|x| x.is_zero()), "rand_zero", "not zero on the hypercube");
    ensure!(z.products.len() == np && z.products.iter().all(|p| p.1.len() >= lo && p.1.len() < hi), "rand_zero_shape", "wrong shape");
    ensure!(z.products.iter().all(|p| !p.0.is_zero() && (p.1.len() < 2 || !z.flattened_ml_extensions[p.1[p.1.len() - 1]].evaluations.iter().all(|x| x.is_zero()))), "rand_zero_trivial", "a product has nothing but zeros");
    for i in 0..1usize << nv {
        ensure!(vp.evaluate(&hyper(i, nv)).unwrap() == t.evaluations[i], "materialize_point", "entry {} differs from the evaluation", i);
    }
    c.count("samplers compared", 2);
    Ok(())
}

// ---------------------------------------------------------------- C03
#[derive(Clone, Debug, PartialEq)]
enum TOp {
    Msg(usize, Vec<u8>),
    Field(usize, F),
    Ser(usize, Vec<F>),
    Chal(usize),
    ChalVec(usize, usize),
}
const LABELS: [&[u8]; 5] = [b"a", b"b", b"comm", b"prover msg", b"ab"];
fn t_run(init: usize, ops: &[TOp]) -> Result<Vec<Vec<F>>, String> {
    let mut t = IOPTranscript::<F>::new(LABELS[init]);
    let mut out = vec![];
    for o in ops {
        match o {
            TOp::Msg(l, m) => t.append_message(LABELS[*l], m).map_err(|e| e.to_string())?,
            TOp::Field(l, f) => t.append_field_element(LABELS[*l], f).map_err(|e| e.to_string())?,
            TOp::Ser(l, v) => t.append_serializable_element(LABELS[*l], v).map_err(|e| e.to_string())?,
            TOp::Chal(l) => out.push(vec![t.get_and_append_challenge(LABELS[*l]).map_err(|e| e.to_string())?]),
            TOp::ChalVec(l, n) => out.push(t.get_and_append_challenge_vectors(LABELS[*l], *n).map_err(|e| e.to_string())?),
        }
    }
    Ok(out)
}
fn t_op(c: &mut Ctx) -> TOp {
    let l = c.range(0, LABELS.len() - 1);
    match c.range(0, 5) {
        0 => {
            // around the block sizes of the hash, and far above them
            let n = match c.range(0, 5) {
                0 => *c.pick(&[63, 64, 65, 127, 128, 129, 135, 136, 137, 165, 166, 167, 168, 199, 200, 201, 255, 256, 257, 511, 512, 513]),
                1 => c.range(40, 5000),
                _ => c.range(0, 40),
            };
            TOp::Msg(l, (0..n).map(|_| c.u64() as u8).collect())
        },
        1 => TOp::Field(l, c.felt()),
        2 => {
            let n = c.wide(0, 4, 150);
            TOp::Ser(l, (0..n).map(|_| c.felt()).collect())
        },
        3 => TOp::Chal(l),
        4 => TOp::ChalVec(l, c.wide(1, 3, 40)),
        _ => TOp::Field(l, c.rand_f()),
    }
}
fn c03_binding(c: &mut Ctx) -> Res {
    let init = c.range(0, LABELS.len() - 1);
    let n = c.range(1, 8);
    let f0 = c.rand_f();
    let mut ops = vec![TOp::Field(0, f0)];
    for _ in 0..n {
        ops.push(t_op(c));
    }
    let tail = c.range(1, 3);
    for _ in 0..tail {
        ops.push(TOp::Chal(c.range(0, 4)));
    }
    c.describe(format!("{:?}", ops.iter().map(|o| match o {
        TOp::Msg(l, m) => format!("msg{}:{}", l, m.len()),
        TOp::Field(l, f) => format!("field{}:{}", l, sf(f)),
        TOp::Ser(l, v) => format!("ser{}:{}", l, v.len()),
        TOp::Chal(l) => format!("chal{}", l),
        TOp::ChalVec(l, n) => format!("chals{}x{}", l, n),
    }).collect::<Vec<_>>()));
    c.nontrivial();
    let a = t_run(init, &ops).map_err(|e| Viol { sig: "transcript_err".into(), msg: e })?;
    let b = t_run(init, &ops).map_err(|e| Viol { sig: "transcript_err".into(), msg: e })?;
    ensure!(a == b, "nondeterministic", "equal histories give different challenges");
    let flat: Vec<F> = a.iter().flatten().cloned().collect();
    for i in 0..flat.len() {
        for j in 0..i {
            ensure!(flat[i] != flat[j], "repeat", "two challenges of one history are equal ({} and {})", j, i);
        }
    }
    // one change somewhere before the tail: every later challenge must differ
    let mut ops2 = ops.clone();
    let hi = ops.len() - tail - 1;
    let at = c.range(0, hi);
    let kind = c.range(0, 4);
    match kind {
        0 => {
            // change the content by as little as possible
            match &mut ops2[at] {
                TOp::Msg(_, m) if !m.is_empty() => {
                    // anywhere, the ends more often
                    let i = match c.range(0, 3) {
                        0 => 0,
                        1 => m.len() - 1,
                        _ => c.range(0, m.len() - 1),
                    };
                    match c.range(0, 5) {
                        0 => m.push(0),
                        1 => {
                            m.remove(i);
                        },
                        _ => m[i] ^= 1 << c.range(0, 7),
                    }
                },
                TOp::Msg(_, m) => m.push(0),
                TOp::Field(_, f) => *f += F::one(),
                TOp::Ser(_, v) if !v.is_empty() => {
                    let i = match c.range(0, 3) {
                        0 => 0,
                        1 => v.len() - 1,
                        _ => c.range(0, v.len() - 1),
                    };
                    match c.range(0, 5) {
                        0 => v.push(F::zero()),
                        1 => {
                            v.remove(i);
                        },
                        _ => v[i] += F::one(),
                    }
                },
                TOp::Ser(_, v) => v.push(F::zero()),
                TOp::Chal(l) => *l = (*l + 1) % 5,
                TOp::ChalVec(_, n) => *n += 1,
            }
        },
        1 => {
            // change the label
            match &mut ops2[at] {
                TOp::Msg(l, _) | TOp::Field(l, _) | TOp::Ser(l, _) | TOp::Chal(l) | TOp::ChalVec(l, _) => *l = (*l + 1) % 5,
            }
        },
        2 => {
            if ops2.len() - tail > 1 {
                // never drop the only append
                let at = if at == 0 { 1 } else { at };
                ops2.remove(at);
            } else {
                ops2.insert(at, TOp::Field(3, f0));
            }
        },
        3 => ops2.insert(at + 1, TOp::Field(2, c.felt())),
        _ => {
            let i = c.range(0, hi);
            if ops2[i] != ops2[at] && i != 0 && at != 0 {
                ops2.swap(i, at);
            } else {
                ops2.insert(1, TOp::Msg(1, vec![]));
            }
        },
    }
    let norm = |o: &[TOp]| -> Vec<TOp> {
        o.iter()
            .flat_map(|x| match x {
                TOp::ChalVec(l, n) => vec![TOp::Chal(*l); *n],
                x => vec![x.clone()],
            })
            .collect()
    };
    if norm(&ops2) == norm(&ops) {
        return Ok(());
    }
    let b = t_run(init, &ops2).map_err(|e| Viol { sig: "transcript_err".into(), msg: e })?;
    let fb: Vec<F> = b.iter().flatten().cloned().collect();
    for i in 1..=tail {
        let (p, q) = (flat[flat.len() - i], fb[fb.len() - i]);
        ensure!(p != q, "not_bound", "a different history (change kind {} at step {}) gives the same challenge", kind, at);
    }
    // the domain label matters, and so does a clone's later history
    let d = t_run((init + 1) % 5, &ops).map_err(|e| Viol { sig: "transcript_err".into(), msg: e })?;
    ensure!(d.last().unwrap() != a.last().unwrap(), "domain", "the transcript's own label does not influence the challenges");
    // challenge before any message is refused, and a vector is the same as single draws
    let mut e = IOPTranscript::<F>::new(b"a");
    ensure!(e.get_and_append_challenge(b"x").is_err() && e.get_and_append_challenge_vectors(b"x", 2).is_err(), "empty", "an empty transcript gives challenges");
    let mut t1 = IOPTranscript::<F>::new(b"a");
    t1.append_field_element(b"f", &f0).unwrap();
    let mut t2 = t1.clone();
    let v = t1.get_and_append_challenge_vectors(b"v", 3).unwrap();
    let w: Vec<F> = (0..3).map(|_| t2.get_and_append_challenge(b"v").unwrap()).collect();
    ensure!(v == w, "vector", "a challenge vector differs from successive challenges");
    ensure!(t1.get_and_append_challenge(b"z").unwrap() == t2.get_and_append_challenge(b"z").unwrap(), "vector_state", "a challenge vector leaves another state than successive challenges");
    c.count("challenges compared", flat.len() as u64);
    Ok(())
}
fn c03_spread(c: &mut Ctx) -> Res {
    // every bit of the challenge takes both values: failure by chance < 2^-110
    let mut t = IOPTranscript::<F>::new(b"spread");
    let f0 = c.rand_f();
    t.append_field_element(b"f", &f0).unwrap();
    c.describe(format!("case={}", c.idx));
    c.nontrivial();
    let n = 128;
    let bits = F::MODULUS_BIT_SIZE as usize - 1;
    let (mut ones, mut zeros) = (vec![0u32; bits], vec![0u32; bits]);
    for _ in 0..n {
        let x = t.get_and_append_challenge(b"c").unwrap();
        let b = x.into_bigint();
        for i in 0..bits {
            if b.get_bit(i) {
                ones[i] += 1
            } else {
                zeros[i] += 1
            }
        }
    }
    ensure!(ones.iter().all(|x| *x > 0) && zeros.iter().all(|x| *x > 0), "not_spread", "some bit of the challenges never changes over {} draws", n);
    c.count("challenges drawn", n as u64);
    Ok(())
}
