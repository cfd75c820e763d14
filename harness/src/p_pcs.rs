//! C07/C08 KZG commitments, C09/C10 batch openings.
use crate::{ctx::*, ensure, p_sumcheck::forge, refs::*, run::*};
use ark_bls12_381::{G1Affine, G1Projective};
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{Field, One, Zero};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use rand_chacha::ChaCha20Rng;
use ark_std::rand::SeedableRng;
use std::sync::{Arc, OnceLock};
use zk_sql::{
    subroutines::{
        pcs::{prelude::*, PolynomialCommitmentScheme, StructuredReferenceString},
        BatchProof,
    },
    arithmetic::VPAuxInfo,
    transcript::IOPTranscript,
};

pub type Ck = <Pcs as PolynomialCommitmentScheme<E>>::ProverParam;
pub type Vk = <Pcs as PolynomialCommitmentScheme<E>>::VerifierParam;
pub type Srs = <Pcs as PolynomialCommitmentScheme<E>>::SRS;
pub type Comm = Commitment<E>;
pub type Proof = <Pcs as PolynomialCommitmentScheme<E>>::Proof;
pub type BProof = BatchProof<E, Pcs>;
type T = IOPTranscript<F>;
pub const SRS_NV: usize = 13;

pub fn families() -> Vec<Family> {
    vec![
        fam("C07", "open", REL | DBG, 800, 24000, c07_open),
        fam("C07", "homomorphic", REL | DBG, 400, 12000, c07_homomorphic),
        fam("C07", "fresh_srs", REL | DBG, 160, 3200, c07_fresh_srs),
        fam("C07", "refuse", REL | DBG, 240, 4000, c07_refuse),
        fam("C07", "serialize", REL | DBG, 240, 4000, c07_serialize),
        fam("C08", "reject", REL | DBG, 1600, 60000, c08_reject),
        fam("C09", "complete", REL | DBG, 800, 24000, c09_complete),
        fam("C10", "reject", REL | DBG, 1600, 60000, c10_reject),
        fam("C10", "adaptive", REL | DBG, 600, 20000, c10_adaptive),
        fam("C07", "open_large", REL | DBG, 48, 400, |c| grown(c, 4, c07_open)),
        fam("C07", "homomorphic_large", REL | DBG, 24, 200, |c| grown(c, 4, c07_homomorphic)),
        fam("C08", "reject_large", REL | DBG, 48, 400, |c| grown(c, 4, c08_reject)),
        fam("C09", "complete_large", REL | DBG, 48, 400, |c| grown(c, 4, c09_complete)),
        fam("C10", "reject_large", REL | DBG, 48, 400, |c| grown(c, 4, c10_reject)),
        fam("C10", "adaptive_large", REL | DBG, 32, 300, |c| grown(c, 4, c10_adaptive)),
    ]
}

pub fn srs() -> &'static Srs {
    static S: OnceLock<Srs> = OnceLock::new();
    S.get_or_init(|| Pcs::gen_srs_for_testing(&mut ChaCha20Rng::seed_from_u64(4242), SRS_NV).unwrap())
}
/// trimmed keys, cached
pub fn keys(nv: usize) -> &'static (Ck, Vk) {
    static K: OnceLock<Vec<OnceLock<(Ck, Vk)>>> = OnceLock::new();
    let v = K.get_or_init(|| (0..=SRS_NV).map(|_| OnceLock::new()).collect());
    v[nv].get_or_init(|| Pcs::trim(srs(), None, Some(nv)).unwrap())
}
fn v(sig: &str, e: impl std::fmt::Display) -> Viol {
    Viol { sig: sig.into(), msg: e.to_string() }
}
fn bytes<S: CanonicalSerialize>(x: &S) -> Vec<u8> {
    let mut b = vec![];
    x.serialize_compressed(&mut b).unwrap();
    b
}
/// Some(true) accepted, Some(false) refused; a crash counts as no acceptance here (C11 judges it)
fn verdict(vk: &Vk, cm: &Comm, x: &[F], y: &F, p: &Proof) -> bool {
    matches!(guard(|| Pcs::verify(vk, cm, x, y, p)), Ok(Ok(true)))
}

fn c07_open(c: &mut Ctx) -> Res {
    let n = c.dim(1, if c.thorough { 9 } else { 7 }, 9);
    let nv = if c.coin(1, 2) { n } else { c.range(0, n) };
    let (ck, vk) = keys(n);
    let f = c.mle(nv);
    let x = c.point(nv);
    c.describe(format!("params={} nv={} table={} x={}", n, nv, sv(&f.evaluations), sv(&x)));
    if nv > 0 {
        c.nontrivial();
    }
    let cm = Pcs::commit(ck, &f).map_err(|e| v("commit_err", e))?;
    // the commitment is the table's combination of the published powers
    let pw = &ck.powers_of_g[n - nv].evals;
    ensure!(pw.len() == 1 << nv, "srs_shape", "{} powers for {} variables", pw.len(), nv);
    let mut want = G1Projective::zero();
    for (e, g) in f.evaluations.iter().zip(pw) {
        want += *g * *e;
    }
    ensure!(cm.0 == want.into_affine(), "commit_value", "commitment is not the combination of the powers");
    let (p, y) = Pcs::open(ck, &f, &x).map_err(|e| v("open_err", e))?;
    ensure!(y == mle_eval(&f.evaluations, &x), "open_value", "opened value is not the evaluation");
    let ok = Pcs::verify(vk, &cm, &x, &y, &p).map_err(|e| v("verify_err", e))?;
    ensure!(ok, "honest_rejected", "an honest opening is refused");
    // the same polynomial under larger parameters: commits alike, and each key verifies
    let n2 = c.range(n, SRS_NV.min(n + 2));
    let (ck2, vk2) = keys(n2);
    let cm2 = Pcs::commit(ck2, &f).map_err(|e| v("commit_err", e))?;
    ensure!(cm2 == cm, "trim_commit", "commitments under {} and {} variables differ", n, n2);
    let (p2, y2) = Pcs::open(ck2, &f, &x).map_err(|e| v("open_err", e))?;
    ensure!(y2 == y && bytes(&p2) == bytes(&p), "trim_open", "openings under {} and {} variables differ", n, n2);
    ensure!(Pcs::verify(vk2, &cm, &x, &y, &p).map_err(|e| v("verify_err", e))?, "trim_verify", "refused under larger parameters");
    c.count("honest openings accepted", 2);
    Ok(())
}
fn c07_homomorphic(c: &mut Ctx) -> Res {
    let n = c.dim(1, 6, 9);
    let nv = c.range(1, n);
    let (ck, vk) = keys(n);
    let (f, g) = (c.mle(nv), c.mle(nv));
    let (a, b) = (c.felt(), c.felt());
    let h = Mle::from_evaluations_vec(nv, f.evaluations.iter().zip(&g.evaluations).map(|(x, y)| a * x + b * y).collect());
    c.describe(format!("params={} f={} g={} a={} b={}", n, sv(&f.evaluations), sv(&g.evaluations), sf(&a), sf(&b)));
    c.nontrivial();
    let com = |m: &Mle| Pcs::commit(ck, m).map_err(|e| v("commit_err", e));
    let sum = (com(&f)?.0 * a + com(&g)?.0 * b).into_affine();
    ensure!(com(&h)?.0 == sum, "homomorphic", "commitment of a combination is not the combination of commitments");
    // openings combine the same way
    let x = c.point(nv);
    let (pf, yf) = Pcs::open(ck, &f, &x).map_err(|e| v("open_err", e))?;
    let (pg, yg) = Pcs::open(ck, &g, &x).map_err(|e| v("open_err", e))?;
    let comb = Proof { proofs: pf.proofs.iter().zip(&pg.proofs).map(|(p, q)| (*p * a + *q * b).into_affine()).collect() };
    let ok = Pcs::verify(vk, &Commitment(sum), &x, &(a * yf + b * yg), &comb).map_err(|e| v("verify_err", e))?;
    ensure!(ok, "combined_opening", "combined opening refused");
    // ignored leading variables change nothing
    let m = c.range(nv, n);
    let ext: Vec<F> = (0..1usize << m).map(|i| f.evaluations[i >> (m - nv)]).collect();
    ensure!(com(&Mle::from_evaluations_vec(m, ext))? == com(&f)?, "front_extension", "extension by leading variables commits differently");
    c.count("combinations checked", 3);
    Ok(())
}
fn c07_fresh_srs(c: &mut Ctx) -> Res {
    let n = c.dim(1, 6, 9);
    let s = Pcs::gen_srs_for_testing(&mut c.rng, n).map_err(|e| v("srs_err", e))?;
    let m = c.range(1, n);
    let (ck, vk) = Pcs::trim(&s, None, Some(m)).map_err(|e| v("trim_err", e))?;
    c.describe(format!("srs of {} variables trimmed to {}, case {}", n, m, c.idx));
    c.nontrivial();
    ensure!(ck.num_vars == m && vk.num_vars == m, "trim_shape", "trimmed keys announce another size");
    let ep = s.extract_prover_param(m);
    let ev = s.extract_verifier_param(m);
    ensure!(bytes(&ep) == bytes(&ck) && bytes(&ev) == bytes(&vk), "extract", "extracted and trimmed keys differ");
    for nv in 1..=m {
        let f = c.mle(nv);
        let x = c.point(nv);
        let cm = Pcs::commit(&ck, &f).map_err(|e| v("commit_err", e))?;
        let (p, y) = Pcs::open(&ck, &f, &x).map_err(|e| v("open_err", e))?;
        ensure!(y == mle_eval(&f.evaluations, &x), "open_value", "opened value is not the evaluation");
        ensure!(Pcs::verify(&vk, &cm, &x, &y, &p).map_err(|e| v("verify_err", e))?, "honest_rejected", "honest opening refused");
        ensure!(!verdict(&vk, &cm, &x, &(y + F::one()), &p), "false_value", "false value accepted");
        c.count("honest openings accepted", 1);
    }
    // the same seed gives the same string, another seed another one
    let mk = |x: u64| bytes(&Pcs::gen_srs_for_testing(&mut ChaCha20Rng::seed_from_u64(x), n).unwrap().extract_verifier_param(n));
    let sd = c.u64();
    ensure!(mk(sd) == mk(sd) && mk(sd) != mk(sd ^ 1), "srs_random", "reference string does not follow its randomness");
    Ok(())
}
fn c07_refuse(c: &mut Ctx) -> Res {
    let n = c.dim(1, 5, 9);
    let (ck, vk) = keys(n);
    let nv = n + c.range(1, 2);
    let big = c.mle(nv);
    let x = c.point(nv);
    c.describe(format!("params={} nv={} case={}", n, nv, c.idx));
    c.nontrivial();
    let e = guard(|| Pcs::commit(ck, &big)).map_err(|e| v("panic_commit", e))?;
    ensure!(e.is_err(), "oversized_commit", "an oversized polynomial is committed");
    let e = guard(|| Pcs::open(ck, &big, &x)).map_err(|e| v("panic_open", e))?;
    ensure!(e.is_err(), "oversized_open", "an oversized polynomial is opened");
    let f = c.mle(n);
    for l in [n - 1, n + 1] {
        let x = c.point(l);
        let e = guard(|| Pcs::open(ck, &f, &x)).map_err(|e| v("panic_open", e))?;
        ensure!(e.is_err(), "point_length", "opened at a point of {} coordinates instead of {}", l, n);
    }
    let cm = Pcs::commit(ck, &f).map_err(|e| v("commit_err", e))?;
    let xf = c.point(n);
    let (p, y) = Pcs::open(ck, &f, &xf).map_err(|e| v("open_err", e))?;
    let long = c.point(n + 1);
    let e = guard(|| Pcs::verify(vk, &cm, &long, &y, &p)).map_err(|e| v("panic_verify", e))?;
    ensure!(e.is_err(), "long_point_verify", "a point longer than the parameters is not refused with an error");
    let mut q = p.clone();
    q.proofs.push(vk.g);
    let e = guard(|| Pcs::verify(vk, &cm, &long, &y, &q)).map_err(|e| v("panic_verify", e))?;
    ensure!(e.is_err(), "long_point_verify", "an opening longer than the parameters is not refused with an error");
    let d = Some(c.range(0, 9));
    let e = guard(|| Pcs::trim(srs(), d, Some(n)).is_ok());
    ensure!(e != Ok(true), "degree_trim", "trimmed to a univariate degree");
    let e = guard(|| Pcs::trim(srs(), None, Some(SRS_NV + c.range(1, 3)))).map_err(|e| v("panic_trim", e))?;
    ensure!(e.is_err(), "oversized_trim", "trimmed above the reference string");
    let e = guard(|| Pcs::trim(srs(), None, None)).map_err(|e| v("panic_trim", e))?;
    ensure!(e.is_err(), "no_bound_trim", "trimmed without a bound");
    let e = guard(|| Pcs::gen_srs_for_testing(&mut c.rng, 0)).map_err(|e| v("panic_srs", e))?;
    ensure!(e.is_err(), "srs0", "a reference string without variables is built");
    c.count("refusals observed", 10);
    Ok(())
}
fn c07_serialize(c: &mut Ctx) -> Res {
    let n = c.dim(1, 5, 9);
    let nv = c.range(1, n);
    let (ck, vk) = keys(n);
    let f = c.mle(nv);
    let x = c.point(nv);
    c.describe(format!("params={} nv={} f={}", n, nv, sv(&f.evaluations)));
    c.nontrivial();
    let cm = Pcs::commit(ck, &f).map_err(|e| v("commit_err", e))?;
    let (p, y) = Pcs::open(ck, &f, &x).map_err(|e| v("open_err", e))?;
    let ck2 = Ck::deserialize_compressed(&bytes(ck)[..]).map_err(|e| v("decode", e))?;
    let vk2 = Vk::deserialize_compressed(&bytes(vk)[..]).map_err(|e| v("decode", e))?;
    let cm2 = Comm::deserialize_compressed(&bytes(&cm)[..]).map_err(|e| v("decode", e))?;
    let p2 = Proof::deserialize_compressed(&bytes(&p)[..]).map_err(|e| v("decode", e))?;
    ensure!(cm2 == cm && p2 == p, "roundtrip", "decoding gives another object");
    ensure!(Pcs::commit(&ck2, &f).map_err(|e| v("commit_err", e))? == cm, "roundtrip_ck", "decoded parameters commit differently");
    ensure!(Pcs::verify(&vk2, &cm2, &x, &y, &p2).map_err(|e| v("verify_err", e))?, "roundtrip_vk", "decoded opening refused");
    c.count("round trips", 4);
    Ok(())
}

// ---------------------------------------------------------------- C08
fn c08_reject(c: &mut Ctx) -> Res {
    let n = c.dim(1, 5, 9);
    let nv = c.range(1, n);
    let (ck, vk) = keys(n);
    let f = if c.coin(1, 4) { Mle::from_evaluations_vec(nv, c.rand_table(nv)) } else { c.mle(nv) };
    let x = c.point(nv);
    let cm = Pcs::commit(ck, &f).map_err(|e| v("commit_err", e))?;
    let (p, y) = Pcs::open(ck, &f, &x).map_err(|e| v("open_err", e))?;
    let kind = c.range(0, 7);
    let (mut cm2, mut x2, mut y2, mut p2) = (cm, x.clone(), y, p.clone());
    // the polynomial behind cm2
    let mut f2 = f.clone();
    match kind {
        0 => y2 += c.nz(),
        1 => y2 = -y,
        2 => y2 = *c.pick(&f.evaluations),
        3 => {
            // one coordinate, or a permutation of the point
            if c.coin(1, 2) || nv == 1 {
                let i = c.range(0, nv - 1);
                x2[i] += c.nz();
            } else {
                c.shuffle(&mut x2);
            }
        },
        4 => {
            let i = c.range(0, nv - 1);
            let j = c.range(0, nv - 1);
            match c.range(0, 3) {
                0 => p2.proofs.swap(i, j),
                1 => p2.proofs[i] = (p2.proofs[i].into_group() + ck.g).into_affine(),
                2 => p2.proofs[i] = (-p2.proofs[i].into_group()).into_affine(),
                _ => p2.proofs[i] = G1Affine::zero(),
            }
        },
        5 => {
            // proof of another polynomial
            let g = c.mle(nv);
            let (q, yg) = Pcs::open(ck, &g, &x).map_err(|e| v("open_err", e))?;
            p2 = q;
            if c.coin(1, 2) {
                y2 = yg;
            }
        },
        6 => {
            let g = c.mle(nv);
            cm2 = Pcs::commit(ck, &g).map_err(|e| v("commit_err", e))?;
            if c.coin(1, 2) {
                y2 = mle_eval(&g.evaluations, &x);
            }
            f2 = g;
        },
        _ => {
            let mut e = f.evaluations.clone();
            let i = c.range(0, e.len() - 1);
            e[i] += c.nz();
            f2 = Mle::from_evaluations_vec(nv, e);
            cm2 = Pcs::commit(ck, &f2).map_err(|e| v("commit_err", e))?;
        },
    }
    c.describe(format!("params={} kind={} f={} x={} x2={} y2={}", n, kind, sv(&f.evaluations), sv(&x), sv(&x2), sf(&y2)));
    // a true statement with the very proof an honest prover makes for it (which
    // another polynomial with the same quotients can share) is no corruption
    if y2 == mle_eval(&f2.evaluations, &x2) && Pcs::open(ck, &f2, &x2).map_err(|e| v("open_err", e))?.0 == p2 {
        return Ok(());
    }
    c.nontrivial();
    if verdict(vk, &cm2, &x2, &y2, &p2) {
        return viol("false_opening", format!("kind {}: an opening that is not the honest one is accepted", kind));
    }
    c.count("false openings refused", 1);
    Ok(())
}

// ---------------------------------------------------------------- batches
pub struct Batch {
    pub n: usize,
    pub polys: Vec<Arc<Mle>>,
    pub points: Vec<Vec<F>>,
    pub evals: Vec<F>,
    pub comms: Vec<Comm>,
    pub desc: String,
}
pub fn gen_batch(c: &mut Ctx, kmax: usize, mixed: bool) -> Result<Batch, Viol> {
    // grown: more variables, or more openings
    let many = c.grow > 0 && c.coin(1, 3);
    let nv = if many { c.range(1, 3) } else { c.dim(1, 4, 7) };
    let n = nv + c.range(0, 2);
    let k = if many { c.range(kmax + 13, 140) } else { c.wide(1, kmax, kmax + 12) };
    let pool: Vec<Vec<F>> = (0..c.range(1, k)).map(|_| c.point(nv)).collect();
    let mut polys: Vec<Arc<Mle>> = vec![];
    for _ in 0..k {
        if !polys.is_empty() && c.coin(1, 4) {
            let p = c.pick(&polys).clone();
            polys.push(if c.coin(1, 2) { p } else { Arc::new((*p).clone()) });
        } else {
            let m = if mixed { Mle::from_evaluations_vec(nv, c.rand_table(nv)) } else { c.mle(nv) };
            polys.push(Arc::new(m));
        }
    }
    let points: Vec<Vec<F>> = (0..k).map(|_| c.pick(&pool).clone()).collect();
    let evals: Vec<F> = polys.iter().zip(&points).map(|(p, x)| mle_eval(&p.evaluations, x)).collect();
    let ck = &keys(n).0;
    let mut comms = vec![];
    for p in &polys {
        comms.push(Pcs::commit(ck, p).map_err(|e| v("commit_err", e))?);
    }
    let desc = format!(
        "params={} nv={} k={} polys={} points={}",
        n,
        nv,
        k,
        polys.iter().map(|p| format!("{:04x}", fhash(&p.evaluations) & 0xffff)).collect::<Vec<_>>().join(","),
        points.iter().map(|p| format!("{:04x}", fhash(p) & 0xffff)).collect::<Vec<_>>().join(",")
    );
    Ok(Batch { n, polys, points, evals, comms, desc })
}
fn hist(c: &mut Ctx) -> T {
    let mut t = T::new(b"batch");
    let f = c.rand_f();
    t.append_field_element(b"init", &f).unwrap();
    t
}
fn probe(t: &T) -> F {
    t.clone().get_and_append_challenge(b"probe").unwrap()
}
fn c09_complete(c: &mut Ctx) -> Res {
    let b = gen_batch(c, 9, false)?;
    c.describe(b.desc.clone());
    c.nontrivial();
    let (ck, vk) = keys(b.n);
    let mut tp = hist(c);
    let mut tv = tp.clone();
    let before = b.polys.clone();
    let p = guard(|| Pcs::multi_open(ck, &b.polys, &b.points, &b.evals, &mut tp))
        .map_err(|e| v("open_panic", e))?
        .map_err(|e| v("open_err", e))?;
    ensure!(p.f_i_eval_at_point_i == b.evals, "evals", "the proof carries other values than the given ones");
    ensure!(before == b.polys, "mutates", "opening changed a polynomial");
    let ok = guard(|| Pcs::batch_verify(vk, &b.comms, &b.points, &p, &mut tv))
        .map_err(|e| v("verify_panic", e))?
        .map_err(|e| v("verify_err", e))?;
    ensure!(ok, "honest_rejected", "an honest batch of {} is refused", b.polys.len());
    ensure!(probe(&tp) == probe(&tv), "transcript_sync", "transcripts differ after the batch");
    c.count("honest batches accepted", 1);
    c.count("openings in them", b.polys.len() as u64);
    Ok(())
}
fn c10_reject(c: &mut Ctx) -> Res {
    let b = gen_batch(c, 6, true)?;
    let k = b.polys.len();
    let nv = b.points[0].len();
    let (ck, vk) = keys(b.n);
    let mut tp = hist(c);
    let t0 = tp.clone();
    let kind = c.range(0, 13);
    let mut evals = b.evals.clone();
    let mut asked = b.evals.clone(); // values given to the honest prover
    let (mut comms, mut points) = (b.comms.clone(), b.points.clone());
    let i = c.range(0, k - 1);
    let j = c.range(0, k - 1);
    // wrong values handed to the honest prover code
    if kind == 0 {
        asked[i] += c.nz();
    }
    if kind == 1 {
        if i == j {
            asked[i] = -asked[i];
        } else {
            let e = c.nz();
            asked[i] += e;
            asked[j] -= e;
        }
    }
    let mut p = match guard(|| Pcs::multi_open(ck, &b.polys, &b.points, &asked, &mut tp)) {
        Ok(Ok(p)) => p,
        _ if kind <= 1 => {
            c.count("false batches refused by the prover", 1);
            return Ok(());
        },
        Ok(Err(e)) => return Err(v("open_err", e)),
        Err(e) => return Err(v("open_panic", e)),
    };
    let honest: BProof = p.clone();
    let mut tv = t0.clone();
    match kind {
        0 | 1 => {},
        2 => p.f_i_eval_at_point_i[i] += c.nz(),
        3 => {
            let e = c.nz();
            p.f_i_eval_at_point_i[i] += e;
            p.f_i_eval_at_point_i[j] -= e;
        },
        4 => p.f_i_eval_at_point_i.swap(i, j),
        5 => {
            // shift two values against each other along the verifier's own
            // combination, so that the combined sum stays the same
            if i == j {
                return Ok(());
            }
            let mut t = t0.clone();
            let absorb = c.range(0, 2);
            let w = weights(&mut t, k, if absorb > 0 { &b.points } else { &[] }, if absorb > 1 { &b.evals } else { &[] });
            let e = c.nz();
            p.f_i_eval_at_point_i[i] += e * w[j];
            p.f_i_eval_at_point_i[j] -= e * w[i];
        },
        6 => {
            let m = p.verif_parts_mut().0;
            let r = c.range(0, m.proofs.len() - 1);
            let ev = m.proofs[r].verif_evaluations_mut();
            let q = c.range(0, ev.len() - 1);
            ev[q] += c.nz();
        },
        7 => {
            let m = p.verif_parts_mut().0;
            let r = c.range(0, m.proofs.len() - 1);
            let ev = m.proofs[r].verif_evaluations_mut();
            let e = c.nz();
            ev[0] += e;
            ev[1] -= e;
        },
        8 => {
            let g = p.verif_parts_mut().1;
            let r = c.range(0, g.proofs.len() - 1);
            g.proofs[r] = (g.proofs[r].into_group() + ck.g).into_affine();
        },
        9 => {
            // recorded point: an honest verifier derives its own
            let m = p.verif_parts_mut().0;
            let r = c.range(0, nv - 1);
            m.point[r] += c.nz();
        },
        10 => {
            // another commitment
            let g = c.rand_table(nv);
            comms[i] = Pcs::commit(ck, &Mle::from_evaluations_vec(nv, g)).map_err(|e| v("commit_err", e))?;
        },
        11 => {
            let r = c.range(0, nv - 1);
            points[i][r] += c.nz();
        },
        12 => {
            comms.swap(i, j);
            points.swap(i, j);
            p.f_i_eval_at_point_i.swap(i, j);
            // the same statement in another order is still true; the proof is not one for it
            tv.append_field_element(b"more", &F::one()).unwrap();
        },
        _ => {
            // cheating prover: opens the whole batch at one forged point set and
            // grafts the honest opening element
            let x = c.rand_point(nv);
            let mut t = t0.clone();
            let alt: Vec<Vec<F>> = b.points.iter().map(|_| x.clone()).collect();
            let ev2: Vec<F> = b.polys.iter().map(|p| mle_eval(&p.evaluations, &x)).collect();
            let q = Pcs::multi_open(ck, &b.polys, &alt, &ev2, &mut t).map_err(|e| v("open_err", e))?;
            if c.coin(1, 2) {
                *p.verif_parts_mut().1 = q.verif_parts().1.clone();
            } else {
                *p.verif_parts_mut().0 = q.verif_parts().0.clone();
            }
        },
    }
    evals.clone_from(&p.f_i_eval_at_point_i);
    c.describe(format!("{} kind={} i={} j={}", b.desc, kind, i, j));
    let same_stmt = comms == b.comms && points == b.points;
    if p == honest && same_stmt && kind != 12 && asked == b.evals {
        return Ok(());
    }
    // statement: (comms, points, values in the proof). True?
    let truth = same_stmt && evals == b.evals;
    c.nontrivial();
    let acc = matches!(guard(|| Pcs::batch_verify(vk, &comms, &points, &p, &mut tv)), Ok(Ok(true)));
    if acc {
        return viol(&format!("accepted_kind{}", kind), format!("kind {}: a batch proof altered this way is accepted (statement {})", kind, if truth { "true" } else { "FALSE" }));
    }
    c.count("false or altered batches refused", 1);
    Ok(())
}

/// the verifier's combination weights after absorbing the given statement parts
fn weights(t: &mut T, k: usize, points: &[Vec<F>], evals: &[F]) -> Vec<F> {
    for p in points {
        t.append_serializable_element(b"batch point", p).unwrap();
    }
    for e in evals {
        t.append_field_element(b"batch eval", e).unwrap();
    }
    let ell = ark_std::log2(k) as usize;
    chi(&t.get_and_append_challenge_vectors(b"t", ell).unwrap())
}
/// A cheating prover that follows the challenges: false values, forged round
/// messages that pass every round, and an opening that fits as well as it can.
fn c10_adaptive(c: &mut Ctx) -> Res {
    let b = gen_batch(c, 5, true)?;
    let k = b.polys.len();
    let nv = b.points[0].len();
    let (ck, vk) = keys(b.n);
    let mut tp = hist(c);
    let t0 = tp.clone();
    let style = c.range(0, 1);
    c.describe(format!("{} style={}", b.desc, style));
    // does the mirrored schedule reproduce an honest proof? if not, the attack has no footing
    let honest = Pcs::multi_open(ck, &b.polys, &b.points, &b.evals, &mut tp).map_err(|e| v("open_err", e))?;
    let expr = |w: &[F]| RefVp {
        nv,
        terms: (0..k).map(|i| (w[i], vec![chi(&b.points[i]), b.polys[i].evaluations.clone()])).collect(),
    };
    let aux = VPAuxInfo { max_degree: 2, num_variables: nv, phantom: Default::default() };
    c.nontrivial();
    let mut t = t0.clone();
    let w = weights(&mut t, k, &b.points, &b.evals);
    let rf = expr(&w);
    let true_sum: F = w.iter().zip(&b.evals).map(|(a, e)| *a * e).sum();
    if forge(c, &rf, &aux, true_sum, &t).point != honest.verif_parts().0.point {
        c.count("transcript schedule not reproduced: attack skipped", 1);
        return Ok(());
    }
    let mut evals = b.evals.clone();
    let i = c.range(0, k - 1);
    evals[i] += c.nz();
    let mut t = t0.clone();
    let w = weights(&mut t, k, &b.points, &evals);
    let rf = expr(&w);
    let sum: F = w.iter().zip(&evals).map(|(a, e)| *a * e).sum();
    let mut p = honest.clone();
    p.f_i_eval_at_point_i = evals;
    let forged = forge(c, &rf, &aux, sum, &t);
    let last = forged.proofs.last().unwrap().verif_evaluations();
    let want = lagrange(last, *forged.point.last().unwrap());
    let mut a2 = forged.point.clone();
    if style == 1 {
        // choose the recorded point so that the opening gives the wanted value
        let mut found = false;
        for _ in 0..40 {
            let mut x = c.rand_point(nv);
            let r = c.range(0, nv - 1);
            let mut g = [F::zero(); 3];
            for (j, o) in g.iter_mut().enumerate() {
                x[r] = F::from(j as u64);
                *o = rf.eval(&x) - want;
            }
            // g(z) = a z^2 + b z + g0
            let half = F::from(2u64).inverse().unwrap();
            let qa = (g[2] - g[1].double() + g[0]) * half;
            let qb = g[1] - g[0] - qa;
            let z = if qa.is_zero() {
                if qb.is_zero() {
                    continue;
                }
                -g[0] * qb.inverse().unwrap()
            } else {
                match (qb * qb - F::from(4u64) * qa * g[0]).sqrt() {
                    Some(s) => (s - qb) * half * qa.inverse().unwrap(),
                    None => continue,
                }
            };
            x[r] = z;
            a2 = x;
            found = true;
            break;
        }
        if !found {
            return Ok(());
        }
    }
    let mut g = vec![F::zero(); 1 << nv];
    for q in 0..k {
        let e = eq(&a2, &b.points[q]) * w[q];
        for (o, y) in g.iter_mut().zip(&b.polys[q].evaluations) {
            *o += e * y;
        }
    }
    let (op, y) = Pcs::open(ck, &Mle::from_evaluations_vec(nv, g), &a2).map_err(|e| v("open_err", e))?;
    if style == 1 {
        ensure!(y == want, "attack_broken", "harness error: the solved point does not give the wanted value");
    }
    *p.verif_parts_mut().1 = op;
    let mut sc = forged;
    sc.point = a2;
    *p.verif_parts_mut().0 = sc;
    let mut tv = t0.clone();
    let acc = matches!(guard(|| Pcs::batch_verify(vk, &b.comms, &b.points, &p, &mut tv)), Ok(Ok(true)));
    ensure!(!acc, ["adaptive_forgery", "chosen_point_forgery"][style], "a forged batch proof of a FALSE value is accepted");
    c.count(["adaptive forgeries refused", "forgeries with a chosen opening point refused"][style], 1);
    Ok(())
}
