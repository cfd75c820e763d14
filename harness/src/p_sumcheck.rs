//! C04/C05 sumcheck, C06 zerocheck.
use crate::{ctx::*, ensure, p_arith::{gen_vp, vp_desc}, refs::*, run::*};
use ark_ff::{Field, One, Zero};
use std::sync::Arc;
use zk_sql::{
    arithmetic::{VPAuxInfo, VirtualPolynomial},
    subroutines::poly_iop::{
        prelude::*,
        structs::{IOPProverMessage, IOPProverState, IOPVerifierState},
        sum_check::{SumCheckProver, SumCheckVerifier},
    },
    transcript::IOPTranscript,
};

type P = PolyIOP<F>;
type T = IOPTranscript<F>;

pub fn families() -> Vec<Family> {
    vec![
        fam("C04", "complete", REL | DBG, 3200, 120000, c04_complete),
        fam("C04", "high_degree", REL, 480, 12000, c04_high_degree),
        fam("C04", "interactive", REL | DBG, 1200, 32000, c04_interactive),
        fam("C05", "wrong_sum", REL | DBG, 2400, 80000, c05_wrong_sum),
        fam("C05", "tamper", REL | DBG, 4000, 160000, c05_tamper),
        fam("C05", "adaptive", REL, 2400, 80000, c05_adaptive),
        fam("C05", "challenge_binding", REL, 2400, 64000, c05_binding),
        fam("C06", "complete", REL | DBG, 2000, 64000, c06_complete),
        fam("C06", "reject", REL | DBG, 3200, 120000, c06_reject),
        fam("C06", "adaptive", REL, 1600, 48000, c06_adaptive),
        fam("C04", "complete_large", REL | DBG, 120, 800, |c| grown(c, 7, c04_complete)),
        fam("C04", "interactive_large", REL | DBG, 120, 1500, |c| grown(c, 4, c04_interactive)),
        fam("C05", "wrong_sum_large", REL | DBG, 240, 3000, |c| grown(c, 8, c05_wrong_sum)),
        fam("C05", "tamper_large", REL | DBG, 240, 3000, |c| grown(c, 8, c05_tamper)),
        fam("C05", "adaptive_large", REL, 240, 2400, |c| grown(c, 6, c05_adaptive)),
        fam("C06", "complete_large", REL | DBG, 120, 800, |c| grown(c, 7, c06_complete)),
        fam("C06", "reject_large", REL | DBG, 160, 1500, |c| grown(c, 6, c06_reject)),
        fam("C06", "adaptive_large", REL, 160, 1500, |c| grown(c, 5, c06_adaptive)),
    ]
}

fn v(sig: &str, e: impl std::fmt::Display) -> Viol {
    Viol { sig: sig.into(), msg: e.to_string() }
}
/// a transcript with some history, the same for prover and verifier
fn seeded(c: &mut Ctx) -> T {
    let mut t = <P as SumCheck<F>>::init_transcript();
    let n = c.range(0, 2);
    for _ in 0..n {
        let f = c.rand_f();
        t.append_field_element(b"history", &f).unwrap();
    }
    t
}
fn chal(t: &T) -> F {
    t.clone().get_and_append_challenge(b"probe").unwrap()
}
/// round-i message from the definition
pub fn ref_round(rf: &RefVp, fixed: &[F], deg: usize) -> Vec<F> {
    let i = fixed.len();
    let rest = rf.nv - i - 1;
    let mut out = vec![F::zero(); deg + 1];
    // fold the tables at the fixed coordinates once
    let folded: Vec<(F, Vec<Vec<F>>)> = rf
        .terms
        .iter()
        .map(|(c, fs)| (*c, fs.iter().map(|t| fold_low(t, fixed)).collect()))
        .collect();
    for (j, o) in out.iter_mut().enumerate() {
        let at = F::from(j as u64);
        for b in 0..1usize << rest {
            for (c, fs) in &folded {
                *o += *c
                    * fs.iter()
                        .map(|t| t[2 * b] * (F::one() - at) + t[2 * b + 1] * at)
                        .product::<F>();
            }
        }
    }
    out
}
/// table with its low variables fixed, by the chi sum
fn fold_low(t: &[F], fixed: &[F]) -> Vec<F> {
    let k = fixed.len();
    let ch = chi(fixed);
    (0..t.len() >> k).map(|b| (0..1usize << k).map(|j| ch[j] * t[(b << k) | j]).sum()).collect()
}

fn check_complete(c: &mut Ctx, vp: &VirtualPolynomial<F>, rf: &RefVp) -> Res {
    let mut tp = seeded(c);
    let mut tv = tp.clone();
    let sum = rf.sum();
    let proof = <P as SumCheck<F>>::prove(vp, &mut tp).map_err(|e| v("prove_err", e))?;
    ensure!(proof.proofs.len() == rf.nv && proof.point.len() == rf.nv, "proof_shape", "{} rounds, point of {} coordinates", proof.proofs.len(), proof.point.len());
    ensure!(<P as SumCheck<F>>::extract_sum(&proof) == sum, "extract_sum", "sum extracted from an honest proof is wrong");
    for (i, m) in proof.proofs.iter().enumerate() {
        let want = ref_round(rf, &proof.point[..i], rf.degree());
        ensure!(*m.verif_evaluations() == want, "round_message", "round {} message is not the restricted sum", i);
        c.count("round messages compared", 1);
    }
    let sub = <P as SumCheck<F>>::verify(sum, &proof, &vp.aux_info, &mut tv).map_err(|e| v("honest_rejected", e))?;
    ensure!(sub.point == proof.point, "point", "verifier's point differs from the prover's");
    ensure!(sub.expected_evaluation == rf.eval(&sub.point), "subclaim", "subclaim of an honest proof is false");
    ensure!(chal(&tp) == chal(&tv), "transcript_sync", "prover and verifier transcripts differ after the protocol");
    c.count("honest proofs accepted", 1);
    Ok(())
}
fn c04_complete(c: &mut Ctx) -> Res {
    let nv = if c.coin(1, 10) { 8 } else { c.dim(1, 6, 8) };
    let (vp, rf) = gen_vp(c, nv, 6, 5);
    c.describe(vp_desc(&rf));
    if nv > 1 && rf.terms.len() > 1 {
        c.nontrivial();
    }
    let before = vp.clone();
    check_complete(c, &vp, &rf)?;
    ensure!(before == vp, "prover_mutates", "proving changed the polynomial");
    Ok(())
}
fn c04_high_degree(c: &mut Ctx) -> Res {
    // the three ways of interpolating: up to 20, up to 33, more evaluations
    let nv = c.range(1, 3);
    let d = match c.range(0, 4) {
        0 => *c.pick(&[18, 19, 20, 21]),
        1 => *c.pick(&[31, 32, 33, 34]),
        2 => c.range(35, 45),
        3 => c.range(6, 17),
        _ => c.range(22, 30),
    };
    let mut vp = VirtualPolynomial::new(nv);
    let mut rf = RefVp { nv, terms: vec![] };
    let lens = [d, c.range(1, d), c.range(1, 3)];
    for l in lens {
        let fs: Vec<Arc<Mle>> = (0..l).map(|_| Arc::new(Mle::from_evaluations_vec(nv, c.rand_table(nv)))).collect();
        let co = c.rand_f();
        vp.add_mle_list(fs.clone(), co).unwrap();
        rf.terms.push((co, fs.iter().map(|m| m.evaluations.clone()).collect()));
    }
    c.describe(format!("nv={} degree={} lens={:?} case={}", nv, d, lens, c.idx));
    c.nontrivial();
    check_complete(c, &vp, &rf)
}
fn c04_interactive(c: &mut Ctx) -> Res {
    // the same protocol driven message by message
    let nv = c.dim(1, 5, 9);
    let (vp, rf) = gen_vp(c, nv, 5, 4);
    c.describe(vp_desc(&rf));
    c.nontrivial();
    let mut ps = IOPProverState::prover_init(&vp).map_err(|e| v("init_err", e))?;
    let mut vs = IOPVerifierState::verifier_init(&vp.aux_info);
    let mut t = seeded(c);
    t.append_field_element(b"x", &F::one()).unwrap();
    let mut ch = None;
    let mut pt = vec![];
    for i in 0..nv {
        let early = vs.check_and_generate_subclaim(&rf.sum());
        ensure!(early.is_err(), "early_subclaim", "a subclaim is given before the last round");
        if c.coin(1, 2) {
            // a message out of turn is refused and leaves the prover where it was
            let x = if i == 0 { Some(c.felt()) } else { None };
            ensure!(matches!(guard(|| ps.prove_round_and_update_state(&x).is_ok()), Err(_) | Ok(false)), "out_of_turn", "round {} starts {} a challenge", i, if i == 0 { "with" } else { "without" });
            c.count("messages out of turn refused", 1);
        }
        let m = ps.prove_round_and_update_state(&ch).map_err(|e| v("round_err", e))?;
        ensure!(*m.verif_evaluations() == ref_round(&rf, &pt, rf.degree()), "round_message", "round {} message is wrong", i);
        let r = vs.verify_round_and_update_state(&m, &mut t).map_err(|e| v("verify_round_err", e))?;
        pt.push(r);
        ch = Some(r);
    }
    ensure!(ps.prove_round_and_update_state(&ch).is_err(), "extra_round", "the prover continues after the last round");
    let dummy = IOPProverMessage::verif_new(vec![F::zero(); rf.degree() + 1]);
    let sub = vs.check_and_generate_subclaim(&rf.sum()).map_err(|e| v("honest_rejected", e))?;
    ensure!(sub.point == pt && sub.expected_evaluation == rf.eval(&pt), "subclaim", "subclaim of an honest run is false");
    ensure!(vs.check_and_generate_subclaim(&(rf.sum() + F::one())).is_err(), "wrong_sum", "a wrong sum is accepted");
    ensure!(vs.verify_round_and_update_state(&dummy, &mut t).is_err(), "extra_round", "the verifier continues after the last round");
    c.count("interactive runs", 1);
    Ok(())
}

/// true when the verifier ended up with a claim that is true of `rf`
fn fooled(
    rf: &RefVp,
    sum: F,
    proof: &IOPProof<F>,
    aux: &VPAuxInfo<F>,
    t: &mut T,
) -> Result<bool, Viol> {
    match guard(|| <P as SumCheck<F>>::verify(sum, proof, aux, t)) {
        // a panic on a malformed proof is judged by C11, here it is no acceptance
        Err(_) | Ok(Err(_)) => Ok(false),
        Ok(Ok(s)) => Ok(s.point.len() == rf.nv && s.expected_evaluation == rf.eval(&s.point)),
    }
}
fn c05_wrong_sum(c: &mut Ctx) -> Res {
    let nv = c.dim(1, 5, 9);
    let (vp, rf) = gen_vp(c, nv, 5, 4);
    let d = if c.coin(1, 2) { F::one() } else { c.nz() };
    c.describe(format!("{} delta={}", vp_desc(&rf), sf(&d)));
    c.nontrivial();
    let mut tp = seeded(c);
    let mut tv = tp.clone();
    let proof = <P as SumCheck<F>>::prove(&vp, &mut tp).map_err(|e| v("prove_err", e))?;
    ensure!(!fooled(&rf, rf.sum() + d, &proof, &vp.aux_info, &mut tv)?, "wrong_sum_accepted", "a sum off by {} is accepted", sf(&d));
    c.count("false sums refused", 1);
    Ok(())
}
fn c05_tamper(c: &mut Ctx) -> Res {
    let nv = c.dim(1, 5, 9);
    let (vp, rf) = gen_vp(c, nv, 5, 4);
    let mut tp = seeded(c);
    let mut tv = tp.clone();
    let proof = <P as SumCheck<F>>::prove(&vp, &mut tp).map_err(|e| v("prove_err", e))?;
    let mut bad = proof.clone();
    let mut sum = rf.sum();
    let mut aux = vp.aux_info.clone();
    let d = rf.degree();
    let i = c.range(0, nv - 1);
    let kind = c.range(0, 8);
    let mut other = false;
    match kind {
        0 => {
            let j = c.range(0, d);
            bad.proofs[i].verif_evaluations_mut()[j] += c.nz();
        },
        1 => {
            // keep p(0)+p(1)
            let e = c.nz();
            let m = bad.proofs[i].verif_evaluations_mut();
            m[0] += e;
            m[1] -= e;
        },
        2 => {
            // keep p(0) and p(1), change a higher evaluation
            if d < 2 {
                return Ok(());
            }
            let j = c.range(2, d);
            bad.proofs[i].verif_evaluations_mut()[j] += c.nz();
        },
        3 => {
            if nv < 2 {
                return Ok(());
            }
            let j = (i + 1) % nv;
            bad.proofs.swap(i, j);
        },
        4 => {
            // shift first message and the sum together
            let e = c.nz();
            bad.proofs[0].verif_evaluations_mut()[c.idx as usize % 2] += e;
            sum += e;
        },
        5 => {
            // another degree than announced
            if c.coin(1, 2) {
                aux.max_degree += 1;
            } else if d > 1 {
                aux.max_degree -= 1;
            } else {
                aux.max_degree += 2;
            }
        },
        6 => {
            bad.proofs[i].verif_evaluations_mut().push(c.felt());
        },
        7 => {
            // another polynomial of the same shape
            let mut w = VirtualPolynomial::new(nv);
            for p in &vp.products {
                let fs: Vec<Arc<Mle>> = p.1.iter().map(|_| Arc::new(c.mle(nv))).collect();
                w.add_mle_list(fs, p.0).unwrap();
            }
            let mut t2 = tv.clone();
            bad = <P as SumCheck<F>>::prove(&w, &mut t2).map_err(|e| v("prove_err", e))?;
            let s2 = <P as SumCheck<F>>::extract_sum(&bad);
            if s2 == rf.sum() {
                // an honest proof of a true sum; nothing to refute
                let e = c.nz();
                bad.proofs[0].verif_evaluations_mut()[0] += e;
            }
        },
        _ => {
            // another history
            let e = c.rand_f();
            tv.append_field_element(b"history", &e).unwrap();
            other = true;
        },
    }
    c.describe(format!("{} kind={} round={}", vp_desc(&rf), kind, i));
    if bad == proof && sum == rf.sum() && aux == vp.aux_info && !other {
        return Ok(());
    }
    c.nontrivial();
    let f = match guard(|| <P as SumCheck<F>>::verify(sum, &bad, &aux, &mut tv)) {
        Err(_) | Ok(Err(_)) => {
            c.count("tampered proofs refused", 1);
            return Ok(());
        },
        Ok(Ok(s)) => s,
    };
    // accepted: then the subclaim must be false of the polynomial
    let truth = rf.eval(&f.point);
    if f.expected_evaluation == truth {
        // With another history the messages of a constant-in-every-round
        // polynomial stay honest; only a true sum can do that
        if other && sum == rf.sum() && honest_at(&rf, &bad, &f.point) {
            return Ok(());
        }
        return viol("tampered_accepted", format!("a tampered proof (kind {}) ends in a true subclaim", kind));
    }
    c.count("tampered proofs with a false subclaim", 1);
    Ok(())
}
/// are these the honest messages for the challenges `pt`?
fn honest_at(rf: &RefVp, p: &IOPProof<F>, pt: &[F]) -> bool {
    p.proofs
        .iter()
        .enumerate()
        .all(|(i, m)| *m.verif_evaluations() == ref_round(rf, &pt[..i], rf.degree()))
}
/// A cheating prover that adapts every message to the challenges it has
/// seen, so that every round check passes for the false sum `sum`.
pub fn forge(c: &mut Ctx, rf: &RefVp, aux: &VPAuxInfo<F>, sum: F, t0: &T) -> IOPProof<F> {
    let mut t = t0.clone();
    t.append_serializable_element(b"aux info", aux).unwrap();
    let d = aux.max_degree;
    let mut want = sum;
    let mut pt: Vec<F> = vec![];
    let mut msgs = vec![];
    let style = c.range(0, 2);
    for _ in 0..rf.nv {
        let mut m = ref_round(rf, &pt, d);
        let gap = want - (m[0] + m[1]);
        match style {
            0 => m[0] += gap,
            1 => m[1] += gap,
            _ => {
                // spread the gap as a constant, the polynomial stays of low degree
                let h = gap * F::from(2u64).inverse().unwrap();
                for x in m.iter_mut() {
                    *x += h;
                }
            },
        }
        let msg = IOPProverMessage::verif_new(m.clone());
        t.append_serializable_element(b"prover msg", &msg).unwrap();
        let r = t.get_and_append_challenge(b"Internal round").unwrap();
        want = lagrange(&m, r);
        pt.push(r);
        msgs.push(msg);
    }
    IOPProof { point: pt, proofs: msgs }
}
fn c05_adaptive(c: &mut Ctx) -> Res {
    let nv = c.dim(1, 5, 9);
    let (vp, rf) = gen_vp(c, nv, 4, 4);
    let sum = rf.sum() + c.nz();
    let mut t = seeded(c);
    c.describe(format!("{} claimed={}", vp_desc(&rf), sf(&sum)));
    c.nontrivial();
    let p = forge(c, &rf, &vp.aux_info, sum, &t);
    match <P as SumCheck<F>>::verify(sum, &p, &vp.aux_info, &mut t) {
        Err(_) => c.count("forgeries refused", 1),
        Ok(s) => {
            c.count("forgeries that pass every round", 1);
            ensure!(s.expected_evaluation != rf.eval(&s.point), "forged", "an adaptive forgery of a false sum ends in a true subclaim");
            // the subclaim is what the last message says at the challenge
            let last = p.proofs.last().unwrap().verif_evaluations();
            ensure!(s.expected_evaluation == lagrange(last, *s.point.last().unwrap()), "interpolation", "the subclaim is not the last message at the last challenge");
        },
    }
    Ok(())
}
fn c05_binding(c: &mut Ctx) -> Res {
    // two polynomials whose first k messages agree and the next one differs,
    // in as little as one evaluation: later challenges must differ
    let nv = c.dim(1, 4, 9);
    let d = c.range(1, 4);
    let base: Vec<Arc<Mle>> = (0..d).map(|_| Arc::new(Mle::from_evaluations_vec(nv, c.rand_table(nv)))).collect();
    let mut a = VirtualPolynomial::new(nv);
    a.add_mle_list(base.clone(), F::one()).unwrap();
    let mut b = VirtualPolynomial::new(nv);
    b.add_mle_list(base.clone(), F::one()).unwrap();
    // add k * prod of factors in variable 0 that vanish at chosen integers
    let keep = c.range(0, d); // the evaluation that changes; the others stay
    let mut fs = vec![];
    for j in 0..=d {
        if j != keep {
            let t: Vec<F> = (0..1usize << nv).map(|i| F::from((i & 1) as u64) - F::from(j as u64)).collect();
            fs.push(Arc::new(Mle::from_evaluations_vec(nv, t)));
        }
    }
    b.add_mle_list(fs, c.nz()).unwrap();
    let mut ta = seeded(c);
    let mut tb = ta.clone();
    c.describe(format!("nv={} degree={} changed evaluation={} case={}", nv, d, keep, c.idx));
    c.nontrivial();
    let pa = <P as SumCheck<F>>::prove(&a, &mut ta).map_err(|e| v("prove_err", e))?;
    let pb = <P as SumCheck<F>>::prove(&b, &mut tb).map_err(|e| v("prove_err", e))?;
    let (ma, mb) = (pa.proofs[0].verif_evaluations(), pb.proofs[0].verif_evaluations());
    for j in 0..=d {
        ensure!((ma[j] == mb[j]) == (j != keep), "round_message", "evaluation {} of the first messages: equal={}", j, ma[j] == mb[j]);
    }
    for i in 0..nv {
        ensure!(pa.point[i] != pb.point[i], "challenge_not_bound", "challenge {} does not depend on evaluation {} of the first message", i, keep);
    }
    ensure!(chal(&ta) != chal(&tb), "transcript_not_bound", "the transcript does not depend on the messages");
    // the shape is bound too
    let mut t1 = <P as SumCheck<F>>::init_transcript();
    let mut t2 = <P as SumCheck<F>>::init_transcript();
    let z = Arc::new(Mle::from_evaluations_vec(nv, vec![F::zero(); 1 << nv]));
    let mut za = VirtualPolynomial::new(nv);
    za.add_mle_list(vec![z.clone()], F::one()).unwrap();
    let mut zb = VirtualPolynomial::new(nv);
    zb.add_mle_list(vec![z.clone(), z], F::one()).unwrap();
    let p1 = <P as SumCheck<F>>::prove(&za, &mut t1).map_err(|e| v("prove_err", e))?;
    let p2 = <P as SumCheck<F>>::prove(&zb, &mut t2).map_err(|e| v("prove_err", e))?;
    ensure!(p1.point[0] != p2.point[0], "shape_not_bound", "the challenges do not depend on the announced shape");
    c.count("challenge pairs compared", nv as u64);
    Ok(())
}

// ---------------------------------------------------------------- C06
/// polynomial that vanishes on the hypercube without being the zero polynomial
fn zero_vp(c: &mut Ctx, nv: usize) -> (VirtualPolynomial<F>, RefVp) {
    let mut vp = VirtualPolynomial::new(nv);
    let mut rf = RefVp { nv, terms: vec![] };
    let push = |vp: &mut VirtualPolynomial<F>, rf: &mut RefVp, co: F, fs: Vec<Vec<F>>| {
        let ms: Vec<Arc<Mle>> = fs.iter().map(|t| Arc::new(Mle::from_evaluations_vec(nv, t.clone()))).collect();
        vp.add_mle_list(ms, co).unwrap();
        rf.terms.push((co, fs));
    };
    let n = c.range(1, 3);
    for _ in 0..n {
        let co = c.nz();
        match c.range(0, 3) {
            0 => {
                // a*b - (ab)
                let (a, b) = (c.rand_table(nv), c.rand_table(nv));
                let ab: Vec<F> = a.iter().zip(&b).map(|(x, y)| *x * y).collect();
                push(&mut vp, &mut rf, co, vec![a, b]);
                push(&mut vp, &mut rf, -co, vec![ab]);
            },
            1 => {
                // disjoint supports
                let mask: Vec<bool> = (0..1 << nv).map(|_| c.coin(1, 2)).collect();
                let a: Vec<F> = mask.iter().map(|m| if *m { c.rand_f() } else { F::zero() }).collect();
                let b: Vec<F> = mask.iter().map(|m| if *m { F::zero() } else { c.rand_f() }).collect();
                let x = c.rand_table(nv);
                push(&mut vp, &mut rf, co, vec![a, b, x]);
            },
            2 => {
                // boolean: s^2 - s
                let s: Vec<F> = (0..1 << nv).map(|_| F::from(c.coin(1, 2) as u64)).collect();
                push(&mut vp, &mut rf, co, vec![s.clone(), s.clone()]);
                push(&mut vp, &mut rf, -co, vec![s]);
            },
            _ => push(&mut vp, &mut rf, co, vec![vec![F::zero(); 1 << nv]]),
        }
    }
    (vp, rf)
}
fn c06_complete(c: &mut Ctx) -> Res {
    let nv = c.dim(1, 6, 9);
    let (vp, rf) = zero_vp(c, nv);
    c.describe(vp_desc(&rf));
    c.nontrivial();
    let mut tp = seeded(c);
    tp.append_field_element(b"s", &F::one()).unwrap();
    let mut tv = tp.clone();
    let p = <P as ZeroCheck<F>>::prove(&vp, &mut tp).map_err(|e| v("prove_err", e))?;
    let s = <P as ZeroCheck<F>>::verify(&p, &vp.aux_info, &mut tv).map_err(|e| v("honest_rejected", e))?;
    ensure!(s.point == p.point && s.init_challenge.len() == nv, "point", "verifier's point differs from the prover's");
    ensure!(s.expected_evaluation == rf.eval(&s.point), "subclaim", "subclaim of an honest zero check is false");
    ensure!(chal(&tp) == chal(&tv), "transcript_sync", "prover and verifier transcripts differ");
    c.count("honest zero checks accepted", 1);
    Ok(())
}
fn c06_reject(c: &mut Ctx) -> Res {
    let nv = c.dim(1, 6, 9);
    let (mut vp, mut rf) = zero_vp(c, nv);
    // break it: one entry, or several entries that cancel in the plain sum
    let mut t = vec![F::zero(); 1 << nv];
    let kind = c.range(0, 3);
    let i = match c.range(0, 3) {
        0 => 0,
        1 => (1 << nv) - 1,
        _ => c.range(0, (1 << nv) - 1),
    };
    let e = c.nz();
    match kind {
        0 => t[i] = e,
        1 => {
            t[i] = e;
            t[(i + 1) % (1 << nv)] = -e;
        },
        2 => {
            // alternating over the whole cube
            for (j, x) in t.iter_mut().enumerate() {
                *x = if j.count_ones() % 2 == 0 { e } else { -e };
            }
        },
        _ => {
            // antisymmetric in the lowest variable
            for j in 0..t.len() / 2 {
                let r = c.rand_f();
                t[2 * j] = r;
                t[2 * j + 1] = -r;
            }
        },
    }
    c.describe(format!("{} broken: kind={} at={} by={}", vp_desc(&rf), kind, i, sf(&e)));
    c.nontrivial();
    vp.add_mle_list(vec![Arc::new(Mle::from_evaluations_vec(nv, t.clone()))], F::one()).unwrap();
    rf.terms.push((F::one(), vec![t]));
    let mut tp = seeded(c);
    tp.append_field_element(b"s", &F::one()).unwrap();
    let mut tv = tp.clone();
    let mut p = <P as ZeroCheck<F>>::prove(&vp, &mut tp).map_err(|e| v("prove_err", e))?;
    if c.coin(1, 2) {
        // help it through the first check
        let m = p.proofs[0].verif_evaluations_mut();
        let s = m[0] + m[1];
        m[c.idx as usize % 2] -= s;
    }
    match guard(|| <P as ZeroCheck<F>>::verify(&p, &vp.aux_info, &mut tv)) {
        Err(_) | Ok(Err(_)) => c.count("false zero checks refused", 1),
        Ok(Ok(s)) => {
            c.count("false zero checks with a false subclaim", 1);
            ensure!(s.expected_evaluation != rf.eval(&s.point), "nonzero_accepted", "a polynomial that is not zero passes the zero check with a true subclaim");
        },
    }
    Ok(())
}
fn c06_adaptive(c: &mut Ctx) -> Res {
    // forged messages for a non-zero polynomial, adapted to every challenge
    let nv = c.dim(1, 4, 9);
    let (vp, mut rf) = zero_vp(c, nv);
    let i = c.range(0, (1 << nv) - 1);
    let mut t = vec![F::zero(); 1 << nv];
    t[i] = c.nz();
    rf.terms.push((F::one(), vec![t]));
    c.describe(format!("{} broken at {}", vp_desc(&rf), i));
    c.nontrivial();
    let mut tv = seeded(c);
    tv.append_field_element(b"s", &F::one()).unwrap();
    let mut t = tv.clone();
    let r = t.get_and_append_challenge_vectors(b"0check r", nv).unwrap();
    let mut hat = rf.clone();
    for term in hat.terms.iter_mut() {
        term.1.push(chi(&r));
    }
    let mut aux = vp.aux_info.clone();
    aux.max_degree = hat.degree();
    let p = forge(c, &hat, &aux, F::zero(), &t);
    aux.max_degree -= 1;
    match guard(|| <P as ZeroCheck<F>>::verify(&p, &aux, &mut tv)) {
        Err(_) | Ok(Err(_)) => c.count("forgeries refused", 1),
        Ok(Ok(s)) => {
            c.count("forgeries that pass every round", 1);
            ensure!(s.expected_evaluation != rf.eval(&s.point), "forged", "a forged zero check ends in a true subclaim");
        },
    }
    Ok(())
}
