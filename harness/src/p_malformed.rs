//! C11: structurally malformed proofs must be refused with an error.
//! The compiled-proof family lives in p_tracker.rs.
use crate::{ctx::*, ensure, p_arith::gen_vp, p_pcs::*, run::*};
use ark_ff::{One, Zero};
use std::sync::Arc;
use zk_sql::{
    arithmetic::VirtualPolynomial,
    subroutines::{
        pcs::{prelude::*, PolynomialCommitmentScheme},
        poly_iop::{prelude::*, structs::IOPProverMessage},
    },
    transcript::IOPTranscript,
};

type P = PolyIOP<F>;
type T = IOPTranscript<F>;

pub fn families() -> Vec<Family> {
    vec![
        fam("C11", "sumcheck", REL | DBG, 3200, 120000, c11_sumcheck),
        fam("C11", "zerocheck", REL | DBG, 3200, 120000, c11_zerocheck),
        fam("C11", "opening", REL | DBG, 2400, 64000, c11_opening),
        fam("C11", "batch", REL | DBG, 3200, 96000, c11_batch),
        fam("C11", "batch_prover", REL | DBG, 800, 16000, c11_batch_prover),
    ]
}
fn v(sig: &str, e: impl std::fmt::Display) -> Viol {
    Viol { sig: sig.into(), msg: e.to_string() }
}
/// drop, empty, repeat or add list elements; says what was done
pub fn mangle<X: Clone>(c: &mut Ctx, l: &mut Vec<X>, extra: impl FnOnce(&mut Ctx) -> X) -> String {
    match c.range(0, 5) {
        0 => {
            l.clear();
            "emptied".into()
        },
        1 if !l.is_empty() => {
            l.pop();
            "last dropped".into()
        },
        2 if !l.is_empty() => {
            l.remove(0);
            "first dropped".into()
        },
        3 if !l.is_empty() => {
            let i = c.range(0, l.len() - 1);
            let x = l[i].clone();
            l.push(x);
            format!("element {} repeated at the end", i)
        },
        4 if l.len() > 1 => {
            let n = c.range(1, l.len() - 1);
            l.truncate(n);
            format!("cut to {}", n)
        },
        _ => {
            let x = extra(c);
            l.push(x);
            "one added".into()
        },
    }
}
/// structural damage to a sumcheck proof
pub fn mangle_sc(c: &mut Ctx, p: &mut IOPProof<F>, rounds_only: bool) -> String {
    match c.range(0, if rounds_only { 1 } else { 2 }) {
        0 => {
            let n = p.proofs.get(0).map_or(2, |m| m.verif_evaluations().len());
            format!("rounds {}", mangle(c, &mut p.proofs, |c| IOPProverMessage::verif_new((0..n).map(|_| c.felt()).collect())))
        },
        1 => {
            if p.proofs.is_empty() {
                return String::new();
            }
            let i = c.range(0, p.proofs.len() - 1);
            format!("evaluations of round {} {}", i, mangle(c, p.proofs[i].verif_evaluations_mut(), |c| c.felt()))
        },
        _ => format!("point {}", mangle(c, &mut p.point, |c| c.felt())),
    }
}
fn hist(c: &mut Ctx) -> T {
    let mut t = T::new(b"m");
    let f = c.rand_f();
    t.append_field_element(b"init", &f).unwrap();
    t
}
/// one message per announced variable, each with the announced number of evaluations
fn shaped(p: &zk_sql::subroutines::IOPProof<F>, nv: usize, evals: usize) -> bool {
    p.proofs.len() == nv && p.proofs.iter().all(|m| m.verif_evaluations().len() == evals)
}
fn c11_sumcheck(c: &mut Ctx) -> Res {
    let nv = c.range(1, 4);
    let (vp, rf) = gen_vp(c, nv, 4, 3);
    let mut tp = hist(c);
    let tv = tp.clone();
    let honest = <P as SumCheck<F>>::prove(&vp, &mut tp).map_err(|e| v("prove_err", e))?;
    let mut p = honest.clone();
    let mut aux = vp.aux_info.clone();
    let mut what = vec![];
    for _ in 0..c.range(1, 2) {
        what.push(match c.range(0, 6) {
            0 => {
                aux.num_variables = *c.pick(&[0, nv - 1, nv + 1, nv + 7, 1 << 40, usize::MAX]);
                format!("announced variables {}", aux.num_variables)
            },
            1 => {
                aux.max_degree = *c.pick(&[0, rf.degree().saturating_sub(1), rf.degree() + 1, 1 << 20, usize::MAX]);
                format!("announced degree {}", aux.max_degree)
            },
            _ => mangle_sc(c, &mut p, true),
        });
    }
    if aux.max_degree == 0 && c.coin(1, 2) {
        for m in p.proofs.iter_mut() {
            m.verif_evaluations_mut().truncate(1);
        }
        what.push("one evaluation per round".into());
    }
    c.describe(format!("nv={} degree={} case={}: {}", nv, rf.degree(), c.idx, what.join(", ")));
    if p == honest && aux == vp.aux_info {
        return Ok(());
    }
    c.nontrivial();
    let sum = if c.coin(1, 5) { F::zero() } else { rf.sum() };
    match guard(|| <P as SumCheck<F>>::verify(sum, &p, &aux, &mut tv.clone())) {
        Err(m) => viol("panic", format!("sumcheck verification panics: {}", m)),
        Ok(Ok(_)) if shaped(&p, aux.num_variables, aux.max_degree.saturating_add(1)) => {
            c.count("well-shaped after all", 1);
            Ok(())
        },
        Ok(Ok(_)) => viol("accepted", "a malformed sumcheck proof is accepted"),
        Ok(Err(_)) => {
            c.count("malformed sumcheck proofs refused", 1);
            Ok(())
        },
    }
}
fn c11_zerocheck(c: &mut Ctx) -> Res {
    let nv = c.range(1, 4);
    let mut vp = VirtualPolynomial::new(nv);
    let a = Arc::new(c.mle(nv));
    let z = Arc::new(Mle::from_evaluations_vec(nv, vec![F::zero(); 1 << nv]));
    vp.add_mle_list(vec![a; c.range(1, 2)], F::one()).unwrap();
    vp.mul_by_mle(z, F::one()).unwrap();
    let mut tp = hist(c);
    let tv = tp.clone();
    let honest = <P as ZeroCheck<F>>::prove(&vp, &mut tp).map_err(|e| v("prove_err", e))?;
    let mut p = honest.clone();
    let mut aux = vp.aux_info.clone();
    let mut what = vec![];
    for _ in 0..c.range(1, 2) {
        what.push(match c.range(0, 6) {
            0 => {
                aux.num_variables = *c.pick(&[0, nv - 1, nv + 1, nv + 7, 1 << 40, usize::MAX]);
                format!("announced variables {}", aux.num_variables)
            },
            1 => {
                aux.max_degree = *c.pick(&[0, vp.aux_info.max_degree - 1, vp.aux_info.max_degree + 1, 1 << 20, usize::MAX - 1, usize::MAX]);
                format!("announced degree {}", aux.max_degree)
            },
            _ => mangle_sc(c, &mut p, true),
        });
    }
    c.describe(format!("nv={} case={}: {}", nv, c.idx, what.join(", ")));
    if p == honest && aux == vp.aux_info {
        return Ok(());
    }
    c.nontrivial();
    match guard(|| <P as ZeroCheck<F>>::verify(&p, &aux, &mut tv.clone())) {
        Err(m) => viol("panic", format!("zerocheck verification panics: {}", m)),
        Ok(Ok(_)) if shaped(&p, aux.num_variables, aux.max_degree.saturating_add(2)) => {
            c.count("well-shaped after all", 1);
            Ok(())
        },
        Ok(Ok(_)) => viol("accepted", "a malformed zerocheck proof is accepted"),
        Ok(Err(_)) => {
            c.count("malformed zerocheck proofs refused", 1);
            Ok(())
        },
    }
}
fn c11_opening(c: &mut Ctx) -> Res {
    let n = c.range(1, 5);
    let nv = c.range(1, n);
    let (ck, vk) = keys(n);
    // a polynomial that ignores some variables has zero proof elements
    let f = if c.coin(1, 2) {
        let x = c.felt();
        Mle::from_evaluations_vec(nv, vec![x; 1 << nv])
    } else {
        c.mle(nv)
    };
    let x = c.point(nv);
    let cm = Pcs::commit(ck, &f).map_err(|e| v("commit_err", e))?;
    let (honest, y) = Pcs::open(ck, &f, &x).map_err(|e| v("open_err", e))?;
    let mut p = honest.clone();
    let g = ck.g;
    let z = ark_bls12_381::G1Affine::identity();
    let what = mangle(c, &mut p.proofs, |c| if c.coin(1, 2) { g } else { z });
    c.describe(format!("params={} nv={} case={}: {}", n, nv, c.idx, what));
    c.nontrivial();
    match guard(|| Pcs::verify(vk, &cm, &x, &y, &p)) {
        Err(m) => viol("panic", format!("verification panics: {}", m)),
        Ok(Ok(true)) => viol("accepted", "an opening proof with a wrong number of elements is accepted"),
        _ => {
            c.count("malformed openings refused", 1);
            Ok(())
        },
    }
}
fn c11_batch(c: &mut Ctx) -> Res {
    let b = gen_batch(c, 5, false)?;
    let k = b.polys.len();
    let (ck, vk) = keys(b.n);
    let mut tp = hist(c);
    let tv = tp.clone();
    let honest = Pcs::multi_open(ck, &b.polys, &b.points, &b.evals, &mut tp).map_err(|e| v("open_err", e))?;
    let mut p = honest.clone();
    let (mut comms, mut points) = (b.comms.clone(), b.points.clone());
    let mut what = vec![];
    for _ in 0..c.range(1, 2) {
        what.push(match c.range(0, 6) {
            0 => format!("values {}", mangle(c, &mut p.f_i_eval_at_point_i, |c| c.felt())),
            1 => {
                let g = ck.g;
                format!("opening elements {}", mangle(c, &mut p.verif_parts_mut().1.proofs, |_| g))
            },
            2 => {
                let m = b.comms[0];
                format!("commitments {}", mangle(c, &mut comms, |_| m))
            },
            3 => {
                let x = b.points[0].clone();
                format!("points {}", mangle(c, &mut points, |_| x))
            },
            4 => {
                if points.is_empty() {
                    continue;
                }
                let i = c.range(0, points.len() - 1);
                format!("point {} {}", i, mangle(c, &mut points[i], |c| c.felt()))
            },
            _ => mangle_sc(c, p.verif_parts_mut().0, false),
        });
    }
    c.describe(format!("{}: {}", b.desc, what.join(", ")));
    if p == honest && comms == b.comms && points == b.points {
        return Ok(());
    }
    c.nontrivial();
    let _ = k;
    match guard(|| Pcs::batch_verify(vk, &comms, &points, &p, &mut tv.clone())) {
        Err(m) => viol("panic", format!("batch verification panics: {}", m)),
        Ok(Ok(true)) => viol("accepted", "a malformed batch proof is accepted"),
        _ => {
            c.count("malformed batch proofs refused", 1);
            Ok(())
        },
    }
}
/// the prover side refuses inconsistent requests too
fn c11_batch_prover(c: &mut Ctx) -> Res {
    let b = gen_batch(c, 5, false)?;
    let ck = &keys(b.n).0;
    let (mut polys, mut points, mut evals) = (b.polys.clone(), b.points.clone(), b.evals.clone());
    let nv = points[0].len();
    let what = match c.range(0, 4) {
        0 => format!("values {}", mangle(c, &mut evals, |c| c.felt())),
        1 => {
            let x = points[0].clone();
            format!("points {}", mangle(c, &mut points, |_| x))
        },
        2 => {
            let i = c.range(0, points.len() - 1);
            format!("point {} {}", i, mangle(c, &mut points[i], |c| c.felt()))
        },
        3 => {
            let i = c.range(0, polys.len() - 1);
            polys[i] = Arc::new(c.mle(nv + 1));
            format!("polynomial {} has another size", i)
        },
        _ => {
            polys.clear();
            points.clear();
            evals.clear();
            "nothing to open".into()
        },
    };
    c.describe(format!("{}: {}", b.desc, what));
    c.nontrivial();
    match guard(|| Pcs::multi_open(ck, &polys, &points, &evals, &mut hist(c))) {
        Err(m) => viol("panic", format!("batch opening panics: {}", m)),
        Ok(Ok(_)) => viol("accepted", "an inconsistent batch opening request succeeds"),
        Ok(Err(_)) => {
            c.count("inconsistent requests refused", 1);
            Ok(())
        },
    }
}
