//! C12..C18 the trackers and the compiled proof, C11 malformed compiled proofs.
use crate::{ctx::*, ensure, p_pcs::*, refs::*, run::*, sim::*};
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{One, Zero};
use ark_serialize::CanonicalSerialize;
use ark_std::rand::SeedableRng;
use rand_chacha::ChaCha20Rng;
use std::{
    rc::Rc,
    sync::{Arc, OnceLock},
};
use zk_sql::{
    subroutines::{
        pcs::{prelude::Commitment, PolynomialCommitmentScheme},
        poly_iop::prelude::{PolyIOP, SumCheck},
    },
    tracker::prelude::*,
};

pub fn families() -> Vec<Family> {
    vec![
        fam("C11", "compiled", REL | DBG, 4800, 30000, c11_compiled),
        fam("C12", "algebra", REL | DBG, 12000, 40000, c12_algebra),
        fam("C12", "handles", REL | DBG, 3200, 6000, c12_handles),
        fam("C13", "reads", REL | DBG, 6000, 15000, c13_reads),
        fam("C13", "bases", REL | DBG, 6000, 20000, c13_bases),
        fam("C14", "tracker", REL | DBG, 8000, 20000, c14_tracker),
        fam("C15", "prover_copy", REL | DBG, 5000, 15000, c15_prover),
        fam("C15", "verifier_copy", REL | DBG, 5000, 15000, c15_verifier),
        fam("C16", "complete", REL | DBG, 2500, 15000, c16_complete),
        fam("C17", "false_claim", REL | DBG, 7000, 20000, c17_false),
        fam("C18", "alter", REL | DBG, 5400, 25000, c18_alter),
        fam("C18", "forged", REL | DBG, 1200, 6000, c18_forged),
        fam("C12", "algebra_large", REL | DBG, 160, 1600, |c| grown(c, 4, c12_algebra)),
        fam("C13", "reads_large", REL | DBG, 120, 1200, |c| grown(c, 3, c13_reads)),
        fam("C14", "tracker_large", REL | DBG, 120, 1200, |c| grown(c, 3, c14_tracker)),
        fam("C15", "prover_copy_large", REL | DBG, 120, 1200, |c| grown(c, 3, c15_prover)),
        fam("C16", "complete_large", REL | DBG, 120, 1000, |c| grown(c, 3, c16_complete)),
        fam("C17", "false_claim_large", REL | DBG, 120, 1000, |c| grown(c, 3, c17_false)),
        fam("C18", "alter_large", REL | DBG, 120, 1000, |c| grown(c, 3, c18_alter)),
    ]
}
fn v(sig: &str, e: impl std::fmt::Display) -> Viol {
    Viol { sig: sig.into(), msg: e.to_string() }
}

// ---------------------------------------------------------------- C12
fn c12_algebra(c: &mut Ctx) -> Res {
    let n = c.dim(1, 4, 6);
    let g = Gen { n, leaves: c.wide(1, 3, 9), ops: c.wide(1, 10, 30), mixed: c.coin(2, 3), ext: true, public: true, transcript: false, max_terms: 24, max_deg: 5 };
    let (ops, ex) = program(c, &g);
    let mut s = Sim::new(n);
    c.describe(ops.iter().map(show).collect::<Vec<_>>().join(" "));
    c.nontrivial();
    for op in &ops {
        s.run(op)?;
    }
    let objs = s.objs.clone();
    for (k, o) in objs.iter().enumerate() {
        ensure!(nv(&o.e) == nv(&ex[k]), "harness", "program replay");
        ensure!(o.p.num_vars() == nv(&o.e), "num_vars", "object {} has {} variables, the expression {}", k, o.p.num_vars(), nv(&o.e));
    }
    for _ in 0..3 {
        let k = c.range(0, objs.len() - 1);
        let o = &objs[k];
        let nvk = nv(&o.e);
        let x = if c.coin(1, 4) { hyper(c.range(0, (1 << nvk) - 1), nvk) } else { c.rand_point(nvk) };
        let want = val(&o.e, &x);
        let got = o.p.evaluate(&x);
        ensure!(got == Some(want), "prover_value", "object {} at {}: {:?} instead of {}", k, sv(&x), got.map(|y| sf(&y)), sf(&want));
        let a = o.p.to_arithmatic_virtual_poly();
        ensure!(a.aux_info.num_variables == nvk, "arith_nv", "arithmetic form of object {} has {} variables", k, a.aux_info.num_variables);
        let got = a.evaluate(&x).map_err(|e| v("arith_err", e))?;
        ensure!(got == want, "arith_value", "arithmetic form of object {} at {}: {} instead of {}", k, sv(&x), sf(&got), sf(&want));
        s.feed(&o.e, &x);
        let got = o.v.eval_virtual_comm(&x).map_err(|e| v("comm_err", e))?;
        ensure!(got == want, "comm_value", "commitment {} at {}: {} instead of {}", k, sv(&x), sf(&got), sf(&want));
        let t = o.p.evaluations();
        ensure!(t == tab(&o.e), "table", "object {} on the hypercube: {} instead of {}", k, sv(&t), sv(&tab(&o.e)));
        c.count("objects compared on both sides", 1);
    }
    Ok(())
}
/// equality of handles, and refusal to mix trackers and sizes
fn c12_handles(c: &mut Ctx) -> Res {
    let n = c.range(2, 3);
    let mut a = Sim::new(n);
    let mut b = Sim::new(n);
    let g = Gen { n, leaves: 2, ops: c.wide(1, 5, 25), mixed: false, ext: false, public: true, transcript: false, max_terms: 16, max_deg: 4 };
    let (ops, _) = program(c, &g);
    for op in &ops {
        a.run(op)?;
        b.run(op)?;
    }
    c.describe(ops.iter().map(show).collect::<Vec<_>>().join(" "));
    c.nontrivial();
    let m = a.objs.len();
    let (i, j) = (c.range(0, m - 1), c.range(0, m - 1));
    let (x, y, z) = (&a.objs[i], &a.objs[j], &b.objs[i]);
    ensure!((x.p == y.p) == (i == j), "poly_eq", "handles of objects {} and {} of one tracker compare {}", i, j, x.p == y.p);
    ensure!(x.p != z.p, "poly_eq_other", "handles of different trackers compare equal");
    ensure!((x.v == y.v) == (i == j), "comm_eq", "commitment handles of objects {} and {} of one tracker compare {}", i, j, x.v == y.v);
    ensure!(x.v != z.v, "comm_eq_other", "commitment handles of different trackers compare equal");
    ensure!(x.p == x.p.clone() && x.v == x.v.clone(), "clone_eq", "a cloned handle differs");
    ensure!(x.p.same_tracker(&y.p) && !x.p.same_tracker(&z.p), "same_tracker", "same_tracker on polynomials");
    ensure!(x.v.same_tracker(&y.v) && !x.v.same_tracker(&z.v), "same_tracker", "same_tracker on commitments");
    ensure!(a.p == a.p.clone() && a.p != b.p && a.v == a.v.clone() && a.v != b.v, "ref_eq", "tracker references");
    let k = c.range(0, m - 1);
    let w = &a.objs[k];
    let bp = (Bag::new(x.p.clone(), y.p.clone()), Bag::new(x.p.clone(), w.p.clone()), Bag::new(w.p.clone(), y.p.clone()));
    ensure!((bp.0 == bp.1) == (j == k) && (bp.0 == bp.2) == (i == k), "bag_eq", "bags of polynomials");
    let bc = (BagComm::new(x.v.clone(), y.v.clone(), n), BagComm::new(x.v.clone(), w.v.clone(), n), BagComm::new(w.v.clone(), y.v.clone(), n));
    ensure!((bc.0 == bc.1) == (j == k) && (bc.0 == bc.2) == (i == k), "bagcomm_eq", "bags of commitments");
    // refusals
    let which = c.range(0, 6);
    let small = a.p.track_mat_poly(Mle::from_evaluations_vec(n - 1, vec![F::one(); 1 << (n - 1)]));
    let r = match which {
        0 => guard(|| x.p.add_poly(&z.p).id),
        1 => guard(|| x.p.sub_poly(&z.p).id),
        2 => guard(|| x.p.mul_poly(&z.p).id),
        3 => guard(|| x.v.add_comms(&z.v).id),
        4 => guard(|| x.v.sub_comms(&z.v).id),
        5 => guard(|| x.v.mul_comms(&z.v).id),
        _ => guard(|| match c.range(0, 2) {
            0 => x.p.add_poly(&small).id,
            1 => x.p.sub_poly(&small).id,
            _ => x.p.mul_poly(&small).id,
        }),
    };
    ensure!(r.is_err(), "mixed", "combination {} of foreign or differently sized objects is accepted", which);
    c.count("handle comparisons", 14);
    Ok(())
}

// ---------------------------------------------------------------- C13
type Bytes = Vec<u8>;
pub fn proof_bytes(p: &CProof) -> Bytes {
    let mut b = vec![];
    let mut ids: Vec<_> = p.comms.keys().copied().collect();
    ids.sort();
    for i in ids {
        b.extend(i.0.to_le_bytes());
        p.comms[&i].serialize_compressed(&mut b).unwrap();
    }
    let mut ids: Vec<_> = p.sumcheck_claims.keys().copied().collect();
    ids.sort();
    for i in ids {
        b.extend(i.0.to_le_bytes());
        p.sumcheck_claims[&i].serialize_compressed(&mut b).unwrap();
    }
    p.sc_aux_info.serialize_compressed(&mut b).unwrap();
    sc_bytes(&p.sc_proof, &mut b);
    for q in &p.pcs_proof {
        let (sc, op) = q.verif_parts();
        sc_bytes(sc, &mut b);
        op.serialize_compressed(&mut b).unwrap();
        q.f_i_eval_at_point_i.serialize_compressed(&mut b).unwrap();
    }
    b
}
pub fn sc_bytes(p: &zk_sql::subroutines::IOPProof<F>, b: &mut Bytes) {
    p.point.serialize_compressed(&mut *b).unwrap();
    for m in &p.proofs {
        m.serialize_compressed(&mut *b).unwrap();
    }
}
/// One run is asked questions all the time, the other one never: afterwards
/// they must be indistinguishable, down to the compiled proof.
fn c13_reads(c: &mut Ctx) -> Res {
    let n = c.dim(1, 3, 6);
    let g = Gen { n, leaves: c.wide(1, 3, 9), ops: c.wide(2, 9, 29), mixed: c.coin(1, 2), ext: true, public: true, transcript: true, max_terms: 16, max_deg: 4 };
    let (mut ops, ex) = program(c, &g);
    for _ in 0..c.range(0, 3) {
        let i = c.range(0, ex.len() - 1);
        ops.push(if c.coin(1, 2) { Op::Zero(i) } else { Op::Sum(i, tab(&ex[i]).iter().sum()) });
        again(c, &mut ops);
    }
    let ck = &keys(n).0;
    let mut quiet = PT::new_from_pcs_params(ck.clone());
    let mut asked = PT::new_from_pcs_params(ck.clone());
    let a = prover_side(&mut quiet, &ops).map_err(|e| v("op_error", e))?;
    let mut asked_log = vec![];
    // grow the second run one operation at a time
    let mut b: Vec<TPoly> = vec![];
    let mut kept = vec![];
    for op in &ops {
        let new = one_prover_op(&mut asked, &b, op)?;
        b.extend(new);
        while !b.is_empty() && c.coin(1, 2) {
            let i = c.range(0, b.len() - 1);
            let kind = c.range(0, 5);
            asked_log.push(format!("{}?{}", i, kind));
            match kind {
                0 | 1 => kept.push((i, b[i].evaluations())),
                2 => {
                    let x = c.rand_point(b[i].num_vars());
                    b[i].evaluate(&x);
                },
                3 => {
                    b[i].to_arithmatic_virtual_poly();
                },
                4 => {
                    asked.deep_copy();
                    asked.clone_underlying_tracker();
                },
                _ => {
                    asked.get_next_id();
                    b[i].num_vars();
                },
            }
            c.count("reads", 1);
        }
    }
    c.describe(format!("{} | reads {}", ops.iter().map(show).collect::<Vec<_>>().join(" "), asked_log.join(",")));
    if asked_log.is_empty() {
        return Ok(());
    }
    c.nontrivial();
    for (i, t) in kept {
        ensure!(t == tab(&ex[i]), "table", "hypercube values of object {} are wrong", i);
    }
    let (mut ta, mut tb) = (quiet.clone_underlying_tracker(), asked.clone_underlying_tracker());
    ensure!(ta.id_counter == tb.id_counter, "counter", "next identifier {} instead of {}", tb.id_counter, ta.id_counter);
    for i in 0..a.len() {
        ensure!(a[i].id == b[i].id, "ids", "object {} got identifier {} instead of {}", i, b[i].id, a[i].id);
        let x = c.rand_point(nv(&ex[i]));
        let (p, q, w) = (a[i].evaluate(&x), b[i].evaluate(&x), val(&ex[i], &x));
        ensure!(q == p, "value", "object {} ({}) at a random point: {:?} after reads, {:?} without", i, show_obj(&ops, i), q.map(|y| sf(&y)), p.map(|y| sf(&y)));
        ensure!(p == Some(w), "value_ref", "object {} at a random point differs from its expression", i);
        let (p, q) = (a[i].to_arithmatic_virtual_poly(), b[i].to_arithmatic_virtual_poly());
        ensure!(p.aux_info == q.aux_info, "arith", "arithmetic form of object {} has degree {} after reads, {} without", i, q.aux_info.max_degree, p.aux_info.max_degree);
        ensure!(p.evaluate(&x).ok() == q.evaluate(&x).ok(), "arith", "arithmetic form of object {}", i);
    }
    ensure!(ta.sum_check_claims == tb.sum_check_claims && ta.zero_check_claims == tb.zero_check_claims, "claims", "recorded claims differ");
    ensure!(ta.get_and_append_challenge(b"probe").unwrap() == tb.get_and_append_challenge(b"probe").unwrap(), "transcript", "the next challenge differs");
    // the compiled proofs
    let (pa, pb) = (guard(|| quiet.compile_proof()), guard(|| asked.compile_proof()));
    match (pa, pb) {
        (Ok(Ok(x)), Ok(Ok(y))) => {
            ensure!(proof_bytes(&x) == proof_bytes(&y), "proof", "the compiled proofs differ");
            c.count("compiled proofs compared", 1);
        },
        (Ok(Ok(_)), _) => return viol("proof", "compiling fails after reads"),
        (_, Ok(Ok(_))) => return viol("proof", "compiling succeeds only after reads"),
        _ => {},
    }
    Ok(())
}
fn show_obj(ops: &[Op], i: usize) -> String {
    ops.iter().filter(|o| !matches!(o, Op::Challenge | Op::Absorb(_) | Op::Zero(_) | Op::Sum(..))).nth(i).map(show).unwrap_or_default()
}
fn one_prover_op(p: &mut PT, o: &[TPoly], op: &Op) -> Result<Option<TPoly>, Viol> {
    Ok(Some(match op {
        Op::Commit(n, t) => p.track_and_commit_poly(Mle::from_evaluations_vec(*n, t.to_vec())).map_err(|e| v("op_error", e))?,
        Op::Public(n, t) => p.track_mat_poly(Mle::from_evaluations_vec(*n, t.to_vec())),
        Op::Add(i, j) => o[*i].add_poly(&o[*j]),
        Op::Sub(i, j) => o[*i].sub_poly(&o[*j]),
        Op::Mul(i, j) => o[*i].mul_poly(&o[*j]),
        Op::Scale(i, c) => o[*i].mul_scalar(*c),
        Op::Shift(i, c) => o[*i].add_scalar(*c),
        Op::Front(i, k) => o[*i].increase_nv_front(*k),
        Op::Back(i, k) => o[*i].increase_nv_back(*k),
        Op::Challenge => {
            p.get_and_append_challenge(b"probe").map_err(|e| v("op_error", e))?;
            return Ok(None);
        },
        Op::Absorb(x) => {
            p.append_serializable_element(b"probe", x).map_err(|e| v("op_error", e))?;
            return Ok(None);
        },
        Op::Zero(i) => {
            p.add_zerocheck_claim(o[*i].id);
            return Ok(None);
        },
        Op::Sum(i, s) => {
            p.add_sumcheck_claim(o[*i].id, *s);
            return Ok(None);
        },
    }))
}
/// Building an extension (or anything else) from a polynomial leaves the
/// polynomial and everything built from it before as it was.
fn c13_bases(c: &mut Ctx) -> Res {
    let n = c.dim(1, 4, 6);
    let g = Gen { n, leaves: c.wide(1, 3, 9), ops: 0, mixed: c.coin(1, 2), ext: true, public: true, transcript: false, max_terms: 16, max_deg: 4 };
    let (ops, mut ex) = program(c, &g);
    let mut p = PT::new_from_pcs_params(keys(n).0.clone());
    let mut o = prover_side(&mut p, &ops).map_err(|e| v("op_error", e))?;
    let mut leaves = ex.len();
    let pts: Vec<Vec<F>> = (0..=n).map(|k| c.rand_point(k)).collect();
    let mut log = ops.iter().map(show).collect::<Vec<_>>();
    let mut r = Ok(());
    for _ in 0..c.range(3, 10) {
        let before: Vec<(Option<F>, usize)> = o.iter().map(|q| (q.evaluate(&pts[q.num_vars()]), q.to_arithmatic_virtual_poly().aux_info.max_degree)).collect();
        let op = next_op(c, &g, &ex);
        log.push(show(&op));
        let new = one_prover_op(&mut p, &o, &op)?;
        if c.coin(1, 2) {
            let i = c.range(0, o.len() - 1);
            log.push(format!("table?{}", i));
            o[i].evaluations();
        }
        for (i, q) in o.iter().enumerate() {
            let now = (q.evaluate(&pts[q.num_vars()]), q.to_arithmatic_virtual_poly().aux_info.max_degree);
            if now != before[i] && r.is_ok() {
                r = viol("changed", format!("object {} ({}) changed its value or degree after {}", i, show_obj(&ops, i), log.last().unwrap()));
            }
        }
        c.count("objects observed around an operation", o.len() as u64);
        step(&mut ex, &mut leaves, &op);
        o.extend(new);
    }
    c.describe(log.join(" "));
    c.nontrivial();
    r
}

// ---------------------------------------------------------------- C14
fn c14_tracker(c: &mut Ctx) -> Res {
    let n = c.dim(1, 3, 6);
    let g = Gen { n, leaves: c.wide(1, 3, 9), ops: c.wide(3, 14, 34), mixed: true, ext: true, public: true, transcript: true, max_terms: 24, max_deg: 5 };
    let (mut ops, ex) = program(c, &g);
    for _ in 0..c.range(0, 4) {
        let i = c.range(0, ex.len() - 1);
        ops.push(if c.coin(1, 2) { Op::Zero(i) } else { Op::Sum(i, c.felt()) });
        again(c, &mut ops);
    }
    c.describe(ops.iter().map(show).collect::<Vec<_>>().join(" "));
    c.nontrivial();
    let mut s = Sim::new(n);
    for op in &ops {
        let before = s.p.get_next_id();
        s.run(op)?;
        let (a, b) = (s.p.get_next_id(), s.v.get_next_id());
        ensure!(a == b, "counter", "after {}: next identifier {} for the prover, {} for the verifier", show(op), a, b);
        ensure!(a >= before, "counter", "identifiers go backwards");
    }
    for (k, o) in s.objs.iter().enumerate() {
        ensure!(o.p.id == o.v.id, "ids", "object {} is {} for the prover and {} for the verifier", k, o.p.id, o.v.id);
        for q in &s.objs[..k] {
            ensure!(q.p.id != o.p.id && q.v.id != o.v.id, "unique", "an identifier is handed out twice");
        }
    }
    lockstep(c, &s.p, &s.v)
}
/// claims, commitments, counters and the transcript agree
pub fn lockstep(c: &mut Ctx, p: &PT, w: &VT) -> Res {
    let (mut a, mut b) = (p.clone_underlying_tracker(), w.clone_underlying_tracker());
    ensure!(a.id_counter == b.id_counter, "counter", "next identifier {} for the prover, {} for the verifier", a.id_counter, b.id_counter);
    ensure!(a.zero_check_claims == b.zero_check_claims, "zero_claims", "zero claims on {:?} (prover) and {:?} (verifier)", a.zero_check_claims.iter().map(|x| x.label.0).collect::<Vec<_>>(), b.zero_check_claims.iter().map(|x| x.label.0).collect::<Vec<_>>());
    ensure!(a.sum_check_claims.iter().map(|x| x.label).eq(b.sum_check_claims.iter().map(|x| x.label)), "sum_claims", "sum claims on different identifiers");
    ensure!(a.sum_check_claims == b.sum_check_claims, "sum_values", "sum claims with different values");
    ensure!(a.materialized_comms == b.materialized_comms, "comms", "different commitments");
    ensure!(a.get_and_append_challenge(b"probe").ok() == b.get_and_append_challenge(b"probe").ok(), "transcript", "the next challenges differ");
    c.count("identifiers in lockstep", a.id_counter as u64);
    c.count("claims in lockstep", (a.zero_check_claims.len() + a.sum_check_claims.len()) as u64);
    Ok(())
}

// ---------------------------------------------------------------- C15
/// what can be seen of a prover tracker
#[derive(PartialEq, Debug)]
struct PView {
    next: usize,
    sums: Vec<(usize, F)>,
    zeros: Vec<usize>,
    challenge: F,
    comms: Vec<(usize, Comm)>,
    values: Vec<Option<F>>,
}
fn pview(p: &PT, objs: &[(TrackerID, usize)], pts: &[Vec<F>]) -> PView {
    let mut t = p.clone_underlying_tracker();
    let mut comms: Vec<_> = t.materialized_comms.iter().map(|(k, v)| (k.0, *v)).collect();
    comms.sort_by_key(|x| x.0);
    PView {
        next: t.id_counter,
        sums: t.sum_check_claims.iter().map(|x| (x.label.0, x.claimed_sum)).collect(),
        zeros: t.zero_check_claims.iter().map(|x| x.label.0).collect(),
        values: objs.iter().map(|(i, n)| t.evaluate(*i, &pts[*n])).collect(),
        challenge: t.get_and_append_challenge(b"probe").unwrap(),
        comms,
    }
}
fn with_claims(c: &mut Ctx, ops: &mut Vec<Op>, m: usize, k: usize) {
    for _ in 0..k {
        let i = c.range(0, m - 1);
        let op = if c.coin(1, 2) { Op::Zero(i) } else { Op::Sum(i, c.felt()) };
        ops.push(op);
        again(c, ops);
    }
}
fn c15_prover(c: &mut Ctx) -> Res {
    let n = c.dim(1, 3, 6);
    let g = Gen { n, leaves: c.wide(1, 3, 9), ops: c.wide(1, 6, 26), mixed: c.coin(1, 2), ext: true, public: true, transcript: true, max_terms: 12, max_deg: 4 };
    let (mut ops, ex) = program(c, &g);
    with_claims(c, &mut ops, ex.len(), 2);
    let pts: Vec<Vec<F>> = (0..=n).map(|k| c.rand_point(k)).collect();
    let mut a = PT::new_from_pcs_params(keys(n).0.clone());
    let mut oa = prover_side(&mut a, &ops).map_err(|e| v("op_error", e))?;
    let mut b = a.deep_copy();
    let ids: Vec<(TrackerID, usize)> = oa.iter().map(|o| (o.id, o.num_vars())).collect();
    let start = pview(&a, &ids, &pts);
    ensure!(pview(&b, &ids, &pts) == start, "start", "the copy starts from another state");
    ensure!(a != b, "same", "the copy is the original");
    // continuation: begins with a fresh leaf so that handles into the copy exist
    let (mut cont, mut ex2, mut leaves) = (vec![], ex.clone(), 100);
    let first = Op::Public(n, Arc::new(c.table(n)));
    step(&mut ex2, &mut leaves, &first);
    cont.push(first);
    for _ in 0..c.range(1, 6) {
        let op = next_op(c, &g, &ex2);
        step(&mut ex2, &mut leaves, &op);
        cont.push(op);
    }
    with_claims(c, &mut cont, ex2.len(), 2);
    let compile = c.coin(1, 2);
    c.describe(format!("{} || {}{}", ops.iter().map(show).collect::<Vec<_>>().join(" "), cont.iter().map(show).collect::<Vec<_>>().join(" "), if compile { " compile" } else { "" }));
    c.nontrivial();
    // which side moves first
    let first_is_copy = c.coin(1, 2);
    let mut run = |t: &mut PT, mut o: Vec<TPoly>| -> Result<Vec<TPoly>, Viol> {
        for (k, op) in cont.iter().enumerate() {
            let new = one_prover_op(t, &o, op)?;
            if k == 0 {
                // re-home the old handles
                let rc = new.as_ref().unwrap().tracker.clone();
                o = o.iter().map(|x| TPoly::new(x.id, x.num_vars, rc.clone())).collect();
            }
            o.extend(new);
        }
        Ok(o)
    };
    let o0 = oa.clone();
    let (p1, p2) = if first_is_copy { (&mut b, &mut a) } else { (&mut a, &mut b) };
    let r1 = run(p1, o0.clone())?;
    // the compile below moves the first side even further
    let ids1: Vec<(TrackerID, usize)> = r1.iter().map(|o| (o.id, o.num_vars())).collect();
    let view1 = pview(p1, &ids1, &pts);
    let proof1 = if compile { Some(guard(|| p1.compile_proof())) } else { None };
    ensure!(pview(p2, &ids, &pts) == start, "leak", "operations on one side changed the other: {:?} became {:?}", start, pview(p2, &ids, &pts));
    let r2 = run(p2, o0)?;
    let view2 = pview(p2, &ids1, &pts);
    ensure!(r1.iter().map(|o| o.id).eq(r2.iter().map(|o| o.id)), "ids", "the same operations get other identifiers");
    ensure!(view1 == view2, "continue", "the same operations lead elsewhere: {:?} and {:?}", view1, view2);
    if let Some(q) = proof1 {
        match (q, guard(|| p2.compile_proof())) {
            (Ok(Ok(x)), Ok(Ok(y))) => ensure!(proof_bytes(&x) == proof_bytes(&y), "proof", "original and copy compile different proofs"),
            (Ok(Ok(_)), _) | (_, Ok(Ok(_))) => return viol("proof", "only one of original and copy compiles"),
            _ => {},
        }
        c.count("proofs compared", 1);
    }
    oa.clear();
    c.count("copies compared", 1);
    Ok(())
}
#[derive(PartialEq, Debug)]
struct VView {
    next: usize,
    sums: Vec<(usize, F)>,
    zeros: Vec<usize>,
    challenge: F,
    comms: Vec<(usize, Comm)>,
}
fn vview(p: &VT) -> VView {
    let mut t = p.clone_underlying_tracker();
    let mut comms: Vec<_> = t.materialized_comms.iter().map(|(k, v)| (k.0, *v)).collect();
    comms.sort_by_key(|x| x.0);
    VView {
        next: t.id_counter,
        sums: t.sum_check_claims.iter().map(|x| (x.label.0, x.claimed_sum)).collect(),
        zeros: t.zero_check_claims.iter().map(|x| x.label.0).collect(),
        challenge: t.get_and_append_challenge(b"probe").unwrap(),
        comms,
    }
}
fn one_verifier_op(w: &mut VT, o: &[TComm], op: &Op, comm: &dyn Fn(usize, &[F]) -> Comm) -> Result<Option<TComm>, Viol> {
    Ok(Some(match op {
        Op::Commit(n, t) => w.track_mat_comm(comm(*n, t)).map_err(|e| v("op_error", e))?,
        Op::Public(_, t) => {
            let t = t.clone();
            w.track_virtual_comm(Box::new(move |x: &[F]| Ok(mle_eval_any(&t, x))))
        },
        Op::Add(i, j) => o[*i].add_comms(&o[*j]),
        Op::Sub(i, j) => o[*i].sub_comms(&o[*j]),
        Op::Mul(i, j) => o[*i].mul_comms(&o[*j]),
        Op::Scale(i, c) => o[*i].mul_scalar(*c),
        Op::Shift(i, c) => o[*i].add_scalar(*c),
        Op::Front(i, k) => o[*i].increase_nv_front(*k),
        Op::Back(i, k) => o[*i].increase_nv_back(*k),
        Op::Challenge => {
            w.get_and_append_challenge(b"probe").map_err(|e| v("op_error", e))?;
            return Ok(None);
        },
        Op::Absorb(x) => {
            w.append_serializable_element(b"probe", x).map_err(|e| v("op_error", e))?;
            return Ok(None);
        },
        Op::Zero(i) => {
            w.add_zerocheck_claim(o[*i].id);
            return Ok(None);
        },
        Op::Sum(i, s) => {
            w.add_sumcheck_claim(o[*i].id, *s);
            return Ok(None);
        },
    }))
}
fn feed_all(w: &mut VT, e: &N, x: &[F], ids: &[Option<TrackerID>]) {
    let mut need = vec![];
    needs(e, x, &mut need);
    let mut q = CProof::default();
    for (i, pt, y) in need {
        if let Some(Some(id)) = ids.get(i) {
            q.query_map.insert((*id, pt), y);
        }
    }
    w.set_compiled_proof(q);
    w.transfer_proof_poly_evals();
}
fn c15_verifier(c: &mut Ctx) -> Res {
    let n = c.dim(1, 3, 6);
    let g = Gen { n, leaves: c.wide(1, 3, 9), ops: c.wide(1, 6, 26), mixed: c.coin(1, 2), ext: true, public: true, transcript: true, max_terms: 12, max_deg: 4 };
    let (mut ops, ex) = program(c, &g);
    with_claims(c, &mut ops, ex.len(), 2);
    let ck = &keys(n).0;
    let comm = |nv: usize, t: &[F]| Pcs::commit(ck, &Mle::from_evaluations_vec(nv, t.to_vec())).unwrap();
    let mut a = VT::new_from_pcs_params(keys(n).1.clone());
    let mut ids = vec![];
    let mut oa: Vec<TComm> = vec![];
    for op in &ops {
        let new = one_verifier_op(&mut a, &oa, op, &comm)?;
        match op {
            Op::Commit(..) => ids.push(new.as_ref().map(|x| x.id)),
            Op::Public(..) => ids.push(None),
            _ => {},
        }
        oa.extend(new);
    }
    let mut b = a.deep_copy();
    let start = vview(&a);
    ensure!(vview(&b) == start, "start", "the copy starts from another state");
    ensure!(a != b, "same", "the copy is the original");
    // two different continuations
    let tails: Vec<(Vec<Op>, Vec<Ex>)> = (0..2)
        .map(|_| {
            let (mut cont, mut ex2, mut leaves) = (vec![], ex.clone(), ids.len());
            let first = Op::Public(n, Arc::new(c.rand_table(n)));
            step(&mut ex2, &mut leaves, &first);
            cont.push(first);
            for _ in 0..c.range(1, 5) {
                let op = next_op(c, &g, &ex2);
                step(&mut ex2, &mut leaves, &op);
                cont.push(op);
            }
            with_claims(c, &mut cont, ex2.len(), 1);
            (cont, ex2)
        })
        .collect();
    let same = c.coin(1, 2);
    let (ta, tb) = (&tails[0], if same { &tails[0] } else { &tails[1] });
    c.describe(format!("{} || {} || {}", ops.iter().map(show).collect::<Vec<_>>().join(" "), ta.0.iter().map(show).collect::<Vec<_>>().join(" "), tb.0.iter().map(show).collect::<Vec<_>>().join(" ")));
    c.nontrivial();
    let run = |t: &mut VT, o: &[TComm], cont: &[Op]| -> Result<(Vec<TComm>, Vec<Option<TrackerID>>), Viol> {
        let mut o = o.to_vec();
        let mut ids = ids.clone();
        for (k, op) in cont.iter().enumerate() {
            let new = one_verifier_op(t, &o, op, &comm)?;
            match op {
                Op::Commit(..) => ids.push(new.as_ref().map(|x| x.id)),
                Op::Public(..) => ids.push(None),
                _ => {},
            }
            if k == 0 {
                let rc = new.as_ref().unwrap().tracker.clone();
                o = o.iter().map(|x| TComm::new(x.id, rc.clone())).collect();
            }
            o.extend(new);
        }
        Ok((o, ids))
    };
    let (ra, ida) = run(&mut a, &oa, &ta.0)?;
    ensure!(vview(&b) == start, "leak", "operations on the original changed the copy's state");
    let va = vview(&a);
    let (rb, idb) = run(&mut b, &oa, &tb.0)?;
    ensure!(vview(&a) == va, "leak", "operations on the copy changed the original's state");
    if same {
        ensure!(ra.iter().map(|o| o.id).eq(rb.iter().map(|o| o.id)), "ids", "the same operations get other identifiers");
        ensure!(vview(&b) == va, "continue", "the same operations lead to another state");
    }
    c.count("copies compared", 1);
    // values on both sides: first the objects from before the copy ...
    let mut shared = None;
    for (t, o, id, e, who) in [(&mut a, &ra, &ida, &ta.1, "original"), (&mut b, &rb, &idb, &tb.1, "copy")] {
        for k in 0..o.len() {
            let x = c.rand_point(nv(&e[k]));
            feed_all(t, &e[k], &x, id);
            let got = match guard(|| o[k].eval_virtual_comm(&x)) {
                Ok(Ok(y)) => Some(y),
                _ => None,
            };
            if got != Some(val(&e[k], &x)) {
                if k < oa.len() {
                    return viol("old_value", format!("commitment {} from before the copy has another value on the {}", k, who));
                }
                shared.get_or_insert(format!("commitment {} made after the copy has another value on the {} once the other side went on", k, who));
            }
            c.count("values compared", 1);
        }
    }
    if let Some(m) = shared {
        if same {
            return viol("same_continuation", m);
        }
        return viol("virtual_comm_shared", m);
    }
    Ok(())
}

// ---------------------------------------------------------------- C16
/// A program with claims. `wrong`: at least one of them is false; the kind of
/// falsehood is returned.
pub struct Job {
    pub n: usize,
    pub ops: Vec<Op>,
    pub what: String,
}
/// now and then records a claim a second time
fn again(c: &mut Ctx, ops: &mut Vec<Op>) {
    let done: Vec<Op> = ops.iter().filter(|o| matches!(o, Op::Zero(_) | Op::Sum(..))).cloned().collect();
    while !done.is_empty() && c.coin(1, 6) {
        ops.push(if c.coin(1, 2) { done[done.len() - 1].clone() } else { c.pick(&done).clone() });
    }
}
pub fn job(c: &mut Ctx, wrong: bool) -> Job {
    let n = c.dim(1, 4, 6);
    let mixed = c.coin(1, 2);
    let g = Gen { n, leaves: c.wide(1, 3, 9), ops: c.wide(0, 7, 27), mixed, ext: mixed || c.coin(1, 2), public: c.coin(1, 2), transcript: true, max_terms: 10, max_deg: 4 };
    let (mut ops, mut ex) = program(c, &g);
    let mut leaves = exprs(&ops).len();
    let mut what = String::new();
    let claims = if wrong { c.wide(1, 5, 12) } else { c.wide(0, 6, 14) };
    let bad = c.range(0, claims.max(1) - 1);
    let mut debt: Option<F> = None;
    let mut push = |ops: &mut Vec<Op>, ex: &mut Vec<Ex>, op: Op| -> usize {
        step(ex, &mut leaves, &op);
        ops.push(op);
        ex.len() - 1
    };
    for k in 0..claims {
        let i = c.range(0, ex.len() - 1);
        let e = ex[i].clone();
        let n = nv(&e);
        let t = tab(&e);
        let lie = wrong && k == bad;
        if c.coin(1, 2) {
            // a zero claim: the object minus a commitment to its values, or
            // the object times something that vanishes where it does not
            let mut u = t.clone();
            let at = c.range(0, u.len() - 1);
            let times = c.coin(1, 3) && size(&e).1 < 4;
            if times {
                u = t.iter().map(|x| if x.is_zero() { F::one() } else { F::zero() }).collect();
            }
            if lie || debt.is_some() {
                let d = debt.take().map(|x| -x).unwrap_or_else(|| c.nz());
                if times {
                    if let Some(at) = t.iter().position(|x| !x.is_zero()) {
                        u[at] = d;
                        what = format!("a product nonzero at index {}", at);
                    }
                } else {
                    u[at] += d;
                    what = format!("a difference nonzero at index {}", at);
                    if u.len() > 1 && c.coin(1, 3) {
                        u[(at + 1) % t.len()] -= d;
                        what += " and its neighbour, cancelling";
                    } else if c.coin(1, 3) {
                        debt = Some(d);
                    }
                }
            }
            let l = push(&mut ops, &mut ex, Op::Commit(n, Arc::new(u)));
            let z = push(&mut ops, &mut ex, if times { Op::Mul(i, l) } else { Op::Sub(i, l) });
            if lie && tab(&ex[z]).iter().all(|x| x.is_zero()) {
                // nothing to be wrong about: fall back to a false sum
                ops.push(Op::Sum(i, t.iter().sum::<F>() + c.nz()));
                what = "a wrong sum".into();
            } else {
                ops.push(Op::Zero(z));
            }
        } else {
            let mut s: F = t.iter().sum();
            if lie || debt.is_some() {
                let d = debt.take().map(|x| -x).unwrap_or_else(|| c.nz());
                s += d;
                what = format!("a sum off by {}", sf(&d));
                if c.coin(1, 3) {
                    debt = Some(d);
                }
            }
            ops.push(Op::Sum(i, s));
        }
        again(c, &mut ops);
        if c.coin(1, 5) {
            ops.push(Op::Challenge);
        }
    }
    Job { n, ops, what }
}
/// do the claims of a program hold?
pub fn claims_true(ops: &[Op]) -> bool {
    let ex = exprs(ops);
    ops.iter().all(|op| match op {
        Op::Zero(i) => tab(&ex[*i]).iter().all(|x| x.is_zero()),
        Op::Sum(i, s) => tab(&ex[*i]).iter().sum::<F>() == *s,
        _ => true,
    })
}
pub fn compile(n: usize, ops: &[Op]) -> Result<(CProof, Vec<TPoly>), String> {
    guard(|| {
        let mut p = PT::new_from_pcs_params(keys(n).0.clone());
        let o = prover_side(&mut p, ops)?;
        p.compile_proof().map(|q| (q, o)).map_err(|e| e.to_string())
    })
    .unwrap_or_else(|e| Err(format!("panic: {}", e)))
}
/// Ok(()) accepted; Err((panicked, why))
pub fn verify(n: usize, ops: &[Op], proof: &CProof, vk: &Vk, own: Option<&dyn Fn(usize, F) -> F>, comms: Option<&[Comm]>) -> Result<(), (bool, String)> {
    guard(|| {
        let _ = n;
        let mut w = VT::new_from_pcs_params(vk.clone());
        w.set_compiled_proof(proof.clone());
        verifier_side(&mut w, ops, own, comms)?;
        w.verify_claims().map_err(|e| e.to_string())
    })
    .map_err(|e| (true, e))?
    .map_err(|e| (false, e))
}
fn c16_complete(c: &mut Ctx) -> Res {
    let j = job(c, false);
    ensure!(claims_true(&j.ops), "harness", "the generated claims do not hold");
    c.describe(format!("params={} {}", j.n, j.ops.iter().map(show).collect::<Vec<_>>().join(" ")));
    c.nontrivial();
    let vk = &keys(j.n).1;
    let (proof, o) = compile(j.n, &j.ops).map_err(|e| v("compile", format!("compiling true claims fails: {}", e)))?;
    // the sums handed to the verifier
    let (ex, big) = (exprs(&j.ops), common_nv(&j.ops));
    for op in &j.ops {
        if let Op::Sum(i, s) = op {
            let want = *s * two_pow(big - nv(&ex[*i]));
            ensure!(proof.sumcheck_claims.get(&o[*i].id) == Some(&want), "sum", "the proof announces {:?} for a sum of {}", proof.sumcheck_claims.get(&o[*i].id).map(sf), sf(&want));
        }
    }
    let r = verify(j.n, &j.ops, &proof, vk, None, None);
    ensure!(r.is_ok(), "refused", "an honest proof is refused: {}", r.unwrap_err().1);
    let scale = |i: usize, s: F| s * two_pow(big - nv(&ex[i]));
    let r = verify(j.n, &j.ops, &proof, vk, Some(&scale), None);
    ensure!(r.is_ok(), "refused_own", "an honest proof is refused by a verifier that knows the sums: {}", r.unwrap_err().1);
    // the same verdict from a copy of the same state
    let mut w = VT::new_from_pcs_params(vk.clone());
    w.set_compiled_proof(proof.clone());
    verifier_side(&mut w, &j.ops, None, None).map_err(|e| v("op_error", e))?;
    let w2 = w.deep_copy();
    let (a, b) = (w.verify_claims(), w2.verify_claims());
    ensure!(a.is_ok() && b.is_ok(), "twice", "verifying from two copies of one state: {:?} and {:?}", a.map_err(|e| e.to_string()), b.map_err(|e| e.to_string()));
    c.count("honest compiled proofs accepted", 1);
    c.count("claims in them", j.ops.iter().filter(|o| matches!(o, Op::Zero(_) | Op::Sum(..))).count() as u64);
    Ok(())
}

// ---------------------------------------------------------------- C17
fn c17_false(c: &mut Ctx) -> Res {
    let j = job(c, true);
    c.describe(format!("params={} {} lie: {}", j.n, j.ops.iter().map(show).collect::<Vec<_>>().join(" "), j.what));
    if claims_true(&j.ops) {
        return Ok(());
    }
    c.nontrivial();
    let (ex, big) = (exprs(&j.ops), common_nv(&j.ops));
    let proof = match compile(j.n, &j.ops) {
        Err(_) => {
            c.count("false claims that do not compile", 1);
            return Ok(());
        },
        Ok((p, _)) => p,
    };
    let scale = |i: usize, s: F| s * two_pow(big - nv(&ex[i]));
    let r = verify(j.n, &j.ops, &proof, &keys(j.n).1, Some(&scale), None);
    ensure!(r.is_err(), "proved", "a false claim is proved and accepted: {}", j.what);
    c.count("false claims refused", 1);
    Ok(())
}

// ---------------------------------------------------------------- C18
fn other_params(n: usize) -> &'static (Ck, Vk) {
    static K: OnceLock<Vec<(Ck, Vk)>> = OnceLock::new();
    &K.get_or_init(|| {
        let srs = Pcs::gen_srs_for_testing(&mut ChaCha20Rng::seed_from_u64(99), 10).unwrap();
        (0..=10).map(|n| Pcs::trim(&srs, None, Some(n.max(1))).unwrap()).collect()
    })[n]
}
/// The honest proof with the batch opening made for another point, and that
/// point reported as the sumcheck's.
fn opened_elsewhere(c: &mut Ctx, n: usize, ops: &[Op], honest: &CProof) -> Result<Option<CProof>, Viol> {
    let (ck, vk) = keys(n);
    let big = honest.sc_proof.proofs.len();
    // follow the transcript up to the opening
    let mut w = VT::new_from_pcs_params(vk.clone());
    w.set_compiled_proof(honest.clone());
    verifier_side(&mut w, ops, None, None).map_err(|e| v("op_error", e))?;
    let w = w.clone_underlying_tracker();
    let mut t = w.transcript.clone();
    for _ in &w.zero_check_claims {
        t.get_and_append_challenge(b"zerocheck challenge").unwrap();
    }
    t.get_and_append_challenge_vectors(b"0check r", big).unwrap();
    let mut sums: Vec<F> = w.sum_check_claims.iter().map(|x| x.claimed_sum).collect();
    sums.push(F::zero());
    for s in &sums {
        t.append_serializable_element(b"claimed sum", s).unwrap();
    }
    let mut total = F::zero();
    for s in &sums {
        total += t.get_and_append_challenge(b"sumcheck challenge").unwrap() * s;
    }
    let sub = match guard(|| <PolyIOP<F> as SumCheck<F>>::verify(total, &honest.sc_proof, &honest.sc_aux_info, &mut t)) {
        Ok(Ok(x)) => x,
        _ => return Ok(None),
    };
    // the committed polynomials, extended at the front
    let polys: Vec<Mle> = ops
        .iter()
        .filter_map(|x| if let Op::Commit(_, a) = x { Some(a) } else { None })
        .map(|a| Mle::from_evaluations_vec(big, (0..1usize << big).map(|i| a[i >> (big - a.len().trailing_zeros() as usize)]).collect()))
        .collect();
    if polys.iter().all(|m| m.evaluations.iter().all(|x| *x == m.evaluations[0])) {
        return Ok(None);
    }
    let open = |at: &[F], t: &mut zk_sql::transcript::IOPTranscript<F>| {
        let e: Vec<F> = polys.iter().map(|m| mle_eval(&m.evaluations, at)).collect();
        let ps: Vec<Arc<Mle>> = polys.iter().map(|m| Arc::new(m.clone())).collect();
        guard(|| Pcs::multi_open(ck, &ps, &vec![at.to_vec(); ps.len()], &e, t).map_err(|e| e.to_string()))
    };
    let mut same = honest.clone();
    match open(&sub.point, &mut t.clone()) {
        Ok(Ok(x)) => same.pcs_proof = vec![x],
        _ => return Ok(None),
    }
    if proof_bytes(&same) != proof_bytes(honest) {
        return Ok(None);
    }
    c.count("openings reproduced", 1);
    let mut at = sub.point.clone();
    let i = c.range(0, big - 1);
    match c.range(0, 3) {
        0 => at[i] += c.nz(),
        1 => at.reverse(),
        2 => at = c.rand_point(big),
        _ => at = vec![F::zero(); big],
    }
    let mut q = honest.clone();
    match open(&at, &mut t) {
        Ok(Ok(x)) => q.pcs_proof = vec![x],
        _ => return Ok(None),
    }
    q.sc_proof.point = at;
    Ok(Some(q))
}
fn c18_alter(c: &mut Ctx) -> Res {
    let mut j = job(c, false);
    if !j.ops.iter().any(|o| matches!(o, Op::Zero(_) | Op::Sum(..))) {
        // something to prove
        let e = exprs(&j.ops);
        j.ops.push(Op::Sum(0, tab(&e[0]).iter().sum()));
    }
    let (n, ops) = (j.n, j.ops.clone());
    let vk = &keys(n).1;
    let big = common_nv(&ops);
    let (honest, o) = match compile(n, &ops) {
        Ok(x) => x,
        Err(_) => return Ok(()), // C16 judges
    };
    let ids: Vec<TrackerID> = {
        let mut k: Vec<_> = honest.comms.keys().copied().collect();
        k.sort();
        k
    };
    let sums: Vec<TrackerID> = ops.iter().filter_map(|x| if let Op::Sum(i, _) = x { Some(o[*i].id) } else { None }).collect();
    let zeros = ops.iter().filter(|x| matches!(x, Op::Zero(_))).count();
    let mut p = honest.clone();
    let (mut vops, mut vk2) = (ops.clone(), vk.clone());
    let kind = c.range(0, 19);
    let g1 = keys(n).0.g;
    let desc;
    match kind {
        0 => {
            let id = *c.pick(&ids);
            let d = c.nz();
            let cm = p.comms.get_mut(&id).unwrap();
            *cm = Commitment((cm.0.into_group() + g1 * d).into_affine());
            desc = format!("commitment {} shifted", id);
        },
        1 => {
            let (a, b) = (*c.pick(&ids), *c.pick(&ids));
            let (x, y) = (p.comms[&a], p.comms[&b]);
            p.comms.insert(a, y);
            p.comms.insert(b, x);
            desc = format!("commitments {} and {} swapped", a, b);
        },
        2 => {
            if sums.is_empty() {
                return Ok(());
            }
            let id = *c.pick(&sums);
            let d = c.nz();
            *p.sumcheck_claims.get_mut(&id).unwrap() += d;
            desc = format!("sum of {} off by {}", id, sf(&d));
        },
        3 => {
            // two sums changed so that the combination the honest transcript
            // leads to stays the same
            let mut u = sums.clone();
            u.dedup();
            if u.len() < 2 || sums.iter().collect::<std::collections::HashSet<_>>().len() != sums.len() {
                return Ok(());
            }
            let mut w = VT::new_from_pcs_params(vk.clone());
            w.set_compiled_proof(p.clone());
            verifier_side(&mut w, &ops, None, None).map_err(|e| v("op_error", e))?;
            let mut t = w.clone_underlying_tracker().transcript;
            for _ in 0..zeros {
                t.get_and_append_challenge(b"zerocheck challenge").unwrap();
            }
            t.get_and_append_challenge_vectors(b"0check r", big).unwrap();
            let ch: Vec<F> = sums.iter().map(|_| t.get_and_append_challenge(b"sumcheck challenge").unwrap()).collect();
            let (a, b) = (0, c.range(1, sums.len() - 1));
            let d = c.nz();
            *p.sumcheck_claims.get_mut(&sums[a]).unwrap() += d * ch[b];
            *p.sumcheck_claims.get_mut(&sums[b]).unwrap() -= d * ch[a];
            desc = format!("sums of {} and {} changed in proportion to their weights", sums[a], sums[b]);
        },
        4 => {
            let r = c.range(0, p.sc_proof.proofs.len() - 1);
            let ev = p.sc_proof.proofs[r].verif_evaluations_mut();
            let q = c.range(0, ev.len() - 1);
            ev[q] += c.nz();
            desc = format!("round {} value {} changed", r, q);
        },
        5 => {
            let r = c.range(0, p.sc_proof.proofs.len() - 1);
            let ev = p.sc_proof.proofs[r].verif_evaluations_mut();
            let d = c.nz();
            ev[0] += d;
            ev[1] -= d;
            desc = format!("round {} changed, its sum kept", r);
        },
        6 => {
            // the last round passes every sum check when its sum is kept
            let r = p.sc_proof.proofs.len() - 1;
            let ev = p.sc_proof.proofs[r].verif_evaluations_mut();
            let q = ev.len() - 1;
            if q < 2 {
                return Ok(());
            }
            ev[q] += c.nz();
            desc = "last round changed beyond its sum".into();
        },
        7 => {
            let k = p.sc_aux_info.num_variables;
            p.sc_aux_info.num_variables = *c.pick(&[k + 1, k - 1, 0]);
            desc = format!("{} variables announced instead of {}", p.sc_aux_info.num_variables, k);
        },
        8 => {
            let k = p.sc_aux_info.max_degree;
            p.sc_aux_info.max_degree = *c.pick(&[k + 1, k - 1, 0]);
            desc = format!("degree {} announced instead of {}", p.sc_aux_info.max_degree, k);
        },
        9 => {
            let f = &mut p.pcs_proof[0].f_i_eval_at_point_i;
            let i = c.range(0, f.len() - 1);
            f[i] += c.nz();
            desc = format!("opened value {} changed", i);
        },
        10 => {
            let g = p.pcs_proof[0].verif_parts_mut().1;
            let r = c.range(0, g.proofs.len() - 1);
            g.proofs[r] = (g.proofs[r].into_group() + g1).into_affine();
            desc = format!("opening element {} changed", r);
        },
        11 => {
            let m = p.pcs_proof[0].verif_parts_mut().0;
            let r = c.range(0, m.proofs.len() - 1);
            let ev = m.proofs[r].verif_evaluations_mut();
            let d = c.nz();
            ev[0] += d;
            if c.coin(1, 2) {
                ev[1] -= d;
            }
            desc = format!("batch round {} changed", r);
        },
        12 | 13 => {
            // the same program over other data
            let mut alt = ops.clone();
            let lie: Vec<usize> = (0..alt.len()).filter(|i| matches!(alt[*i], Op::Commit(..))).collect();
            let at = *c.pick(&lie);
            if let Op::Commit(n, _) = alt[at].clone() {
                alt[at] = Op::Commit(n, Arc::new(c.rand_table(n)));
            }
            // keep the claims true: recompute sums, drop zero claims that broke
            let e = exprs(&alt);
            for op in alt.iter_mut() {
                if let Op::Sum(i, s) = op {
                    *s = tab(&e[*i]).iter().sum();
                }
            }
            let q = match compile(n, &alt) {
                Ok((q, _)) => q,
                Err(_) => return Ok(()),
            };
            if kind == 12 {
                p.pcs_proof = q.pcs_proof;
                desc = "batch opening taken from another proof".into();
            } else if c.coin(1, 2) {
                // the point is recomputed by the verifier
                p.sc_proof = q.sc_proof;
                p.sc_proof.point = honest.sc_proof.point.clone();
                desc = "sumcheck taken from another proof".into();
            } else {
                let id = *c.pick(&ids);
                p.comms.insert(id, q.comms[&id]);
                desc = format!("commitment {} taken from another proof", id);
            }
        },
        14 => {
            // replayed for another statement
            match c.range(0, 3) {
                0 => {
                    vops.push(Op::Zero(c.range(0, o.len() - 1)));
                    desc = "replayed with one more zero claim".into();
                },
                1 => {
                    let at = vops.iter().position(|x| matches!(x, Op::Zero(_) | Op::Sum(..))).unwrap();
                    vops.remove(at);
                    desc = "replayed with one claim less".into();
                },
                2 => {
                    vops.insert(0, Op::Absorb(c.felt()));
                    desc = "replayed in another context".into();
                },
                _ => {
                    let z: Vec<usize> = (0..vops.len()).filter(|i| matches!(vops[*i], Op::Zero(_))).collect();
                    if z.is_empty() {
                        return Ok(());
                    }
                    let at = *c.pick(&z);
                    vops.insert(at, Op::Challenge);
                    if zeros == 0 {
                        return Ok(());
                    }
                    desc = "replayed with an extra challenge".into();
                },
            }
        },
        15 => {
            vk2 = other_params(n).1.clone();
            desc = "verified under other parameters".into();
        },
        16 => {
            let m = p.pcs_proof[0].verif_parts_mut().0;
            let r = c.range(0, m.point.len() - 1);
            m.point[r] += c.nz();
            desc = "batch point changed".into();
        },
        18 | 19 => match opened_elsewhere(c, n, &ops, &honest)? {
            Some(q) => {
                p = q;
                desc = "opened at another point, which the proof reports".into();
            },
            None => return Ok(()),
        },
        _ => {
            let f = &mut p.pcs_proof[0].f_i_eval_at_point_i;
            let (a, b) = (c.range(0, f.len() - 1), c.range(0, f.len() - 1));
            f.swap(a, b);
            desc = format!("opened values {} and {} swapped", a, b);
        },
    }
    c.describe(format!("params={} {} altered: {}", n, ops.iter().map(show).collect::<Vec<_>>().join(" "), desc));
    if proof_bytes(&p) == proof_bytes(&honest) && kind != 14 && kind != 15 {
        return Ok(());
    }
    if verify(n, &ops, &honest, vk, None, None).is_err() {
        return Ok(()); // C16 judges
    }
    // a batch of zero polynomials opens the same way at every parameter set
    if kind == 15 && honest.comms.values().all(|x| x.0.is_zero()) {
        return Ok(());
    }
    c.nontrivial();
    match verify(n, &vops, &p, &vk2, None, None) {
        Ok(()) => viol(&format!("accepted_kind{}", kind), format!("an altered proof is accepted: {}", desc)),
        Err((panicked, _)) => {
            c.count("altered proofs refused", 1);
            if panicked {
                c.count("of which by a crash (judged by C11)", 1);
            }
            Ok(())
        },
    }
}
/// A prover that works on other polynomials than the verifier's.
fn c18_forged(c: &mut Ctx) -> Res {
    let n = c.dim(1, 3, 6);
    let (ck, vk) = keys(n);
    let t = c.rand_table(n);
    let u = c.rand_table(n);
    let ma = Mle::from_evaluations_vec(n, t.clone());
    let mb = Mle::from_evaluations_vec(n, u.clone());
    let (ca, cb) = (Pcs::commit(ck, &ma).map_err(|e| v("commit_err", e))?, Pcs::commit(ck, &mb).map_err(|e| v("commit_err", e))?);
    let kind = c.range(0, 2);
    // the statement: a - b vanishes (false)
    let vops = vec![Op::Commit(n, Arc::new(t.clone())), Op::Commit(n, Arc::new(u.clone())), Op::Sub(0, 1), Op::Zero(2)];
    c.describe(format!("claim {} = {}; cheat {}", sv(&t), sv(&u), kind));
    c.nontrivial();
    let forged = guard(|| -> Result<CProof, String> {
        let mut p = PT::new_from_pcs_params(ck.clone());
        let e = |x: &dyn std::fmt::Display| x.to_string();
        match kind {
            0 => {
                // commits honestly, then claims about an unrelated polynomial
                p.track_and_commit_poly(ma).map_err(|x| e(&x))?;
                p.track_and_commit_poly(mb).map_err(|x| e(&x))?;
                let z = p.track_mat_poly(Mle::from_evaluations_vec(n, vec![F::zero(); 1 << n]));
                p.add_zerocheck_claim(z.id);
                p.compile_proof().map_err(|x| e(&x))
            },
            1 => {
                // never opens the second commitment
                let a = p.track_and_commit_poly(ma.clone()).map_err(|x| e(&x))?;
                p.append_serializable_element(b"comm", &cb).map_err(|x| e(&x))?;
                let b = p.track_mat_poly(ma);
                p.add_zerocheck_claim(a.sub_poly(&b).id);
                p.compile_proof().map_err(|x| e(&x))
            },
            _ => {
                // announces the commitments but opens others
                let a = p.track_and_commit_poly(ma.clone()).map_err(|x| e(&x))?;
                let b = p.track_and_commit_poly(ma).map_err(|x| e(&x))?;
                p.add_zerocheck_claim(a.sub_poly(&b).id);
                let mut q = p.compile_proof().map_err(|x| e(&x))?;
                q.comms.insert(b.id, cb);
                Ok(q)
            },
        }
    });
    let forged = match forged {
        Ok(Ok(p)) => p,
        _ => return Ok(()),
    };
    let comms = [ca, cb];
    let r = verify(n, &vops, &forged, vk, None, Some(&comms));
    if r.is_ok() {
        let sig = ["unrelated_polynomial", "unopened_commitment", "other_commitment"][kind];
        return viol(sig, format!("a forged proof of a false statement is accepted: {}", sig));
    }
    c.count("forgeries refused", 1);
    Ok(())
}

// ---------------------------------------------------------------- C11
fn c11_compiled(c: &mut Ctx) -> Res {
    let j = job(c, false);
    let (n, ops) = (j.n, j.ops.clone());
    let vk = &keys(n).1;
    let (honest, o) = match compile(n, &ops) {
        Ok(x) => x,
        Err(_) => return Ok(()),
    };
    let own = c.coin(1, 3);
    let ck = &keys(n).0;
    let comms: Vec<Comm> = ops.iter().filter_map(|x| if let Op::Commit(n, t) = x { Some(Pcs::commit(ck, &Mle::from_evaluations_vec(*n, t.to_vec())).unwrap()) } else { None }).collect();
    let mut p = honest.clone();
    let mut ids: Vec<_> = p.comms.keys().copied().collect();
    ids.sort();
    let mut what = vec![];
    for _ in 0..c.range(1, 2) {
        let k = p.sc_aux_info.num_variables;
        what.push(match c.range(0, 9) {
            0 => {
                let id = *c.pick(&ids);
                p.comms.remove(&id);
                if own {
                    // the verifier does not take it from there
                    continue;
                }
                format!("commitment {} missing", id)
            },
            1 => {
                let s: Vec<TrackerID> = ops.iter().filter_map(|x| if let Op::Sum(i, _) = x { Some(o[*i].id) } else { None }).collect();
                if s.is_empty() {
                    continue;
                }
                let id = *c.pick(&s);
                p.sumcheck_claims.remove(&id);
                format!("sum of {} missing", id)
            },
            2 => {
                p.pcs_proof.clear();
                "no opening proof".into()
            },
            3 => {
                p.sc_aux_info.num_variables = *c.pick(&[0, k.wrapping_sub(1), k + 1, 1 << 30, 1 << 40, usize::MAX]);
                format!("{} variables announced", p.sc_aux_info.num_variables)
            },
            4 => {
                p.sc_aux_info.max_degree = *c.pick(&[0, 1 << 30, usize::MAX]);
                format!("degree {} announced", p.sc_aux_info.max_degree)
            },
            5 | 6 => crate::p_malformed::mangle_sc(c, &mut p.sc_proof, false),
            _ if p.pcs_proof.is_empty() => continue,
            7 => format!("batch {}", crate::p_malformed::mangle_sc(c, p.pcs_proof[0].verif_parts_mut().0, false)),
            8 => format!("opened values {}", crate::p_malformed::mangle(c, &mut p.pcs_proof[0].f_i_eval_at_point_i, |c| c.felt())),
            _ => {
                let g = ck.g;
                format!("opening elements {}", crate::p_malformed::mangle(c, &mut p.pcs_proof[0].verif_parts_mut().1.proofs, |_| g))
            },
        });
    }
    c.describe(format!("params={} own={} {}: {}", n, own, ops.iter().map(show).collect::<Vec<_>>().join(" "), what.join(", ")));
    if what.is_empty() || (proof_bytes(&p) == proof_bytes(&honest) && p.pcs_proof.len() == honest.pcs_proof.len()) {
        return Ok(());
    }
    c.nontrivial();
    match verify(n, &ops, &p, vk, None, if own { Some(&comms) } else { None }) {
        Ok(()) => {
            // the sumcheck point is recomputed by the verifier: what stands there is idle
            p.sc_proof.point = honest.sc_proof.point.clone();
            if own {
                p.comms = honest.comms.clone();
            }
            ensure!(proof_bytes(&p) == proof_bytes(&honest) && p.pcs_proof.len() == honest.pcs_proof.len(), "accepted", "a malformed compiled proof is accepted");
            Ok(())
        },
        Err((true, m)) => viol("panic", format!("verification panics: {}", m)),
        Err((false, _)) => {
            c.count("malformed compiled proofs refused", 1);
            Ok(())
        },
    }
}
#[allow(unused)]
fn _unused(_: Rc<N>) {}
