//! C29: requests whose parts do not fit together are refused, and a refused
//! request leaves the trackers as they were.
use crate::{ctx::*, ensure, iop::*, p_pcs::*, run::*, sim::*};
use std::sync::Arc;
use zk_sql::{
    arithmetic::*,
    subroutines::{poly_iop::prelude::*, PolynomialCommitmentScheme},
    tracker::{
        prelude::{eq_eval as dm_eq_eval, *},
        verif_hooks::{ProverTracker, VerifierTracker},
    },
    transcript::IOPTranscript,
    zksql_poly_iop::verif_hooks::*,
};

pub fn families() -> Vec<Family> {
    vec![
        fam("C29", "multitool", REL | DBG, 2400, 24000, multitool),
        fam("C29", "sizes", REL | DBG, 1200, 12000, sizes),
        fam("C29", "rows", REL | DBG, 1600, 16000, rows),
        fam("C29", "group_by", REL | DBG, 2400, 24000, group_by),
        fam("C29", "handles", REL | DBG, 2000, 20000, handles),
        fam("C29", "constants", REL | DBG, 1200, 12000, constants),
        fam("C29", "points", REL | DBG, 4000, 40000, points),
        fam("C29", "batches", REL | DBG, 1200, 12000, batches),
    ]
}
const NV: usize = 4;

/// what a user can see of a tracker, and the next challenge it would give
fn pstate(p: &PT) -> String {
    let t: ProverTracker<E, Pcs> = p.clone_underlying_tracker();
    let mut q = p.deep_copy();
    format!(
        "{} {} {} {} {} {} {:?}",
        t.id_counter,
        t.materialized_polys.len(),
        t.virtual_polys.len(),
        t.materialized_comms.len(),
        t.sum_check_claims.len(),
        t.zero_check_claims.len(),
        q.get_and_append_challenge(b"probe").ok().map(|x| sf(&x))
    )
}
fn vstate(v: &VT) -> String {
    let t: VerifierTracker<E, Pcs> = v.clone_underlying_tracker();
    let mut q = v.deep_copy();
    format!(
        "{} {} {} {} {:?}",
        t.id_counter,
        t.materialized_comms.len(),
        t.sum_check_claims.len(),
        t.zero_check_claims.len(),
        q.get_and_append_challenge(b"probe").ok().map(|x| sf(&x))
    )
}
fn fresh() -> PT {
    PT::new_from_pcs_params(keys(NV).0.clone())
}
/// a verifier that can be given everything this prover committed
fn partner(p: &PT) -> VT {
    let t: ProverTracker<E, Pcs> = p.clone_underlying_tracker();
    let mut v = VT::new_from_pcs_params(keys(NV).1.clone());
    v.set_compiled_proof(CProof { comms: t.materialized_comms.clone(), ..Default::default() });
    v
}
fn refused<T>(c: &mut Ctx, what: &str, before: &str, r: Result<Result<T, String>, String>, after: String) -> Res {
    let sig = what.replace(' ', "_");
    match r {
        Err(p) => return viol(&format!("{}_panic", sig), format!("{}: {}", what, p)),
        Ok(Ok(_)) => return viol(&format!("{}_accepted", sig), format!("{}: accepted", what)),
        Ok(Err(_)) => {},
    }
    ensure!(before == after, &format!("{}_state", sig), "{}: the refused request changed the tracker from {} to {}", what, before, after);
    c.count("refusals observed", 1);
    Ok(())
}
fn er<T, X: std::fmt::Debug>(r: Result<T, X>) -> Result<T, String> {
    r.map_err(|e| format!("{:?}", e))
}

fn multitool(c: &mut Ctx) -> Res {
    let (mut a, mut b) = (c.range(1, 4), c.range(1, 4));
    let nv = c.range(1, NV);
    let (mut ma, mut mb) = (a, b);
    let mut odd = None;
    let side = c.coin(1, 2);
    let kind = c.range(0, 3);
    {
        let (n, m) = if side { (&mut a, &mut ma) } else { (&mut b, &mut mb) };
        match kind {
            // more or fewer multiplicities than bags, or none at all
            0 => *m = *n + c.range(1, 3),
            1 => {
                let k = c.range(0, *n - 1);
                *m = k
            },
            2 => {
                *n = 0;
                *m = if c.coin(1, 2) { 0 } else { c.range(1, 2) };
            },
            _ => odd = Some(c.range(0, *n - 1)),
        }
    }
    c.describe(format!("multitool {} bags with {} and {} with {} multiplicities, nv={} wrong size {:?} left={}", a, ma, b, mb, nv, odd, side));
    c.nontrivial();
    let mut p = fresh();
    let other = if nv == NV { nv - 1 } else { nv + 1 };
    let other = if other == 0 { 2 } else { other };
    let mut mk = |c: &mut Ctx, n: usize, m: usize, here: bool| {
        let bags: Vec<PBag> = (0..n).map(|_| BagIn::plain(c.table(nv), ones(1 << nv)).p(&mut p).unwrap()).collect();
        let ms: Vec<TPoly> = (0..m).map(|i| p.track_and_commit_poly(c.mle(if here && odd == Some(i) { other } else { nv })).unwrap()).collect();
        (bags, ms)
    };
    let (f, mf) = mk(c, a, ma, side);
    let (g, mg) = mk(c, b, mb, !side);
    let s = pstate(&p);
    let r = guard(|| er(BagMultitoolIOP::<E, Pcs>::prove(&mut p, &f, &g, &mf, &mg)));
    refused(c, "multitool prover", &s, r, pstate(&p))?;
    if odd.is_none() {
        let mut v = partner(&p);
        let mut mk = |n: usize, m: usize| {
            let bags: Vec<VBag> = (0..n).map(|_| BagIn::plain(ones(1 << nv), ones(1 << nv)).v(&mut v)).collect();
            let ms: Vec<TComm> = (0..m).map(|_| take(&mut v)).collect();
            (bags, ms)
        };
        let (f, mf) = mk(a, ma);
        let (g, mg) = mk(b, mb);
        let s = vstate(&v);
        let r = guard(|| er(BagMultitoolIOP::<E, Pcs>::verify(&mut v, &f, &g, &mf, &mg)));
        refused(c, "multitool verifier", &s, r, vstate(&v))?;
    }
    Ok(())
}

fn sizes(c: &mut Ctx) -> Res {
    let (a, b) = two_sizes(c);
    let kind = c.range(0, 2);
    c.describe(format!("bags of 2^{} and 2^{} rows, kind {} #{:04x}", a, b, kind, c.idx));
    c.nontrivial();
    let mut p = fresh();
    let mut bag = |c: &mut Ctx, nv: usize| BagIn::plain(c.table(nv), ones(1 << nv)).p(&mut p).unwrap();
    let f = bag(c, a);
    match kind {
        0 => {
            let g = bag(c, b);
            let s = pstate(&p);
            let r = guard(|| er(BagEqIOP::<E, Pcs>::prove(&mut p, &f, &g)));
            refused(c, "bag equality", &s, r, pstate(&p))
        },
        k => {
            let g = bag(c, if k == 1 { b } else { a });
            let m = p.track_and_commit_poly(c.mle(if k == 1 { a } else { b })).unwrap();
            let s = pstate(&p);
            let r = guard(|| er(BagPrescPermIOP::<E, Pcs>::prove(&mut p, &f, &g, &m)));
            refused(c, "prescribed permutation", &s, r, pstate(&p))
        },
    }
}
fn two_sizes(c: &mut Ctx) -> (usize, usize) {
    let a = c.range(1, NV);
    let b = (a - 1 + c.range(1, NV - 1)) % NV + 1;
    (a, b)
}

fn rows(c: &mut Ctx) -> Res {
    let k = c.range(0, 5);
    let n = match c.range(0, 2) {
        0 => k + c.range(1, 3),
        1 if k > 0 => c.range(0, k - 1),
        _ => 0,
    };
    // no column at all, or a different number of coefficients
    let n = if n == k && k > 0 { k + 1 } else { n };
    let nv = c.range(1, NV);
    c.describe(format!("{} columns, {} coefficients, nv={}", k, n, nv));
    c.nontrivial();
    let r: Vec<F> = (0..n).map(|_| c.felt()).collect();
    let t = TabIn { cols: (0..k).map(|_| In::Commit(c.table(nv))).collect(), sel: In::Commit(ones(1 << nv)) };
    let mut p = fresh();
    let pt = t.p(&mut p).unwrap();
    let s = pstate(&p);
    let x = guard(|| er(table_row_prover_agg(&pt, &r)));
    refused(c, "row aggregation of the prover", &s, x, pstate(&p))?;
    let mut v = partner(&p);
    let vt = t.v(&mut v);
    let s = vstate(&v);
    let x = guard(|| er(table_row_verifier_agg(&vt, &r)));
    refused(c, "row aggregation of the verifier", &s, x, vstate(&v))
}

fn group_by(c: &mut Ctx) -> Res {
    let k = c.range(1, 4);
    let nv = c.range(1, NV);
    let mut grouping = vec![c.range(0, k - 1)];
    let mut supports = 1;
    let mut cols: Vec<usize> = (0..c.range(0, 3)).map(|_| c.range(0, k - 1)).collect();
    match c.range(0, 4) {
        0 => grouping[0] = k + c.range(0, 3),
        1 => grouping = (0..c.range(2, 3)).map(|_| c.range(0, k - 1)).collect(),
        2 => grouping.clear(),
        3 => supports = *c.pick(&[0, 2, 3]),
        _ => {
            let at = c.range(0, cols.len());
            let bad = k + c.range(0, 2);
            cols.insert(at, bad);
        },
    }
    c.describe(format!("group by {:?} with {} supports, aggregate {:?} of {} columns nv={}", grouping, supports, cols, k, nv));
    c.nontrivial();
    let t = TabIn { cols: (0..k).map(|_| In::Commit(c.table(nv))).collect(), sel: In::Commit(ones(1 << nv)) };
    let range = range_bag(nv);
    let mut p = fresh();
    let pt = t.p(&mut p).unwrap();
    let pr = range.p(&mut p).unwrap();
    let mut one = |c: &mut Ctx| p.track_and_commit_poly(c.mle(nv)).unwrap();
    let ty = |i: usize| if i % 2 == 0 { AggregationType::Count } else { AggregationType::Sum };
    let i = GroupByInstructionWithProvingAdvice {
        grouping_cols: grouping.clone(),
        support_cols: (0..supports).map(|_| one(c)).collect(),
        support_sel: one(c),
        support_multiplicity: one(c),
        agg_instr: cols.iter().enumerate().map(|(j, x)| (*x, ty(j), one(c))).collect(),
    };
    let s = pstate(&p);
    let r = guard(|| er(GroupByIOP::<E, Pcs>::prove_with_advice(&mut p, &pt, &i, &pr)));
    refused(c, "group by prover", &s, r, pstate(&p))?;
    let mut v = partner(&p);
    let vt = t.v(&mut v);
    let vr = range.v(&mut v);
    let i = GroupByInstructionWithVerifyingAdvice {
        grouping_cols: grouping,
        support_cols: (0..supports).map(|_| take(&mut v)).collect(),
        support_sel: take(&mut v),
        support_multiplicity: take(&mut v),
        agg_instr: cols.iter().enumerate().map(|(j, x)| (*x, ty(j), take(&mut v))).collect(),
    };
    let s = vstate(&v);
    let r = guard(|| er(GroupByIOP::<E, Pcs>::verify_with_advice(&mut v, &vt, &i, &vr)));
    refused(c, "group by verifier", &s, r, vstate(&v))
}

/// handles of two trackers, or of two sizes, are never combined
fn handles(c: &mut Ctx) -> Res {
    let (a, b) = two_sizes(c);
    let cross = c.coin(1, 2);
    let op = c.range(0, 2);
    let warm = c.range(0, 3);
    c.describe(format!("2^{} op{} 2^{} across={} after {}", a, op, if cross { a } else { b }, cross, warm));
    c.nontrivial();
    let (mut p, mut q) = (fresh(), fresh());
    let x = p.track_and_commit_poly(c.mle(a)).unwrap();
    // the same identifiers exist on the other side
    q.track_and_commit_poly(c.mle(a)).unwrap();
    for _ in 0..warm {
        let (m, n) = (c.mle(a), c.mle(a));
        p.track_mat_poly(m);
        q.track_mat_poly(n);
    }
    let y = if cross { q.track_and_commit_poly(c.mle(a)).unwrap() } else { p.track_and_commit_poly(c.mle(b)).unwrap() };
    ensure!(x != y && x.same_tracker(&y) == !cross, "same_tracker", "handles of different trackers are confused");
    let bx = PBag::new(x.clone(), x.clone());
    ensure!(bx.tracker_ref() == p && PTab::new(vec![x.clone()], x.clone()).tracker_ref() == p, "tracker_ref", "a bag or table names another tracker than its own");
    ensure!(bx.tracker_ref() != q && p != q, "tracker_ref", "two trackers are taken for one");
    let s = (pstate(&p), pstate(&q));
    let r = guard(|| match op {
        0 => x.add_poly(&y),
        1 => x.sub_poly(&y),
        _ => x.mul_poly(&y),
    });
    ensure!(r.is_err(), "combined", "handles that do not fit were combined");
    ensure!(s == (pstate(&p), pstate(&q)), "state", "combining handles that do not fit changed a tracker");
    c.count("refusals observed", 1);
    if cross {
        let (mut v, mut w) = (partner(&p), partner(&q));
        let (x, y) = (take(&mut v), take(&mut w));
        ensure!(x != y && !x.same_tracker(&y), "same_tracker", "handles of different trackers are confused");
        let s = (vstate(&v), vstate(&w));
        let r = guard(|| match op {
            0 => x.add_comms(&y),
            1 => x.sub_comms(&y),
            _ => x.mul_comms(&y),
        });
        ensure!(r.is_err(), "combined", "handles that do not fit were combined");
        ensure!(s == (vstate(&v), vstate(&w)), "state", "combining handles that do not fit changed a tracker");
        c.count("refusals observed", 1);
    }
    Ok(())
}

/// polynomials without variables and expressions without content
fn constants(c: &mut Ctx) -> Res {
    let k = c.range(0, 2);
    let m = Arc::new(Mle::from_evaluations_vec(0, vec![c.felt()]));
    let mut vp = VirtualPolynomial::new_from_mle(&m, c.nz());
    for _ in 0..k {
        let l = (0..c.range(1, 3)).map(|_| Arc::new(Mle::from_evaluations_vec(0, vec![c.felt()]))).collect::<Vec<_>>();
        vp.add_mle_list(l, c.nz()).unwrap();
    }
    c.describe(format!("a constant with {} products #{:04x}", k + 1, c.idx));
    c.nontrivial();
    type P = PolyIOP<F>;
    let mut t = <P as SumCheck<F>>::init_transcript();
    let r = guard(|| <P as SumCheck<F>>::prove(&vp, &mut t).is_ok());
    ensure!(r == Ok(false), "sumcheck", "a sumcheck of a polynomial without variables: {:?}", r);
    let mut t = <P as ZeroCheck<F>>::init_transcript();
    let r = guard(|| <P as ZeroCheck<F>>::prove(&vp, &mut t).is_ok());
    ensure!(r == Ok(false), "zerocheck", "a zerocheck of a polynomial without variables: {:?}", r);
    let e: [F; 0] = [];
    ensure!(build_eq_x_r_vec(&e).is_err() && zk_sql::arithmetic::build_eq_x_r(&e).is_err(), "eq", "eq of an empty vector is given");
    ensure!(vp.build_f_hat(&[c.felt()]).is_err(), "f_hat", "a polynomial without variables is combined with one variable");
    c.count("refusals observed", 5);
    Ok(())
}

/// batch openings whose lists do not fit together
fn batches(c: &mut Ctx) -> Res {
    let nv = c.range(1, 4);
    let n = c.range(1, 4);
    let (ck, _) = keys(4);
    let mut polys: Vec<Arc<Mle>> = (0..n).map(|_| Arc::new(c.mle(nv))).collect();
    let mut points: Vec<Vec<F>> = (0..n).map(|_| c.rand_point(nv)).collect();
    let mut evals: Vec<F> = (0..n).map(|_| c.felt()).collect();
    let kind = c.range(0, 6);
    let at = c.range(0, n - 1);
    match kind {
        0 => {
            points.pop();
        },
        1 => {
            evals.pop();
        },
        2 => points.push(c.rand_point(nv)),
        3 => evals.push(c.felt()),
        4 => {
            let x = c.range(0, nv - 1);
            points[at].truncate(x);
        },
        5 if n > 1 => {
            let k = (nv - 1 + c.range(1, 3)) % 4 + 1;
            polys[at] = Arc::new(c.mle(k));
        },
        _ => {
            polys.clear();
            points.clear();
            evals.clear();
        },
    }
    c.describe(format!("{} polynomials of 2^{}, {} points, {} values, kind {} at {}", polys.len(), nv, points.len(), evals.len(), kind, at));
    c.nontrivial();
    let mut t = IOPTranscript::<F>::new(b"batch");
    t.append_field_element(b"init", &c.felt()).unwrap();
    let r = guard(|| Pcs::multi_open(ck, &polys, &points, &evals, &mut t).is_ok());
    ensure!(r == Ok(false), "batch", "a batch opening with lists that do not fit: {:?}", r);
    c.count("refusals observed", 1);
    Ok(())
}

/// evaluations at points of another length, sums over tables that do not fit
fn points(c: &mut Ctx) -> Res {
    let nv = c.dim(1, 5, 8);
    let m = c.mle(nv);
    let n = match c.range(0, 2) {
        0 => c.range(0, nv - 1),
        1 => nv + 1,
        _ => nv + c.range(1, 4),
    };
    // bags and tables assert their shape in debug builds only
    let kind = c.range(0, if c.dbg { 12 } else { 10 });
    let n = if (2..=4).contains(&kind) && n < nv { 2 * nv - n } else { n };
    let x = c.rand_point(n);
    c.describe(format!("{} coordinates for {} variables, kind {} #{:04x}", n, nv, kind, c.idx));
    c.nontrivial();
    let what: (&str, Result<bool, String>) = match kind {
        0 => ("evaluate_opt", guard(|| { evaluate_opt(&m, &x); true })),
        1 => ("evaluate_no_par", guard(|| { evaluate_no_par(&m, &x); true })),
        2 => {
            ("fix_variables", guard(|| { fix_variables(&m, &x); true }))
        },
        3 => {
            ("fix_last_variables", guard(|| { fix_last_variables(&m, &x); true }))
        },
        4 => {
            ("fix_last_variables_no_par", guard(|| { fix_last_variables_no_par(&m, &x); true }))
        },
        5 => {
            let y = c.rand_point(nv);
            let (a, b) = if c.coin(1, 2) { (&x, &y) } else { (&y, &x) };
            if c.coin(1, 2) {
                ("eq_eval", guard(|| zk_sql::arithmetic::eq_eval(a, b).is_ok()))
            } else {
                ("eq_eval of the tracker", guard(|| dm_eq_eval(a, b).is_ok()))
            }
        },
        6 => {
            let k = c.range(1, 4);
            let mut l: Vec<Arc<Mle>> = (0..k).map(|_| Arc::new(c.mle(nv))).collect();
            let at = c.range(0, k);
            l.insert(at, Arc::new(c.mle(n)));
            ("merge_polynomials", guard(|| merge_polynomials(&l).is_ok()))
        },
        7 | 8 => {
            let nv = c.range(1, NV);
            let x = c.rand_point(if n < nv || n > nv { n } else { nv + 1 });
            let mut p = fresh();
            let a = p.track_and_commit_poly(c.mle(nv)).unwrap();
            let b = p.track_mat_poly(c.mle(nv));
            let h = if kind == 7 { a } else { a.mul_poly(&b).add_scalar(c.felt()) };
            let s = pstate(&p);
            let r = guard(|| h.evaluate(&x).is_some());
            ensure!(s == pstate(&p), "state", "an evaluation changed the tracker");
            ("evaluate of a handle", r)
        },
        9 => {
            let nv = nv.min(4);
            let (ck, _) = keys(4);
            let m = c.mle(nv);
            let x = c.rand_point(if n != nv { n } else { nv + 1 });
            ("open", guard(|| Pcs::open(ck, &m, &x).is_ok()))
        },
        10 => {
            let k = c.range(1, 4);
            let (ck, _) = keys(k);
            let d = k + c.range(1, 3);
            let m = c.mle(d);
            ("commit", guard(|| Pcs::commit(ck, &m).is_ok()))
        },
        11 => {
            // a table of another size than its selector
            let (a, b) = two_sizes(c);
            let mut p = fresh();
            let (x, y) = (p.track_and_commit_poly(c.mle(a)).unwrap(), p.track_and_commit_poly(c.mle(b)).unwrap());
            let s = pstate(&p);
            let r = guard(|| { PBag::new(x.clone(), y.clone()); true });
            ensure!(s == pstate(&p), "state", "a bag that is refused changed the tracker");
            ("a bag of two sizes", r)
        },
        _ => {
            let (mut p, mut q) = (fresh(), fresh());
            let nv = c.range(1, NV);
            let (x, y) = (p.track_and_commit_poly(c.mle(nv)).unwrap(), q.track_and_commit_poly(c.mle(nv)).unwrap());
            if c.coin(1, 2) {
                ("a bag of two trackers", guard(|| { PBag::new(x.clone(), y.clone()); true }))
            } else {
                ("a table of two trackers", guard(|| { PTab::new(vec![x.clone(), y.clone()], x.clone()); true }))
            }
        },
    };
    ensure!(!matches!(what.1, Ok(true)), "size", "{} accepts {} coordinates for {} variables", what.0, n, nv);
    c.count("refusals observed", 1);
    Ok(())
}
