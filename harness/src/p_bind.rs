//! Challenges that can be known in advance: the weights by which the code
//! combines claims, rows or values are read off one run (a linear relation
//! between what it produced and what it was given), the next input is chosen
//! so that a false statement holds under these weights, and must be refused.
//! Nothing here knows how or where the code draws a challenge.
use crate::{ctx::*, ensure, iop::*, p_iop::*, p_pcs::*, p_sumcheck::ref_round, p_tracker::*, refs::*, run::*, sim::*};
use ark_ff::{Field, One, Zero};
use std::sync::Arc;
use zk_sql::{arithmetic::VirtualPolynomial, subroutines::{pcs::prelude::*, poly_iop::prelude::*}, tracker::prelude::*, transcript::IOPTranscript};

type P = PolyIOP<F>;
fn v(sig: &str, e: impl std::fmt::Display) -> Viol {
    Viol { sig: sig.into(), msg: e.to_string() }
}

pub fn families() -> Vec<Family> {
    vec![
        fam("C06", "predicted", REL, 3000, 30000, zerocheck),
        fam("C10", "predicted", REL, 1000, 10000, batch),
        fam("C10", "predicted_points", REL, 600, 6000, batch_points),
        fam("C17", "predicted", REL, 2500, 20000, claims),
        fam("C17", "predicted_sums", REL, 800, 8000, sums),
        fam("C06", "dependent", REL, 120, 800, zerocheck_dependent),
        fam("C10", "dependent", REL, 64, 400, batch_dependent),
        fam("C17", "dependent", REL, 48, 400, claims_dependent),
        fam("C17", "dependent_sums", REL, 96, 800, sums_dependent),
        fam("C20", "predicted", REL | DBG, 1000, 10000, multitool),
        fam("C21", "predicted", REL | DBG, 1000, 10000, permutation),
        fam("C25", "predicted", REL | DBG, 1000, 10000, rows),
    ]
}

/// The unique w with h[x] = Σ w_i cols_i[x] for all x, if there is one and
/// there are more equations than unknowns.
pub fn relation(h: &[F], cols: &[&[F]]) -> Option<Vec<F>> {
    let (n, k) = (h.len(), cols.len());
    if n <= k || cols.iter().any(|c| c.len() != n) {
        return None;
    }
    let mut m: Vec<Vec<F>> = (0..n).map(|x| cols.iter().map(|c| c[x]).chain([h[x]]).collect()).collect();
    for i in 0..k {
        let p = (i..n).find(|r| !m[*r][i].is_zero())?;
        m.swap(i, p);
        let inv = m[i][i].inverse().unwrap();
        m[i].iter_mut().for_each(|x| *x *= inv);
        let row = m[i].clone();
        for (r, other) in m.iter_mut().enumerate() {
            if r != i && !other[i].is_zero() {
                let q = other[i];
                other.iter_mut().zip(&row).for_each(|(x, y)| *x -= q * y);
            }
        }
    }
    if m[k..].iter().any(|r| !r[k].is_zero()) {
        return None;
    }
    Some((0..k).map(|i| m[i][k]).collect())
}
/// the relation of a table or of its inverses to these columns
fn found_in(tables: &[Vec<F>], cols: &[&[F]], good: &dyn Fn(&[F]) -> bool) -> Option<Vec<F>> {
    let n = cols[0].len();
    for h in tables.iter().filter(|h| h.len() == n) {
        let inv: Option<Vec<F>> = h.iter().map(|x| x.inverse()).collect();
        for t in inv.iter().chain([h]) {
            if let Some(w) = relation(t, cols).filter(|w| good(w)) {
                return Some(w);
            }
        }
    }
    None
}
fn refused(c: &mut Ctx, k: &Case, what: &str) -> Res {
    if (k.holds)(&[]).is_ok() {
        return Ok(());
    }
    let r = run(k.params, &k.prove, &k.verify, vec![], &Sums::True);
    c.count("inputs chosen for challenges known in advance", 1);
    ensure!(!r.accepted(), "predictable", "accepted: {}, which only fits the challenges of an earlier run ({})", k.desc, what);
    Ok(())
}

// ---------------------------------------------------------------- protocols
fn raw(c: &mut Ctx, n: usize, big: bool) -> Vec<F> {
    (0..n).map(|_| if big { c.rand_f() } else { small(c, 9) }).collect()
}
fn multitool(c: &mut Ctx) -> Res {
    let big = c.coin(1, 2);
    let mut side = |c: &mut Ctx| -> Vec<(Vec<F>, Vec<F>, Vec<F>)> {
        (0..c.range(1, 3))
            .map(|_| {
                let n = 1 << c.range(1, 4);
                let s = if c.coin(1, 2) { ones(n) } else { (0..n).map(|_| f(c.range(0, 1))).collect() };
                let m = if c.coin(1, 2) { ones(n) } else { (0..n).map(|_| small(c, 4)).collect() };
                (raw(c, n, big), s, m)
            })
            .collect()
    };
    let mut d = [side(c), side(c)];
    let make = |d: &[Vec<(Vec<F>, Vec<F>, Vec<F>)>; 2]| {
        let g = |s: &Vec<(Vec<F>, Vec<F>, Vec<F>)>| -> Wb { s.iter().map(|(v, s, m)| (BagIn::plain(v.clone(), s.clone()), In::Commit(m.clone()))).collect() };
        multitool_case("multitool", g(&d[0]), g(&d[1]))
    };
    c.describe(make(&d).desc);
    for _ in 0..3 {
        let k = make(&d);
        let r = run(k.params, &k.prove, &k.verify, vec![], &Sums::True);
        let tables = &r.log[r.inputs..];
        let gamma = d.iter().flatten().find_map(|(v, ..)| {
            let w = found_in(tables, &[v, &ones(v.len())], &|w| !w[0].is_zero())?;
            Some(-w[1] * w[0].inverse().unwrap())
        });
        let gamma = match gamma {
            Some(g) => g,
            None => {
                c.count("challenge not recognised", 1);
                return Ok(());
            },
        };
        c.nontrivial();
        let total = |s: &Vec<(Vec<F>, Vec<F>, Vec<F>)>| -> Option<F> {
            let mut t = F::zero();
            for (v, s, m) in s {
                for i in 0..v.len() {
                    t += s[i] * m[i] * (v[i] - gamma).inverse()?;
                }
            }
            Some(t)
        };
        let (a, b) = match (total(&d[0]), total(&d[1])) {
            (Some(a), Some(b)) => (a, b),
            _ => return Ok(()),
        };
        // one entry changed so that both sides agree at this gamma
        let side = c.range(0, 1);
        let gap = if side == 0 { b - a } else { a - b };
        let q = c.range(0, d[side].len() - 1);
        let (v, s, m) = &mut d[side][q];
        let i = c.range(0, v.len() - 1);
        let what = match c.range(0, 2) {
            0 => {
                if s[i].is_zero() {
                    s[i] = F::one();
                    m[i] = F::zero();
                    continue;
                }
                m[i] += gap * (v[i] - gamma) * s[i].inverse().unwrap();
                "a multiplicity"
            },
            1 => {
                if m[i].is_zero() {
                    continue;
                }
                s[i] += gap * (v[i] - gamma) * m[i].inverse().unwrap();
                "a selector"
            },
            _ => {
                let w = s[i] * m[i];
                let t = w * (v[i] - gamma).inverse().unwrap() + gap;
                if w.is_zero() || t.is_zero() {
                    continue;
                }
                v[i] = gamma + w * t.inverse().unwrap();
                "a value"
            },
        };
        refused(c, &make(&d), what)?;
    }
    Ok(())
}
fn permutation(c: &mut Ctx) -> Res {
    let nv = c.range(2, 4);
    let n = 1usize << nv;
    let big = c.coin(1, 2);
    let a = raw(c, n, big);
    let (mut s, mut p): (Vec<usize>, Vec<usize>) = ((0..n).collect(), (0..n).collect());
    c.shuffle(&mut s);
    c.shuffle(&mut p);
    let make = |g: &[F]| presc_perm_case(BagIn::plain(a.clone(), ones(n)), BagIn::plain(g.to_vec(), ones(n)), In::Commit(p.iter().map(|j| f(*j)).collect()));
    let mut g: Vec<F> = p.iter().map(|j| a[*j]).collect();
    c.describe(format!("{} then {:?}", make(&g).desc, s));
    for _ in 0..2 {
        let k = make(&g);
        let r = run(k.params, &k.prove, &k.verify, vec![], &Sums::True);
        let at: Vec<F> = (0..n).map(f).collect();
        let w = match found_in(&r.log[r.inputs..], &[&at, &a, &ones(n)], &|w| !w[0].is_zero() && !w[1].is_zero()) {
            Some(w) => w,
            None => {
                c.count("challenge not recognised", 1);
                return Ok(());
            },
        };
        c.nontrivial();
        // position and value together as if row s[x], position as if row p[x]
        let q = w[0] * w[1].inverse().unwrap();
        g = (0..n).map(|x| a[s[x]] + (f(s[x]) - f(p[x])) * q).collect();
        refused(c, &make(&g), "values that make up for wrong positions")?;
    }
    Ok(())
}
fn rows(c: &mut Ctx) -> Res {
    let k = c.wide(2, 5, 12);
    let ni = if k > 5 { 4 } else { c.range(3, 4) };
    let no = c.range(0, 3);
    let big = c.coin(1, 2);
    let cols: Vec<Vec<F>> = (0..k).map(|_| raw(c, 1 << ni, big)).collect();
    let pick: Vec<usize> = (0..1 << no).map(|_| c.range(0, (1 << ni) - 1)).collect();
    let mut out: Vec<Vec<F>> = cols.iter().map(|x| pick.iter().map(|i| x[*i]).collect()).collect();
    let make = |out: &Vec<Vec<F>>| {
        let t = |x: &Vec<Vec<F>>| TabIn { sel: In::Commit(ones(x[0].len())), cols: x.iter().map(|t| In::Commit(t.clone())).collect() };
        index_case(t(&cols), t(out))
    };
    c.describe(make(&out).desc);
    for _ in 0..2 {
        let q = make(&out);
        let r = run(q.params, &q.prove, &q.verify, vec![], &Sums::True);
        let mut tables = r.log[r.inputs..].to_vec();
        if let Some(p) = &r.p {
            // combinations the prover keeps without committing to them
            let t = p.clone_underlying_tracker();
            tables.extend(t.virtual_polys.keys().filter(|i| t.get_poly_nv(**i) == ni).map(|i| t.evaluations(*i)));
        }
        let one = ones(1 << ni);
        let mut basis: Vec<&[F]> = cols.iter().map(|x| &x[..]).collect();
        basis.push(&one);
        let w = match found_in(&tables, &basis, &|w| w[..k].iter().filter(|x| !x.is_zero()).count() == k) {
            Some(w) => w,
            None => {
                c.count("weights not recognised", 1);
                return Ok(());
            },
        };
        c.nontrivial();
        let (i, j) = (c.range(0, k - 1), c.range(0, k - 2));
        let j = if j >= i { j + 1 } else { j };
        let row = c.range(0, (1 << no) - 1);
        let d = c.nz();
        out[i][row] += d * w[j];
        out[j][row] -= d * w[i];
        refused(c, &make(&out), "a row with the same combination as a true one")?;
    }
    Ok(())
}

// ---------------------------------------------------------------- building blocks
fn chi_of(c: &mut Ctx, nv: usize, t0: &IOPTranscript<F>) -> Result<Vec<F>, Viol> {
    // the sum of the first message for the polynomial that is one at x only
    let _ = c;
    let mut e = vec![];
    for x in 0..1usize << nv {
        let mut t = vec![F::zero(); 1 << nv];
        t[x] = F::one();
        let mut p = VirtualPolynomial::new(nv);
        p.add_mle_list(vec![Arc::new(Mle::from_evaluations_vec(nv, t))], F::one()).unwrap();
        let q = <P as ZeroCheck<F>>::prove(&p, &mut t0.clone()).map_err(|e| v("prove_err", e))?;
        let m = q.proofs[0].verif_evaluations();
        e.push(m[0] + m[1]);
    }
    Ok(e)
}
fn zerocheck(c: &mut Ctx) -> Res {
    let nv = c.range(1, 4);
    let mut t0 = <P as ZeroCheck<F>>::init_transcript();
    let mut t1 = t0.clone();
    let (a, b) = (c.rand_f(), c.rand_f());
    t0.append_field_element(b"commitment", &a).unwrap();
    t1.append_field_element(b"commitment", &b).unwrap();
    c.describe(format!("nv={} after {} and after {}", nv, sf(&a), sf(&b)));
    let e = chi_of(c, nv, &t0)?;
    c.nontrivial();
    // not zero, but its combination under these weights is
    let mut x = raw(c, 1 << nv, true);
    let i = match e.iter().position(|w| !w.is_zero()) {
        Some(i) => i,
        None => return viol("weights", "every value has weight zero"),
    };
    let s: F = x.iter().zip(&e).map(|(x, e)| *x * e).sum();
    x[i] -= s * e[i].inverse().unwrap();
    if x.iter().all(|x| x.is_zero()) {
        return Ok(());
    }
    let mut p = VirtualPolynomial::new(nv);
    p.add_mle_list(vec![Arc::new(Mle::from_evaluations_vec(nv, x.clone()))], F::one()).unwrap();
    let q = <P as ZeroCheck<F>>::prove(&p, &mut t1.clone()).map_err(|e| v("prove_err", e))?;
    c.count("polynomials chosen for weights known in advance", 1);
    if let Ok(Ok(s)) = guard(|| <P as ZeroCheck<F>>::verify(&q, &p.aux_info, &mut t1.clone())) {
        ensure!(s.expected_evaluation != mle_eval(&x, &s.point), "predictable", "a zero check ends in a true subclaim for values chosen with the weights of another transcript");
    }
    Ok(())
}
fn batch(c: &mut Ctx) -> Res {
    let nv = c.range(1, 3);
    let k = c.range(2, 6);
    let (ck, vk) = keys(nv);
    let mut t0 = IOPTranscript::<F>::new(b"batch");
    let a = c.rand_f();
    t0.append_field_element(b"init", &a).unwrap();
    let same = c.coin(1, 2);
    let p0 = c.rand_point(nv);
    let points: Vec<Vec<F>> = (0..k).map(|_| if same { p0.clone() } else { c.rand_point(nv) }).collect();
    c.describe(format!("{} openings nv={} same point={} after {}", k, nv, same, sf(&a)));
    let open = |vals: &[F], evals: &[F]| {
        let polys: Vec<Arc<Mle>> = vals.iter().map(|x| Arc::new(Mle::from_evaluations_vec(nv, vec![*x; 1 << nv]))).collect();
        let mut t = t0.clone();
        guard(|| Pcs::multi_open(ck, &polys, &points, evals, &mut t)).ok().and_then(|x| x.ok())
    };
    let first = |vals: &[F]| -> Option<F> {
        let q = open(vals, vals)?;
        let m = q.verif_parts().0.proofs.first()?.verif_evaluations().to_vec();
        Some(m[0] + m[1])
    };
    let mut w = vec![];
    for i in 0..k {
        let mut x = vec![F::zero(); k];
        x[i] = F::one();
        match first(&x) {
            Some(s) => w.push(s),
            None => return Ok(()),
        }
    }
    c.nontrivial();
    c.count("openings probed", k as u64);
    let (i, j) = (c.range(0, k - 1), c.range(0, k - 2));
    let j = if j >= i { j + 1 } else { j };
    let vals = raw(c, k, true);
    let mut evals = vals.clone();
    let d = c.nz();
    evals[i] += d * w[j];
    evals[j] -= d * w[i];
    if evals == vals {
        return Ok(());
    }
    let q = match open(&vals, &evals) {
        Some(q) => q,
        None => return Ok(()),
    };
    let mut q = q;
    q.f_i_eval_at_point_i = evals;
    let comms: Vec<Comm> = vals.iter().map(|x| Pcs::commit(ck, &Arc::new(Mle::from_evaluations_vec(nv, vec![*x; 1 << nv]))).unwrap()).collect();
    let mut t = t0.clone();
    let r = guard(|| Pcs::batch_verify(vk, &comms, &points, &q, &mut t));
    c.count("values chosen for weights known in advance", 1);
    ensure!(!matches!(r, Ok(Ok(true))), "predictable", "false values chosen with the weights of earlier openings are accepted");
    Ok(())
}
/// the same with points chosen for the weights that other points got
fn batch_points(c: &mut Ctx) -> Res {
    let nv = c.range(1, 3);
    let k = c.range(2, 6);
    let (ck, vk) = keys(nv);
    let mut t0 = IOPTranscript::<F>::new(b"batch");
    let a = c.rand_f();
    t0.append_field_element(b"init", &a).unwrap();
    // polynomials that evaluate to one coordinate of their point
    let at: Vec<usize> = (0..k).map(|_| c.range(0, nv - 1)).collect();
    let polys: Vec<Arc<Mle>> =
        at.iter().map(|&v| Arc::new(Mle::from_evaluations_vec(nv, (0..1usize << nv).map(|x| F::from((x >> v & 1) as u64)).collect()))).collect();
    let evals = raw(c, k, true);
    let rest: Vec<Vec<F>> = (0..k).map(|_| c.rand_point(nv)).collect();
    let points = |x: &[F]| -> Vec<Vec<F>> {
        (0..k)
            .map(|i| {
                let mut p = rest[i].clone();
                p[at[i]] = x[i];
                p
            })
            .collect()
    };
    c.describe(format!("{} openings nv={} coordinates {:?} values {} after {}", k, nv, at, sv(&evals), sf(&a)));
    let open = |x: &[F]| {
        let mut t = t0.clone();
        guard(|| Pcs::multi_open(ck, &polys, &points(x), &evals, &mut t)).ok().and_then(|x| x.ok())
    };
    let mut w = vec![];
    for i in 0..k {
        let mut x = vec![F::zero(); k];
        x[i] = F::one();
        let m = match open(&x).and_then(|q| q.verif_parts().0.proofs.first().map(|m| m.verif_evaluations().to_vec())) {
            Some(m) => m,
            None => return Ok(()),
        };
        w.push(m[0] + m[1]);
    }
    c.nontrivial();
    c.count("openings probed", k as u64);
    let (i, j) = (c.range(0, k - 1), c.range(0, k - 2));
    let j = if j >= i { j + 1 } else { j };
    let d = c.nz();
    let mut x = evals.clone();
    x[i] += d * w[j];
    x[j] -= d * w[i];
    if x == evals {
        return Ok(());
    }
    let mut q = match open(&x) {
        Some(q) => q,
        None => return Ok(()),
    };
    q.f_i_eval_at_point_i = evals.clone();
    let comms: Vec<Comm> = polys.iter().map(|m| Pcs::commit(ck, m).unwrap()).collect();
    let mut t = t0.clone();
    let r = guard(|| Pcs::batch_verify(vk, &comms, &points(&x), &q, &mut t));
    c.count("points chosen for weights known in advance", 1);
    ensure!(!matches!(r, Ok(Ok(true))), "predictable", "false values at points chosen with the weights of earlier openings are accepted");
    Ok(())
}
fn claims(c: &mut Ctx) -> Res {
    let nv = c.range(2, 3);
    let k = c.range(2, 3);
    let n = nv + c.range(0, 1);
    let sums = c.coin(1, 2);
    let other = c.coin(1, 2);
    let idle: Vec<Vec<F>> = (0..c.wide(0, 2, 9)).map(|_| raw(c, 1 << nv, true)).collect();
    let mut z: Vec<Vec<F>> = (0..k).map(|_| raw(c, 1 << nv, true)).collect();
    let s = raw(c, 1 << nv, true);
    c.describe(format!("{} zero claims nv={} params={} sum claim={} true zero claim={} after {} other commitments about {}", k, nv, n, sums, other, idle.len(), z.iter().map(|x| sv(x)).collect::<Vec<_>>().join(",")));
    let go = |z: &Vec<Vec<F>>| -> Option<(PT, CProof)> {
        guard(|| {
            let mut p = PT::new_from_pcs_params(keys(n).0.clone());
            for t in &idle {
                p.track_and_commit_poly(mle(t)).unwrap();
            }
            let q: Vec<TPoly> = z.iter().map(|t| p.track_and_commit_poly(mle(t)).unwrap()).collect();
            let x = p.track_and_commit_poly(mle(&s)).unwrap();
            let o = x.sub_poly(&x);
            q.iter().for_each(|q| p.add_zerocheck_claim(q.id));
            if other {
                p.add_zerocheck_claim(o.id);
            }
            if sums {
                p.add_sumcheck_claim(x.id, s.iter().sum());
            }
            let proof = p.compile_proof().map_err(|e| e.to_string())?;
            Ok::<_, String>((p, proof))
        })
        .ok()?
        .ok()
    };
    let (p, _) = match go(&z) {
        Some(x) => x,
        None => {
            c.count("false claims that do not compile", 1);
            return Ok(());
        },
    };
    let t = p.clone_underlying_tracker();
    let basis: Vec<&[F]> = z.iter().map(|x| &x[..]).collect();
    let mut ids: Vec<TrackerID> = t.virtual_polys.keys().copied().collect();
    ids.sort();
    let w = ids.iter().filter(|i| t.get_poly_nv(**i) == nv).find_map(|i| relation(&t.evaluations(*i), &basis).filter(|w| w.iter().filter(|x| !x.is_zero()).count() == k));
    let w = match w {
        Some(w) => w,
        None => {
            c.count("weights not recognised", 1);
            return Ok(());
        },
    };
    c.nontrivial();
    let l = c.range(0, k - 1);
    let inv = w[l].inverse().unwrap();
    z[l] = (0..1 << nv).map(|x| -(0..k).filter(|i| *i != l).map(|i| w[i] * z[i][x]).sum::<F>() * inv).collect();
    let (_, proof) = match go(&z) {
        Some(x) => x,
        None => return Ok(()),
    };
    c.count("claims chosen for weights known in advance", 1);
    let r = guard(|| {
        let mut w = VT::new_from_pcs_params(keys(n).1.clone());
        w.set_compiled_proof(proof);
        idle.iter().for_each(|_| {
            take(&mut w);
        });
        let q: Vec<TComm> = (0..k).map(|_| take(&mut w)).collect();
        let x = take(&mut w);
        let o = x.sub_comms(&x);
        q.iter().for_each(|q| w.add_zerocheck_claim(q.id));
        if other {
            w.add_zerocheck_claim(o.id);
        }
        if sums {
            let s = w.get_prover_claimed_sum(x.id);
            w.add_sumcheck_claim(x.id, s);
        }
        w.verify_claims().map_err(|e| e.to_string())
    });
    ensure!(!matches!(r, Ok(Ok(()))), "predictable", "false zero claims chosen with the weights of an earlier proof are accepted");
    Ok(())
}

// ------------------------------------------- weights that are never independent
/// A vector orthogonal to all of these, not zero, at random among them.
fn orthogonal(c: &mut Ctx, rows: &[Vec<F>]) -> Option<Vec<F>> {
    let k = rows[0].len();
    let mut m = rows.to_vec();
    let mut lead = vec![];
    let mut top = 0;
    for i in 0..k {
        if let Some(p) = (top..m.len()).find(|r| !m[*r][i].is_zero()) {
            m.swap(top, p);
            let inv = m[top][i].inverse().unwrap();
            m[top].iter_mut().for_each(|x| *x *= inv);
            let row = m[top].clone();
            for (r, other) in m.iter_mut().enumerate() {
                if r != top && !other[i].is_zero() {
                    let q = other[i];
                    other.iter_mut().zip(&row).for_each(|(x, y)| *x -= q * y);
                }
            }
            lead.push(i);
            top += 1;
        }
    }
    let free: Vec<usize> = (0..k).filter(|i| !lead.contains(i)).collect();
    if free.is_empty() {
        return None;
    }
    let mut w = vec![F::zero(); k];
    free.iter().for_each(|i| w[*i] = c.rand_f());
    for (r, i) in lead.iter().enumerate() {
        w[*i] = -free.iter().map(|j| m[r][*j] * w[*j]).sum::<F>();
    }
    Some(w)
}
fn zerocheck_dependent(c: &mut Ctx) -> Res {
    let nv = c.range(1, 5);
    let n = 1usize << nv;
    let other = |c: &mut Ctx| {
        let mut t = <P as ZeroCheck<F>>::init_transcript();
        t.append_field_element(b"commitment", &c.rand_f()).unwrap();
        t
    };
    c.describe(format!("nv={} #{:04x}", nv, c.idx));
    let mut rows = vec![];
    for _ in 0..n + 1 {
        let t = other(c);
        rows.push(chi_of(c, nv, &t)?);
    }
    c.nontrivial();
    c.count("weights of zero checks compared", (n * rows.len()) as u64);
    let x = match orthogonal(c, &rows) {
        Some(x) => x,
        None => return Ok(()),
    };
    let t = other(c);
    let mut p = VirtualPolynomial::new(nv);
    p.add_mle_list(vec![Arc::new(Mle::from_evaluations_vec(nv, x.clone()))], F::one()).unwrap();
    let q = <P as ZeroCheck<F>>::prove(&p, &mut t.clone()).map_err(|e| v("prove_err", e))?;
    if let Ok(Ok(s)) = guard(|| <P as ZeroCheck<F>>::verify(&q, &p.aux_info, &mut t.clone())) {
        ensure!(s.expected_evaluation != mle_eval(&x, &s.point), "dependent", "a zero check of {} variables ends in a true subclaim for values chosen before the transcript", nv);
    }
    Ok(())
}
fn batch_dependent(c: &mut Ctx) -> Res {
    let k = if c.coin(1, 2) { *c.pick(&[2, 4, 8, 16]) } else { c.range(2, 16) };
    // as many values in the messages as there are weights
    let nv = (k / 2).max(2);
    let (ck, vk) = keys(nv);
    let polys: Vec<Arc<Mle>> = (0..k).map(|_| Arc::new(Mle::from_evaluations_vec(nv, raw(c, 1 << nv, true)))).collect();
    let points: Vec<Vec<F>> = (0..k).map(|_| c.rand_point(nv)).collect();
    let evals: Vec<F> = polys.iter().zip(&points).map(|(p, x)| mle_eval(&p.evaluations, x)).collect();
    c.describe(format!("{} openings nv={} of {}", k, nv, sv(&evals)));
    let other = |c: &mut Ctx| {
        let mut t = IOPTranscript::<F>::new(b"batch");
        t.append_field_element(b"init", &c.rand_f()).unwrap();
        t
    };
    let parts: Vec<RefVp> = polys.iter().zip(&points).map(|(p, x)| RefVp { nv, terms: vec![(F::one(), vec![p.evaluations.clone(), chi(x)])] }).collect();
    let mut rows = vec![];
    for _ in 0..k + 1 {
        let mut t = other(c);
        let q = Pcs::multi_open(ck, &polys, &points, &evals, &mut t).map_err(|e| v("prove_err", format!("{:?}", e)))?;
        let s = q.verif_parts().0;
        let sent: Vec<Vec<F>> = s.proofs.iter().map(|m| m.verif_evaluations().to_vec()).collect();
        if sent.len() != nv || s.point.len() != nv {
            c.count("weights not recognised", 1);
            return Ok(());
        }
        let cols: Vec<Vec<F>> = parts.iter().map(|r| (0..nv).flat_map(|i| ref_round(r, &s.point[..i], sent[i].len() - 1)).collect()).collect();
        let cols: Vec<&[F]> = cols.iter().map(|x| &x[..]).collect();
        match relation(&sent.concat(), &cols) {
            Some(w) => rows.push(w),
            None => {
                c.count("weights not recognised", 1);
                return Ok(());
            },
        }
    }
    c.nontrivial();
    c.count("weights of openings compared", (k * rows.len()) as u64);
    let d = match orthogonal(c, &rows) {
        Some(d) => d,
        None => return Ok(()),
    };
    let wrong: Vec<F> = evals.iter().zip(&d).map(|(e, d)| *e + d).collect();
    let t = other(c);
    let comms: Vec<Comm> = polys.iter().map(|m| Pcs::commit(ck, m).unwrap()).collect();
    for told in [&wrong, &evals] {
        let mut q = match guard(|| Pcs::multi_open(ck, &polys, &points, told, &mut t.clone())) {
            Ok(Ok(q)) => q,
            _ => continue,
        };
        q.f_i_eval_at_point_i = wrong.clone();
        let r = guard(|| Pcs::batch_verify(vk, &comms, &points, &q, &mut t.clone()));
        ensure!(!matches!(r, Ok(Ok(true))), "dependent", "{} false values chosen before the transcript are accepted", k);
    }
    Ok(())
}
/// one claim after another about these tables: zero claims, and claims of these
/// sums. For a false sum the prover moves its table by a constant.
fn public_claims(first: &[F], zero: &[Vec<F>], sum: &[(Vec<F>, F)]) -> Option<(CProof, bool)> {
    let n = log2(first.len());
    guard(|| {
        let mut p = PT::new_from_pcs_params(keys(n).0.clone());
        p.track_and_commit_poly(mle(first)).unwrap();
        for z in zero {
            let q = p.track_mat_poly(mle(z));
            p.add_zerocheck_claim(q.id);
        }
        for (x, s) in sum {
            let gap = (*s - x.iter().sum::<F>()) * F::from(x.len() as u64).inverse().unwrap();
            let q = p.track_mat_poly(mle(&x.iter().map(|x| *x + gap).collect::<Vec<_>>()));
            p.add_sumcheck_claim(q.id, *s);
        }
        let proof = p.compile_proof().map_err(|e| e.to_string())?;
        let mut w = VT::new_from_pcs_params(keys(n).1.clone());
        w.set_compiled_proof(proof.clone());
        take(&mut w);
        let known = |w: &mut VT, a: &[F]| {
            let a = a.to_vec();
            w.track_virtual_comm(Box::new(move |x: &[F]| Ok(mle_eval_any(&a, x))))
        };
        for z in zero {
            let q = known(&mut w, z);
            w.add_zerocheck_claim(q.id);
        }
        for (x, _) in sum {
            let q = known(&mut w, x);
            let s = w.get_prover_claimed_sum(q.id.clone());
            w.add_sumcheck_claim(q.id, s);
        }
        let ok = w.verify_claims().is_ok();
        Ok::<_, String>((proof, ok))
    })
    .ok()?
    .ok()
}
fn claims_dependent(c: &mut Ctx) -> Res {
    let (k, nv) = *c.pick(&[(1, 4), (1, 4), (1, 3), (2, 2), (3, 2), (6, 1), (7, 1), (4, 1)]);
    let n = k << nv;
    c.describe(format!("{} zero claims nv={} #{:04x}", k, nv, c.idx));
    let split = |x: &[F]| -> Vec<Vec<F>> { x.chunks(1 << nv).map(|x| x.to_vec()).collect() };
    let mut rows = vec![];
    for _ in 0..n + 1 {
        let first = raw(c, 1 << nv, true);
        let mut row = vec![];
        for i in 0..n {
            let mut x = vec![F::zero(); n];
            x[i] = F::one();
            let m = match public_claims(&first, &split(&x), &[]) {
                Some((q, _)) => q.sc_proof.proofs.first().map(|m| m.verif_evaluations().to_vec()),
                None => None,
            };
            match m {
                Some(m) if m.len() > 1 => row.push(m[0] + m[1]),
                _ => {
                    c.count("false claims that do not compile", 1);
                    return Ok(());
                },
            }
        }
        rows.push(row);
    }
    c.nontrivial();
    c.count("weights of claims compared", (n * rows.len()) as u64);
    let x = match orthogonal(c, &rows) {
        Some(x) => x,
        None => return Ok(()),
    };
    let first = raw(c, 1 << nv, true);
    if let Some((_, ok)) = public_claims(&first, &split(&x), &[]) {
        ensure!(!ok, "dependent", "false zero claims chosen before the transcript are accepted");
    }
    Ok(())
}
/// The weights the proof's messages give to the tables of these sum claims; none
/// if they are messages about other tables. (The verifier does not tell: see the
/// finding about C18.)
fn sum_weights(first: &[F], q: &[(Vec<F>, F)]) -> Option<(Vec<F>, bool)> {
    let nv = log2(first.len());
    let (proof, ok) = public_claims(first, &[], q)?;
    let s = &proof.sc_proof;
    let sent: Vec<Vec<F>> = s.proofs.iter().map(|m| m.verif_evaluations().to_vec()).collect();
    if sent.len() != nv || s.point.len() != nv {
        return None;
    }
    let cols: Vec<Vec<F>> = q
        .iter()
        .map(|(x, _)| {
            let r = RefVp { nv, terms: vec![(F::one(), vec![x.clone()])] };
            (0..nv).flat_map(|i| ref_round(&r, &s.point[..i], sent[i].len() - 1)).collect()
        })
        .collect();
    let cols: Vec<&[F]> = cols.iter().map(|x| &x[..]).collect();
    Some((relation(&sent.concat(), &cols)?, ok))
}
fn sum_claims(c: &mut Ctx) -> (usize, Vec<(Vec<F>, F)>) {
    let k = c.wide(2, 4, 7);
    let nv = k + c.range(0, 1);
    let q = (0..k).map(|_| raw(c, 1 << nv, true)).map(|x| (x.clone(), x.iter().sum())).collect();
    (nv, q)
}
fn sums(c: &mut Ctx) -> Res {
    let (nv, mut q) = sum_claims(c);
    let k = q.len();
    let first = raw(c, 1 << nv, true);
    c.describe(format!("{} sum claims nv={} with sums {}", k, nv, sv(&q.iter().map(|x| x.1).collect::<Vec<_>>())));
    for _ in 0..2 {
        let w = match sum_weights(&first, &q) {
            Some((w, _)) => w,
            None => {
                c.count("weights not recognised", 1);
                return Ok(());
            },
        };
        c.nontrivial();
        let (i, j) = (c.range(0, k - 1), c.range(0, k - 2));
        let j = if j >= i { j + 1 } else { j };
        let d = c.nz();
        q[i].1 += d * w[j];
        q[j].1 -= d * w[i];
        if q.iter().all(|(x, s)| x.iter().sum::<F>() == *s) {
            return Ok(());
        }
        c.count("sums chosen for weights known in advance", 1);
        if let Some((_, ok)) = sum_weights(&first, &q) {
            ensure!(!ok, "predictable", "false sums {} and {} chosen with the weights of an earlier proof are accepted", i, j);
        }
        q.iter_mut().for_each(|(x, s)| *s = x.iter().sum());
    }
    Ok(())
}
fn sums_dependent(c: &mut Ctx) -> Res {
    let (nv, mut q) = sum_claims(c);
    let k = q.len();
    c.describe(format!("{} sum claims nv={} with sums {}", k, nv, sv(&q.iter().map(|x| x.1).collect::<Vec<_>>())));
    let mut rows = vec![];
    for _ in 0..k + 1 {
        let first = raw(c, 1 << nv, true);
        match sum_weights(&first, &q) {
            Some((w, _)) => rows.push(w),
            None => {
                c.count("weights not recognised", 1);
                return Ok(());
            },
        }
    }
    c.nontrivial();
    c.count("weights of sum claims compared", (k * rows.len()) as u64);
    let d = match orthogonal(c, &rows) {
        Some(d) => d,
        None => return Ok(()),
    };
    q.iter_mut().zip(&d).for_each(|(x, d)| x.1 += d);
    let first = raw(c, 1 << nv, true);
    if let Some((_, ok)) = sum_weights(&first, &q) {
        ensure!(!ok, "dependent", "false sums chosen before the transcript are accepted");
    }
    Ok(())
}
