//! C31 a query is several protocols on the same trackers with one proof: it is
//! accepted exactly when every part is true, whatever the other parts are,
//! which inputs they share, and which part the prover is dishonest about.
use crate::{ctx::*, ensure, iop::*, p_iop::*, run::*};
use ark_ff::{One, Zero};
use std::{cell::{Cell, RefCell}, rc::Rc};
use zk_sql::zksql_poly_iop::verif_hooks::*;

pub fn families() -> Vec<Family> {
    vec![
        fam("C31", "sequences", REL | DBG, 1200, 12000, |c| sequences(c, 0)),
        fam("C31", "sequences_large", REL | DBG, 80, 1000, |c| sequences(c, 3)),
        fam("C31", "mirrored", REL | DBG, 1000, 10000, mirrored),
        fam("C31", "pipeline", REL | DBG, 800, 8000, |c| pipeline(c, 0)),
        fam("C31", "pipeline_large", REL | DBG, 60, 800, |c| pipeline(c, 3)),
        fam("C31", "lockstep", REL | DBG, 500, 5000, lockstep_of),
    ]
}

/// the parts as one statement; the sums of part `who` begin where `off` says
struct Query {
    case: Case,
    off: Rc<Cell<usize>>,
    who: usize,
}
fn query(parts: Rc<Vec<Case>>, who: usize) -> Query {
    let off = Rc::new(Cell::new(0));
    let counts: Rc<RefCell<Vec<usize>>> = Rc::default();
    let (o, k1, k2, a, b, d) = (off.clone(), counts.clone(), counts, parts.clone(), parts.clone(), parts.clone());
    let case = Case {
        name: "query",
        params: parts.iter().map(|x| x.params).max().unwrap(),
        complete: parts.iter().all(|x| x.complete),
        holds: Rc::new(move |outs| {
            let mut at = 0;
            let n = k1.borrow();
            for (i, x) in d.iter().enumerate() {
                let k = n.get(i).copied().unwrap_or(0).min(outs.len() - at.min(outs.len()));
                (x.holds)(&outs[at..at + k]).map_err(|e| format!("in part {} ({}): {}", i, x.name, e))?;
                at += k;
            }
            Ok(())
        }),
        prove: Rc::new(move |p| {
            let mut res = vec![];
            for (i, x) in a.iter().enumerate() {
                part_begins(i == who, p.clone_underlying_tracker().sum_check_claims.len());
                res.extend((x.prove)(p)?);
                part_ends(i == who);
            }
            o.set(parts_done());
            Ok(res)
        }),
        verify: Rc::new(move |w| {
            let mut res = vec![];
            k2.borrow_mut().clear();
            for x in b.iter() {
                let r = (x.verify)(w)?;
                k2.borrow_mut().push(r.len());
                res.extend(r);
            }
            Ok(res)
        }),
        advs: vec![],
        eqs: vec![],
        desc: parts.iter().map(|x| format!("{} {}", x.name, x.desc)).collect::<Vec<_>>().join(" ; "),
    };
    Query { case, off, who }
}
fn judge_query(c: &mut Ctx, parts: Vec<Case>) -> Res {
    let one = c.coin(1, 2);
    let _aliasing = Aliasing::on(one);
    let parts = Rc::new(parts);
    let bad: Vec<usize> = (0..parts.len()).filter(|i| !parts[*i].complete).collect();
    let who = if bad.is_empty() { c.range(0, parts.len() - 1) } else { *c.pick(&bad) };
    let q = query(parts.clone(), who);
    let k = &q.case;
    c.describe(format!("{}{}", k.desc, if one { " (equal inputs are one)" } else { "" }));
    c.nontrivial();
    let names = parts.iter().map(|x| x.name).collect::<Vec<_>>().join("+");
    let h = run(k.params, &k.prove, &k.verify, vec![], &Sums::True);
    if k.complete {
        ensure!(h.accepted(), "query_refused", "a true query ({}) is refused: {}", names, h.refused.clone().unwrap_or_default());
        c.count("true queries accepted", 1);
        c.count("claims found true", h.claims as u64);
    } else {
        c.count("false queries judged", 1);
    }
    c.count("protocols run", parts.len() as u64);
    if h.accepted() {
        if let Err(e) = (k.holds)(&h.outs) {
            return viol("query_accepted", format!("a query ({}) is accepted although {}", names, e));
        }
    }
    // dishonest about one part
    let mut tried = 0u64;
    let part = &parts[q.who];
    let view = |mut r: Run| -> Run {
        let o = q.off.get().min(r.sums.len());
        r.sums.drain(..o);
        r
    };
    let off = q.off.get();
    let mut dishonest = |what: &str, r: &Run| -> Res {
        tried += 1;
        if r.accepted() {
            if let Err(e) = (k.holds)(&r.outs) {
                return viol("query_accepted", format!("a query ({}) is accepted with dishonest supporting data ({}) although {}", names, what, e));
            }
        }
        Ok(())
    };
    if (part.holds)(&[]).is_err() && h.p.is_some() {
        let h2 = view(run(k.params, &k.prove, &k.verify, vec![], &Sums::True));
        for e in &part.eqs {
            if let Some(s) = e.shifted(&h2, off) {
                dishonest("a sum that fits the equation", &run(k.params, &k.prove, &k.verify, vec![], &s))?;
            }
            for s in e.swaps(&h2) {
                dishonest("inverses that fit the equation", &run(k.params, &k.prove, &k.verify, s, &Sums::True))?;
            }
        }
        for a in part.advs.iter().take(3) {
            let mut swap: Swap = vec![];
            let mut last: Option<Run> = None;
            for s in &a.stages {
                swap.extend(s(last.as_ref().unwrap_or(&h2)));
                last = Some(view(run(k.params, &k.prove, &k.verify, swap.clone(), &Sums::True)));
            }
            if let Some(l) = &last {
                dishonest(a.name, l)?;
            }
        }
    }
    c.count("dishonest provers judged", tried);
    if c.coin(1, 4) && h.p.is_some() && !h.p.as_ref().unwrap().clone_underlying_tracker().materialized_comms.is_empty() {
        let r = end_to_end(k.params, &k.prove, &k.verify);
        if k.complete {
            ensure!(r.is_ok(), "query_refused_compiled", "the compiled proof of a true query ({}) is refused: {}", names, r.err().unwrap());
            c.count("compiled proofs accepted", 1);
        } else if !h.accepted() {
            ensure!(r.is_err(), "query_accepted_compiled", "the honest prover's compiled proof of a false query ({}) is accepted", names);
            c.count("compiled proofs of false queries refused", 1);
        }
    }
    Ok(())
}
fn some_parts(c: &mut Ctx, grow: usize) -> Vec<Case> {
    let n = c.range(2, 4);
    let truth = c.coin(1, 2);
    let bad = c.range(0, n - 1);
    (0..n)
        .map(|i| {
            c.grow = if grow > 0 && c.coin(1, 2) { c.range(1, grow) } else { 0 };
            let (_, g) = *c.pick(&ALL);
            let t = truth || i != bad && !c.coin(1, 6);
            g(c, t)
        })
        .collect()
}
fn sequences(c: &mut Ctx, grow: usize) -> Res {
    let mut parts = some_parts(c, grow);
    if c.coin(1, 3) {
        // the same statement again
        let i = c.range(0, parts.len() - 1);
        let again = again(&parts[i]);
        let at = c.range(0, parts.len());
        parts.insert(at, again);
    }
    judge_query(c, parts)
}
fn again(k: &Case) -> Case {
    Case {
        name: k.name,
        params: k.params,
        complete: k.complete,
        holds: k.holds.clone(),
        prove: k.prove.clone(),
        verify: k.verify.clone(),
        advs: vec![],
        eqs: k.eqs.clone(),
        desc: k.desc.clone(),
    }
}
fn lockstep_of(c: &mut Ctx) -> Res {
    let parts = some_parts(c, 0);
    let q = query(Rc::new(parts), 0);
    judge_lockstep(c, &q.case)
}
/// A false equation and its mirror image: the errors of the two cancel.
fn mirrored(c: &mut Ctx) -> Res {
    let nv = c.range(0, 3);
    let n = 1 << nv;
    let d = c.range(1, 4);
    let a: Vec<F> = (0..n).map(|_| small(c, d)).collect();
    let mut b = a.clone();
    c.shuffle(&mut b);
    let i = c.range(0, n - 1);
    if c.coin(3, 4) {
        b[i] += c.nz();
    }
    let sel = |c: &mut Ctx| -> Vec<F> { if c.coin(1, 2) { ones(n) } else { (0..n).map(|_| f(c.range(0, 1))).collect() } };
    let (sa, sb) = (sel(c), sel(c));
    let (x, y) = (BagIn::plain(a, sa), BagIn::plain(b, sb));
    let one = In::Commit(ones(n));
    let w = |z: &BagIn| vec![(z.clone(), one.clone())];
    let mut parts = vec![multitool_case("multitool", w(&x), w(&y)), multitool_case("multitool", w(&y), w(&x))];
    if c.coin(1, 3) {
        let (_, g) = *c.pick(&ALL);
        let k = g(c, true);
        let at = c.range(0, 2);
        parts.insert(at, k);
    }
    judge_query(c, parts)
}

/// ((A ∩ B) ∪ C) \ A, which must lie in C: each step works on what the step
/// before returned. If one step is wrong, all later ones are right about it.
fn pipeline(c: &mut Ctx, grow: usize) -> Res {
    c.grow = grow;
    let (a, b, bits) = sets(c, 2);
    let all = 1 << bits;
    let cc: Vec<F> = {
        let top = c.range(0, 2 + grow);
        let n = c.range(0, 1 << top);
        let mut v: Vec<F> = (0..all).map(f).collect();
        c.shuffle(&mut v);
        v.truncate(n.min(all));
        v
    };
    let wrong = if c.coin(1, 2) { 0 } else { c.range(1, 4) };
    let junk = [f(0), f(1)];
    let (ba, bb, bc) = (c.range(0, 1), c.range(0, 1), c.range(0, 1));
    let mut fit = |c: &mut Ctx, v: &[F], more: usize| -> BagIn {
        let nv = (v.len().max(1)).next_power_of_two().trailing_zeros() as usize + more;
        let (p, s) = place(c, nv, v, &junk);
        BagIn::plain(p, s)
    };
    let (x, y, z) = (fit(c, &a, ba), fit(c, &b, bb), fit(c, &cc, bc));
    let change = |c: &mut Ctx, v: &mut Vec<F>| {
        let missing: Vec<F> = (0..all).map(f).filter(|x| !v.contains(x)).collect();
        if !v.is_empty() && (missing.is_empty() || c.coin(1, 2)) {
            let i = c.range(0, v.len() - 1);
            v.remove(i);
        } else if !missing.is_empty() {
            let x = *c.pick(&missing);
            v.push(x);
        }
    };
    // A and B
    let mut i = both(&a, &b);
    let (l, r) = (minus(&a, &i), minus(&b, &i));
    if wrong == 1 {
        change(c, &mut i);
    }
    let (bi, bl, br) = (fit(c, &i, 0), fit(c, &l, 0), fit(c, &r, 0));
    // or C
    let mut u: Vec<F> = set(&i).union(&set(&cc)).copied().collect();
    if wrong == 2 {
        change(c, &mut u);
        u.sort();
    }
    let nu = (u.len().max(1)).next_power_of_two().trailing_zeros() as usize;
    let (uv, us) = tail(nu, &u);
    let range: Vec<F> = (0..all).map(f).collect();
    let sorted = sorted_ok(&uv, &us, &range);
    let bu = BagIn::plain(uv, us);
    // but not A
    let mut d = minus(&u, &a);
    let m = both(&u, &a);
    if wrong == 3 {
        change(c, &mut d);
    }
    let (bd, bm) = (fit(c, &d, 0), fit(c, &m, 0));
    let q: Vec<F> = x.poly.vals().iter().zip(x.sel.vals()).map(|(v, s)| if !s.is_zero() && m.contains(v) { F::one() } else { F::zero() }).collect();
    // what is left is all of it, in some order
    let mut e = d.clone();
    c.shuffle(&mut e);
    if wrong == 4 {
        change(c, &mut e);
        if e.len() > 1 << bd.nv() {
            e.remove(0);
        }
    }
    let (ev, es) = place(c, bd.nv(), &e, &junk);
    let be = BagIn::plain(ev, es);
    let ok = wrong == 0 && sorted;
    let said: bool = {
        // is every step right about the one before?
        let same = |p: &[F], q: &[F]| p.len() == q.len() && set(p) == set(q);
        same(&i, &both(&a, &b)) && same(&u, &set(&i).union(&set(&cc)).copied().collect::<Vec<_>>()) && same(&d, &minus(&u, &a)) && same(&e, &d)
    };
    let rg = range_bag(bits);
    let big = [x.nv(), y.nv(), z.nv(), bl.nv().max(br.nv()) + 1, bi.nv().max(z.nv()) + 1, bd.nv().max(x.nv()) + 1, bu.nv(), bits].into_iter().max().unwrap();
    let desc = format!("(({} & {}) | {}) - a: {} {} {} {} wrong step {}", sv(&a), sv(&b), sv(&cc), sv(&i), sv(&u), sv(&d), sv(&e), wrong);
    let subset = set(&d).is_subset(&set(&cc));
    let bag = Rc::new((x, y, z, bi, bl, br, bu, bd, bm, be, In::Commit(q), rg));
    let v = bag.clone();
    let k = Case {
        name: "pipeline",
        params: max_nv(&[big]),
        complete: ok && said && subset,
        holds: always(said && sorted && subset, "a step is wrong"),
        prove: Rc::new(move |p| {
            let t = &bag;
            let (x, y, z) = (t.0.p(p)?, t.1.p(p)?, t.2.p(p)?);
            let rg = t.11.p(p)?;
            let (i, l, r) = (t.3.p(p)?, t.4.p(p)?, t.5.p(p)?);
            SetIntersectIOP::<E, Pcs>::prove(p, &x, &y, &l, &i, &r, &rg)?;
            let u = t.6.p(p)?;
            SetUnionIOP::<E, Pcs>::prove(p, &i, &z, &u, &rg)?;
            let (d, m, q) = (t.7.p(p)?, t.8.p(p)?, t.10.p(p)?);
            SetDiffIOP::<E, Pcs>::prove(p, &u, &x, &d, &m, &q, &rg)?;
            BagInclusionIOP::<E, Pcs>::prove(p, &d, &z)?;
            let e = t.9.p(p)?;
            BagEqIOP::<E, Pcs>::prove(p, &d, &e)?;
            inputs_done();
            Ok(vec![])
        }),
        verify: Rc::new(move |p| {
            let t = &v;
            let (x, y, z) = (t.0.v(p), t.1.v(p), t.2.v(p));
            let rg = t.11.v(p);
            let (i, l, r) = (t.3.v(p), t.4.v(p), t.5.v(p));
            SetIntersectIOP::<E, Pcs>::verify(p, &x, &y, &l, &i, &r, &rg)?;
            let u = t.6.v(p);
            SetUnionIOP::<E, Pcs>::verify(p, &i, &z, &u, &rg)?;
            let (d, m, q) = (t.7.v(p), t.8.v(p), t.10.v(p));
            SetDiffIOP::<E, Pcs>::verify(p, &u, &x, &d, &m, &q, &rg)?;
            BagInclusionIOP::<E, Pcs>::verify(p, &d, &z)?;
            let e = t.9.v(p);
            BagEqIOP::<E, Pcs>::verify(p, &d, &e)?;
            Ok(vec![])
        }),
        advs: vec![],
        eqs: vec![],
        desc,
    };
    judge(c, &k)
}
