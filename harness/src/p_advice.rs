//! C27: the helpers that compute supporting data, against references on
//! unsorted inputs with repetitions and deactivated rows, and through the
//! protocol that consumes what they return.
use crate::{ctx::*, ensure, iop::*, p_iop::*, p_pcs::*, p_tracker::*, run::*, sim::*};
use ark_ff::{Field, One, Zero};
use std::{collections::BTreeMap, rc::Rc};
use zk_sql::zksql_poly_iop::verif_hooks::*;

pub fn families() -> Vec<Family> {
    vec![
        fam("C27", "counts", REL | DBG, 1500, 15000, counting),
        fam("C27", "inclusion", REL | DBG, 1200, 12000, inclusion),
        fam("C27", "disjoint", REL | DBG, 600, 6000, disjoint),
        fam("C27", "support", REL | DBG, 800, 8000, support),
        fam("C27", "join_selectors", REL | DBG, 250, 2500, join_selectors),
        fam("C27", "index_map", REL | DBG, 800, 8000, index_map),
        fam("C27", "bag_split", REL | DBG, 1000, 10000, bag_split),
        fam("C27", "set_split", REL | DBG, 600, 6000, set_split),
        fam("C27", "counted_split", REL | DBG, 1000, 10000, counted_split),
        fam("C27", "counts_large", REL | DBG, 300, 3000, |c| large(c, 5, counting)),
        fam("C27", "inclusion_large", REL | DBG, 300, 3000, |c| large(c, 5, inclusion)),
        fam("C27", "disjoint_large", REL | DBG, 300, 3000, |c| large(c, 5, disjoint)),
        fam("C27", "support_large", REL | DBG, 300, 3000, |c| large(c, 5, support)),
        fam("C27", "join_selectors_large", REL | DBG, 100, 1000, |c| large(c, 6, join_selectors)),
        fam("C27", "index_map_large", REL | DBG, 300, 3000, |c| large(c, 5, index_map)),
        fam("C27", "bag_split_large", REL | DBG, 300, 3000, |c| large(c, 5, bag_split)),
        fam("C27", "set_split_large", REL | DBG, 300, 3000, |c| large(c, 5, set_split)),
        fam("C27", "counted_split_large", REL | DBG, 300, 3000, |c| large(c, 5, counted_split)),
        fam("C27", "aliases", REL | DBG, 1000, 10000, aliases),
        fam("C27", "challenges", REL | DBG, 1000, 10000, challenges),
    ]
}
fn large(c: &mut Ctx, grow: usize, g: fn(&mut Ctx) -> Res) -> Res {
    c.grow = if c.coin(1, 2) { grow } else { c.range(1, grow) };
    g(c)
}
/// a bag in a random arrangement, with a mind for few distinct values
fn any_bag(c: &mut Ctx, pool: &[F], nmax: usize) -> BagIn {
    let nv = c.size(0, nmax);
    let full = c.coin(1, 5);
    let k = if full { 1 << nv } else { c.range(0, 1 << nv) };
    // large tables: one value in most rows, now and then
    let most = *c.pick(pool);
    let heavy = c.grow > 0 && c.coin(1, 3);
    let act: Vec<F> = (0..k).map(|_| if heavy && c.coin(9, 10) { most } else { *c.pick(pool) }).collect();
    let mut junk = pool.to_vec();
    junk.push(F::zero());
    placed(c, nv, &act, &junk)
}
fn any_pool(c: &mut Ctx) -> Vec<F> {
    let k = if c.grow > 0 && c.coin(1, 2) { c.range(1, 300) } else { c.range(1, 6) };
    if c.coin(1, 3) {
        (0..k).map(|_| c.felt()).collect()
    } else {
        distinct(c, k, if k > 16 { 9 } else { 4 })
    }
}
fn ms(v: Vec<F>) -> BTreeMap<F, usize> {
    counts(&v)
}
fn booleans(v: &[F], who: &str) -> Res {
    ensure!(v.iter().all(|x| x.is_zero() || x.is_one()), "selector", "the selector of {} is {}", who, sv(v));
    Ok(())
}
/// the protocol accepts what the helper returned
fn accepted(c: &mut Ctx, params: usize, who: &str, p: Prove, v: Verify) -> Res {
    let r = run(params, &p, &v, vec![], &Sums::True);
    ensure!(r.accepted(), &format!("{}_refused", who), "the {} protocol refuses the supporting data: {}", who, r.refused.clone().unwrap_or_default());
    c.count("accepted by the consuming protocol", 1);
    Ok(())
}
fn nothing<T>(r: Result<T, PErr>) -> Result<Vec<TPoly>, PErr> {
    r.map(|_| vec![])
}
fn nothing_v<T>(r: Result<T, PErr>) -> Result<Vec<(TComm, usize)>, PErr> {
    r.map(|_| vec![])
}
fn calm<T>(f: impl FnOnce() -> T) -> Result<T, Viol> {
    guard(f).map_err(|e| Viol { sig: "panic".into(), msg: format!("panic: {}", e) })
}
fn fine<T>(r: Result<T, PErr>) -> Result<T, Viol> {
    r.map_err(|e| Viol { sig: "error".into(), msg: format!("the helper fails: {}", e) })
}
fn prover(c: &Ctx) -> PT {
    PT::new_from_pcs_params(keys(4 + c.grow).0.clone())
}
fn counting(c: &mut Ctx) -> Res {
    let pool = any_pool(c);
    let b = any_bag(c, &pool, 4);
    c.describe(b.show());
    c.nontrivial();
    let want = ms(b.active());
    let same = |g: std::collections::HashMap<F, u64>| g.into_iter().map(|(k, n)| (k, n as usize)).collect::<BTreeMap<_, _>>() == want;
    let (v, s) = (b.poly.vals(), b.sel.vals());
    ensure!(same(calm(|| vec_multiplicity_count::<E>(&v, &s))?), "vec", "wrong counts from vectors");
    ensure!(same(calm(|| mle_multiplicity_count::<E>(&mle(&v), &mle(&s)))?), "mle", "wrong counts from polynomials");
    let mut t = prover(c);
    let bag = b.p(&mut t).unwrap();
    ensure!(same(calm(|| bag_multiplicity_count(&bag))?), "bag", "wrong counts from a bag");
    c.count("values counted", want.len() as u64);
    Ok(())
}
fn inclusion(c: &mut Ctx) -> Res {
    let pool = any_pool(c);
    let (mut a, b) = (any_bag(c, &pool, 3), any_bag(c, &pool, 3));
    let sup = set(&b.active());
    if c.coin(2, 3) && !sup.is_empty() {
        let from: Vec<F> = sup.iter().copied().collect();
        a = any_bag(c, &from, 3);
    }
    c.describe(format!("{} in {}", a.show(), b.show()));
    c.nontrivial();
    let want = ms(a.active());
    let mut t = prover(c);
    let (x, y) = (a.p(&mut t).unwrap(), b.p(&mut t).unwrap());
    let m1 = calm(|| calc_bag_inclusion_advice_from_bag(&x, &y))?.evaluations;
    let m2 = calm(|| calc_bag_inclusion_advice_from_mle::<E>(&mle(&a.poly.vals()), &mle(&a.sel.vals()), &mle(&b.poly.vals()), &mle(&b.sel.vals())))?.evaluations;
    for (m, who) in [(&m1, "bags"), (&m2, "polynomials")] {
        ensure!(m.len() == b.poly.vals().len(), "length", "{} multiplicities for {} rows (from {})", m.len(), b.poly.vals().len(), who);
        let w: Vec<F> = m.iter().zip(b.sel.vals()).map(|(m, s)| *m * s).collect();
        let got = weights(&b.poly.vals(), &w);
        let right: BTreeMap<F, F> = want.iter().filter(|(v, _)| sup.contains(v)).map(|(v, n)| (*v, f(*n))).collect();
        ensure!(got == right, "weights", "multiplicities {} (from {})", sv(m), who);
    }
    if want.keys().all(|v| sup.contains(v)) {
        let params = max_nv(&[a.nv(), b.nv()]);
        let d = Rc::new((a, b, In::Commit(m1)));
        let e = d.clone();
        accepted(
            c,
            params,
            "inclusion",
            Rc::new(move |p| {
                let (x, y, m) = (d.0.p(p)?, d.1.p(p)?, d.2.p(p)?);
                nothing(BagInclusionIOP::<E, Pcs>::prove_with_advice(p, &x, &y, &m))
            }),
            Rc::new(move |w| {
                let (x, y, m) = (e.0.v(w), e.1.v(w), e.2.v(w));
                nothing_v(BagInclusionIOP::<E, Pcs>::verify_with_advice(w, &x, &y, &m))
            }),
        )?;
    }
    Ok(())
}
/// the sorted support of these values, its selector and the multiplicities
fn check_support(v: &[F], s: &[F], want: &[F], who: &str) -> Res {
    booleans(s, who)?;
    let got = active(v, s);
    ensure!(ms(got.clone()) == ms(want.to_vec()), "support", "{} holds {} instead of {}", who, sv(&got), sv(want));
    ensure!(got.windows(2).all(|w| w[0] < w[1]), "order", "{} is not sorted: {}", who, sv(&got));
    // the sorted check goes row by row: deactivated rows come first and hold zero
    let k = v.len() - want.len();
    ensure!(v[..k].iter().chain(&s[..k]).all(|x| x.is_zero()), "front", "{} starts with {}/{}", who, sv(&v[..k]), sv(&s[..k]));
    Ok(())
}
fn disjoint(c: &mut Ctx) -> Res {
    let small_values = c.coin(2, 3);
    let many = c.grow > 0 && c.coin(1, 2);
    let (k, bits) = if many { (c.range(2, 120), 8) } else { (c.range(2, 8), 4) };
    let pool = if small_values { distinct(c, k, bits) } else { any_pool(c) };
    let share = c.coin(1, 3) || pool.len() < 2;
    let cut = if share { 0 } else { c.range(1, pool.len() - 1) };
    let (l, r) = if share { (&pool[..], &pool[..]) } else { pool.split_at(cut) };
    let (a, b) = (any_bag(c, l, 3), any_bag(c, r, 3));
    c.describe(format!("{} and {}", a.show(), b.show()));
    c.nontrivial();
    let mut t = prover(c);
    let (x, y) = (a.p(&mut t).unwrap(), b.p(&mut t).unwrap());
    let (s, ss, ma, mb) = fine(calm(|| calc_bag_disjoint_advice(&x, &y))?)?;
    let nv = a.nv().max(b.nv()) + 1;
    for m in [&s, &ss, &ma, &mb] {
        ensure!(m.num_vars == nv && m.evaluations.len() == 1 << nv, "length", "{} variables, expected {}", m.num_vars, nv);
    }
    let (ca, cb) = (ms(a.active()), ms(b.active()));
    let want: Vec<F> = ca.keys().chain(cb.keys()).copied().collect::<std::collections::BTreeSet<_>>().into_iter().collect();
    check_support(&s.evaluations, &ss.evaluations, &want, "the combined support")?;
    for (m, k) in [(&ma, &ca), (&mb, &cb)] {
        let w: BTreeMap<F, F> = k.iter().map(|(v, n)| (*v, f(*n))).collect();
        let u: Vec<F> = m.evaluations.iter().zip(&ss.evaluations).map(|(a, b)| *a * b).collect();
        ensure!(weights(&s.evaluations, &u) == w, "weights", "multiplicities {}", sv(&m.evaluations));
    }
    if small_values && set(&a.active()).is_disjoint(&set(&b.active())) {
        let params = max_nv(&[nv, bits]);
        let sum = BagIn::plain(s.evaluations, ss.evaluations);
        let d = Rc::new((a, b, sum, In::Commit(ma.evaluations), In::Commit(mb.evaluations), range_bag(bits)));
        let e = d.clone();
        accepted(
            c,
            params,
            "disjointness",
            Rc::new(move |p| {
                let (x, y, s, m, n, g) = (d.0.p(p)?, d.1.p(p)?, d.2.p(p)?, d.3.p(p)?, d.4.p(p)?, d.5.p(p)?);
                nothing(BagDisjointIOP::<E, Pcs>::prove_with_advice(p, &x, &y, &s, &m, &n, &g))
            }),
            Rc::new(move |w| {
                let (x, y, s, m, n, g) = (e.0.v(w), e.1.v(w), e.2.v(w), e.3.v(w), e.4.v(w), e.5.v(w));
                nothing_v(BagDisjointIOP::<E, Pcs>::verify_with_advice(w, &x, &y, &s, &m, &n, &g))
            }),
        )?;
    }
    Ok(())
}
fn support(c: &mut Ctx) -> Res {
    let small_values = c.coin(2, 3);
    let many = c.grow > 0 && c.coin(1, 2);
    let (k, bits) = if many { (c.range(1, 200), 9) } else { (c.range(1, 9), 4) };
    let pool = if small_values { distinct(c, k, bits) } else { any_pool(c) };
    let b = any_bag(c, &pool, 4);
    c.describe(b.show());
    c.nontrivial();
    let mut t = prover(c);
    let x = b.p(&mut t).unwrap();
    let (s, ss, m) = fine(calm(|| calc_bag_supp_advice(&x))?)?;
    let k = ms(b.active());
    for m in [&s, &ss, &m] {
        ensure!(m.num_vars == b.nv(), "length", "{} variables, expected {}", m.num_vars, b.nv());
    }
    check_support(&s.evaluations, &ss.evaluations, &k.keys().copied().collect::<Vec<_>>(), "the support")?;
    let w: BTreeMap<F, F> = k.iter().map(|(v, n)| (*v, f(*n))).collect();
    let u: Vec<F> = m.evaluations.iter().zip(&ss.evaluations).map(|(a, b)| *a * b).collect();
    ensure!(weights(&s.evaluations, &u) == w, "weights", "multiplicities {}", sv(&m.evaluations));
    if small_values {
        let params = max_nv(&[b.nv(), bits]);
        let d = Rc::new((b, BagIn::plain(s.evaluations, ss.evaluations), In::Commit(m.evaluations), range_bag(bits)));
        let e = d.clone();
        accepted(
            c,
            params,
            "support",
            Rc::new(move |p| {
                let (x, y, m, g) = (d.0.p(p)?, d.1.p(p)?, d.2.p(p)?, d.3.p(p)?);
                nothing(BagSuppIOP::<E, Pcs>::prove_with_advice(p, &x, &y, &m, &g))
            }),
            Rc::new(move |w| {
                let (x, y, m, g) = (e.0.v(w), e.1.v(w), e.2.v(w), e.3.v(w));
                nothing_v(BagSuppIOP::<E, Pcs>::verify_with_advice(w, &x, &y, &m, &g))
            }),
        )?;
    }
    Ok(())
}
fn join_selectors(c: &mut Ctx) -> Res {
    let many = c.grow > 0 && c.coin(1, 2);
    let (k, bits) = if many { (c.range(1, 60), 7) } else { (c.range(1, 7), 4) };
    let pool = distinct(c, k, bits);
    let (a, b) = (any_bag(c, &pool, 2), any_bag(c, &pool, 2));
    c.describe(format!("{} and {}", a.show(), b.show()));
    c.nontrivial();
    let (l, r) = calm(|| calc_join_reduction_lr_sel_advice::<E>(&mle(&a.poly.vals()), &mle(&a.sel.vals()), &mle(&b.poly.vals()), &mle(&b.sel.vals())))?;
    for (x, s, y, who) in [(&a, &l, &b, "left"), (&b, &r, &a, "right")] {
        ensure!(s.num_vars == x.nv(), "length", "{} variables, expected {}", s.num_vars, x.nv());
        booleans(&s.evaluations, who)?;
        let other = set(&y.active());
        for (i, ((v, act), s)) in x.poly.vals().iter().zip(x.sel.vals()).zip(&s.evaluations).enumerate() {
            ensure!(act.is_zero() || s.is_one() == !other.contains(v), "selector", "row {} of the {} bag is selected by {}", i, who, sf(s));
        }
    }
    let params = max_nv(&[a.nv().max(b.nv()) + 1, bits]);
    let d = Rc::new((a, b, In::Commit(l.evaluations), In::Commit(r.evaluations), range_bag(bits)));
    let e = d.clone();
    accepted(
        c,
        params,
        "join reduction",
        Rc::new(move |p| {
            let (x, y, l, r, g) = (d.0.p(p)?, d.1.p(p)?, d.2.p(p)?, d.3.p(p)?, d.4.p(p)?);
            nothing(JoinReductionIOP::<E, Pcs>::prove(p, &x, &y, &l, &r, &g))
        }),
        Rc::new(move |w| {
            let (x, y, l, r, g) = (e.0.v(w), e.1.v(w), e.2.v(w), e.3.v(w), e.4.v(w));
            nothing_v(JoinReductionIOP::<E, Pcs>::verify(w, &x, &y, &l, &r, &g))
        }),
    )
}
fn index_map(c: &mut Ctx) -> Res {
    let (na, nb) = (c.size(0, 3), c.size(0, 3));
    let (ca, cb) = (c.range(1, 3), c.range(1, 3));
    let (ja, jb) = (c.range(0, ca - 1), c.range(0, cb - 1));
    let missing = c.coin(1, 4);
    let keys_of_a = distinct(c, 1 << na, na.max(5));
    let sa: Vec<F> = (0..1 << na).map(|_| f(if c.coin(3, 4) { 1 } else { 0 })).collect();
    let present: Vec<F> = active(&keys_of_a, &sa);
    let mut key_a = keys_of_a.clone();
    if !present.is_empty() {
        // a deactivated row with the key of an activated one
        for i in 0..key_a.len() {
            if sa[i].is_zero() && c.coin(1, 2) {
                key_a[i] = *c.pick(&present);
            }
        }
    }
    let sb: Vec<F> = (0..1 << nb).map(|_| f(if (!present.is_empty() || missing) && c.coin(3, 4) { 1 } else { 0 })).collect();
    let absent: Vec<F> = (0..(1 << na) + 40).map(f).filter(|x| !present.contains(x)).collect();
    let mut any: Vec<F> = absent.clone();
    any.extend(&present);
    let key_b: Vec<F> = sb.iter().map(|s| if s.is_zero() { *c.pick(&any) } else if (missing && c.coin(1, 3)) || present.is_empty() { *c.pick(&absent) } else { *c.pick(&present) }).collect();
    let cols = |c: &mut Ctx, n: usize, j: usize, key: &[F], nv: usize| -> Vec<Vec<F>> { (0..n).map(|i| if i == j { key.to_vec() } else { c.rand_table(nv) }).collect() };
    let (xa, xb) = (cols(c, ca, ja, &key_a, na), cols(c, cb, jb, &key_b, nb));
    let tab = |c: &mut Ctx, x: Vec<Vec<F>>, s: Vec<F>| TabIn { cols: x.into_iter().map(|v| wrap(c, v)).collect(), sel: wrap(c, s) };
    let (a, b) = (tab(c, xa, sa.clone()), tab(c, xb, sb.clone()));
    c.describe(format!("{} join {} on {}={}", a.show(), b.show(), ja, jb));
    c.nontrivial();
    let mut t = prover(c);
    let (x, y) = (a.p(&mut t).unwrap(), b.p(&mut t).unwrap());
    let r = calm(|| calc_final_join_one_to_many_index_transform(&x, &y, ja, jb))?;
    let lost = key_b.iter().zip(&sb).any(|(k, s)| s.is_one() && !present.contains(k));
    if lost {
        ensure!(r.is_err(), "no_match", "a row without a match is given one");
        c.count("rows without a match reported", 1);
        return Ok(());
    }
    let map = fine(r)?;
    ensure!(map.len() == 1 << nb, "length", "{} indices for {} rows", map.len(), 1 << nb);
    for i in 0..1 << nb {
        ensure!(map[i] < 1 << na, "bounds", "row {} maps to {}", i, map[i]);
        ensure!(sb[i].is_zero() || (sa[map[i]].is_one() && key_a[map[i]] == key_b[i]), "match", "row {} maps to {}", i, map[i]);
    }
    let mut new_cols = vec![];
    for (j, col) in x.col_vals.iter().enumerate() {
        let m = fine(calm(|| calc_index_transformed_bag(&map, col, &y.selector))?)?;
        ensure!(m.num_vars == nb, "length", "{} variables, expected {}", m.num_vars, nb);
        let old = a.cols[j].vals();
        for i in 0..1 << nb {
            ensure!(sb[i].is_zero() || m.evaluations[i] == old[map[i]], "row", "row {} of column {} is {}", i, j, sf(&m.evaluations[i]));
        }
        new_cols.push(m.evaluations);
    }
    let params = max_nv(&[na, nb]);
    // the rows it selects are in the table
    let out = TabIn { cols: new_cols.into_iter().map(In::Commit).collect(), sel: In::Commit(sb) };
    let d = Rc::new((a, out));
    let e = d.clone();
    accepted(
        c,
        params,
        "index transform",
        Rc::new(move |p| {
            let (x, y) = (d.0.p(p)?, d.1.p(p)?);
            nothing(IndexTransformIOP::<E, Pcs>::prove(p, &x, &y))
        }),
        Rc::new(move |w| {
            let (x, y) = (e.0.v(w), e.1.v(w));
            nothing_v(IndexTransformIOP::<E, Pcs>::verify(w, &x, &y))
        }),
    )
}
/// values, selector and multiset of a bag the helper tracked
fn seen(b: &PBag) -> (Vec<F>, Vec<F>, BTreeMap<F, usize>) {
    let (v, s) = (b.poly.evaluations(), b.selector.evaluations());
    let m = ms(active(&v, &s));
    (v, s, m)
}
fn keep(m: &BTreeMap<F, usize>, f: impl Fn(&F) -> bool) -> BTreeMap<F, usize> {
    m.iter().filter(|(v, _)| f(v)).map(|(v, n)| (*v, *n)).collect()
}
fn committed(t: &PT, polys: &[&TPoly]) -> Res {
    let u = t.clone_underlying_tracker();
    for p in polys {
        ensure!(u.materialized_comms.contains_key(&p.id), "commitment", "polynomial {} is not committed", p.id.0);
    }
    Ok(())
}
fn bag_split(c: &mut Ctx) -> Res {
    let pool = any_pool(c);
    let (a, b) = (any_bag(c, &pool, 3), any_bag(c, &pool, 3));
    c.describe(format!("{} and {}", a.show(), b.show()));
    c.nontrivial();
    let mut t = prover(c);
    let (x, y) = (a.p(&mut t).unwrap(), b.p(&mut t).unwrap());
    let (l, ma, mb, r) = fine(calm(|| bag_lmr_split(&mut t, &x, &y))?)?;
    let (wa, wb) = (ms(a.active()), ms(b.active()));
    let parts = [(&l, "the left part", keep(&wa, |v| !wb.contains_key(v))), (&ma, "the middle of the first", keep(&wa, |v| wb.contains_key(v))), (&mb, "the middle of the second", keep(&wb, |v| wa.contains_key(v))), (&r, "the right part", keep(&wb, |v| !wa.contains_key(v)))];
    for (g, who, want) in &parts {
        let (v, s, m) = seen(g);
        booleans(&s, who)?;
        ensure!(m == *want, "part", "{} is {}/{}", who, sv(&v), sv(&s));
        committed(&t, &[&g.poly, &g.selector])?;
    }
    // left and middle make up the bag again
    for (whole, p1, p2) in [(a, &l, &ma), (b, &r, &mb)] {
        let (v1, s1, _) = seen(p1);
        let (v2, s2, _) = seen(p2);
        let d = Rc::new((whole, BagIn::plain(v1, s1), BagIn::plain(v2, s2)));
        let e = d.clone();
        let params = max_nv(&[d.0.nv(), d.1.nv(), d.2.nv()]);
        accepted(
            c,
            params,
            "bag sum",
            Rc::new(move |p| {
                let (x, y, z) = (d.1.p(p)?, d.2.p(p)?, d.0.p(p)?);
                nothing(BagSumIOP::<E, Pcs>::prove(p, &x, &y, &z))
            }),
            Rc::new(move |w| {
                let (x, y, z) = (e.1.v(w), e.2.v(w), e.0.v(w));
                nothing_v(BagSumIOP::<E, Pcs>::verify(w, &x, &y, &z))
            }),
        )?;
    }
    Ok(())
}
fn set_split(c: &mut Ctx) -> Res {
    let (va, vb, bits) = sets(c, 3);
    let (na, nb) = (room(c, va.len()), room(c, vb.len()));
    let mut junk = vec![F::zero()];
    junk.extend(va.iter().chain(&vb));
    let (a, b) = (placed(c, na, &va, &junk), placed(c, nb, &vb, &junk));
    c.describe(format!("{} and {}", a.show(), b.show()));
    c.nontrivial();
    let mut t = prover(c);
    let (x, y) = (a.p(&mut t).unwrap(), b.p(&mut t).unwrap());
    let (l, m, r) = fine(calm(|| set_lmr_split(&mut t, &x, &y))?)?;
    let (wa, wb) = (ms(va), ms(vb));
    let mut ins = vec![];
    for (g, who, want) in [(&l, "the left part", keep(&wa, |v| !wb.contains_key(v))), (&m, "the middle", keep(&wa, |v| wb.contains_key(v))), (&r, "the right part", keep(&wb, |v| !wa.contains_key(v)))] {
        let (v, s, got) = seen(g);
        booleans(&s, who)?;
        ensure!(got == want, "part", "{} is {}/{}", who, sv(&v), sv(&s));
        committed(&t, &[&g.poly, &g.selector])?;
        ins.push(BagIn::plain(v, s));
    }
    let nv = ins[0].nv().max(ins[2].nv()) + 1;
    let params = max_nv(&[nv, na, nb, ins[1].nv(), bits]);
    let d = Rc::new((a, b, ins, range_bag(bits)));
    let e = d.clone();
    accepted(
        c,
        params,
        "set intersection",
        Rc::new(move |p| {
            let (a, b, l, m, r, g) = (d.0.p(p)?, d.1.p(p)?, d.2[0].p(p)?, d.2[1].p(p)?, d.2[2].p(p)?, d.3.p(p)?);
            nothing(SetIntersectIOP::<E, Pcs>::prove(p, &a, &b, &l, &m, &r, &g))
        }),
        Rc::new(move |w| {
            let (a, b, l, m, r, g) = (e.0.v(w), e.1.v(w), e.2[0].v(w), e.2[1].v(w), e.2[2].v(w), e.3.v(w));
            nothing_v(SetIntersectIOP::<E, Pcs>::verify(w, &a, &b, &l, &m, &r, &g))
        }),
    )
}
fn counted_split(c: &mut Ctx) -> Res {
    let pool = any_pool(c);
    let (a, b) = (any_bag(c, &pool, 3), any_bag(c, &pool, 3));
    c.describe(format!("{} and {}", a.show(), b.show()));
    c.nontrivial();
    let mut t = prover(c);
    let (x, y) = (a.p(&mut t).unwrap(), b.p(&mut t).unwrap());
    let (l, m, r, lm, am, bm, rm) = fine(calm(|| bag_lmr_multiplicity_split(&mut t, &x, &y))?)?;
    let (wa, wb) = (ms(a.active()), ms(b.active()));
    let rows = [
        (&l, &lm, "the left part", keep(&wa, |v| !wb.contains_key(v))),
        (&m, &am, "the middle, counted in the first", keep(&wa, |v| wb.contains_key(v))),
        (&m, &bm, "the middle, counted in the second", keep(&wb, |v| wa.contains_key(v))),
        (&r, &rm, "the right part", keep(&wb, |v| !wa.contains_key(v))),
    ];
    for (g, k, who, want) in &rows {
        let (v, s, got) = seen(g);
        let k = k.evaluations();
        booleans(&s, who)?;
        ensure!(k.len() == v.len(), "length", "{} multiplicities for {} rows of {}", k.len(), v.len(), who);
        ensure!(got == want.keys().map(|v| (*v, 1)).collect(), "distinct", "{} is {}/{}", who, sv(&v), sv(&s));
        let w: Vec<F> = k.iter().zip(&s).map(|(a, b)| *a * b).collect();
        ensure!(weights(&v, &w) == want.iter().map(|(v, n)| (*v, f(*n))).collect(), "weights", "{} is {}/{} with multiplicities {}", who, sv(&v), sv(&s), sv(&k));
    }
    committed(&t, &[&l.poly, &l.selector, &m.poly, &m.selector, &r.poly, &r.selector, &lm, &am, &bm, &rm])?;
    // left and middle with their multiplicities make up the bag again
    for (whole, p1, k1, p2, k2) in [(a, &l, &lm, &m, &am), (b, &r, &rm, &m, &bm)] {
        let ((v1, s1, _), (v2, s2, _)) = (seen(p1), seen(p2));
        let one = In::Commit(ones(1 << whole.nv()));
        let d = Rc::new((whole, one, BagIn::plain(v1, s1), In::Commit(k1.evaluations()), BagIn::plain(v2, s2), In::Commit(k2.evaluations())));
        let e = d.clone();
        let params = max_nv(&[d.0.nv(), d.2.nv(), d.4.nv()]);
        accepted(
            c,
            params,
            "multiset",
            Rc::new(move |p| {
                let (x, o, y, k, z, q) = (d.0.p(p)?, d.1.p(p)?, d.2.p(p)?, d.3.p(p)?, d.4.p(p)?, d.5.p(p)?);
                nothing(BagMultitoolIOP::<E, Pcs>::prove(p, &[x], &[y, z], &[o], &[k, q]))
            }),
            Rc::new(move |w| {
                let (x, o, y, k, z, q) = (e.0.v(w), e.1.v(w), e.2.v(w), e.3.v(w), e.4.v(w), e.5.v(w));
                nothing_v(BagMultitoolIOP::<E, Pcs>::verify(w, &[x], &[y, z], &[o], &[k, q]))
            }),
        )?;
    }
    Ok(())
}
fn aliases(c: &mut Ctx) -> Res {
    let (nv, add) = (c.range(0, 3), c.range(0, 3));
    let v = c.rand_table(nv);
    let x = wrap(c, v.clone());
    c.describe(format!("{} by {}", sv(&v), add));
    c.nontrivial();
    let mut t = prover(c);
    let q = x.p(&mut t).unwrap();
    let fr = calm(|| front_alias_tracked_poly(&mut t, &q, add))?;
    let bk = calm(|| back_alias_tracked_poly(&mut t, &q, add))?;
    let (a, b) = (fr.evaluations(), bk.evaluations());
    ensure!(a.len() == 1 << (nv + add) && b.len() == a.len(), "length", "{} and {} rows, expected {}", a.len(), b.len(), 1 << (nv + add));
    for i in 0..a.len() {
        ensure!(a[i] == v[i >> add], "front", "row {} is {}", i, sf(&a[i]));
        ensure!(b[i] == v[i & ((1 << nv) - 1)], "back", "row {} is {}", i, sf(&b[i]));
    }
    ensure!(q.evaluations() == v, "original", "the aliased polynomial changed");
    Ok(())
}
fn challenges(c: &mut Ctx) -> Res {
    let n = c.range(0, 9);
    let seed = c.felt();
    let powers = c.coin(1, 2);
    c.describe(format!("{} challenges after {} {}", n, sf(&seed), powers));
    c.nontrivial();
    let (mut p, mut v) = (prover(c), VT::new_from_pcs_params(keys(4).1.clone()));
    // both transcripts hold the same commitment
    let q = p.track_and_commit_poly(mle(&[seed])).unwrap();
    let mut proof = CProof::default();
    proof.comms = p.clone_underlying_tracker().materialized_comms.clone();
    v.set_compiled_proof(proof);
    let _ = v.transfer_prover_comm(q.id);
    let (a, b) = calm(|| {
        if powers {
            (prover_sample_rand_powers(&mut p, n), verifier_sample_rand_powers(&mut v, n))
        } else {
            (prover_sample_rands(&mut p, n), verifier_sample_rands(&mut v, n))
        }
    })?;
    let (a, b) = (fine(a)?, fine(b)?);
    ensure!(a.len() == n, "length", "{} instead of {}", a.len(), n);
    ensure!(a == b, "sides", "prover and verifier draw different challenges");
    if powers && n > 0 {
        ensure!(a[0].is_one(), "powers", "the first power is {}", sf(&a[0]));
        for i in 0..n {
            ensure!(n == 1 || a[i] == a[1].pow([i as u64]), "powers", "power {} is {}", i, sf(&a[i]));
        }
        ensure!(n == 1 || !(a[1].is_zero() || a[1].is_one()), "powers", "the challenge is {}", sf(&a[1]));
    } else {
        ensure!(set(&a).len() == n, "repeat", "repeated challenges");
    }
    lockstep(c, &p, &v)
}
