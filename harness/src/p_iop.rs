//! C19..C26 the query protocols: is exactly the true statement accepted?
//! C14 both sides in lockstep; C11 incomplete proofs of protocols.
use crate::{ctx::*, ensure, iop::*, p_tracker::*, run::*, sim::*};
use ark_ff::{Field, One, Zero};
use std::{
    collections::{BTreeMap, BTreeSet},
    rc::Rc,
};
use zk_sql::{tracker::prelude::*, zksql_poly_iop::verif_hooks::*};

pub fn families() -> Vec<Family> {
    vec![
        fam("C19", "selector_valid", REL | DBG, 2500, 20000, |c| judge1(c, g_selector)),
        fam("C19", "no_zeros", REL | DBG, 2500, 20000, |c| judge1(c, g_no_zeros)),
        fam("C20", "multitool", REL | DBG, 1500, 15000, |c| judge1(c, g_multitool)),
        fam("C20", "bag_eq", REL | DBG, 1200, 12000, |c| judge1(c, g_bag_eq)),
        fam("C20", "bag_sum", REL | DBG, 1200, 12000, |c| judge1(c, g_bag_sum)),
        fam("C21", "presc_perm", REL | DBG, 1000, 10000, |c| judge1(c, g_presc_perm)),
        fam("C21", "strict_sort", REL | DBG, 1000, 10000, |c| judge1(c, g_strict_sort)),
        fam("C22", "inclusion", REL | DBG, 1200, 12000, |c| judge1(c, g_inclusion)),
        fam("C22", "inclusion_advice", REL | DBG, 1200, 12000, |c| judge1(c, g_inclusion_advice)),
        fam("C22", "supp", REL | DBG, 700, 7000, |c| judge1(c, g_supp)),
        fam("C23", "bag_disjoint", REL | DBG, 600, 6000, |c| judge1(c, g_bag_disjoint)),
        fam("C23", "set_disjoint", REL | DBG, 600, 6000, |c| judge1(c, g_set_disjoint)),
        fam("C24", "set_union", REL | DBG, 700, 5000, |c| judge1(c, g_set_union)),
        fam("C24", "set_intersect", REL | DBG, 700, 5000, |c| judge1(c, g_set_intersect)),
        fam("C24", "set_diff", REL | DBG, 700, 5000, |c| judge1(c, g_set_diff)),
        fam("C25", "cross_product", REL | DBG, 1000, 10000, |c| judge1(c, g_cross_product)),
        fam("C25", "index_transform", REL | DBG, 800, 8000, |c| judge1(c, g_index_transform)),
        fam("C25", "final_join", REL | DBG, 600, 6000, |c| judge1(c, g_final_join)),
        fam("C25", "join_reduction", REL | DBG, 400, 4000, |c| judge1(c, g_join_reduction)),
        fam("C26", "group_by", REL | DBG, 600, 6000, |c| judge1(c, g_group_by)),
        fam("C19", "selector_valid_large", REL | DBG, 160, 2000, |c| large(c, 6, g_selector)),
        fam("C19", "no_zeros_large", REL | DBG, 160, 2000, |c| large(c, 6, g_no_zeros)),
        fam("C20", "multitool_large", REL | DBG, 240, 3000, |c| large(c, 5, g_multitool)),
        fam("C20", "bag_eq_large", REL | DBG, 160, 2000, |c| large(c, 5, g_bag_eq)),
        fam("C20", "bag_sum_large", REL | DBG, 160, 2000, |c| large(c, 5, g_bag_sum)),
        fam("C21", "presc_perm_large", REL | DBG, 160, 2000, |c| large(c, 5, g_presc_perm)),
        fam("C21", "strict_sort_large", REL | DBG, 64, 1000, |c| large(c, 5, g_strict_sort)),
        fam("C22", "inclusion_large", REL | DBG, 160, 2000, |c| large(c, 5, g_inclusion)),
        fam("C22", "inclusion_advice_large", REL | DBG, 160, 2000, |c| large(c, 5, g_inclusion_advice)),
        fam("C22", "supp_large", REL | DBG, 64, 1000, |c| large(c, 5, g_supp)),
        fam("C23", "bag_disjoint_large", REL | DBG, 64, 1000, |c| large(c, 6, g_bag_disjoint)),
        fam("C23", "set_disjoint_large", REL | DBG, 64, 1000, |c| large(c, 5, g_set_disjoint)),
        fam("C24", "set_union_large", REL | DBG, 64, 1000, |c| large(c, 5, g_set_union)),
        fam("C24", "set_intersect_large", REL | DBG, 48, 800, |c| large(c, 5, g_set_intersect)),
        fam("C24", "set_diff_large", REL | DBG, 48, 800, |c| large(c, 5, g_set_diff)),
        fam("C25", "cross_product_large", REL | DBG, 160, 2000, |c| large(c, 2, g_cross_product)),
        fam("C25", "index_transform_large", REL | DBG, 160, 2000, |c| large(c, 5, g_index_transform)),
        fam("C25", "final_join_large", REL | DBG, 64, 1000, |c| large(c, 5, g_final_join)),
        fam("C25", "join_reduction_large", REL | DBG, 64, 800, |c| large(c, 6, g_join_reduction)),
        fam("C26", "group_by_large", REL | DBG, 160, 2000, |c| large(c, 6, g_group_by)),
        fam("C14", "protocols", REL | DBG, 2500, 20000, c14_protocols),
        fam("C11", "protocols", REL | DBG, 600, 6000, c11_protocols),
    ]
}
pub type Make = fn(&mut Ctx, bool) -> Case;
pub const ALL: [(&str, Make); 20] = [
    ("selector_valid", g_selector),
    ("no_zeros", g_no_zeros),
    ("multitool", g_multitool),
    ("bag_eq", g_bag_eq),
    ("bag_sum", g_bag_sum),
    ("presc_perm", g_presc_perm),
    ("strict_sort", g_strict_sort),
    ("inclusion", g_inclusion),
    ("inclusion_advice", g_inclusion_advice),
    ("supp", g_supp),
    ("bag_disjoint", g_bag_disjoint),
    ("set_disjoint", g_set_disjoint),
    ("set_union", g_set_union),
    ("set_intersect", g_set_intersect),
    ("set_diff", g_set_diff),
    ("cross_product", g_cross_product),
    ("index_transform", g_index_transform),
    ("final_join", g_final_join),
    ("join_reduction", g_join_reduction),
    ("group_by", g_group_by),
];
fn judge1(c: &mut Ctx, g: Make) -> Res {
    let t = c.coin(1, 2);
    if c.coin(1, 4) {
        c.least = c.range(1, 4);
    }
    let k = g(c, t);
    judge(c, &k)
}
/// the same, with tables of up to `grow` more variables
fn large(c: &mut Ctx, grow: usize, g: Make) -> Res {
    c.grow = if c.coin(1, 2) { grow } else { c.range(1, grow) };
    judge1(c, g)
}
fn c14_protocols(c: &mut Ctx) -> Res {
    let (_, g) = *c.pick(&ALL);
    let t = c.coin(3, 4);
    let k = g(c, t);
    judge_lockstep(c, &k)
}
/// a proof that lacks something a protocol needs is refused without a crash
fn c11_protocols(c: &mut Ctx) -> Res {
    let (_, g) = *c.pick(&ALL);
    let k = g(c, true);
    c.describe(format!("{} {}", k.name, k.desc));
    let honest = match end_to_end(k.params, &k.prove, &k.verify) {
        Ok(p) => p,
        Err(_) => return Ok(()), // judged elsewhere
    };
    for _ in 0..4 {
        let mut p = honest.clone();
        let mut ids: Vec<TrackerID> = p.comms.keys().copied().collect();
        ids.sort();
        let mut sums: Vec<TrackerID> = p.sumcheck_claims.keys().copied().collect();
        sums.sort();
        let what = match c.range(0, 5) {
            0 => {
                let i = *c.pick(&ids);
                p.comms.remove(&i);
                format!("without commitment {}", i)
            },
            1 | 2 if sums.len() > 1 => {
                // the last one belongs to the zero claims and is not asked for
                let i = sums[c.range(0, sums.len() - 2)];
                p.sumcheck_claims.remove(&i);
                format!("without the sum {}", i)
            },
            3 => {
                p.comms.clear();
                p.sumcheck_claims.clear();
                "without commitments and sums".to_string()
            },
            4 => {
                let k = c.range(0, ids.len() - 1);
                ids[k..].iter().for_each(|i| {
                    p.comms.remove(i);
                });
                format!("with only {} commitments", k)
            },
            _ => {
                p = CProof::default();
                "empty".to_string()
            },
        };
        c.nontrivial();
        match check(k.params, &k.verify, &p) {
            Ok(()) => return viol(&format!("{}_accepted", k.name), format!("a proof {} is accepted", what)),
            Err((true, e)) => return viol(&format!("{}_panic", k.name), format!("a proof {} crashes the verifier: {}", what, e)),
            Err((false, _)) => c.count("incomplete proofs refused", 1),
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- helpers
pub fn max_nv(v: &[usize]) -> usize {
    v.iter().copied().max().unwrap_or(0).max(1)
}
pub fn small(c: &mut Ctx, k: usize) -> F {
    f(c.range(0, k - 1))
}
/// k different values below 2^bits, in order
pub fn distinct(c: &mut Ctx, k: usize, bits: usize) -> Vec<F> {
    let mut all: Vec<usize> = (0..1 << bits).collect();
    c.shuffle(&mut all);
    let mut v: Vec<usize> = all[..k].to_vec();
    v.sort();
    v.into_iter().map(f).collect()
}
pub fn bag_in(c: &mut Ctx, vals: Vec<F>, sel: Vec<F>) -> BagIn {
    BagIn { poly: wrap(c, vals), sel: wrap(c, sel) }
}
pub fn placed(c: &mut Ctx, nv: usize, act: &[F], junk: &[F]) -> BagIn {
    let (v, s) = place(c, nv, act, junk);
    bag_in(c, v, s)
}
/// smallest number of variables with room for k rows, or a little more
pub fn room(c: &mut Ctx, k: usize) -> usize {
    let mut nv = 0;
    while 1 << nv < k {
        nv += 1;
    }
    if c.least > 0 {
        return nv.max(c.least);
    }
    nv + if c.coin(1, 3) { 1 } else { 0 }
}
pub fn counts(v: &[F]) -> BTreeMap<F, usize> {
    let mut m = BTreeMap::new();
    for x in v {
        *m.entry(*x).or_insert(0) += 1;
    }
    m
}
/// row by row: the next row is larger by something in the range, and different
/// where the row is activated
pub fn sorted_ok(p: &[F], sel: &[F], range: &[F]) -> bool {
    let r = set(range);
    (0..p.len() - 1).all(|i| {
        let d = p[i + 1] - p[i];
        r.contains(&d) && (sel[i].is_zero() || !d.is_zero())
    })
}
pub fn bits_for(c: &mut Ctx, k: usize) -> usize {
    let mut b = 1;
    while 1 << b < k + 1 {
        b += 1;
    }
    b + c.range(0, 1)
}

// ---------------------------------------------------------------- C19
fn g_selector(c: &mut Ctx, t: bool) -> Case {
    let nv = c.size(0, 4);
    let mut v: Vec<F> = (0..1 << nv).map(|_| f(c.range(0, 1))).collect();
    if !t {
        let i = c.range(0, v.len() - 1);
        let j = (i + 1 + c.range(0, v.len() - 1)) % v.len();
        v[i] = match c.range(0, 6) {
            5 | 6 if i != j => {
                // two rows whose s(1-s) cancel: a point of x - x^2 + y - y^2 = 0
                let t = c.nz();
                match (F::one() + t * t).inverse() {
                    Some(d) => {
                        v[j] = t * (F::one() + t) * d;
                        (F::one() + t) * d
                    },
                    None => f(3),
                }
            },
            0 => -F::one(),
            1 => f(2),
            2 => f(2).inverse().unwrap(),
            3 => F::one() + c.nz(),
            _ => c.rand_f(),
        };
    }
    let ok = v.iter().all(|x| x.is_zero() || x.is_one());
    let s = wrap(c, v.clone());
    let (a, b) = (s.clone(), s.clone());
    Case {
        name: "selector_valid",
        params: max_nv(&[nv]),
        complete: ok,
        holds: always(ok, "the selector is not 0 or 1 everywhere"),
        prove: Rc::new(move |p| {
            let x = a.p(p)?;
            inputs_done();
            SelectorValidIOP::<E, Pcs>::prove(p, &x)?;
            Ok(vec![])
        }),
        verify: Rc::new(move |w| {
            let x = b.v(w);
            SelectorValidIOP::<E, Pcs>::verify(w, &x)?;
            Ok(vec![])
        }),
        advs: vec![],
        eqs: vec![],
        desc: sv(&v),
    }
}
fn g_no_zeros(c: &mut Ctx, t: bool) -> Case {
    let nv = c.size(0, 4);
    let n = 1 << nv;
    let odd = c.coin(1, 4);
    let sel: Vec<F> = (0..n).map(|_| if odd && c.coin(1, 2) { c.felt() } else { f(c.range(0, 1)) }).collect();
    let mut v: Vec<F> = sel.iter().map(|s| if s.is_zero() { if c.coin(1, 2) { F::zero() } else { c.felt() } } else { c.nz() }).collect();
    if !t {
        let i = c.range(0, n - 1);
        v[i] = F::zero();
    }
    let ok = v.iter().zip(&sel).all(|(x, s)| s.is_zero() || !x.is_zero());
    let mut advs = vec![];
    if let Some(i) = (0..n).find(|i| !(sel[*i] * v[*i]).is_zero()) {
        // every row but one honest, that one making up for the rows with zeros
        let mut u: Vec<F> = v.iter().map(|x| x.inverse().unwrap_or(F::zero())).collect();
        let missing: F = (0..n).map(|k| v[k] * sel[k] * u[k] - sel[k]).sum();
        u[i] -= missing * (sel[i] * v[i]).inverse().unwrap();
        advs.push(fixed("inverses that cancel over the rows", vec![(0, u)]));
    }
    let b = bag_in(c, v, sel);
    let (x, y) = (b.clone(), b.clone());
    let r = c.rand_table(nv);
    advs.extend(vec![fixed("inverses all one", vec![(0, ones(n))]), fixed("inverses all zero", vec![(0, vec![F::zero(); n])]), fixed("random inverses", vec![(0, r)])]);
    Case {
        name: "no_zeros",
        params: max_nv(&[nv]),
        complete: ok,
        holds: always(ok, "an activated row holds zero"),
        prove: Rc::new(move |p| {
            let b = x.p(p)?;
            inputs_done();
            BagNoZerosIOP::<E, Pcs>::prove(p, &b)?;
            Ok(vec![])
        }),
        verify: Rc::new(move |w| {
            let b = y.v(w);
            BagNoZerosIOP::<E, Pcs>::verify(w, &b)?;
            Ok(vec![])
        }),
        advs,
        eqs: vec![],
        desc: b.show(),
    }
}

// ---------------------------------------------------------------- C20
/// bags with weights: (bag, weights)
pub type Wb = Vec<(BagIn, In)>;
fn total(w: &Wb) -> BTreeMap<F, F> {
    let mut m: BTreeMap<F, F> = BTreeMap::new();
    for (b, x) in w {
        for ((v, s), x) in b.poly.vals().iter().zip(&b.sel.vals()).zip(&x.vals()) {
            *m.entry(*v).or_insert(F::zero()) += *s * x;
        }
    }
    m.retain(|_, x| !x.is_zero());
    m
}
pub fn multitool_case(name: &'static str, l: Wb, r: Wb) -> Case {
    let ok = total(&l) == total(&r);
    let nvs: Vec<usize> = l.iter().chain(&r).map(|x| x.0.nv()).collect();
    let (kl, kr) = (l.len(), r.len());
    // sums and inverses come in the order of the bags
    let eqs = [0, kl - 1, kl, kl + kr - 1]
        .iter()
        .map(|i| {
            let (b, m) = l.iter().chain(&r).nth(*i).unwrap();
            eqn((0..kl).collect(), (kl..kl + kr).collect(), *i, *i, b.sel.vals().iter().zip(m.vals()).map(|(s, m)| *s * m).collect())
        })
        .collect();
    let show = |w: &Wb| w.iter().map(|(b, m)| format!("{}x{}", b.show(), sv(&m.vals()))).collect::<Vec<_>>().join(" + ");
    let desc = format!("{} = {}", show(&l), show(&r));
    let d = Rc::new((l, r));
    let e = d.clone();
    Case {
        name,
        params: max_nv(&nvs),
        complete: ok,
        holds: always(ok, "the weighted multisets differ"),
        prove: Rc::new(move |p| {
            let (mut fb, mut fm, mut gb, mut gm) = (vec![], vec![], vec![], vec![]);
            for (b, m) in &d.0 {
                fb.push(b.p(p)?);
                fm.push(m.p(p)?);
            }
            for (b, m) in &d.1 {
                gb.push(b.p(p)?);
                gm.push(m.p(p)?);
            }
            inputs_done();
            BagMultitoolIOP::<E, Pcs>::prove(p, &fb, &gb, &fm, &gm)?;
            Ok(vec![])
        }),
        verify: Rc::new(move |w| {
            let (mut fb, mut fm, mut gb, mut gm) = (vec![], vec![], vec![], vec![]);
            for (b, m) in &e.0 {
                fb.push(b.v(w));
                fm.push(m.v(w));
            }
            for (b, m) in &e.1 {
                gb.push(b.v(w));
                gm.push(m.v(w));
            }
            BagMultitoolIOP::<E, Pcs>::verify(w, &fb, &gb, &fm, &gm)?;
            Ok(vec![])
        }),
        advs: vec![],
        eqs,
        desc,
    }
}
fn g_multitool(c: &mut Ctx, t: bool) -> Case {
    let big = c.coin(1, 3);
    let pool: Vec<F> = (0..c.range(1, 5)).map(|i| if big { c.rand_f() } else { f(i) }).collect();
    let odd = c.coin(1, 4);
    // large and tiny bags together
    let gap = c.grow > 0 && c.coin(1, 4);
    let mut side = |c: &mut Ctx| -> Vec<(Vec<F>, Vec<F>, Vec<F>)> {
        (0..c.range(1, 3))
            .map(|_| {
                let n = 1 << if !gap {
                    c.size(0, 4)
                } else if c.coin(1, 2) {
                    c.range(0, 2)
                } else {
                    c.range(8, 10)
                };
                (
                    (0..n).map(|_| if c.coin(1, 12) { c.felt() } else { *c.pick(&pool) }).collect(),
                    (0..n).map(|_| if odd && c.coin(1, 3) { c.felt() } else { f(c.range(0, 1)) }).collect(),
                    (0..n).map(|_| if odd && c.coin(1, 3) { c.felt() } else { f(c.range(0, 3)) }).collect(),
                )
            })
            .collect()
    };
    let mut l = side(c);
    let mut r = side(c);
    let tot = |w: &[(Vec<F>, Vec<F>, Vec<F>)]| -> BTreeMap<F, F> {
        let mut m: BTreeMap<F, F> = BTreeMap::new();
        for (v, s, x) in w {
            for i in 0..v.len() {
                *m.entry(v[i]).or_insert(F::zero()) += s[i] * x[i];
            }
        }
        m
    };
    // balance the right side: every value in question gets a row of its own
    let mut need: BTreeSet<F> = tot(&l).into_keys().collect();
    need.extend(tot(&r).into_keys());
    let k = r.len() - 1;
    while r[k].0.len() < need.len() {
        let n = r[k].0.len();
        for _ in 0..n {
            let x = *c.pick(&pool);
            r[k].0.push(x);
            r[k].1.push(F::zero());
            r[k].2.push(F::zero());
        }
    }
    let n = r[k].0.len();
    let mut at: Vec<usize> = (0..n).collect();
    c.shuffle(&mut at);
    for (v, i) in need.iter().zip(&at) {
        r[k].0[*i] = *v;
        r[k].1[*i] = F::one();
    }
    let (a, b) = (tot(&l), tot(&r));
    let z = F::zero();
    for (v, i) in need.iter().zip(&at) {
        r[k].2[*i] += *a.get(v).unwrap_or(&z) - *b.get(v).unwrap_or(&z);
    }
    if !t {
        let s = if c.coin(1, 2) { &mut l } else { &mut r };
        let j = c.range(0, s.len() - 1);
        let i = c.range(0, s[j].0.len() - 1);
        match c.range(0, 3) {
            0 => s[j].2[i] += c.nz(),
            1 => s[j].0[i] += c.nz(),
            2 => s[j].1[i] = F::one() - s[j].1[i],
            _ => {
                // move weight from one row to another
                let d = c.nz();
                let m = c.range(0, s[j].0.len() - 1);
                s[j].2[i] += d;
                s[j].2[m] -= d;
            },
        }
    }
    let mut pack = |c: &mut Ctx, v: Vec<(Vec<F>, Vec<F>, Vec<F>)>| -> Wb { v.into_iter().map(|(v, s, m)| (bag_in(c, v, s), wrap(c, m))).collect() };
    let (l, r) = (pack(c, l), pack(c, r));
    multitool_case("multitool", l, r)
}
fn some_values(c: &mut Ctx, k: usize) -> Vec<F> {
    let big = c.coin(1, 4);
    let d = if c.grow > 0 && c.coin(1, 2) { c.range(1, 3) } else { c.range(1, k.max(2)) };
    (0..k).map(|_| if big { c.felt() } else { small(c, d) }).collect()
}
fn mutate(c: &mut Ctx, v: &mut Vec<F>, cap: usize) {
    match c.range(0, 3) {
        0 if !v.is_empty() => {
            let i = c.range(0, v.len() - 1);
            v[i] += c.nz();
        },
        1 if !v.is_empty() => {
            let i = c.range(0, v.len() - 1);
            v.swap_remove(i);
        },
        2 if v.len() > 1 => {
            // one value replaced by another that is there
            let (i, j) = (c.range(0, v.len() - 1), c.range(0, v.len() - 1));
            v[i] = v[j];
        },
        _ if v.len() < cap => {
            let x = if v.is_empty() || c.coin(1, 2) { c.felt() } else { *c.pick(v) };
            v.push(x);
        },
        _ => {
            let i = c.range(0, v.len() - 1);
            v[i] += c.nz();
        },
    }
}
fn g_bag_eq(c: &mut Ctx, t: bool) -> Case {
    let nv = c.size(0, 4);
    let k = c.range(0, 1 << nv);
    let a = some_values(c, k);
    let mut b = a.clone();
    c.shuffle(&mut b);
    if !t {
        mutate(c, &mut b, 1 << nv);
    }
    let junk = some_values(c, 3);
    let (x, y) = (placed(c, nv, &a, &junk), placed(c, nv, &b, &junk));
    let ok = x.weights() == y.weights();
    let desc = format!("{} = {}", x.show(), y.show());
    let eqs = vec![eqn(vec![0], vec![1], 1, 1, y.sel.vals()), eqn(vec![0], vec![1], 0, 0, x.sel.vals())];
    let d = Rc::new((x, y));
    let e = d.clone();
    Case {
        name: "bag_eq",
        params: max_nv(&[nv]),
        complete: ok,
        holds: always(ok, "the multisets differ"),
        prove: Rc::new(move |p| {
            let (x, y) = (d.0.p(p)?, d.1.p(p)?);
            inputs_done();
            BagEqIOP::<E, Pcs>::prove(p, &x, &y)?;
            Ok(vec![])
        }),
        verify: Rc::new(move |w| {
            let (x, y) = (e.0.v(w), e.1.v(w));
            BagEqIOP::<E, Pcs>::verify(w, &x, &y)?;
            Ok(vec![])
        }),
        advs: vec![],
        eqs,
        desc,
    }
}
fn g_bag_sum(c: &mut Ctx, t: bool) -> Case {
    let (n0, n1) = (c.size(0, 4), c.size(0, 4));
    let (k0, k1) = (c.range(0, 1 << n0), c.range(0, 1 << n1));
    let (mut a, mut b) = (some_values(c, k0), some_values(c, k1));
    let mut s: Vec<F> = a.iter().chain(&b).copied().collect();
    c.shuffle(&mut s);
    let nv = room(c, s.len());
    if !t {
        match c.range(0, 2) {
            0 => mutate(c, &mut a, 1 << n0),
            1 => mutate(c, &mut b, 1 << n1),
            _ => mutate(c, &mut s, 1 << nv),
        }
    }
    let junk = some_values(c, 3);
    let (x, y, z) = (placed(c, n0, &a, &junk), placed(c, n1, &b, &junk), placed(c, nv, &s, &junk));
    let mut w = x.weights();
    for (v, m) in y.weights() {
        *w.entry(v).or_insert(F::zero()) += m;
    }
    let ok = w == z.weights();
    let desc = format!("{} + {} = {}", x.show(), y.show(), z.show());
    let eqs = vec![eqn(vec![0, 1], vec![2], 2, 2, z.sel.vals()), eqn(vec![0, 1], vec![2], 0, 0, x.sel.vals()), eqn(vec![0, 1], vec![2], 1, 1, y.sel.vals())];
    let d = Rc::new((x, y, z));
    let e = d.clone();
    Case {
        name: "bag_sum",
        params: max_nv(&[n0, n1, nv]),
        complete: ok,
        holds: always(ok, "the two bags together are not the third"),
        prove: Rc::new(move |p| {
            let (x, y, z) = (d.0.p(p)?, d.1.p(p)?, d.2.p(p)?);
            inputs_done();
            BagSumIOP::<E, Pcs>::prove(p, &x, &y, &z)?;
            Ok(vec![])
        }),
        verify: Rc::new(move |w| {
            let (x, y, z) = (e.0.v(w), e.1.v(w), e.2.v(w));
            BagSumIOP::<E, Pcs>::verify(w, &x, &y, &z)?;
            Ok(vec![])
        }),
        advs: vec![],
        eqs,
        desc,
    }
}

// ---------------------------------------------------------------- C21
fn g_presc_perm(c: &mut Ctx, t: bool) -> Case {
    let nv = c.size(0, 4);
    let n = 1usize << nv;
    let a = some_values(c, n);
    let mut perm: Vec<usize> = (0..n).collect();
    match c.range(0, 3) {
        0 => perm.rotate_left(1 % n),
        1 => {},
        _ => c.shuffle(&mut perm),
    }
    let mut g: Vec<F> = perm.iter().map(|j| a[*j]).collect();
    let mut pm: Vec<F> = perm.iter().map(|j| f(*j)).collect();
    if !t {
        let (i, j) = (c.range(0, n - 1), c.range(0, n - 1));
        match c.range(0, 5) {
            0 => g.swap(i, j),
            1 => g[i] += c.nz(),
            2 => pm[i] = pm[j],
            3 => pm.swap(i, j),
            4 => {
                // a position that does not exist
                pm[i] = f(n + c.range(0, 2));
            },
            _ => {
                // rearranged by the inverse
                for (i, j) in perm.iter().enumerate() {
                    g[*j] = a[i];
                }
            },
        }
    }
    let s = ones(n);
    let (x, y) = (bag_in(c, a, s.clone()), bag_in(c, g, s));
    let q = wrap(c, pm.clone());
    presc_perm_case(x, y, q)
}
pub fn presc_perm_case(x: BagIn, y: BagIn, q: In) -> Case {
    let (a, g, pm) = (x.poly.vals(), y.poly.vals(), q.vals());
    let (n, nv) = (a.len(), x.nv());
    let is_perm = set(&pm) == (0..n).map(f).collect();
    let ok = is_perm && (0..n).all(|i| (0..n).any(|j| pm[i] == f(j) && a[j] == g[i]));
    let desc = format!("{} by {} is {}", x.show(), sv(&pm), y.show());
    let d = Rc::new((x, y, q));
    let e = d.clone();
    Case {
        name: "presc_perm",
        params: max_nv(&[nv]),
        complete: ok,
        holds: always(ok, "the second bag is not the first rearranged as prescribed"),
        prove: Rc::new(move |p| {
            let (x, y, q) = (d.0.p(p)?, d.1.p(p)?, d.2.p(p)?);
            inputs_done();
            BagPrescPermIOP::<E, Pcs>::prove(p, &x, &y, &q)?;
            Ok(vec![])
        }),
        verify: Rc::new(move |w| {
            let (x, y, q) = (e.0.v(w), e.1.v(w), e.2.v(w));
            BagPrescPermIOP::<E, Pcs>::verify(w, &x, &y, &q)?;
            Ok(vec![])
        }),
        advs: vec![
            adv("the second helper copied from the first", vec![Box::new(|r| r.own(0).map(|t| vec![(1, t.clone())]).unwrap_or_default())]),
            adv("the first helper copied from the second", vec![Box::new(|r| r.own(1).map(|t| vec![(0, t.clone())]).unwrap_or_default())]),
            fixed("both helpers zero", vec![(0, vec![F::zero(); n]), (1, vec![F::zero(); n])]),
        ],
        eqs: vec![eqn(vec![0], vec![1], 3, 1, ones(n)), eqn(vec![0], vec![1], 2, 0, ones(n))],
        desc,
    }
}
/// dishonest provers for a strict sort whose first commitment is number `at`:
/// the shifted copy is made to look sorted and the rest is made to fit
fn sort_advs(at: usize, p: Vec<F>, range: Vec<F>) -> Vec<Adv> {
    let n = p.len();
    let step = range.iter().copied().find(|x| !x.is_zero()).unwrap_or(F::one());
    let mut q: Vec<F> = p.iter().map(|x| *x + step).collect();
    if n > 0 {
        q[n - 1] = p[0];
    }
    let mut srt = p.clone();
    srt.sort();
    srt.rotate_left(1 % n);
    let mut v = vec![];
    for (name, q) in [("a shifted copy with all differences in the range", q), ("the shifted copy of the sorted values", srt)] {
        let q1 = q.clone();
        v.push(fixed(name, vec![(at, q1)]));
        v.push(adv(
            "a wrong shifted copy and a helper that fits",
            vec![
                Box::new(move |_| vec![(at, q.clone())]),
                Box::new(move |r| r.own(at + 1).map(|t| vec![(at + 2, t.clone())]).unwrap_or_default()),
            ],
        ));
    }
    // inverses of zero differences
    v.push(fixed("inverses all one", vec![(at + 8, ones(n))]));
    // multiplicities of the range made to fit the size only
    let mut m = vec![F::zero(); range.len()];
    m[0] = f(n.max(1) - 1);
    v.push(fixed("every difference counted as the first of the range", vec![(at + 5, m)]));
    v
}
fn g_strict_sort(c: &mut Ctx, t: bool) -> Case {
    let nv = c.size(0, 4);
    let n = 1usize << nv;
    let k = c.range(0, n);
    let custom = c.coin(1, 4);
    let (range, mut p, mut s);
    if custom {
        // differences from an odd range
        let rn = 1 << c.range(0, 3);
        let mut r: Vec<F> = (0..rn).map(|_| if c.coin(1, 3) { c.nz() } else { f(c.range(1, 9)) }).collect();
        if c.coin(1, 2) {
            r[0] = F::zero();
        }
        let mut x = small(c, 3);
        p = vec![];
        for _ in 0..n {
            p.push(x);
            x += *c.pick(&r);
        }
        let last = n - 1;
        s = (0..n).map(|i| if i < last && p[i] == p[i + 1] { F::zero() } else { f(c.range(0, 1)) }).collect();
        c.shuffle(&mut r);
        range = r;
    } else {
        let bits = bits_for(c, n);
        let act = distinct(c, k, bits);
        (p, s) = tail(nv, &act);
        range = (0..1 << bits).map(f).collect::<Vec<F>>();
    }
    if !t {
        let (i, j) = (c.range(0, n - 1), c.range(0, n - 1));
        match c.range(0, 5) {
            0 => p.swap(i, j),
            1 => p[i] = p[j],
            2 => p[i] += f(range.len()),
            3 => p[i] -= F::one(),
            4 => {
                p[i] = p[(i + 1) % n];
                s[i] = F::one();
            },
            _ => s[i] = F::one() - s[i],
        }
    }
    let ok = sorted_ok(&p, &s, &range);
    let rs = ones(range.len());
    let x = bag_in(c, p.clone(), s.clone());
    let r = BagIn { poly: wrap(c, range.clone()), sel: wrap(c, rs) };
    let desc = format!("{} range {}", x.show(), sv(&range));
    let advs = if ok { vec![] } else { sort_advs(0, p.clone(), range.clone()) };
    let mut dsel = ones(n);
    dsel[n - 1] = F::zero();
    let (rv, one) = (log2(range.len()), ones(n));
    let d = Rc::new((x, r));
    let e = d.clone();
    Case {
        name: "strict_sort",
        params: max_nv(&[nv, rv]),
        complete: ok,
        holds: always(ok, "the bag is not strictly sorted with differences in the range"),
        prove: Rc::new(move |p| {
            let (x, r) = (d.0.p(p)?, d.1.p(p)?);
            inputs_done();
            BagStrictSortIOP::<E, Pcs>::prove(p, &x, &r)?;
            Ok(vec![])
        }),
        verify: Rc::new(move |w| {
            let (x, r) = (e.0.v(w), e.1.v(w));
            BagStrictSortIOP::<E, Pcs>::verify(w, &x, &r)?;
            Ok(vec![])
        }),
        advs,
        // permutation: sums 0 1, inverses 3 4; range: multiplicities 5, sums 2 3, inverses 6 7
        eqs: vec![eqn(vec![0], vec![1], 4, 1, one), eqn(vec![2], vec![3], 6, 2, dsel), Equation { l: vec![2], r: vec![3], tweak: 5, which: 3, w: Rc::new(|r| r.own(7).cloned()) }],
        desc,
    }
}

// ---------------------------------------------------------------- C22
/// an included bag, a super bag, and whether it is included
fn inc(c: &mut Ctx, t: bool) -> (BagIn, BagIn) {
    let (na, nb) = (c.size(0, 4), c.size(0, 4));
    let kb = c.range(1, 1 << nb);
    let b = some_values(c, kb);
    let mut a: Vec<F> = (0..c.range(0, 1 << na)).map(|_| *c.pick(&b)).collect();
    let mut junk = some_values(c, 3);
    if !t {
        let x = match c.range(0, 2) {
            0 => c.rand_f(),
            1 => F::zero(),
            _ => *c.pick(&b) + c.nz(),
        };
        if a.is_empty() {
            a.push(x);
        } else {
            let i = c.range(0, a.len() - 1);
            a[i] = x;
        }
        // the value is there, but not activated
        junk.push(x);
    }
    (placed(c, na, &a, &junk), placed(c, nb, &b, &junk))
}
pub fn inc_multiplicities(c: &mut Ctx, a: &BagIn, b: &BagIn) -> Vec<F> {
    // any right distribution over equal rows
    let mut left = a.weights();
    let (v, s) = (b.poly.vals(), b.sel.vals());
    let mut m = vec![F::zero(); v.len()];
    let mut order: Vec<usize> = (0..v.len()).collect();
    c.shuffle(&mut order);
    let mut lastrow: BTreeMap<F, usize> = BTreeMap::new();
    for i in &order {
        if !s[*i].is_zero() {
            lastrow.insert(v[*i], *i);
        }
    }
    for i in order {
        if s[i].is_zero() {
            m[i] = if c.coin(1, 2) { F::zero() } else { c.felt() };
        } else if lastrow[&v[i]] != i {
            let x = small(c, 3);
            m[i] = x;
            *left.entry(v[i]).or_insert(F::zero()) -= x;
        }
    }
    for (x, i) in lastrow {
        m[i] = *left.get(&x).unwrap_or(&F::zero());
    }
    m
}
fn g_inclusion(c: &mut Ctx, t: bool) -> Case {
    let (a, b) = inc(c, t);
    let ok = set(&a.active()).is_subset(&set(&b.active()));
    let desc = format!("{} in {}", a.show(), b.show());
    let params = max_nv(&[a.nv(), b.nv()]);
    let (asel, bsel) = (a.sel.vals(), b.sel.vals());
    let nb = bsel.len();
    let mut first = vec![F::zero(); nb];
    first[0] = f(a.active().len());
    let bs = bsel.clone();
    let d = Rc::new((a, b));
    let e = d.clone();
    Case {
        name: "inclusion",
        params,
        complete: ok,
        holds: always(ok, "a value is not in the larger bag"),
        prove: Rc::new(move |p| {
            let (x, y) = (d.0.p(p)?, d.1.p(p)?);
            inputs_done();
            BagInclusionIOP::<E, Pcs>::prove(p, &x, &y)?;
            Ok(vec![])
        }),
        verify: Rc::new(move |w| {
            let (x, y) = (e.0.v(w), e.1.v(w));
            BagInclusionIOP::<E, Pcs>::verify(w, &x, &y)?;
            Ok(vec![])
        }),
        advs: vec![fixed("multiplicities with the right total", vec![(0, first)]), fixed("multiplicities all one", vec![(0, ones(nb))])],
        eqs: vec![
            eqn(vec![0], vec![1], 1, 0, asel),
            Equation { l: vec![0], r: vec![1], tweak: 2, which: 1, w: Rc::new(move |r| r.own(0).map(|m| m.iter().zip(&bsel).map(|(m, s)| *m * s).collect())) },
            // multiplicities chosen after the challenge is known
            Equation { l: vec![0], r: vec![1], tweak: 0, which: 1, w: Rc::new(move |r| r.own(2).map(|m| m.iter().zip(&bs).map(|(m, s)| *m * s).collect())) },
        ],
        desc,
    }
}
fn g_inclusion_advice(c: &mut Ctx, t: bool) -> Case {
    let sub = t || c.coin(2, 3);
    let (a, b) = inc(c, sub);
    let mut m = inc_multiplicities(c, &a, &b);
    if !t && sub {
        let i = c.range(0, m.len() - 1);
        let j = c.range(0, m.len() - 1);
        let d = c.nz();
        m[i] += d;
        if c.coin(1, 2) {
            m[j] -= d;
        }
    }
    let w: Vec<F> = b.sel.vals().iter().zip(&m).map(|(s, m)| *s * m).collect();
    let ok = a.weights() == weights(&b.poly.vals(), &w);
    let desc = format!("{} in {} by {}", a.show(), b.show(), sv(&m));
    let params = max_nv(&[a.nv(), b.nv()]);
    let asel = a.sel.vals();
    let q = wrap(c, m);
    let d = Rc::new((a, b, q));
    let e = d.clone();
    Case {
        name: "inclusion_advice",
        params,
        complete: ok,
        holds: always(ok, "the multiplicities do not show the inclusion"),
        prove: Rc::new(move |p| {
            let (x, y, m) = (d.0.p(p)?, d.1.p(p)?, d.2.p(p)?);
            inputs_done();
            BagInclusionIOP::<E, Pcs>::prove_with_advice(p, &x, &y, &m)?;
            Ok(vec![])
        }),
        verify: Rc::new(move |w| {
            let (x, y, m) = (e.0.v(w), e.1.v(w), e.2.v(w));
            BagInclusionIOP::<E, Pcs>::verify_with_advice(w, &x, &y, &m)?;
            Ok(vec![])
        }),
        advs: vec![],
        eqs: vec![eqn(vec![0], vec![1], 0, 0, asel), eqn(vec![0], vec![1], 1, 1, w)],
        desc,
    }
}
fn g_supp(c: &mut Ctx, t: bool) -> Case {
    let nv = c.size(0, 4);
    let k = c.range(0, 1 << nv);
    let d = if c.grow > 0 && c.coin(1, 2) { c.range(1, 3) } else { c.range(1, (1 << nv) + 1) };
    let bits = bits_for(c, d + 2);
    let pool = distinct(c, d, bits);
    let a: Vec<F> = (0..k).map(|_| *c.pick(&pool)).collect();
    let mut junk = vec![F::zero()];
    junk.extend(distinct(c, 2, bits));
    let bag = placed(c, nv, &a, &junk);
    let mut s: Vec<F> = set(&a).into_iter().collect();
    if !t {
        let missing: Vec<F> = (0..1 << bits).map(f).filter(|x| !s.contains(x)).collect();
        match c.range(0, 4) {
            0 if !s.is_empty() => {
                let i = c.range(0, s.len() - 1);
                s.remove(i);
            },
            1 if !missing.is_empty() => {
                let x = *c.pick(&missing);
                s.push(x);
                s.sort();
            },
            2 if !s.is_empty() => {
                let i = c.range(0, s.len() - 1);
                s.insert(i, s[i]);
            },
            3 if s.len() > 1 => {
                let i = c.range(0, s.len() - 2);
                s.swap(i, i + 1);
            },
            _ if !s.is_empty() && !missing.is_empty() => {
                let i = c.range(0, s.len() - 1);
                s[i] = *c.pick(&missing);
                s.sort();
            },
            _ => {},
        }
    }
    let sn = room(c, s.len());
    let (v, l) = tail(sn, &s);
    let range: Vec<F> = (0..1 << bits).map(f).collect();
    let ok = set(&a) == set(&s) && sorted_ok(&v, &l, &range);
    let supp = bag_in(c, v.clone(), l.clone());
    let r = range_bag(bits);
    let desc = format!("{} has support {} range 2^{}", bag.show(), supp.show(), bits);
    // multiplicities that hide an extra or a repeated row
    let w = counts(&a);
    let mut m: Vec<F> = vec![];
    let mut seen: BTreeMap<F, usize> = BTreeMap::new();
    for (x, b) in v.iter().zip(&l) {
        let mut y = F::zero();
        if !b.is_zero() {
            let total = *w.get(x).unwrap_or(&0);
            let copies = s.iter().filter(|z| *z == x).count();
            let i = *seen.get(x).unwrap_or(&0);
            seen.insert(*x, i + 1);
            // 7 on all but the last copy
            y = if i + 1 < copies { f(7) } else { f(total) - f(7 * (copies - 1)) };
            if total == 0 {
                y = F::one();
            }
        }
        m.push(y);
    }
    let m2: Vec<F> = l.iter().map(|x| if x.is_zero() { F::zero() } else { F::one() }).collect();
    let mut advs = vec![];
    if !ok {
        advs.push(fixed("multiplicities split over the rows", vec![(0, m.clone())]));
        advs.push(fixed("multiplicities all one", vec![(0, m2)]));
        advs.push(fixed("inverses all one", vec![(0, m), (3, ones(v.len()))]));
        for a in sort_advs(4, v.clone(), range.clone()) {
            advs.push(a);
        }
    }
    let params = max_nv(&[nv, sn, bits]);
    let (bs, l2) = (bag.sel.vals(), l.clone());
    let d = Rc::new((bag, supp, r));
    let e = d.clone();
    Case {
        name: "supp",
        params,
        complete: ok,
        holds: always(ok, "the second bag is not the sorted support of the first"),
        prove: Rc::new(move |p| {
            let (x, y, r) = (d.0.p(p)?, d.1.p(p)?, d.2.p(p)?);
            inputs_done();
            BagSuppIOP::<E, Pcs>::prove(p, &x, &y, &r)?;
            Ok(vec![])
        }),
        verify: Rc::new(move |w| {
            let (x, y, r) = (e.0.v(w), e.1.v(w), e.2.v(w));
            BagSuppIOP::<E, Pcs>::verify(w, &x, &y, &r)?;
            Ok(vec![])
        }),
        advs,
        eqs: vec![
            eqn(vec![0], vec![1], 1, 0, bs),
            Equation { l: vec![0], r: vec![1], tweak: 0, which: 1, w: Rc::new(move |r| r.own(2).map(|m| m.iter().zip(&l2).map(|(m, s)| *m * s).collect())) },
        ],
        desc,
    }
}

// ---------------------------------------------------------------- C23
/// two bags, sharing activated values or not
pub fn two(c: &mut Ctx, share: bool, dup: bool, nmax: usize) -> (Vec<F>, usize, Vec<F>, usize, usize, Vec<F>) {
    let (na, nb) = (c.size(0, nmax), c.size(0, nmax));
    let (ka, kb) = (c.range(0, 1 << na), c.range(0, 1 << nb));
    let few = c.grow > 0 && c.coin(1, 2);
    let (da, db) = if dup && few { (c.range(0, ka.min(3)), c.range(0, kb.min(3))) } else if dup { (c.range(0, ka.min(300)), c.range(0, kb.min(300))) } else { (ka, kb) };
    let bits = bits_for(c, da + db + 1);
    let mut vals = distinct(c, da + db, bits);
    c.shuffle(&mut vals);
    let (pa, pb) = vals.split_at(da);
    let fill = |c: &mut Ctx, p: &[F], k: usize| -> Vec<F> {
        let mut v = p.to_vec();
        if dup && !p.is_empty() {
            while v.len() < k {
                let x = *c.pick(p);
                v.push(x);
            }
        }
        v
    };
    let (mut a, mut b) = (fill(c, pa, ka), fill(c, pb, kb));
    if share {
        if b.is_empty() && !a.is_empty() {
            b.push(*c.pick(&a));
        } else if a.is_empty() && !b.is_empty() {
            a.push(*c.pick(&b));
        } else if !a.is_empty() {
            let (i, j) = (c.range(0, a.len() - 1), c.range(0, b.len() - 1));
            if !dup || c.coin(1, 2) {
                b[j] = a[i];
            } else {
                a[i] = b[j];
            }
        }
    }
    let mut junk = vals.clone();
    junk.push(F::zero());
    (a, na, b, nb, bits, junk)
}
/// helper tables for a disjointness proof of bags that are not disjoint:
/// every shared value gets two rows, one for each side
fn split_rows(a: &[F], b: &[F], nv: usize, gap: bool) -> Option<Swap> {
    let (wa, wb) = (counts(a), counts(b));
    let mut rows: Vec<(F, F, F, F)> = vec![]; // value, sel, m_a, m_b
    let all: BTreeSet<F> = wa.keys().chain(wb.keys()).copied().collect();
    for x in all {
        let (i, j) = (wa.get(&x).map(|k| f(*k)), wb.get(&x).map(|k| f(*k)));
        let z = F::zero();
        match (i, j) {
            (Some(i), Some(j)) => {
                rows.push((x, F::one(), i, z));
                if gap {
                    // a deactivated row in between
                    rows.push((x, z, z, z));
                }
                rows.push((x, F::one(), z, j));
            },
            (i, j) => rows.push((x, F::one(), i.unwrap_or(z), j.unwrap_or(z))),
        }
    }
    let n = 1 << nv;
    if rows.len() > n {
        return None;
    }
    let z = F::zero();
    let mut t = vec![(z, z, z, z); n - rows.len()];
    t.extend(rows);
    Some(vec![(0, t.iter().map(|r| r.0).collect()), (1, t.iter().map(|r| r.1).collect()), (2, t.iter().map(|r| r.2).collect()), (3, t.iter().map(|r| r.3).collect())])
}
/// dishonest supporting data for a bag disjointness proof whose first
/// commitment is number `at`
fn disjoint_advs(at: usize, a: &[F], b: &[F], nv: usize, range: &[F]) -> Vec<Adv> {
    let mv = |s: Swap| -> Swap { s.into_iter().map(|(k, t)| (k + at, t)).collect() };
    let mut v = vec![];
    let (wa, wb) = (counts(a), counts(b));
    let all: BTreeSet<F> = wa.keys().chain(wb.keys()).copied().collect();
    let n = 1usize << nv;
    if all.len() < n {
        // one row for every value; a deactivated row makes up for the products
        let vals: Vec<F> = all.iter().copied().collect();
        let (t, s) = tail(nv, &vals);
        let of = |w: &BTreeMap<F, usize>| -> Vec<F> { t.iter().zip(&s).map(|(x, s)| if s.is_zero() { F::zero() } else { f(*w.get(x).unwrap_or(&0)) }).collect() };
        let (mut ma, mut mb) = (of(&wa), of(&wb));
        let plain = vec![(0, t.clone()), (1, s.clone()), (2, ma.clone()), (3, mb.clone())];
        let total: F = ma.iter().zip(&mb).map(|(x, y)| *x * y).sum();
        ma[0] = F::one();
        mb[0] = -total;
        v.push(fixed("one row for every value", mv(plain)));
        v.push(fixed("one row for every value, products that cancel", mv(vec![(0, t), (1, s), (2, ma), (3, mb)])));
    }
    for gap in [false, true] {
        if let Some(s) = split_rows(a, b, nv, gap) {
            let s = mv(s);
            v.push(fixed("two rows for a shared value", s.clone()));
            // with the inverses and the shifted copy made to fit
            let (t0, r0) = (s[0].1.clone(), range.to_vec());
            for extra in sort_advs(at + 4, t0, r0) {
                let s = s.clone();
                let mut st: Vec<Stage> = vec![Box::new(move |_| s.clone())];
                st.extend(extra.stages);
                v.push(adv("two rows for a shared value, and the sort made to fit", st));
            }
            // not next to each other: the rows for the second bag come last
            let z: Vec<Vec<F>> = s.iter().map(|x| x.1.clone()).collect();
            let mut idx: Vec<usize> = (0..z[0].len()).collect();
            idx.sort_by_key(|i| !z[3][*i].is_zero());
            v.push(fixed("an unsorted union", s.iter().enumerate().map(|(k, (p, _))| (*p, idx.iter().map(|i| z[k][*i]).collect())).collect()));
        }
    }
    v
}
fn g_bag_disjoint(c: &mut Ctx, t: bool) -> Case {
    let (a, na, b, nb, bits, junk) = two(c, !t, true, 3);
    let ok = set(&a).is_disjoint(&set(&b));
    let (x, y) = (placed(c, na, &a, &junk), placed(c, nb, &b, &junk));
    let desc = format!("{} and {} range 2^{}", x.show(), y.show(), bits);
    let nv = na.max(nb) + 1;
    let r = range_bag(bits);
    let mut advs = vec![];
    if !ok {
        advs = disjoint_advs(0, &a, &b, nv, &r.poly.vals());
        // one side's multiplicities left out
        advs.push(fixed("no multiplicities for the first bag", vec![(2, vec![F::zero(); 1 << nv])]));
        advs.push(fixed("no multiplicities for the second bag", vec![(3, vec![F::zero(); 1 << nv])]));
    }
    let (xs, ys) = (x.sel.vals(), y.sel.vals());
    let d = Rc::new((x, y, r));
    let e = d.clone();
    Case {
        name: "bag_disjoint",
        params: max_nv(&[nv, bits]),
        complete: ok,
        holds: always(ok, "a value is activated on both sides"),
        prove: Rc::new(move |p| {
            let (x, y, r) = (d.0.p(p)?, d.1.p(p)?, d.2.p(p)?);
            inputs_done();
            BagDisjointIOP::<E, Pcs>::prove(p, &x, &y, &r)?;
            Ok(vec![])
        }),
        verify: Rc::new(move |w| {
            let (x, y, r) = (e.0.v(w), e.1.v(w), e.2.v(w));
            BagDisjointIOP::<E, Pcs>::verify(w, &x, &y, &r)?;
            Ok(vec![])
        }),
        advs,
        eqs: vec![eqn(vec![4], vec![5], 13, 4, xs), eqn(vec![6], vec![7], 15, 6, ys)],
        desc,
    }
}
/// dishonest sums for a set disjointness proof whose first commitment is
/// number `at`
fn set_disjoint_advs(at: usize, a: &BagIn, b: &BagIn, nv: usize) -> Vec<Adv> {
    let mut w = a.weights();
    for (x, m) in b.weights() {
        *w.entry(x).or_insert(F::zero()) += m;
    }
    w.retain(|_, m| !m.is_zero());
    let n = 1usize << nv;
    let mut v = vec![];
    if w.len() <= n {
        // every value once, with its total weight or with weight one
        let vals: Vec<F> = w.keys().copied().collect();
        let ws: Vec<F> = w.values().copied().collect();
        let (t, s) = tail(nv, &vals);
        let mut h = vec![F::zero(); n - ws.len()];
        h.extend(ws);
        v.push(fixed("a shared value once, with weight two", vec![(at, t.clone()), (at + 1, h)]));
        v.push(fixed("a shared value once", vec![(at, t), (at + 1, s)]));
    }
    v
}
fn g_set_disjoint(c: &mut Ctx, t: bool) -> Case {
    let (a, na, b, nb, bits, junk) = two(c, !t, false, 3);
    let ok = set(&a).is_disjoint(&set(&b)) && set(&a).len() == a.len() && set(&b).len() == b.len();
    let (x, y) = (placed(c, na, &a, &junk), placed(c, nb, &b, &junk));
    let desc = format!("{} and {} range 2^{}", x.show(), y.show(), bits);
    let nv = na.max(nb) + 1;
    let r = range_bag(bits);
    let mut advs = vec![];
    if !ok {
        advs = set_disjoint_advs(0, &x, &y, nv);
        let mut all: Vec<F> = a.iter().chain(&b).copied().collect();
        all.sort();
        let (p, _) = tail(nv, &all);
        advs.extend(sort_advs(5, p, r.poly.vals()));
    }
    let (xs, ys) = (x.sel.vals(), y.sel.vals());
    let d = Rc::new((x, y, r));
    let e = d.clone();
    Case {
        name: "set_disjoint",
        params: max_nv(&[nv, bits]),
        complete: ok,
        holds: always(ok, "a value is activated on both sides"),
        prove: Rc::new(move |p| {
            let (x, y, r) = (d.0.p(p)?, d.1.p(p)?, d.2.p(p)?);
            inputs_done();
            SetDisjointIOP::<E, Pcs>::prove(p, &x, &y, &r)?;
            Ok(vec![])
        }),
        verify: Rc::new(move |w| {
            let (x, y, r) = (e.0.v(w), e.1.v(w), e.2.v(w));
            SetDisjointIOP::<E, Pcs>::verify(w, &x, &y, &r)?;
            Ok(vec![])
        }),
        advs,
        eqs: vec![eqn(vec![0, 1], vec![2], 2, 0, xs), eqn(vec![0, 1], vec![2], 3, 1, ys)],
        desc,
    }
}

// ---------------------------------------------------------------- C24
/// two sets with a shared part: (a, b, number of bits)
pub fn sets(c: &mut Ctx, nmax: usize) -> (Vec<F>, Vec<F>, usize) {
    let nmax = nmax + c.grow;
    let k = c.range(0, (1 << nmax) + 2);
    let bits = bits_for(c, k + 2);
    let pool = distinct(c, k, bits);
    let (mut a, mut b) = (vec![], vec![]);
    for x in pool {
        match c.range(0, 2) {
            0 => a.push(x),
            1 => b.push(x),
            _ => {
                a.push(x);
                b.push(x);
            },
        }
    }
    a.truncate(1 << nmax);
    b.truncate(1 << nmax);
    c.shuffle(&mut a);
    c.shuffle(&mut b);
    (a, b, bits)
}
/// change a result set
fn spoil(c: &mut Ctx, v: &mut Vec<F>, bits: usize) {
    let missing: Vec<F> = (0..1 << bits).map(f).filter(|x| !v.contains(x)).collect();
    match c.range(0, 3) {
        0 if !v.is_empty() => {
            let i = c.range(0, v.len() - 1);
            v.remove(i);
        },
        1 if !v.is_empty() => {
            let i = c.range(0, v.len() - 1);
            v[i] = *c.pick(&missing);
        },
        2 if !v.is_empty() => {
            let i = c.range(0, v.len() - 1);
            v.push(v[i]);
        },
        _ => v.push(*c.pick(&missing)),
    }
}
pub fn minus(a: &[F], b: &[F]) -> Vec<F> {
    let b = set(b);
    a.iter().copied().filter(|x| !b.contains(x)).collect()
}
pub fn both(a: &[F], b: &[F]) -> Vec<F> {
    let b = set(b);
    a.iter().copied().filter(|x| b.contains(x)).collect()
}
fn same_set(a: &[F], b: &[F]) -> bool {
    a.len() == b.len() && counts(a) == counts(b)
}
fn g_set_union(c: &mut Ctx, t: bool) -> Case {
    let (a, b, bits) = sets(c, 3);
    let (na, nb) = (room(c, a.len()), room(c, b.len()));
    let want: Vec<F> = set(&a).union(&set(&b)).copied().collect();
    let mut u = want.clone();
    if !t {
        spoil(c, &mut u, bits);
        u.sort();
        if u.len() > 1 && c.coin(1, 6) {
            u.swap(0, 1);
        }
    }
    let nu = room(c, u.len());
    let (uv, us) = tail(nu, &u);
    let range: Vec<F> = (0..1 << bits).map(f).collect();
    let ok = same_set(&u, &want) && sorted_ok(&uv, &us, &range);
    let mut junk = vec![F::zero()];
    junk.extend(&want);
    let (x, y) = (placed(c, na, &a, &junk), placed(c, nb, &b, &junk));
    let z = bag_in(c, uv.clone(), us.clone());
    let r = range_bag(bits);
    let desc = format!("{} | {} = {} range 2^{}", x.show(), y.show(), z.show(), bits);
    let nv = na.max(nb) + 1;
    let mut advs = vec![];
    if !ok {
        // the sum replaced by the claimed union
        if u.len() <= 1 << nv {
            let (p, s) = tail(nv, &u);
            advs.push(fixed("the sum is the claimed union", vec![(0, p), (1, s)]));
        }
        // multiplicities of the union that look right; missing ones made up
        let w = {
            let mut w = counts(&a);
            for (x, k) in counts(&b) {
                *w.entry(x).or_insert(0) += k;
            }
            w
        };
        let mut left = w.clone();
        let m: Vec<F> = uv
            .iter()
            .zip(&us)
            .map(|(x, s)| {
                if s.is_zero() {
                    return F::zero();
                }
                let copies = u.iter().filter(|y| *y == x).count();
                let k = left.get_mut(x).map(|k| {
                    let y = if copies > 1 && *k > 1 { 1 } else { *k };
                    *k -= y;
                    y
                });
                f(k.unwrap_or(1))
            })
            .collect();
        advs.push(fixed("multiplicities split over the rows", vec![(5, m)]));
        for a in sort_advs(9, uv, range) {
            advs.push(a);
        }
    }
    let (xs, ys) = (x.sel.vals(), y.sel.vals());
    let d = Rc::new((x, y, z, r));
    let e = d.clone();
    Case {
        name: "set_union",
        params: max_nv(&[nv, nu, bits]),
        complete: ok,
        holds: always(ok, "the result is not the union"),
        prove: Rc::new(move |p| {
            let (x, y, z, r) = (d.0.p(p)?, d.1.p(p)?, d.2.p(p)?, d.3.p(p)?);
            inputs_done();
            SetUnionIOP::<E, Pcs>::prove(p, &x, &y, &z, &r)?;
            Ok(vec![])
        }),
        verify: Rc::new(move |w| {
            let (x, y, z, r) = (e.0.v(w), e.1.v(w), e.2.v(w), e.3.v(w));
            SetUnionIOP::<E, Pcs>::verify(w, &x, &y, &z, &r)?;
            Ok(vec![])
        }),
        advs,
        eqs: vec![eqn(vec![0, 1], vec![2], 2, 0, xs), eqn(vec![0, 1], vec![2], 3, 1, ys)],
        desc,
    }
}
/// a bag of these values with these weights, deactivated rows elsewhere
fn weighted(c: &mut Ctx, w: &[(F, F)], junk: &[F]) -> BagIn {
    let nv = room(c, w.len());
    let vals: Vec<F> = w.iter().map(|x| x.0).collect();
    let n = 1 << nv;
    let mut at: Vec<usize> = (0..n).collect();
    c.shuffle(&mut at);
    let mut p: Vec<F> = (0..n).map(|_| *c.pick(junk)).collect();
    let mut s = vec![F::zero(); n];
    for (k, i) in at.iter().take(vals.len()).enumerate() {
        p[*i] = w[k].0;
        s[*i] = w[k].1;
    }
    bag_in(c, p, s)
}
/// what must be added to `m` to get `a`
pub fn complement(a: &[F], m: &[F]) -> Vec<(F, F)> {
    let mut w: BTreeMap<F, F> = BTreeMap::new();
    for x in a {
        *w.entry(*x).or_insert(F::zero()) += F::one();
    }
    for x in m {
        *w.entry(*x).or_insert(F::zero()) -= F::one();
    }
    w.into_iter().filter(|x| !x.1.is_zero()).collect()
}
pub fn unit(v: &[F]) -> Vec<(F, F)> {
    v.iter().map(|x| (*x, F::one())).collect()
}
fn g_set_intersect(c: &mut Ctx, t: bool) -> Case {
    let (a, b, bits) = sets(c, 3);
    let (na, nb) = (room(c, a.len()), room(c, b.len()));
    let want = both(&a, &b);
    let mut m = want.clone();
    c.shuffle(&mut m);
    let (mut l, mut r) = (unit(&minus(&a, &b)), unit(&minus(&b, &a)));
    if !t {
        spoil(c, &mut m, bits);
        // supporting data: as if the result were right, or made to fit the sums
        match c.range(0, 5) {
            0 => {},
            1 => {
                l = unit(&minus(&a, &m));
                r = unit(&minus(&b, &m));
            },
            // only one of the two sums is wrong, everything else fits
            2 => l = complement(&a, &m),
            3 => r = complement(&b, &m),
            _ => {
                l = complement(&a, &m);
                r = complement(&b, &m);
            },
        }
    }
    let ok_set = same_set(&m, &want);
    let right = |w: &[(F, F)], a: &[F]| counts_w(w) == counts_w(&complement(a, &m));
    // the supporting data must be right as well
    let ok = ok_set && right(&l, &a) && right(&r, &b);
    let mut junk = vec![F::zero()];
    junk.extend(&a);
    junk.extend(&b);
    let (x, y) = (placed(c, na, &a, &junk), placed(c, nb, &b, &junk));
    let nm = room(c, m.len());
    let (z, lb, rb) = (placed(c, nm, &m, &junk), weighted(c, &l, &junk), weighted(c, &r, &junk));
    let rg = range_bag(bits);
    let desc = format!("{} & {} = {} with {} and {} range 2^{}", x.show(), y.show(), z.show(), lb.show(), rb.show(), bits);
    let nv = lb.nv().max(rb.nv()) + 1;
    // the disjointness proof starts after two bag sums of three commitments
    let advs = if ok { vec![] } else { set_disjoint_advs(6, &lb, &rb, nv) };
    let eqs = vec![
        eqn(vec![0, 1], vec![2], 2, 2, x.sel.vals()),
        eqn(vec![3, 4], vec![5], 5, 5, y.sel.vals()),
        eqn(vec![6, 7], vec![8], 8, 6, lb.sel.vals()),
        eqn(vec![6, 7], vec![8], 9, 7, rb.sel.vals()),
    ];
    let params = max_nv(&[nv, na, nb, nm, bits]);
    let d = Rc::new((x, y, lb, z, rb, rg));
    let e = d.clone();
    Case {
        name: "set_intersect",
        params,
        complete: ok,
        holds: always(ok_set, "the result is not the intersection"),
        prove: Rc::new(move |p| {
            let (a, b, l, m, r, g) = (d.0.p(p)?, d.1.p(p)?, d.2.p(p)?, d.3.p(p)?, d.4.p(p)?, d.5.p(p)?);
            inputs_done();
            SetIntersectIOP::<E, Pcs>::prove(p, &a, &b, &l, &m, &r, &g)?;
            Ok(vec![])
        }),
        verify: Rc::new(move |w| {
            let (a, b, l, m, r, g) = (e.0.v(w), e.1.v(w), e.2.v(w), e.3.v(w), e.4.v(w), e.5.v(w));
            SetIntersectIOP::<E, Pcs>::verify(w, &a, &b, &l, &m, &r, &g)?;
            Ok(vec![])
        }),
        advs,
        eqs,
        desc,
    }
}
fn counts_w(w: &[(F, F)]) -> BTreeMap<F, F> {
    let (v, s): (Vec<F>, Vec<F>) = w.iter().copied().unzip();
    weights(&v, &s)
}
fn g_set_diff(c: &mut Ctx, t: bool) -> Case {
    let (a, b, bits) = sets(c, 3);
    let (na, nb) = (room(c, a.len()), room(c, b.len()));
    let want = minus(&a, &b);
    let mut l = want.clone();
    c.shuffle(&mut l);
    let mut m = unit(&both(&a, &b));
    if !t {
        spoil(c, &mut l, bits);
        match c.range(0, 2) {
            0 => {},
            1 => m = unit(&minus(&a, &l)),
            _ => m = complement(&a, &l),
        }
    }
    let mut junk = vec![F::zero()];
    junk.extend(&a);
    junk.extend(&b);
    let (x, y) = (placed(c, na, &a, &junk), placed(c, nb, &b, &junk));
    let nl = room(c, l.len());
    let (lb, mb) = (placed(c, nl, &l, &junk), weighted(c, &m, &junk));
    let mut bm = inc_multiplicities(c, &mb, &y);
    let mut bad_m = false;
    if !t && c.coin(1, 6) {
        let i = c.range(0, bm.len() - 1);
        bm[i] += c.nz();
        bad_m = true;
    }
    let ok_set = same_set(&l, &want);
    let w: Vec<F> = y.sel.vals().iter().zip(&bm).map(|(s, m)| *s * m).collect();
    let ok_m = mb.weights() == weights(&y.poly.vals(), &w);
    let ok = ok_set && counts_w(&m) == counts_w(&complement(&a, &l)) && ok_m;
    let _ = bad_m;
    let rg = range_bag(bits);
    let desc = format!("{} - {} = {} with {} by {} range 2^{}", x.show(), y.show(), lb.show(), mb.show(), sv(&bm), bits);
    let nv = nl.max(nb) + 1;
    let advs = if ok { vec![] } else { set_disjoint_advs(0, &lb, &y, nv) };
    let params = max_nv(&[nv, na, nb, mb.nv(), bits]);
    let q = wrap(c, bm);
    let eqs = vec![eqn(vec![0, 1], vec![2], 2, 0, lb.sel.vals()), eqn(vec![0, 1], vec![2], 3, 1, y.sel.vals()), eqn(vec![9, 10], vec![11], 0, 9, vec![])];
    let d = Rc::new((x, y, lb, mb, q, rg));
    let e = d.clone();
    Case {
        name: "set_diff",
        params,
        complete: ok,
        holds: always(ok_set, "the result is not the difference"),
        prove: Rc::new(move |p| {
            let (a, b, l, m, q, g) = (d.0.p(p)?, d.1.p(p)?, d.2.p(p)?, d.3.p(p)?, d.4.p(p)?, d.5.p(p)?);
            inputs_done();
            SetDiffIOP::<E, Pcs>::prove(p, &a, &b, &l, &m, &q, &g)?;
            Ok(vec![])
        }),
        verify: Rc::new(move |w| {
            let (a, b, l, m, q, g) = (e.0.v(w), e.1.v(w), e.2.v(w), e.3.v(w), e.4.v(w), e.5.v(w));
            SetDiffIOP::<E, Pcs>::verify(w, &a, &b, &l, &m, &q, &g)?;
            Ok(vec![])
        }),
        advs,
        eqs,
        desc,
    }
}

// ---------------------------------------------------------------- C25
fn table_in(c: &mut Ctx, cols: Vec<Vec<F>>, sel: Vec<F>) -> TabIn {
    TabIn { cols: cols.into_iter().map(|x| wrap(c, x)).collect(), sel: wrap(c, sel) }
}
fn g_cross_product(c: &mut Ctx, _t: bool) -> Case {
    let (na, nb) = (c.size(0, 3), c.size(0, 3));
    let tab = |c: &mut Ctx, nv: usize| -> TabIn {
        let cols = (0..c.wide(1, 3, 8)).map(|_| if c.coin(1, 2) { c.rand_table(nv) } else { c.table(nv) }).collect();
        let sel = (0..1 << nv).map(|_| f(c.range(0, 1))).collect();
        table_in(c, cols, sel)
    };
    let (a, b) = (tab(c, na), tab(c, nb));
    // every pair of rows once, selected when both are
    let mut want: Vec<(Vec<F>, F)> = vec![];
    for (r, s) in a.rows() {
        for (q, u) in b.rows() {
            want.push((r.iter().chain(&q).copied().collect(), s * u));
        }
    }
    want.sort();
    let desc = format!("{} x {}", a.show(), b.show());
    let d = Rc::new((a, b));
    let e = d.clone();
    let nv = na + nb;
    Case {
        name: "cross_product",
        params: max_nv(&[nv]),
        complete: true,
        holds: Rc::new(move |o| {
            if o.is_empty() {
                return Ok(());
            }
            let k = o.len() - 1;
            let mut got: Vec<(Vec<F>, F)> = (0..1 << nv).map(|i| ((0..k).map(|j| o[j][i]).collect(), o[k][i])).collect();
            got.sort();
            if got == want {
                Ok(())
            } else {
                Err("the result is not every pair of rows once".into())
            }
        }),
        prove: Rc::new(move |p| {
            let (a, b) = (d.0.p(p)?, d.1.p(p)?);
            inputs_done();
            let t = CrossProductIOP::<E, Pcs>::prover_cross_product(&a, &b)?;
            let mut o = t.col_vals.clone();
            o.push(t.selector.clone());
            // the prover's own view of the result, as a claim on each column:
            // what the verifier derives must be the same polynomial
            for x in &o {
                let s = x.evaluations().iter().sum();
                p.add_sumcheck_claim(x.id, s);
            }
            Ok(o)
        }),
        verify: Rc::new(move |w| {
            let (a, b) = (e.0.v(w), e.1.v(w));
            let t = CrossProductIOP::<E, Pcs>::verifier_cross_product(&a, &b)?;
            let n = t.num_vars();
            let mut o: Vec<(TComm, usize)> = t.col_vals.iter().map(|x| (x.clone(), n)).collect();
            o.push((t.selector.clone(), n));
            for (x, _) in &o {
                let s = w.get_prover_claimed_sum(x.id);
                w.add_sumcheck_claim(x.id, s);
            }
            Ok(o)
        }),
        advs: vec![],
        eqs: vec![],
        desc,
    }
}
pub type Rows = Vec<(Vec<F>, F)>;
pub fn from_rows(c: &mut Ctx, rows: &Rows) -> TabIn {
    let k = rows[0].0.len();
    let cols = (0..k).map(|j| rows.iter().map(|r| r.0[j]).collect()).collect();
    let sel = rows.iter().map(|r| r.1).collect();
    table_in(c, cols, sel)
}
/// a wrong row that resembles the rows at hand
fn wrong_row(c: &mut Ctx, rows: &Rows) -> Vec<F> {
    let k = rows[0].0.len();
    let a = c.pick(rows).0.clone();
    let b = c.pick(rows).0.clone();
    let mut r = a.clone();
    match c.range(0, 5) {
        0 => {
            // one column from another row
            let j = c.range(0, k - 1);
            r[j] = b[j];
        },
        1 if k > 1 => {
            // columns exchanged
            let (i, j) = (c.range(0, k - 1), c.range(0, k - 1));
            r.swap(i, j);
        },
        2 if k > 1 => {
            // same product
            let j = c.range(1, k - 1);
            let i = c.range(0, j - 1);
            let x = f(c.range(2, 5));
            r[i] *= x;
            r[j] *= x.inverse().unwrap();
        },
        3 if k > 1 => {
            // same sum
            let j = c.range(1, k - 1);
            let i = c.range(0, j - 1);
            let x = c.nz();
            r[i] += x;
            r[j] -= x;
        },
        4 => {
            let j = c.range(0, k - 1);
            r[j] = F::zero();
        },
        _ => {
            let j = c.range(0, k - 1);
            r[j] += c.nz();
        },
    }
    r
}
fn g_index_transform(c: &mut Ctx, t: bool) -> Case {
    let (ni, no) = (c.size(0, 3), c.size(0, 3));
    let k = c.wide(1, 4, 12);
    let zeros = c.coin(1, 4);
    let mut rin: Rows = (0..1 << ni).map(|_| ((0..k).map(|_| if zeros && c.coin(1, 3) { F::zero() } else { small(c, 7) }).collect(), f(c.range(0, 1)))).collect();
    let i = c.range(0, rin.len() - 1);
    rin[i].1 = F::one();
    let act: Rows = rin.iter().filter(|r| !r.1.is_zero()).cloned().collect();
    let mut rout: Rows = (0..1 << no)
        .map(|_| {
            let s = c.range(0, 3) > 0;
            let r = if s { c.pick(&act).0.clone() } else if c.coin(1, 2) { c.pick(&rin).0.clone() } else { (0..k).map(|_| small(c, 7)).collect() };
            (r, if s { F::one() } else { F::zero() })
        })
        .collect();
    if !t {
        let i = c.range(0, rout.len() - 1);
        let w = if c.coin(1, 4) { c.pick(&rin).0.clone() } else { wrong_row(c, &rin) };
        rout[i] = (w, F::one());
    }
    let (a, b) = (from_rows(c, &rin), from_rows(c, &rout));
    index_case(a, b)
}
pub fn index_case(a: TabIn, b: TabIn) -> Case {
    let (rin, rout) = (a.rows(), b.rows());
    let act: Rows = rin.iter().filter(|r| !r.1.is_zero()).cloned().collect();
    let ok = rout.iter().filter(|r| !r.1.is_zero()).all(|r| act.iter().any(|q| q.0 == r.0));
    let (ni, no) = (a.nv(), b.nv());
    let desc = format!("rows of {} in {}", b.show(), a.show());
    let (ai, bo) = (a.sel.vals(), b.sel.vals());
    let d = Rc::new((a, b));
    let e = d.clone();
    Case {
        name: "index_transform",
        params: max_nv(&[ni, no]),
        complete: ok,
        holds: always(ok, "a row does not come from the table"),
        prove: Rc::new(move |p| {
            let (a, b) = (d.0.p(p)?, d.1.p(p)?);
            inputs_done();
            IndexTransformIOP::<E, Pcs>::prove(p, &a, &b)?;
            Ok(vec![])
        }),
        verify: Rc::new(move |w| {
            let (a, b) = (e.0.v(w), e.1.v(w));
            IndexTransformIOP::<E, Pcs>::verify(w, &a, &b)?;
            Ok(vec![])
        }),
        advs: vec![],
        eqs: vec![
            eqn(vec![0], vec![1], 1, 0, bo),
            Equation { l: vec![0], r: vec![1], tweak: 0, which: 1, w: Rc::new(move |r| r.own(2).map(|m| m.iter().zip(&ai).map(|(m, s)| *m * s).collect())) },
        ],
        desc,
    }
}
fn g_final_join(c: &mut Ctx, t: bool) -> Case {
    let (na, nb) = (c.size(0, 3), c.size(0, 3));
    let (ka, kb) = (c.wide(1, 3, 8), c.wide(1, 3, 8));
    let (ja, jb) = (c.range(0, ka - 1), c.range(0, kb - 1));
    // primary keys are different among the activated rows
    let mut keys: Vec<F> = (0..(1 << na) + 3).map(f).collect();
    c.shuffle(&mut keys);
    let padded = c.coin(1, 2);
    let mut ra: Rows = (0..1 << na)
        .map(|i| {
            let s = c.range(0, 3) > 0 || i == 0;
            let mut r: Vec<F> = (0..ka).map(|_| small(c, 7)).collect();
            r[ja] = keys[i];
            if !s && padded {
                r = vec![F::zero(); ka];
            }
            (r, if s { F::one() } else { F::zero() })
        })
        .collect();
    c.shuffle(&mut ra);
    let act: Rows = ra.iter().filter(|r| !r.1.is_zero()).cloned().collect();
    let mut rb: Rows = (0..1 << nb)
        .map(|_| {
            let s = c.range(0, 3) > 0;
            let mut r: Vec<F> = (0..kb).map(|_| small(c, 7)).collect();
            if s || c.coin(1, 2) {
                r[jb] = c.pick(&act).0[ja];
            }
            (r, if s { F::one() } else { F::zero() })
        })
        .collect();
    let advice = !t || c.coin(1, 3);
    let orphan = !t && c.coin(1, 4);
    if orphan {
        let i = c.range(0, rb.len() - 1);
        rb[i].1 = F::one();
        rb[i].0[jb] = keys[1 << na]; // no such key
    }
    // the true transformed rows; anything in deactivated rows
    let mut tr: Vec<Vec<F>> = rb
        .iter()
        .map(|r| {
            if r.1.is_zero() {
                return (0..ka).map(|_| if c.coin(1, 2) { F::zero() } else { small(c, 7) }).collect();
            }
            act.iter().find(|q| q.0[ja] == r.0[jb]).map(|q| q.0.clone()).unwrap_or_else(|| c.pick(&act).0.clone())
        })
        .collect();
    if !t {
        let on: Vec<usize> = (0..rb.len()).filter(|i| !rb[*i].1.is_zero()).collect();
        if !on.is_empty() && !(orphan && c.coin(1, 2)) {
            let i = *c.pick(&on);
            let j = *c.pick(&on);
            match c.range(0, 3) {
                // rows exchanged: the differences of the keys cancel
                3 => tr.swap(i, j),
                0 => {
                    // another row of the table, right key or not
                    let q = c.pick(&act).0.clone();
                    tr[i] = q;
                },
                1 => {
                    let mut q = wrong_row(c, &act);
                    if c.coin(1, 2) {
                        q[ja] = rb[i].0[jb];
                    }
                    tr[i] = q;
                },
                _ => tr[i][ja] = rb[i].0[jb] + c.nz(),
            }
        } else if orphan {
            // an invented row with the missing key
            for i in on {
                if rb[i].0[jb] == keys[1 << na] {
                    tr[i][ja] = rb[i].0[jb];
                }
            }
        }
    }
    let good = {
        let (act, rb) = (act.clone(), rb.clone());
        move |o: &[Vec<F>]| -> Result<(), String> {
            // o: columns from the first table, columns of the second, selector
            if o.is_empty() {
                return Ok(());
            }
            if o.len() != ka + kb + 1 {
                return Err(format!("the result has {} columns instead of {}", o.len() - 1, ka + kb));
            }
            for (i, (r, s)) in rb.iter().enumerate() {
                if o[ka + kb][i] != *s {
                    return Err(format!("row {} of the result is selected wrongly", i));
                }
                if s.is_zero() {
                    continue;
                }
                if (0..kb).any(|j| o[ka + j][i] != r[j]) {
                    return Err(format!("row {} of the result does not contain the row of the second table", i));
                }
                let q: Vec<F> = (0..ka).map(|j| o[j][i]).collect();
                if q[ja] != r[jb] || !act.iter().any(|x| x.0 == q) {
                    return Err(format!("row {} of the result joins {} to {}", i, sv(&q), sv(r)));
                }
            }
            Ok(())
        }
    };
    let cols: Vec<Vec<F>> = (0..ka).map(|j| tr.iter().map(|r| r[j]).collect()).collect();
    let mut all = cols.clone();
    all.extend((0..kb).map(|j| rb.iter().map(|r| r.0[j]).collect()));
    all.push(rb.iter().map(|r| r.1).collect());
    let dup = ra.iter().filter(|r| !r.1.is_zero()).count() != act.iter().map(|r| r.0[ja]).collect::<BTreeSet<_>>().len();
    assert!(!dup);
    let ok = if advice { good(&all).is_ok() } else { !orphan };
    let (a, b) = (from_rows(c, &ra), from_rows(c, &rb));
    let adv_in: Option<Vec<In>> = if advice { Some(cols.iter().map(|x| wrap(c, x.clone())).collect()) } else { None };
    let desc = format!("{} join {} on {}={}{}", a.show(), b.show(), ja, jb, if advice { format!(" as {}", cols.iter().map(|x| sv(x)).collect::<Vec<_>>().join(",")) } else { String::new() });
    let d = Rc::new((a, b, adv_in));
    let e = d.clone();
    Case {
        name: "final_join",
        params: max_nv(&[na, nb]),
        complete: ok,
        holds: Rc::new(good),
        prove: Rc::new(move |p| {
            let (a, b) = (d.0.p(p)?, d.1.p(p)?);
            let t = match &d.2 {
                None => {
                    inputs_done();
                    FinalJoinOneToManyIOP::<E, Pcs>::prove(p, &a, &b, ja, jb)?
                },
                Some(x) => {
                    let mut v = vec![];
                    for i in x {
                        v.push(i.p(p)?);
                    }
                    inputs_done();
                    FinalJoinOneToManyIOP::<E, Pcs>::prove_with_advice(p, &a, &b, ja, jb, &v)?
                },
            };
            let mut o = t.col_vals.clone();
            o.push(t.selector.clone());
            Ok(o)
        }),
        verify: Rc::new(move |w| {
            let (a, b) = (e.0.v(w), e.1.v(w));
            let t = match &e.2 {
                None => FinalJoinOneToManyIOP::<E, Pcs>::verify(w, &a, &b, ja, jb)?,
                Some(x) => {
                    let v = x.iter().map(|i| i.v(w)).collect();
                    FinalJoinOneToManyIOP::<E, Pcs>::verify_with_advice(w, &a, &b, ja, jb, &v)?
                },
            };
            let n = t.num_vars();
            let mut o: Vec<(TComm, usize)> = t.col_vals.iter().map(|x| (x.clone(), n)).collect();
            o.push((t.selector.clone(), n));
            Ok(o)
        }),
        advs: vec![],
        eqs: vec![],
        desc,
    }
}
fn g_join_reduction(c: &mut Ctx, t: bool) -> Case {
    let (na, nb) = (c.size(0, 2), c.size(0, 2));
    let k = if c.coin(1, 2) { c.range(1, 2) } else { c.range(1, 5) };
    let bits = bits_for(c, k + 1);
    let pool = distinct(c, k, bits);
    let mut junk = pool.clone();
    junk.push(F::zero());
    let some = |c: &mut Ctx, nv: usize| -> BagIn {
        let act: Vec<F> = (0..c.range(0, 1 << nv)).map(|_| *c.pick(&pool)).collect();
        placed(c, nv, &act, &junk)
    };
    let (a, b) = (some(c, na), some(c, nb));
    let (sa, sb) = (set(&a.active()), set(&b.active()));
    let right = |c: &mut Ctx, x: &BagIn, other: &BTreeSet<F>| -> Vec<F> {
        // anything boolean in deactivated rows
        x.poly.vals().iter().zip(x.sel.vals()).map(|(v, s)| if s.is_zero() { f(c.range(0, 1)) } else if other.contains(v) { F::zero() } else { F::one() }).collect()
    };
    let (mut l, mut r) = (right(c, &a, &sb), right(c, &b, &sa));
    let fine = |x: &BagIn, s: &[F], other: &BTreeSet<F>| -> bool {
        s.iter().all(|y| y.is_zero() || y.is_one()) && x.poly.vals().iter().zip(x.sel.vals()).zip(s).all(|((v, a), y)| a.is_zero() || (y.is_one() == !other.contains(v)))
    };
    for _ in 0..4 {
        if t || !(fine(&a, &l, &sb) && fine(&b, &r, &sa)) {
            break;
        }
        let left = c.coin(1, 2);
        let (s, x) = if left { (&mut l, &a) } else { (&mut r, &b) };
        // mostly a row of a value that occurs on both sides, and again on its own
        let (own, other) = if left { (&a, &sb) } else { (&b, &sa) };
        let many = counts(&own.active());
        let rows: Vec<usize> = own.poly.vals().iter().zip(own.sel.vals()).enumerate().filter(|(_, (v, s))| !s.is_zero() && other.contains(v) && many[*v] > 1).map(|x| x.0).collect();
        let used: Vec<usize> = own.sel.vals().iter().enumerate().filter(|x| !x.1.is_zero()).map(|x| x.0).collect();
        let i = if !rows.is_empty() && c.coin(2, 3) {
            *c.pick(&rows)
        } else if !used.is_empty() && c.coin(4, 5) {
            *c.pick(&used)
        } else {
            c.range(0, s.len() - 1)
        };
        match c.range(0, 5) {
            0 | 5 => s[i] = F::one() - s[i],
            1 => s[i] = c.felt(),
            2 => s.iter_mut().for_each(|y| *y = F::one()),
            3 => s.iter_mut().for_each(|y| *y = F::zero()),
            _ => {
                // all rows of one value, possibly on both sides
                let v = x.poly.vals()[i];
                for (y, z) in s.iter_mut().zip(x.poly.vals()) {
                    if z == v {
                        *y = F::one() - *y;
                    }
                }
                if c.coin(1, 2) {
                    let (s, x) = if left { (&mut r, &b) } else { (&mut l, &a) };
                    for (y, z) in s.iter_mut().zip(x.poly.vals()) {
                        if z == v {
                            *y = F::one() - *y;
                        }
                    }
                }
            },
        }
    }
    let ok = fine(&a, &l, &sb) && fine(&b, &r, &sa);
    let r_in = range_bag(bits);
    let desc = format!("{} and {} split by {} and {} range 2^{}", a.show(), b.show(), sv(&l), sv(&r), bits);
    let sub = |x: &BagIn, s: &[F], flip: bool| -> Vec<F> {
        let s: Vec<F> = s.iter().map(|y| if flip { F::one() - y } else { *y }).collect();
        let w: Vec<F> = x.sel.vals().iter().zip(&s).map(|(a, b)| *a * b).collect();
        active(&x.poly.vals(), &w)
    };
    let mut advs = vec![];
    if !ok {
        let (lb, rb, ma, mb) = (sub(&a, &l, false), sub(&b, &r, false), sub(&a, &l, true), sub(&b, &r, true));
        let rg = r_in.poly.vals();
        advs.extend(disjoint_advs(0, &lb, &rb, na.max(nb) + 1, &rg).into_iter().take(3));
        advs.extend(disjoint_advs(17, &lb, &ma, na + 1, &rg).into_iter().take(3));
        advs.extend(disjoint_advs(34, &rb, &mb, nb + 1, &rg).into_iter().take(3));
        // all three at once
        let all: Swap = [(0, split_rows(&lb, &rb, na.max(nb) + 1, false)), (17, split_rows(&lb, &ma, na + 1, false)), (34, split_rows(&rb, &mb, nb + 1, false))]
            .into_iter()
            .flat_map(|(k, s)| s.unwrap_or_default().into_iter().map(move |(i, t)| (i + k, t)))
            .collect();
        advs.push(fixed("two rows for every shared value", all));
    }
    let nv = na.max(nb) + 1;
    let (li, ri) = (wrap(c, l), wrap(c, r));
    let d = Rc::new((a, b, li, ri, r_in));
    let e = d.clone();
    Case {
        name: "join_reduction",
        params: max_nv(&[nv, bits]),
        complete: ok,
        holds: always(ok, "the selectors do not separate matching from other rows"),
        prove: Rc::new(move |p| {
            let (a, b, l, r, g) = (d.0.p(p)?, d.1.p(p)?, d.2.p(p)?, d.3.p(p)?, d.4.p(p)?);
            inputs_done();
            JoinReductionIOP::<E, Pcs>::prove(p, &a, &b, &l, &r, &g)?;
            Ok(vec![])
        }),
        verify: Rc::new(move |w| {
            let (a, b, l, r, g) = (e.0.v(w), e.1.v(w), e.2.v(w), e.3.v(w), e.4.v(w));
            JoinReductionIOP::<E, Pcs>::verify(w, &a, &b, &l, &r, &g)?;
            Ok(vec![])
        }),
        advs,
        eqs: vec![],
        desc,
    }
}

// ---------------------------------------------------------------- C26
fn g_group_by(c: &mut Ctx, t: bool) -> Case {
    let nv = c.size(1, 3);
    let n = 1usize << nv;
    let k = c.wide(1, 3, 7);
    let gc = c.range(0, k - 1);
    let groups = if c.grow > 0 && c.coin(1, 2) { c.range(1, 3) } else { c.range(1, n) };
    let bits = bits_for(c, groups + 2);
    let pool = distinct(c, groups, bits);
    let rows: Rows = (0..n)
        .map(|_| {
            let mut r: Vec<F> = (0..k).map(|_| if c.coin(1, 6) { c.felt() } else { small(c, 9) }).collect();
            r[gc] = *c.pick(&pool);
            (r, f(if c.range(0, 3) > 0 { 1 } else { 0 }))
        })
        .collect();
    let on: Rows = rows.iter().filter(|r| !r.1.is_zero()).cloned().collect();
    let instr: Vec<(usize, AggregationType)> = (0..c.range(0, 3)).map(|_| (c.range(0, k - 1), if c.coin(1, 3) { AggregationType::Count } else { AggregationType::Sum })).collect();
    let true_count = |g: &F| -> F { f(on.iter().filter(|r| r.0[gc] == *g).count()) };
    let true_sum = |g: &F, j: usize| -> F { on.iter().filter(|r| r.0[gc] == *g).map(|r| r.0[j]).sum() };
    let mut gs: Vec<F> = on.iter().map(|r| r.0[gc]).collect::<BTreeSet<_>>().into_iter().collect();
    let kind = if t { 99 } else { c.range(0, 6) };
    let missing: Vec<F> = (0..1 << bits).map(f).filter(|x| !gs.contains(x)).collect();
    match kind {
        0 if !gs.is_empty() => {
            let i = c.range(0, gs.len() - 1);
            gs.remove(i);
        },
        1 if gs.len() < n => {
            gs.push(*c.pick(&missing));
            gs.sort();
        },
        2 if !gs.is_empty() && gs.len() < n => {
            let i = c.range(0, gs.len() - 1);
            gs.insert(i, gs[i]);
        },
        3 if gs.len() > 1 => gs.swap(0, 1),
        _ => {},
    }
    let (sv_, mut ss) = tail(nv, &gs);
    let pad = n - gs.len();
    let mut mult: Vec<F> = vec![F::zero(); pad];
    mult.extend(gs.iter().map(true_count));
    if kind == 2 {
        // the repeated group's rows split between its two rows
        for i in pad..n - 1 {
            if sv_[i] == sv_[i + 1] {
                let h = F::one();
                mult[i + 1] -= h;
                mult[i] = h;
            }
        }
    }
    if kind == 1 {
        for i in pad..n {
            if mult[i].is_zero() {
                mult[i] = F::one();
            }
        }
    }
    let mut aggs: Vec<Vec<F>> = instr
        .iter()
        .map(|(j, _)| {
            let mut v: Vec<F> = (0..pad).map(|_| if c.coin(1, 2) { F::zero() } else { c.felt() }).collect();
            v.extend(gs.iter().map(|g| true_sum(g, *j)));
            v
        })
        .collect();
    if pad < n {
        let i = c.range(pad, n - 1);
        match kind {
            4 => mult[i] += c.nz(),
            5 if !aggs.is_empty() => {
                let j = c.range(0, aggs.len() - 1);
                let d = c.nz();
                aggs[j][i] += d;
                if c.coin(1, 2) && i > pad {
                    aggs[j][i - 1] -= d;
                }
            },
            6 => {
                // a selector that is not 0 or 1, balanced by the multiplicity
                let x = f(2);
                ss[i] = x;
                mult[i] *= x.inverse().unwrap();
                for a in aggs.iter_mut() {
                    a[i] *= x.inverse().unwrap();
                }
            },
            _ => {},
        }
    }
    let want: BTreeSet<F> = on.iter().map(|r| r.0[gc]).collect();
    let good = {
        let (instr, want, on) = (instr.clone(), want, on.clone());
        move |o: &[Vec<F>]| -> Result<(), String> {
            if o.is_empty() {
                return Ok(());
            }
            let m = o.len() - 1;
            if m != 1 + instr.len() {
                return Err(format!("the result has {} columns for one grouping column and {} aggregates", m, instr.len()));
            }
            let sel = &o[m];
            if let Some(s) = sel.iter().find(|s| !s.is_zero() && !s.is_one()) {
                return Err(format!("a row is selected by {}", sf(s)));
            }
            let rows: Vec<usize> = (0..sel.len()).filter(|i| !sel[*i].is_zero()).collect();
            let got: Vec<F> = rows.iter().map(|i| o[0][*i]).collect();
            if got.len() != want.len() || set(&got) != want {
                return Err(format!("the groups are {} instead of {}", sv(&got), sv(&want.iter().copied().collect::<Vec<_>>())));
            }
            for i in rows {
                for (q, (j, a)) in instr.iter().enumerate() {
                    let g = o[0][i];
                    let x: F = match a {
                        AggregationType::Count => f(on.iter().filter(|r| r.0[gc] == g).count()),
                        _ => on.iter().filter(|r| r.0[gc] == g).map(|r| r.0[*j]).sum(),
                    };
                    if o[1 + q][i] != x {
                        return Err(format!("the {:?} of group {} is {} instead of {}", a, sf(&g), sf(&o[1 + q][i]), sf(&x)));
                    }
                }
            }
            Ok(())
        }
    };
    // what an honest prover must be accepted with
    let range: Vec<F> = (0..1 << bits).map(f).collect();
    let ok = {
        let w: Vec<F> = ss.iter().zip(&mult).map(|(s, m)| *s * m).collect();
        let g: Vec<F> = on.iter().map(|r| r.0[gc]).collect();
        ss.iter().all(|s| s.is_zero() || s.is_one())
            && weights(&sv_, &w) == weights(&g, &ones(g.len()))
            && (0..n).all(|i| ss[i].is_zero() || !mult[i].is_zero())
            && sorted_ok(&sv_, &ss, &range)
            && instr.iter().zip(&aggs).all(|((j, a), v)| {
                *a == AggregationType::Count || {
                    let w: Vec<F> = ss.iter().zip(v).map(|(s, m)| *s * m).collect();
                    let x: Vec<F> = on.iter().map(|r| r.0[*j]).collect();
                    weights(&sv_, &w) == weights(&g, &x)
                }
            })
    };
    let tab = from_rows(c, &rows);
    let desc = format!("{} group by {} aggregates {:?}: {}/{} x{} {}", tab.show(), gc, instr, sv(&sv_), sv(&ss), sv(&mult), aggs.iter().map(|x| sv(x)).collect::<Vec<_>>().join(","));
    let d = Rc::new((tab, wrap(c, sv_), wrap(c, ss), wrap(c, mult), aggs.into_iter().map(|x| wrap(c, x)).collect::<Vec<_>>(), range_bag(bits), instr));
    let e = d.clone();
    Case {
        name: "group_by",
        params: max_nv(&[nv, bits]),
        complete: ok,
        holds: Rc::new(good),
        prove: Rc::new(move |p| {
            let tab = d.0.p(p)?;
            let (s, l, m) = (d.1.p(p)?, d.2.p(p)?, d.3.p(p)?);
            let mut ins = vec![];
            for ((j, a), x) in d.6.iter().zip(&d.4) {
                ins.push((*j, *a, x.p(p)?));
            }
            let g = d.5.p(p)?;
            inputs_done();
            let i = GroupByInstructionWithProvingAdvice { grouping_cols: vec![gc], support_cols: vec![s], support_sel: l, support_multiplicity: m, agg_instr: ins };
            let t = GroupByIOP::<E, Pcs>::prove_with_advice(p, &tab, &i, &g)?;
            let mut o = t.col_vals.clone();
            o.push(t.selector.clone());
            Ok(o)
        }),
        verify: Rc::new(move |w| {
            let tab = e.0.v(w);
            let (s, l, m) = (e.1.v(w), e.2.v(w), e.3.v(w));
            let ins = e.6.iter().zip(&e.4).map(|((j, a), x)| (*j, *a, x.v(w))).collect();
            let g = e.5.v(w);
            let i = GroupByInstructionWithVerifyingAdvice { grouping_cols: vec![gc], support_cols: vec![s], support_sel: l, support_multiplicity: m, agg_instr: ins };
            let t = GroupByIOP::<E, Pcs>::verify_with_advice(w, &tab, &i, &g)?;
            let n = t.num_vars();
            let mut o: Vec<(TComm, usize)> = t.col_vals.iter().map(|x| (x.clone(), n)).collect();
            o.push((t.selector.clone(), n));
            Ok(o)
        }),
        advs: vec![],
        eqs: vec![],
        desc,
    }
}
