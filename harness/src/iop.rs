//! Runs one protocol the way an application does, with an honest or a
//! dishonest prover, and decides from the claims the verifier records whether
//! it accepts: its own checks pass, and every claim it leaves to the compiled
//! proof is true of the committed polynomials.
use crate::{ctx::*, ensure, p_pcs::*, p_tracker::*, refs::*, run::*, sim::*};
use ark_ff::{One, Zero};
use std::{
    cell::RefCell,
    collections::{BTreeMap, BTreeSet, HashMap},
    rc::Rc,
};
use zk_sql::tracker::{prelude::*, verif_hooks::set_substitution};

pub type PBag = Bag<E, Pcs>;
pub type VBag = BagComm<E, Pcs>;
pub type PTab = Table<E, Pcs>;
pub type VTab = TableComm<E, Pcs>;
pub type PErr = PolyIOPErrors;

// ------------------------------------------------------------- inputs
/// While on, equal committed inputs are one polynomial with one handle instead
/// of being committed again.
#[derive(Default)]
struct Aliases {
    p: Vec<(Vec<F>, TPoly)>,
    v: Vec<(Vec<F>, TComm)>,
}
thread_local! {
    static ALIAS: RefCell<Option<Aliases>> = RefCell::new(None);
}
fn alias<T>(f: impl FnOnce(&mut Aliases) -> Option<T>) -> Option<T> {
    ALIAS.with(|a| a.borrow_mut().as_mut().and_then(f))
}
pub struct Aliasing;
impl Aliasing {
    pub fn on(x: bool) -> Self {
        ALIAS.with(|a| *a.borrow_mut() = if x { Some(Aliases::default()) } else { None });
        Aliasing
    }
}
impl Drop for Aliasing {
    fn drop(&mut self) {
        ALIAS.with(|a| *a.borrow_mut() = None);
    }
}
/// forgets the handles of earlier trackers
fn new_trackers() {
    alias(|a| {
        *a = Aliases::default();
        Some(())
    });
}
/// how an input polynomial reaches the trackers
#[derive(Clone, Debug)]
pub enum In {
    Commit(Vec<F>),
    /// two committed polynomials, added
    Add(Vec<F>, Vec<F>),
    /// two committed polynomials, multiplied
    Mul(Vec<F>, Vec<F>),
    /// known to both sides
    Public(Vec<F>),
}
pub fn log2(n: usize) -> usize {
    n.trailing_zeros() as usize
}
pub fn mle(t: &[F]) -> Mle {
    Mle::from_evaluations_vec(log2(t.len()), t.to_vec())
}
impl In {
    pub fn vals(&self) -> Vec<F> {
        match self {
            In::Commit(a) | In::Public(a) => a.clone(),
            In::Add(a, b) => a.iter().zip(b).map(|(x, y)| *x + y).collect(),
            In::Mul(a, b) => a.iter().zip(b).map(|(x, y)| *x * y).collect(),
        }
    }
    pub fn nv(&self) -> usize {
        match self {
            In::Commit(a) | In::Public(a) | In::Add(a, _) | In::Mul(a, _) => log2(a.len()),
        }
    }
    pub fn p(&self, t: &mut PT) -> Result<TPoly, PErr> {
        Ok(match self {
            In::Commit(a) => match alias(|x| x.p.iter().find(|(y, _)| y == a).map(|(_, q)| q.clone())) {
                Some(q) => q,
                None => {
                    let q = t.track_and_commit_poly(mle(a))?;
                    alias(|x| {
                        x.p.push((a.clone(), q.clone()));
                        Some(())
                    });
                    q
                },
            },
            In::Public(a) => t.track_mat_poly(mle(a)),
            In::Add(a, b) => {
                let (x, y) = (t.track_and_commit_poly(mle(a))?, t.track_and_commit_poly(mle(b))?);
                x.add_poly(&y)
            },
            In::Mul(a, b) => {
                let (x, y) = (t.track_and_commit_poly(mle(a))?, t.track_and_commit_poly(mle(b))?);
                x.mul_poly(&y)
            },
        })
    }
    pub fn v(&self, t: &mut VT) -> TComm {
        match self {
            In::Commit(a) => match alias(|x| x.v.iter().find(|(y, _)| y == a).map(|(_, q)| q.clone())) {
                Some(q) => q,
                None => {
                    let q = take(t);
                    alias(|x| {
                        x.v.push((a.clone(), q.clone()));
                        Some(())
                    });
                    q
                },
            },
            In::Public(a) => {
                let a = a.clone();
                t.track_virtual_comm(Box::new(move |x: &[F]| Ok(mle_eval_any(&a, x))))
            },
            In::Add(..) => {
                let (x, y) = (take(t), take(t));
                x.add_comms(&y)
            },
            In::Mul(..) => {
                let (x, y) = (take(t), take(t));
                x.mul_comms(&y)
            },
        }
    }
}
pub fn take(t: &mut VT) -> TComm {
    let id = t.get_next_id();
    t.transfer_prover_comm(id)
}
/// an input polynomial with these values, in one of the possible forms
pub fn wrap(c: &mut Ctx, vals: Vec<F>) -> In {
    match c.range(0, 11) {
        0 => {
            let r = c.rand_table(log2(vals.len()));
            let d = vals.iter().zip(&r).map(|(x, y)| *x - y).collect();
            In::Add(r, d)
        },
        1 => {
            // x = x * y with y one wherever x is not zero
            let y = vals.iter().map(|x| if x.is_zero() && c.coin(1, 2) { F::zero() } else { F::one() }).collect();
            In::Mul(vals, y)
        },
        2 => In::Public(vals),
        _ => In::Commit(vals),
    }
}
#[derive(Clone, Debug)]
pub struct BagIn {
    pub poly: In,
    pub sel: In,
}
impl BagIn {
    pub fn plain(vals: Vec<F>, sel: Vec<F>) -> Self {
        BagIn { poly: In::Commit(vals), sel: In::Commit(sel) }
    }
    pub fn nv(&self) -> usize {
        self.poly.nv()
    }
    pub fn p(&self, t: &mut PT) -> Result<PBag, PErr> {
        let (a, b) = (self.poly.p(t)?, self.sel.p(t)?);
        Ok(Bag::new(a, b))
    }
    pub fn v(&self, t: &mut VT) -> VBag {
        let (a, b) = (self.poly.v(t), self.sel.v(t));
        BagComm::new(a, b, self.nv())
    }
    pub fn active(&self) -> Vec<F> {
        active(&self.poly.vals(), &self.sel.vals())
    }
    /// total selector weight of every value
    pub fn weights(&self) -> BTreeMap<F, F> {
        weights(&self.poly.vals(), &self.sel.vals())
    }
    pub fn show(&self) -> String {
        format!("{}/{}", sv(&self.poly.vals()), sv(&self.sel.vals()))
    }
}
#[derive(Clone, Debug)]
pub struct TabIn {
    pub cols: Vec<In>,
    pub sel: In,
}
impl TabIn {
    pub fn nv(&self) -> usize {
        self.sel.nv()
    }
    pub fn p(&self, t: &mut PT) -> Result<PTab, PErr> {
        let mut cols = vec![];
        for i in &self.cols {
            cols.push(i.p(t)?);
        }
        let s = self.sel.p(t)?;
        Ok(Table::new(cols, s))
    }
    pub fn v(&self, t: &mut VT) -> VTab {
        let cols = self.cols.iter().map(|i| i.v(t)).collect();
        let s = self.sel.v(t);
        TableComm::new(cols, s, self.nv())
    }
    pub fn rows(&self) -> Vec<(Vec<F>, F)> {
        let cols: Vec<Vec<F>> = self.cols.iter().map(|x| x.vals()).collect();
        let sel = self.sel.vals();
        (0..sel.len()).map(|i| (cols.iter().map(|x| x[i]).collect(), sel[i])).collect()
    }
    pub fn show(&self) -> String {
        format!("{}/{}", self.cols.iter().map(|x| sv(&x.vals())).collect::<Vec<_>>().join(","), sv(&self.sel.vals()))
    }
}
pub fn active(vals: &[F], sel: &[F]) -> Vec<F> {
    vals.iter().zip(sel).filter(|(_, s)| !s.is_zero()).map(|(v, _)| *v).collect()
}
pub fn weights(vals: &[F], w: &[F]) -> BTreeMap<F, F> {
    let mut m = BTreeMap::new();
    for (v, w) in vals.iter().zip(w) {
        *m.entry(*v).or_insert(F::zero()) += *w;
    }
    m.retain(|_, w| !w.is_zero());
    m
}
pub fn set(v: &[F]) -> BTreeSet<F> {
    v.iter().copied().collect()
}
pub fn f(x: usize) -> F {
    F::from(x as u64)
}
pub fn ones(n: usize) -> Vec<F> {
    vec![F::one(); n]
}
/// A bag with these activated values at random places and anything elsewhere.
pub fn place(c: &mut Ctx, nv: usize, act: &[F], junk: &[F]) -> (Vec<F>, Vec<F>) {
    let n = 1 << nv;
    assert!(act.len() <= n);
    let style = c.range(0, 2);
    let mut at: Vec<usize> = (0..n).collect();
    c.shuffle(&mut at);
    let mut vals: Vec<F> = (0..n).map(|_| if style == 0 || junk.is_empty() { F::zero() } else { *c.pick(junk) }).collect();
    let mut sel = vec![F::zero(); n];
    for (v, i) in act.iter().zip(at) {
        vals[i] = *v;
        sel[i] = F::one();
    }
    (vals, sel)
}
/// deactivated zeros first, then these values in order
pub fn tail(nv: usize, act: &[F]) -> (Vec<F>, Vec<F>) {
    let n = 1 << nv;
    assert!(act.len() <= n);
    let mut vals = vec![F::zero(); n - act.len()];
    let mut sel = vals.clone();
    vals.extend(act);
    sel.extend(ones(act.len()));
    (vals, sel)
}
/// the range 0..2^nv, fully activated
pub fn range_bag(nv: usize) -> BagIn {
    BagIn::plain((0..1 << nv).map(f).collect(), ones(1 << nv))
}

// ------------------------------------------------------------- one run
pub type Prove = Rc<dyn Fn(&mut PT) -> Result<Vec<TPoly>, PErr>>;
pub type Verify = Rc<dyn Fn(&mut VT) -> Result<Vec<(TComm, usize)>, PErr>>;
/// tables to commit instead of what the prover code wants to commit, by
/// position counted from the first commitment after the inputs
pub type Swap = Vec<(usize, Vec<F>)>;
#[derive(Clone)]
pub enum Sums {
    True,
    Zero,
    /// add these amounts to the sums, by position
    Shift(Vec<(usize, F)>),
}
pub struct Run {
    pub refused: Option<String>,
    /// what was committed, inputs included
    pub log: Vec<Vec<F>>,
    pub inputs: usize,
    /// label, number of variables, true sum
    pub sums: Vec<(TrackerID, usize, F)>,
    pub p: Option<PT>,
    pub v: Option<VT>,
    /// result columns as the verifier sees them
    pub outs: Vec<Vec<F>>,
    pub claims: usize,
    /// the sums the verifier was given are scaled to this many variables
    pub big: usize,
}
impl Run {
    pub fn accepted(&self) -> bool {
        self.refused.is_none()
    }
    /// tables committed after the inputs
    pub fn own(&self, k: usize) -> Option<&Vec<F>> {
        self.log.get(self.inputs + k)
    }
}
#[derive(Default)]
struct Rec {
    log: Vec<Vec<F>>,
    inputs: usize,
    swap: Swap,
    held: Swap,
    mark: Option<(usize, usize)>,
}
thread_local! {
    static REC: RefCell<Rec> = RefCell::new(Rec::default());
}
/// One of several protocols in a tracker begins; what is swapped are the
/// commitments of the dishonest one.
pub fn part_begins(dishonest: bool, sums: usize) {
    REC.with(|r| {
        let mut r = r.borrow_mut();
        r.inputs = usize::MAX;
        if dishonest {
            if r.mark.is_none() {
                r.mark = Some((usize::MAX, sums));
            }
            let h = std::mem::take(&mut r.held);
            r.swap.extend(h);
        } else {
            let h = std::mem::take(&mut r.swap);
            r.held.extend(h);
        }
    })
}
pub fn part_ends(dishonest: bool) {
    REC.with(|r| {
        let mut r = r.borrow_mut();
        if dishonest {
            let (i, n) = (r.inputs, r.log.len());
            if let Some(m) = r.mark.as_mut() {
                m.0 = i.min(n);
            }
        }
        r.inputs = usize::MAX;
    })
}
/// the commitments and sums of the dishonest part are counted from here
pub fn parts_done() -> usize {
    REC.with(|r| {
        let mut r = r.borrow_mut();
        let (i, s) = r.mark.unwrap_or((r.log.len(), 0));
        r.inputs = i;
        s
    })
}
/// to be called by a `Prove` once the inputs are committed
pub fn inputs_done() {
    REC.with(|r| {
        let mut r = r.borrow_mut();
        r.inputs = r.log.len();
    })
}
fn record(_nv: usize, t: &mut dyn std::any::Any) {
    let t = t.downcast_mut::<Vec<F>>().expect("evaluations over another field");
    REC.with(|r| {
        let mut r = r.borrow_mut();
        if r.inputs != usize::MAX {
            let k = r.log.len() - r.inputs;
            if let Some((_, x)) = r.swap.iter().find(|(i, x)| *i == k && x.len() == t.len()) {
                *t = x.clone();
            }
        }
        r.log.push(t.clone());
    })
}
/// the prover's part; Err is a refusal to prove
pub fn prove(params: usize, prove: &Prove, swap: Swap) -> (Result<(PT, Vec<TPoly>), String>, Vec<Vec<F>>, usize) {
    REC.with(|r| *r.borrow_mut() = Rec { log: vec![], inputs: usize::MAX, swap, ..Rec::default() });
    set_substitution(Some(Box::new(record)));
    new_trackers();
    let r = guard(|| {
        let mut p = PT::new_from_pcs_params(keys(params).0.clone());
        let o = prove(&mut p).map_err(|e| e.to_string())?;
        Ok::<_, String>((p, o))
    })
    .unwrap_or_else(|e| Err(format!("panic: {}", e)));
    set_substitution(None);
    let (log, inputs) = REC.with(|r| {
        let r = std::mem::take(&mut *r.borrow_mut());
        (r.log, r.inputs)
    });
    let inputs = if inputs == usize::MAX { log.len() } else { inputs };
    (r, log, inputs)
}
pub fn run(params: usize, pr: &Prove, ve: &Verify, swap: Swap, sums: &Sums) -> Run {
    let (r, log, inputs) = prove(params, pr, swap);
    let mut out = Run { refused: None, log, inputs, sums: vec![], p: None, v: None, outs: vec![], claims: 0, big: 0 };
    let (p, _) = match r {
        Ok(x) => x,
        Err(e) => {
            out.refused = Some(format!("the prover refuses: {}", e));
            return out;
        },
    };
    let t = p.clone_underlying_tracker();
    let big = t.materialized_polys.values().map(|m| m.num_vars).max().unwrap_or(0);
    out.big = big;
    for s in &t.sum_check_claims {
        let nv = t.get_poly_nv(s.label);
        out.sums.push((s.label, nv, t.evaluations(s.label).iter().sum()));
    }
    let mut given: Vec<F> = out.sums.iter().map(|(_, _, s)| *s).collect();
    match sums {
        Sums::True => {},
        Sums::Zero => given.iter_mut().for_each(|x| *x = F::zero()),
        Sums::Shift(d) => {
            for (i, d) in d {
                if let Some(x) = given.get_mut(*i) {
                    *x += d;
                }
            }
        },
    }
    let proof = CProof {
        comms: t.materialized_comms.clone(),
        sumcheck_claims: out.sums.iter().zip(&given).map(|((l, nv, _), s)| (*l, *s * two_pow(big - nv))).collect::<HashMap<_, _>>(),
        ..Default::default()
    };
    let mut v = VT::new_from_pcs_params(keys(params).1.clone());
    v.set_compiled_proof(proof);
    let r = guard(|| ve(&mut v).map_err(|e| e.to_string())).unwrap_or_else(|e| Err(format!("panic: {}", e)));
    out.p = Some(p);
    out.v = Some(v.clone());
    let outs = match r {
        Ok(x) => x,
        Err(e) => {
            out.refused = Some(format!("the verifier refuses: {}", e));
            return out;
        },
    };
    // the claims left to the compiled proof
    let r = guard(|| {
        let w = v.clone_underlying_tracker();
        if w.materialized_comms != t.materialized_comms || w.sum_check_claims.iter().any(|x| !w.proof.sumcheck_claims.contains_key(&x.label)) {
            return Err("the verifier uses a commitment or a sum the prover does not provide".to_string());
        }
        {
            let mut q = w.query_map.borrow_mut();
            for id in t.materialized_comms.keys() {
                let m = &t.materialized_polys[id];
                for (i, y) in m.evaluations.iter().enumerate() {
                    q.insert((*id, hyper(i, m.num_vars)), *y);
                }
            }
        }
        let table = |id: TrackerID, nv: usize| -> Result<Vec<F>, String> {
            (0..1usize << nv).map(|i| w.eval_virtual_comm(id, &hyper(i, nv)).map_err(|e| e.to_string())).collect()
        };
        for z in &w.zero_check_claims {
            let tab = table(z.label, t.get_poly_nv(z.label))?;
            if let Some(i) = tab.iter().position(|x| !x.is_zero()) {
                return Err(format!("zero claim {} is false at {}", z.label.0, i));
            }
        }
        for s in &w.sum_check_claims {
            let nv = t.get_poly_nv(s.label);
            let sum: F = table(s.label, nv)?.iter().sum();
            if sum * two_pow(big - nv) != s.claimed_sum {
                return Err(format!("sum claim {} is false", s.label.0));
            }
        }
        let n = w.zero_check_claims.len() + w.sum_check_claims.len();
        let mut o = vec![];
        for (q, nv) in &outs {
            o.push(table(q.id, *nv)?);
        }
        Ok((n, o))
    })
    .unwrap_or_else(|e| Err(format!("panic: {}", e)));
    match r {
        Ok((n, o)) => {
            out.claims = n;
            out.outs = o;
        },
        Err(e) => out.refused = Some(e),
    }
    out
}
/// the whole protocol through the compiled proof
pub fn end_to_end(params: usize, pr: &Prove, ve: &Verify) -> Result<CProof, String> {
    let (r, ..) = prove(params, pr, vec![]);
    let (mut p, _) = r.map_err(|e| format!("the prover refuses: {}", e))?;
    let proof = guard(|| p.compile_proof().map_err(|e| e.to_string())).unwrap_or_else(|e| Err(format!("panic: {}", e))).map_err(|e| format!("compiling fails: {}", e))?;
    check(params, ve, &proof).map_err(|(_, e)| e)?;
    Ok(proof)
}
/// Err((panicked, why))
pub fn check(params: usize, ve: &Verify, proof: &CProof) -> Result<(), (bool, String)> {
    new_trackers();
    guard(|| {
        let mut v = VT::new_from_pcs_params(keys(params).1.clone());
        v.set_compiled_proof(proof.clone());
        ve(&mut v).map_err(|e| format!("the verifier refuses: {}", e))?;
        v.verify_claims().map_err(|e| format!("verify_claims: {}", e))
    })
    .map_err(|e| (true, e))?
    .map_err(|e| (false, e))
}

// ------------------------------------------------------------- a case
pub type Stage = Box<dyn Fn(&Run) -> Swap>;
/// A dishonest prover: each stage sees the previous run and replaces more of
/// what is committed.
pub struct Adv {
    pub name: &'static str,
    pub stages: Vec<Stage>,
    pub sums: Sums,
}
pub fn adv(name: &'static str, stages: Vec<Stage>) -> Adv {
    Adv { name, stages, sums: Sums::True }
}
/// replaces fixed tables
pub fn fixed(name: &'static str, s: Swap) -> Adv {
    adv(name, vec![Box::new(move |_| s.clone())])
}
pub struct Case {
    pub name: &'static str,
    pub params: usize,
    /// the honest prover must be accepted / must be refused
    pub complete: bool,
    /// judges an acceptance from the result columns
    pub holds: Rc<dyn Fn(&[Vec<F>]) -> Result<(), String>>,
    pub prove: Prove,
    pub verify: Verify,
    pub advs: Vec<Adv>,
    /// (sums on the left, sums on the right, commitments holding their
    /// inverses, weights of each) of a multiset equation
    pub eqs: Vec<Equation>,
    pub desc: String,
}
/// Σ sums[l] = Σ sums[r]; `tweak`: a committed table (position after the
/// inputs) with the weights by which its entries enter sum `which`
#[derive(Clone)]
pub struct Equation {
    pub l: Vec<usize>,
    pub r: Vec<usize>,
    pub tweak: usize,
    pub which: usize,
    pub w: Rc<dyn Fn(&Run) -> Option<Vec<F>>>,
}
pub fn eqn(l: Vec<usize>, r: Vec<usize>, tweak: usize, which: usize, w: Vec<F>) -> Equation {
    Equation { l, r, tweak, which, w: Rc::new(move |_| Some(w.clone())) }
}
impl Equation {
    /// how much the left side is short
    fn gap(&self, r: &Run) -> Option<F> {
        let s = |v: &[usize]| -> Option<F> { v.iter().map(|i| r.sums.get(*i).map(|x| x.2)).sum() };
        Some(s(&self.r)? - s(&self.l)?)
    }
    fn swap(&self, r: &Run) -> Option<Swap> {
        let mut gap = self.gap(r)?;
        if !self.l.contains(&self.which) {
            gap = -gap;
        }
        let mut t = r.own(self.tweak)?.clone();
        let w = (self.w)(r)?;
        if t.len() != w.len() {
            return None;
        }
        let i = w.iter().position(|x| !x.is_zero())?;
        use ark_ff::Field;
        t[i] += gap * w[i].inverse().unwrap();
        Some(vec![(self.tweak, t)])
    }
    /// the swaps and the claimed sum that make it fit; sums begin at `off`
    pub fn swaps(&self, r: &Run) -> Vec<Swap> {
        self.swap(r).into_iter().chain(self.cancelling(r)).collect()
    }
    pub fn shifted(&self, r: &Run, off: usize) -> Option<Sums> {
        let g = self.gap(r)?;
        Some(Sums::Shift(vec![(self.which + off, if self.l.contains(&self.which) { g } else { -g })]))
    }
    /// the same with two inverses changed, so that the errors of the inverses
    /// cancel over the rows
    fn cancelling(&self, r: &Run) -> Option<Swap> {
        use ark_ff::Field;
        let mut gap = self.gap(r)?;
        if !self.l.contains(&self.which) {
            gap = -gap;
        }
        let mut t = r.own(self.tweak)?.clone();
        let w = (self.w)(r)?;
        if t.len() != w.len() {
            return None;
        }
        // the honest inverses tell what they are inverses of
        let d: Vec<F> = t.iter().map(|x| x.inverse().unwrap_or(F::zero())).collect();
        let i = w.iter().position(|x| !x.is_zero())?;
        let (j, det) = (0..w.len()).map(|j| (j, w[i] * d[j] - w[j] * d[i])).find(|(_, x)| !x.is_zero())?;
        let k = gap * det.inverse().unwrap();
        t[i] += k * d[j];
        t[j] -= k * d[i];
        Some(vec![(self.tweak, t)])
    }
}
pub fn always(t: bool, why: &str) -> Rc<dyn Fn(&[Vec<F>]) -> Result<(), String>> {
    let why = why.to_string();
    Rc::new(move |_| if t { Ok(()) } else { Err(why.clone()) })
}
/// random change of a committed table
fn damage(c: &mut Ctx, t: &[F]) -> Vec<F> {
    let mut u = t.to_vec();
    let n = u.len();
    let i = c.range(0, n - 1);
    match c.range(0, 6) {
        0 => u[i] += c.nz(),
        1 => u[i] = F::zero(),
        2 => u[i] = F::one(),
        3 => u.iter_mut().for_each(|x| *x = F::zero()),
        4 => {
            let j = c.range(0, n - 1);
            u.swap(i, j);
        },
        5 => u.rotate_left(1 % n),
        _ => u = ones(n),
    }
    u
}
/// Decides one case: the honest run, the dishonest ones, and (sometimes) the
/// compiled proof.
pub fn judge(c: &mut Ctx, k: &Case) -> Res {
    let one = c.coin(1, 4);
    let _aliasing = Aliasing::on(one);
    c.describe(format!("{} {}{}", k.name, k.desc, if one { " (equal inputs are one)" } else { "" }));
    c.nontrivial();
    let sig = |s: &str| format!("{}_{}", k.name, s);
    let h = run(k.params, &k.prove, &k.verify, vec![], &Sums::True);
    if k.complete {
        ensure!(h.accepted(), &sig("refused"), "a true statement with honest supporting data is refused: {}", h.refused.clone().unwrap_or_default());
        c.count("true statements accepted", 1);
        c.count("claims found true", h.claims as u64);
    }
    if h.accepted() {
        if let Err(e) = (k.holds)(&h.outs) {
            return viol(&sig("accepted"), format!("accepted although {}", e));
        }
    }
    // dishonest provers
    let mut tried = 0u64;
    let mut dishonest = |name: &str, r: &Run| -> Res {
        tried += 1;
        if r.accepted() {
            if let Err(e) = (k.holds)(&r.outs) {
                return viol(&sig("accepted"), format!("accepted with dishonest supporting data ({}) although {}", name, e));
            }
        }
        Ok(())
    };
    let soundness = !k.complete || (k.holds)(&[]).is_err() || !h.outs.is_empty();
    if soundness {
        if !h.sums.is_empty() {
            dishonest("all sums zero", &run(k.params, &k.prove, &k.verify, vec![], &Sums::Zero))?;
        }
        for e in &k.eqs {
            // the claimed sum, or the table of inverses, made to fit
            if let Some(g) = e.gap(&h) {
                let g = if e.l.contains(&e.which) { g } else { -g };
                dishonest("a sum that fits the equation", &run(k.params, &k.prove, &k.verify, vec![], &Sums::Shift(vec![(e.which, g)])))?;
            }
            if let Some(s) = e.swap(&h) {
                dishonest("inverses that fit the equation", &run(k.params, &k.prove, &k.verify, s, &Sums::True))?;
            }
            if let Some(s) = e.cancelling(&h) {
                dishonest("inverses that fit the equation, their errors cancelling", &run(k.params, &k.prove, &k.verify, s, &Sums::True))?;
            }
        }
        for a in &k.advs {
            let mut swap: Swap = vec![];
            let mut last = None;
            for (i, s) in a.stages.iter().enumerate() {
                let more = s(last.as_ref().unwrap_or(&h));
                swap.extend(more);
                let sums = if i + 1 == a.stages.len() { a.sums.clone() } else { Sums::True };
                last = Some(run(k.params, &k.prove, &k.verify, swap.clone(), &sums));
            }
            if let Some(l) = &last {
                dishonest(a.name, l)?;
            }
        }
        let own = h.log.len() - h.inputs;
        if own > 0 {
            for _ in 0..if c.thorough { 4 } else { 1 } {
                let at = c.range(0, own - 1);
                let t = damage(c, h.own(at).unwrap());
                dishonest("a changed commitment", &run(k.params, &k.prove, &k.verify, vec![(at, t)], &Sums::True))?;
            }
        }
    }
    c.count("dishonest provers judged", tried);
    if !k.complete {
        c.count("false statements judged", 1);
    }
    if c.coin(1, if c.thorough { 2 } else { 6 }) && h.p.is_some() && !h.p.as_ref().unwrap().clone_underlying_tracker().materialized_comms.is_empty() {
        let r = end_to_end(k.params, &k.prove, &k.verify);
        if k.complete {
            ensure!(r.is_ok(), &sig("refused_compiled"), "the compiled proof of a true statement is refused: {}", r.err().unwrap());
            c.count("compiled proofs accepted", 1);
        } else if !h.accepted() {
            ensure!(r.is_err(), &sig("accepted_compiled"), "the honest prover's compiled proof of a false statement is accepted");
            c.count("compiled proofs of false statements refused", 1);
        }
    }
    Ok(())
}
/// C14: both sides agree on everything they create
pub fn judge_lockstep(c: &mut Ctx, k: &Case) -> Res {
    let _aliasing = Aliasing::on(c.coin(1, 4));
    c.describe(format!("{} {}", k.name, k.desc));
    let h = run(k.params, &k.prove, &k.verify, vec![], &Sums::True);
    let (p, v) = match (&h.p, &h.v) {
        (Some(p), Some(v)) => (p, v),
        _ => return Ok(()),
    };
    if matches!(&h.refused, Some(e) if e.starts_with("the verifier refuses")) {
        return Ok(());
    }
    c.nontrivial();
    // the verifier was given the sums over the largest hypercube
    let t = p.clone_underlying_tracker();
    let mut q = p.clone_underlying_tracker();
    for (s, (_, nv, sum)) in q.sum_check_claims.iter_mut().zip(&h.sums) {
        ensure!(s.claimed_sum == *sum, &format!("{}_claimed_sum", k.name), "the prover claims {} for a polynomial summing to {}", sf(&s.claimed_sum), sf(sum));
        s.claimed_sum *= two_pow(h.big - nv);
    }
    lockstep(c, &PT::new_from_tracker(q), v).map_err(|e| Viol { sig: format!("{}_{}", k.name, e.sig), msg: e.msg })?;
    // the polynomials behind the claims are the same
    let w = v.clone_underlying_tracker();
    let at = c.rand_point(h.big);
    {
        let mut m = w.query_map.borrow_mut();
        for id in t.materialized_comms.keys() {
            let poly = &t.materialized_polys[id];
            let k = poly.num_vars;
            for s in 0..=h.big - k {
                m.insert((*id, at[s..s + k].to_vec()), mle_eval(&poly.evaluations, &at[s..s + k]));
            }
        }
    }
    let labels: Vec<TrackerID> = w.zero_check_claims.iter().map(|x| x.label).chain(w.sum_check_claims.iter().map(|x| x.label)).collect();
    for l in labels {
        let x = &at[..t.get_poly_nv(l)];
        let (a, b) = (t.evaluate(l, x), w.eval_virtual_comm(l, x).map_err(|e| Viol { sig: format!("{}_eval", k.name), msg: e.to_string() })?);
        ensure!(a == Some(b), &format!("{}_claim_value", k.name), "the polynomial of claim {} has value {:?} for the prover and {} for the verifier", l.0, a.map(|x| sf(&x)), sf(&b));
        c.count("claim polynomials compared at a random point", 1);
    }
    Ok(())
}
