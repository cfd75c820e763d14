//! A random program run at once on a prover tracker, on a verifier tracker and
//! on a reference: expressions over the leaf tables.
use crate::{ctx::*, p_pcs::*, refs::*};
use std::rc::Rc;
use std::sync::Arc;
use zk_sql::{
    subroutines::pcs::PolynomialCommitmentScheme,
    tracker::{prelude::*, verif_hooks::*},
};

pub type PT = ProverTrackerRef<E, Pcs>;
pub type VT = VerifierTrackerRef<E, Pcs>;
pub type TPoly = TrackedPoly<E, Pcs>;
pub type TComm = TrackedComm<E, Pcs>;
pub type CProof = CompiledZKSQLProof<E, Pcs>;

#[derive(Clone, Debug)]
pub enum N {
    /// leaf number, number of variables, values
    Leaf(usize, usize, Arc<Vec<F>>),
    Add(Ex, Ex),
    Sub(Ex, Ex),
    Mul(Ex, Ex),
    Scale(Ex, F),
    Shift(Ex, F),
    /// new variables before / after the old ones
    Front(Ex, usize),
    Back(Ex, usize),
}
pub type Ex = Rc<N>;

pub fn nv(e: &N) -> usize {
    match e {
        N::Leaf(_, n, _) => *n,
        N::Add(a, _) | N::Sub(a, _) | N::Mul(a, _) | N::Scale(a, _) | N::Shift(a, _) => nv(a),
        N::Front(a, k) | N::Back(a, k) => nv(a) + k,
    }
}
/// value of the denoted polynomial at any point
pub fn val(e: &N, x: &[F]) -> F {
    match e {
        N::Leaf(_, _, t) => mle_eval(t, x),
        N::Add(a, b) => val(a, x) + val(b, x),
        N::Sub(a, b) => val(a, x) - val(b, x),
        N::Mul(a, b) => val(a, x) * val(b, x),
        N::Scale(a, c) => val(a, x) * c,
        N::Shift(a, c) => val(a, x) + c,
        N::Front(a, k) => val(a, &x[*k..]),
        N::Back(a, k) => val(a, &x[..x.len() - k]),
    }
}
/// values on the hypercube, by index arithmetic
pub fn tab(e: &N) -> Vec<F> {
    match e {
        N::Leaf(_, _, t) => t.to_vec(),
        N::Add(a, b) => tab(a).iter().zip(tab(b)).map(|(x, y)| *x + y).collect(),
        N::Sub(a, b) => tab(a).iter().zip(tab(b)).map(|(x, y)| *x - y).collect(),
        N::Mul(a, b) => tab(a).iter().zip(tab(b)).map(|(x, y)| *x * y).collect(),
        N::Scale(a, c) => tab(a).iter().map(|x| *x * c).collect(),
        N::Shift(a, c) => tab(a).iter().map(|x| *x + c).collect(),
        N::Front(a, k) => {
            let t = tab(a);
            (0..t.len() << k).map(|i| t[i >> k]).collect()
        },
        N::Back(a, k) => {
            let t = tab(a);
            (0..t.len() << k).map(|i| t[i % t.len()]).collect()
        },
    }
}
/// the leaf values the expression needs at x: (leaf, point, value)
pub fn needs(e: &N, x: &[F], out: &mut Vec<(usize, Vec<F>, F)>) {
    match e {
        N::Leaf(i, _, t) => out.push((*i, x.to_vec(), mle_eval(t, x))),
        N::Add(a, b) | N::Sub(a, b) | N::Mul(a, b) => {
            needs(a, x, out);
            needs(b, x, out);
        },
        N::Scale(a, _) | N::Shift(a, _) => needs(a, x, out),
        N::Front(a, k) => needs(a, &x[*k..], out),
        N::Back(a, k) => needs(a, &x[..x.len() - k], out),
    }
}
/// number of products and their largest degree once multiplied out
pub fn size(e: &N) -> (usize, usize) {
    match e {
        N::Leaf(..) => (1, 1),
        N::Add(a, b) | N::Sub(a, b) => {
            let (x, y) = (size(a), size(b));
            (x.0 + y.0, x.1.max(y.1))
        },
        N::Mul(a, b) => {
            let (x, y) = (size(a), size(b));
            (x.0 * y.0, x.1 + y.1)
        },
        N::Shift(a, _) => {
            let x = size(a);
            (x.0 + 1, x.1.max(1))
        },
        N::Scale(a, _) | N::Front(a, _) | N::Back(a, _) => size(a),
    }
}

#[derive(Clone)]
pub struct Obj {
    pub p: TPoly,
    pub v: TComm,
    pub e: Ex,
}
pub struct Sim {
    pub n: usize,
    pub p: PT,
    pub v: VT,
    pub objs: Vec<Obj>,
    /// leaf number -> identifier of the commitment, None when not committed
    pub leaves: Vec<Option<TrackerID>>,
    pub log: Vec<String>,
    /// verifier learns commitments from this proof instead of from the prover
    pub from_proof: bool,
}
/// what a program does, so that it can be replayed
#[derive(Clone, Debug)]
pub enum Op {
    Commit(usize, Arc<Vec<F>>),
    Public(usize, Arc<Vec<F>>),
    Add(usize, usize),
    Sub(usize, usize),
    Mul(usize, usize),
    Scale(usize, F),
    Shift(usize, F),
    Front(usize, usize),
    Back(usize, usize),
    Challenge,
    Absorb(F),
    /// claims: zero everywhere on the hypercube; sum over the hypercube
    Zero(usize),
    Sum(usize, F),
}

impl Sim {
    pub fn new(n: usize) -> Self {
        let (ck, vk) = keys(n);
        Sim { n, p: PT::new_from_pcs_params(ck.clone()), v: VT::new_from_pcs_params(vk.clone()), objs: vec![], leaves: vec![], log: vec![], from_proof: false }
    }
    pub fn run(&mut self, op: &Op) -> Result<(), Viol> {
        let bad = |e: String| Viol { sig: "op_error".into(), msg: e };
        let o = |i: usize| &self.objs[i];
        let new = match op {
            Op::Commit(nv, t) => {
                let m = Mle::from_evaluations_vec(*nv, t.to_vec());
                let cm = Pcs::commit(&keys(self.n).0, &m).map_err(|e| bad(e.to_string()))?;
                let p = self.p.track_and_commit_poly(m).map_err(|e| bad(e.to_string()))?;
                let v = if self.from_proof { self.v.transfer_prover_comm(p.id) } else { self.v.track_mat_comm(cm).map_err(|e| bad(e.to_string()))? };
                self.leaves.push(Some(v.id));
                Some(Obj { p, v, e: Rc::new(N::Leaf(self.leaves.len() - 1, *nv, t.clone())) })
            },
            Op::Public(nv, t) => {
                let p = self.p.track_mat_poly(Mle::from_evaluations_vec(*nv, t.to_vec()));
                let t2 = t.clone();
                let v = self.v.track_virtual_comm(Box::new(move |x: &[F]| Ok(mle_eval_any(&t2, x))));
                self.leaves.push(None);
                Some(Obj { p, v, e: Rc::new(N::Leaf(self.leaves.len() - 1, *nv, t.clone())) })
            },
            Op::Add(i, j) => Some(Obj { p: o(*i).p.add_poly(&o(*j).p), v: o(*i).v.add_comms(&o(*j).v), e: Rc::new(N::Add(o(*i).e.clone(), o(*j).e.clone())) }),
            Op::Sub(i, j) => Some(Obj { p: o(*i).p.sub_poly(&o(*j).p), v: o(*i).v.sub_comms(&o(*j).v), e: Rc::new(N::Sub(o(*i).e.clone(), o(*j).e.clone())) }),
            Op::Mul(i, j) => Some(Obj { p: o(*i).p.mul_poly(&o(*j).p), v: o(*i).v.mul_comms(&o(*j).v), e: Rc::new(N::Mul(o(*i).e.clone(), o(*j).e.clone())) }),
            Op::Scale(i, c) => Some(Obj { p: o(*i).p.mul_scalar(*c), v: o(*i).v.mul_scalar(*c), e: Rc::new(N::Scale(o(*i).e.clone(), *c)) }),
            Op::Shift(i, c) => Some(Obj { p: o(*i).p.add_scalar(*c), v: o(*i).v.add_scalar(*c), e: Rc::new(N::Shift(o(*i).e.clone(), *c)) }),
            Op::Front(i, k) => Some(Obj { p: o(*i).p.increase_nv_front(*k), v: o(*i).v.increase_nv_front(*k), e: Rc::new(N::Front(o(*i).e.clone(), *k)) }),
            Op::Back(i, k) => Some(Obj { p: o(*i).p.increase_nv_back(*k), v: o(*i).v.increase_nv_back(*k), e: Rc::new(N::Back(o(*i).e.clone(), *k)) }),
            Op::Challenge => {
                let a = self.p.get_and_append_challenge(b"probe").map_err(|e| bad(e.to_string()))?;
                let b = self.v.get_and_append_challenge(b"probe").map_err(|e| bad(e.to_string()))?;
                if a != b {
                    return viol("challenge", "prover and verifier draw different challenges");
                }
                None
            },
            Op::Absorb(x) => {
                self.p.append_serializable_element(b"probe", x).map_err(|e| bad(e.to_string()))?;
                self.v.append_serializable_element(b"probe", x).map_err(|e| bad(e.to_string()))?;
                None
            },
            Op::Zero(i) => {
                self.p.add_zerocheck_claim(self.objs[*i].p.id);
                self.v.add_zerocheck_claim(self.objs[*i].v.id);
                None
            },
            Op::Sum(i, s) => {
                self.p.add_sumcheck_claim(self.objs[*i].p.id, *s);
                self.v.add_sumcheck_claim(self.objs[*i].v.id, *s);
                None
            },
        };
        self.log.push(show(op));
        if let Some(o) = new {
            self.objs.push(o);
        }
        Ok(())
    }
    /// hands the verifier the committed values the expression needs at x
    pub fn feed(&mut self, e: &N, x: &[F]) {
        let mut need = vec![];
        needs(e, x, &mut need);
        let mut q = CProof::default();
        for (i, pt, y) in need {
            if let Some(id) = self.leaves[i] {
                q.query_map.insert((id, pt), y);
            }
        }
        let kept = self.v.clone_underlying_tracker().proof;
        self.v.set_compiled_proof(q);
        self.v.transfer_proof_poly_evals();
        self.v.set_compiled_proof(kept);
    }
    pub fn desc(&self) -> String {
        self.log.join(" ")
    }
}
/// public polynomials are looked at with the point the tracker hands over,
/// which has leading extra coordinates when sizes are mixed
pub fn mle_eval_any(t: &[F], x: &[F]) -> F {
    let n = t.len().trailing_zeros() as usize;
    mle_eval(t, &x[x.len() - n..])
}
pub fn show(op: &Op) -> String {
    match op {
        Op::Commit(_, t) => format!("commit{}", sv(t)),
        Op::Public(_, t) => format!("public{}", sv(t)),
        Op::Add(i, j) => format!("{}+{}", i, j),
        Op::Sub(i, j) => format!("{}-{}", i, j),
        Op::Mul(i, j) => format!("{}*{}", i, j),
        Op::Scale(i, c) => format!("{}*({})", i, sf(c)),
        Op::Shift(i, c) => format!("{}+({})", i, sf(c)),
        Op::Front(i, k) => format!("front({},{})", i, k),
        Op::Back(i, k) => format!("back({},{})", i, k),
        Op::Challenge => "challenge".into(),
        Op::Absorb(x) => format!("absorb({})", sf(x)),
        Op::Zero(i) => format!("zero?{}", i),
        Op::Sum(i, s) => format!("sum?{}={}", i, sf(s)),
    }
}
/// knobs of the program generator
#[derive(Clone, Copy)]
pub struct Gen {
    pub n: usize,
    pub leaves: usize,
    pub ops: usize,
    pub mixed: bool,
    pub ext: bool,
    pub public: bool,
    pub transcript: bool,
    pub max_terms: usize,
    pub max_deg: usize,
}
/// one more random operation, given the objects there are
pub fn next_op(c: &mut Ctx, g: &Gen, objs: &[Ex]) -> Op {
    loop {
        let k = c.range(0, 13);
        let i = c.range(0, objs.len() - 1);
        let same: Vec<usize> = (0..objs.len()).filter(|j| nv(&objs[*j]) == nv(&objs[i])).collect();
        let j = if c.coin(1, 8) { i } else { *c.pick(&same) };
        let (si, sj) = (size(&objs[i]), size(&objs[j]));
        let room = g.n - nv(&objs[i]);
        return match k {
            0 if g.public => {
                let n = nv(&objs[i]);
                Op::Public(n, Arc::new(c.table(n)))
            },
            1 => {
                let n = if g.mixed { c.range(1, g.n) } else { g.n };
                Op::Commit(n, Arc::new(c.table(n)))
            },
            2 | 3 if si.0 + sj.0 <= g.max_terms => Op::Add(i, j),
            4 | 5 if si.0 + sj.0 <= g.max_terms => Op::Sub(i, j),
            6..=8 if si.0 * sj.0 <= g.max_terms && si.1 + sj.1 <= g.max_deg => Op::Mul(i, j),
            9 => Op::Scale(i, c.felt()),
            10 if si.0 + 1 <= g.max_terms => Op::Shift(i, c.felt()),
            11 | 12 if g.ext => {
                let k = c.range(0, room);
                if c.coin(1, 2) {
                    Op::Front(i, k)
                } else {
                    Op::Back(i, k)
                }
            },
            13 if g.transcript => {
                if c.coin(1, 2) {
                    Op::Challenge
                } else {
                    Op::Absorb(c.felt())
                }
            },
            _ => continue,
        };
    }
}
/// the expression an operation creates
pub fn step(objs: &mut Vec<Ex>, leaves: &mut usize, op: &Op) {
    let o = |i: usize| objs[i].clone();
    let e = match op {
        Op::Commit(n, t) | Op::Public(n, t) => {
            *leaves += 1;
            N::Leaf(*leaves - 1, *n, t.clone())
        },
        Op::Add(i, j) => N::Add(o(*i), o(*j)),
        Op::Sub(i, j) => N::Sub(o(*i), o(*j)),
        Op::Mul(i, j) => N::Mul(o(*i), o(*j)),
        Op::Scale(i, x) => N::Scale(o(*i), *x),
        Op::Shift(i, x) => N::Shift(o(*i), *x),
        Op::Front(i, k) => N::Front(o(*i), *k),
        Op::Back(i, k) => N::Back(o(*i), *k),
        Op::Challenge | Op::Absorb(_) | Op::Zero(_) | Op::Sum(..) => return,
    };
    objs.push(Rc::new(e));
}
pub fn program(c: &mut Ctx, g: &Gen) -> (Vec<Op>, Vec<Ex>) {
    let (mut ops, mut objs, mut leaves) = (vec![], vec![], 0);
    for i in 0..g.leaves {
        let n = if g.mixed && i > 0 { c.range(1, g.n) } else { g.n };
        let op = Op::Commit(n, Arc::new(c.table(n)));
        step(&mut objs, &mut leaves, &op);
        ops.push(op);
    }
    for _ in 0..g.ops {
        let op = next_op(c, g, &objs);
        step(&mut objs, &mut leaves, &op);
        ops.push(op);
    }
    (ops, objs)
}

/// the verifier's half of a program; sums come from the proof unless `own`
/// says that the verifier knows them
pub fn verifier_side(v: &mut VT, ops: &[Op], own: Option<&dyn Fn(usize, F) -> F>, comms: Option<&[Comm]>) -> Result<Vec<TComm>, String> {
    let mut o: Vec<TComm> = vec![];
    let mut committed = 0;
    for op in ops {
        let new = match op {
            Op::Commit(..) => {
                let e = match comms {
                    None => {
                        let id = v.get_next_id();
                        v.transfer_prover_comm(id)
                    },
                    Some(c) => v.track_mat_comm(c[committed]).map_err(|e| e.to_string())?,
                };
                committed += 1;
                e
            },
            Op::Public(_, t) => {
                let t = t.clone();
                v.track_virtual_comm(Box::new(move |x: &[F]| Ok(mle_eval_any(&t, x))))
            },
            Op::Add(i, j) => o[*i].add_comms(&o[*j]),
            Op::Sub(i, j) => o[*i].sub_comms(&o[*j]),
            Op::Mul(i, j) => o[*i].mul_comms(&o[*j]),
            Op::Scale(i, c) => o[*i].mul_scalar(*c),
            Op::Shift(i, c) => o[*i].add_scalar(*c),
            Op::Front(i, k) => o[*i].increase_nv_front(*k),
            Op::Back(i, k) => o[*i].increase_nv_back(*k),
            Op::Challenge => {
                v.get_and_append_challenge(b"probe").map_err(|e| e.to_string())?;
                continue;
            },
            Op::Absorb(x) => {
                v.append_serializable_element(b"probe", x).map_err(|e| e.to_string())?;
                continue;
            },
            Op::Zero(i) => {
                v.add_zerocheck_claim(o[*i].id);
                continue;
            },
            Op::Sum(i, s) => {
                let s = match own {
                    Some(f) => f(*i, *s),
                    None => v.get_prover_claimed_sum(o[*i].id),
                };
                v.add_sumcheck_claim(o[*i].id, s);
                continue;
            },
        };
        o.push(new);
    }
    Ok(o)
}
/// the prover's half
pub fn prover_side(p: &mut PT, ops: &[Op]) -> Result<Vec<TPoly>, String> {
    let mut o: Vec<TPoly> = vec![];
    for op in ops {
        let new = match op {
            Op::Commit(n, t) => p.track_and_commit_poly(Mle::from_evaluations_vec(*n, t.to_vec())).map_err(|e| e.to_string())?,
            Op::Public(n, t) => p.track_mat_poly(Mle::from_evaluations_vec(*n, t.to_vec())),
            Op::Add(i, j) => o[*i].add_poly(&o[*j]),
            Op::Sub(i, j) => o[*i].sub_poly(&o[*j]),
            Op::Mul(i, j) => o[*i].mul_poly(&o[*j]),
            Op::Scale(i, c) => o[*i].mul_scalar(*c),
            Op::Shift(i, c) => o[*i].add_scalar(*c),
            Op::Front(i, k) => o[*i].increase_nv_front(*k),
            Op::Back(i, k) => o[*i].increase_nv_back(*k),
            Op::Challenge => {
                p.get_and_append_challenge(b"probe").map_err(|e| e.to_string())?;
                continue;
            },
            Op::Absorb(x) => {
                p.append_serializable_element(b"probe", x).map_err(|e| e.to_string())?;
                continue;
            },
            Op::Zero(i) => {
                p.add_zerocheck_claim(o[*i].id);
                continue;
            },
            Op::Sum(i, s) => {
                p.add_sumcheck_claim(o[*i].id, *s);
                continue;
            },
        };
        o.push(new);
    }
    Ok(o)
}
/// the expressions a program creates
pub fn exprs(ops: &[Op]) -> Vec<Ex> {
    let (mut e, mut l) = (vec![], 0);
    for op in ops {
        step(&mut e, &mut l, op);
    }
    e
}
/// size every polynomial is brought to before claims are combined
pub fn common_nv(ops: &[Op]) -> usize {
    exprs(ops).iter().map(|e| nv(e)).max().unwrap_or(0)
}
pub fn two_pow(k: usize) -> F {
    F::from(1u64 << k)
}
