//! C28: the same inputs give the same bytes whatever runs beside them.
//! A piece of work is a function of a seed; it is repeated in worker pools of
//! different sizes, next to other work in the same pool, from several threads
//! at once and in fresh processes, and the results are compared byte by byte.
use crate::{ctx::*, ensure, iop::*, p_arith::gen_vp, p_iop::*, p_pcs::*, p_tracker::*, run::*, sim::*};
use ark_serialize::CanonicalSerialize;
use rand_chacha::rand_core::SeedableRng;
use std::{
    sync::{
        atomic::{AtomicBool, AtomicUsize, Ordering},
        Arc, Barrier, OnceLock,
    },
};
use zk_sql::{
    arithmetic::*,
    subroutines::{poly_iop::prelude::*, PolynomialCommitmentScheme},
    transcript::IOPTranscript,
};

type P = PolyIOP<F>;
pub fn families() -> Vec<Family> {
    vec![
        fam("C28", "protocols", REL | DBG | TSAN, 500, 6000, |c| pools(c, PROTOCOL, 0)),
        fam("C28", "programs", REL | DBG | TSAN, 300, 4000, |c| pools(c, PROGRAM, 0)),
        fam("C28", "protocols_large", REL, 48, 480, |c| pools(c, PROTOCOL, LARGE + 3)),
        fam("C28", "programs_large", REL, 40, 400, |c| pools(c, PROGRAM, LARGE + 4)),
        fam("C28", "sumcheck", REL | DBG | TSAN, 400, 5000, |c| pools(c, SUMCHECK, 9)),
        fam("C28", "sumcheck_large", REL, 24, 240, |c| pools(c, SUMCHECK, 14)),
        fam("C28", "arithmetic", REL | DBG | TSAN, 400, 5000, |c| pools(c, ARITHMETIC, 9)),
        fam("C28", "arithmetic_large", REL, 32, 320, |c| pools(c, ARITHMETIC, 16)),
        fam("C28", "openings", REL | DBG | TSAN, 200, 2000, |c| pools(c, OPENING, 5)),
        fam("C28", "openings_large", REL, 12, 120, |c| pools(c, OPENING, 11)),
        fam("C28", "concurrent", REL | DBG | TSAN, 120, 1600, concurrent),
        fam("C28", "processes", REL, 8, 60, processes),
    ]
}
/// sizes above this are added to the usual number of variables
const LARGE: usize = 100;
const PROTOCOL: usize = 0;
const PROGRAM: usize = 1;
const SUMCHECK: usize = 2;
const ARITHMETIC: usize = 3;
const OPENING: usize = 4;
const SIZES: [usize; 8] = [1, 2, 3, 4, 5, 7, 8, 16];

fn pool(i: usize) -> &'static rayon::ThreadPool {
    static P: OnceLock<Vec<OnceLock<rayon::ThreadPool>>> = OnceLock::new();
    P.get_or_init(|| SIZES.iter().map(|_| OnceLock::new()).collect())[i]
        .get_or_init(|| rayon::ThreadPoolBuilder::new().num_threads(SIZES[i]).stack_size(64 << 20).build().unwrap())
}
fn ser<S: CanonicalSerialize>(b: &mut Vec<u8>, x: &S) {
    x.serialize_compressed(&mut *b).unwrap();
}
fn note(b: &mut Vec<u8>, s: &str) {
    b.extend((s.len() as u64).to_le_bytes());
    b.extend(s.as_bytes());
}
fn outcome<T, X>(b: &mut Vec<u8>, r: Result<T, X>, ok: impl FnOnce(&mut Vec<u8>, T)) {
    match r {
        Ok(x) => {
            note(b, "ok");
            ok(b, x)
        },
        Err(_) => note(b, "error"),
    }
}
/// What this piece of work produces, as bytes, with a description.
fn work(kind: usize, seed: u64, size: usize) -> (Vec<u8>, String) {
    let mut ctx = Ctx::new(seed, 0, false, false);
    let c = &mut ctx;
    let mut b = vec![];
    let desc;
    match kind {
        PROTOCOL => {
            c.grow = size.saturating_sub(LARGE);
            let (_, g) = *c.pick(&ALL);
            let good = c.coin(4, 5);
            let k = g(c, good);
            desc = format!("{} {}", k.name, k.desc);
            let r = guard(|| {
                let mut p = PT::new_from_pcs_params(keys(k.params).0.clone());
                (k.prove)(&mut p).map_err(|e| e.to_string())?;
                let proof = p.compile_proof().map_err(|e| e.to_string())?;
                let ch = p.get_and_append_challenge(b"probe").ok();
                Ok::<_, String>((proof, ch))
            })
            .unwrap_or_else(Err);
            outcome(&mut b, r, |b, (p, ch)| {
                b.extend(proof_bytes(&p));
                ser(b, &ch);
                note(b, &format!("{:?}", check(k.params, &k.verify, &p).is_ok()));
            });
        },
        PROGRAM => {
            c.grow = size.saturating_sub(LARGE);
            let wrong = c.coin(1, 4);
            let j = job(c, wrong);
            desc = format!("params={} wrong={} {}", j.n, wrong, j.ops.iter().map(show).collect::<Vec<_>>().join(" "));
            let r = compile(j.n, &j.ops);
            outcome(&mut b, r, |b, (p, _)| {
                b.extend(proof_bytes(&p));
                note(b, &format!("{:?}", verify(j.n, &j.ops, &p, &keys(j.n).1, None, None).is_ok()));
            });
        },
        SUMCHECK => {
            let nv = if size > 12 { c.range(11, size) } else { c.range(1, size) };
            let (vp, rf) = gen_vp(c, nv, if size > 12 { 3 } else { 6 }, 4);
            desc = format!("sumcheck nv={} terms={} degree={}", nv, rf.terms.len(), rf.degree());
            let mut t = <P as SumCheck<F>>::init_transcript();
            let zero = c.coin(1, 4);
            if zero {
                outcome(&mut b, <P as ZeroCheck<F>>::prove(&vp, &mut t), |b, p| sc_bytes(&p, b));
            } else {
                outcome(&mut b, <P as SumCheck<F>>::prove(&vp, &mut t), |b, p| {
                    sc_bytes(&p, b);
                    let sum = P::extract_sum(&p);
                    ser(b, &sum);
                    let mut t = <P as SumCheck<F>>::init_transcript();
                    outcome(b, <P as SumCheck<F>>::verify(sum, &p, &vp.aux_info, &mut t), |b, s| {
                        ser(b, &s.point);
                        ser(b, &s.expected_evaluation);
                    });
                });
            }
            ser(&mut b, &t.get_and_append_challenge(b"probe").ok());
        },
        ARITHMETIC => {
            let nv = if size > 12 { c.range(12, size) } else { c.range(1, size) };
            let m = c.mle(nv);
            let r = c.rand_point(nv);
            let k = c.range(0, nv);
            desc = format!("arithmetic nv={} {} fixed", nv, k);
            outcome(&mut b, build_eq_x_r_vec(&r), |b, x| ser(b, &x));
            ser(&mut b, &fix_variables(&m, &r[..k]).evaluations);
            ser(&mut b, &fix_last_variables(&m, &r[..k]).evaluations);
            ser(&mut b, &evaluate_opt(&m, &r));
            outcome(&mut b, merge_polynomials(&[Arc::new(m.clone()), Arc::new(m.clone())]), |b, x| ser(b, &x.evaluations));
            if nv < 13 {
                let (vp, _) = gen_vp(c, nv, 3, 3);
                outcome(&mut b, vp.evaluate(&r), |b, x| ser(b, &x));
                ser(&mut b, &vp.materialize().evaluations);
                outcome(&mut b, vp.build_f_hat(&r), |b, x| ser(b, &x.materialize().evaluations));
            }
        },
        _ => {
            let nv = if size > 8 { c.range(9, size) } else { c.range(1, size) };
            let k = if size > 8 { 2 } else { c.range(1, 4) };
            desc = format!("{} openings nv={}", k, nv);
            let (ck, vk) = keys(nv);
            let polys: Vec<Arc<Mle>> = (0..k).map(|_| Arc::new(c.mle(nv))).collect();
            let points: Vec<Vec<F>> = (0..k).map(|_| c.rand_point(nv)).collect();
            let mut comms = vec![];
            let mut evals = vec![];
            for (p, x) in polys.iter().zip(&points) {
                let cm = Pcs::commit(ck, p).unwrap();
                ser(&mut b, &cm);
                let (q, y) = Pcs::open(ck, p, x).unwrap();
                ser(&mut b, &q);
                ser(&mut b, &y);
                note(&mut b, &format!("{:?}", Pcs::verify(vk, &cm, x, &y, &q).ok()));
                comms.push(cm);
                evals.push(y);
            }
            let mut t = IOPTranscript::<F>::new(b"batch");
            t.append_field_element(b"init", &evals[0]).unwrap();
            let mut u = t.clone();
            outcome(&mut b, Pcs::multi_open(ck, &polys, &points, &evals, &mut t), |b, p| {
                let (sc, op) = p.verif_parts();
                sc_bytes(sc, b);
                ser(b, op);
                ser(b, &p.f_i_eval_at_point_i);
                note(b, &format!("{:?}", Pcs::batch_verify(vk, &comms, &points, &p, &mut u).ok()));
            });
            ser(&mut b, &t.get_and_append_challenge(b"probe").ok());
            if size <= 3 {
                let mut rng = rand_chacha::ChaCha20Rng::seed_from_u64(seed);
                outcome(&mut b, Pcs::gen_srs_for_testing(&mut rng, nv), |b, s| {
                    outcome(b, Pcs::trim(&s, None, Some(nv)), |b, (ck, _)| outcome(b, Pcs::commit(&ck, &polys[0]), |b, x| ser(b, &x)))
                });
            }
        },
    }
    let desc = format!("{} #{:08x}", desc, digest(&b) as u32);
    (b, desc)
}
fn digest(b: &[u8]) -> u64 {
    hash64(&[b])
}
fn differs(c: &Ctx, a: &[u8], b: &[u8], what: String) -> Res {
    let _ = c;
    ensure!(a == b, "differs", "{}: {} bytes ({:016x}) and {} bytes ({:016x}), first difference at {:?}", what, a.len(), digest(a), b.len(), digest(b), a.iter().zip(b).position(|(x, y)| x != y));
    Ok(())
}
/// the same work in pools of different sizes, alone and among other tasks
fn pools(c: &mut Ctx, kind: usize, size: usize) -> Res {
    let seed = c.u64();
    let (base, desc) = pool(0).install(|| work(kind, seed, size));
    c.describe(desc);
    c.nontrivial();
    let n = if size > 8 { 2 } else { 3 };
    for _ in 0..n {
        let i = c.range(0, SIZES.len() - 1);
        let noise = c.coin(1, 2);
        let p = pool(i);
        let stop = Arc::new(AtomicBool::new(false));
        if noise {
            // small tasks that come and go, so that the work is stolen and split differently
            for k in 0..SIZES[i] + 1 {
                let stop = stop.clone();
                let n = c.range(1, 40);
                p.spawn(move || churn(stop, n, k));
            }
        }
        let (got, _) = p.install(|| work(kind, seed, size));
        stop.store(true, Ordering::Relaxed);
        differs(c, &base, &got, format!("one thread and {} threads{}", SIZES[i], if noise { " with other tasks" } else { "" }))?;
        c.count("repetitions compared", 1);
        c.count(&format!("repetitions on {:02} threads", SIZES[i]), 1);
    }
    c.count("bytes compared", base.len() as u64 * n as u64);
    Ok(())
}
fn churn(stop: Arc<AtomicBool>, n: usize, k: usize) {
    let mut x = k as u64;
    for i in 0..n as u64 * 500 {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(i);
    }
    std::hint::black_box(x);
    if n > 0 && !stop.load(Ordering::Relaxed) {
        std::thread::yield_now();
        rayon::spawn(move || churn(stop, n - 1, k));
    }
}
/// different work from several threads at once, each on its own or in one
/// common pool, against the same work done alone
fn concurrent(c: &mut Ctx) -> Res {
    let n = c.range(2, 6);
    let shared = c.coin(1, 2);
    let i = c.range(0, SIZES.len() - 1);
    let twins = c.coin(1, 3);
    let mut todo = vec![];
    for _ in 0..n {
        todo.push((c.range(0, 4), c.u64(), c.range(1, 4)));
    }
    if twins {
        // several threads with the same work
        let t = todo[0];
        todo.iter_mut().step_by(2).for_each(|x| *x = t);
    }
    let mut alone = vec![];
    for (k, s, z) in &todo {
        let (b, d) = pool(0).install(|| work(*k, *s, *z));
        c.describe(d);
        alone.push(b);
    }
    c.nontrivial();
    let start = Barrier::new(n);
    let active = AtomicUsize::new(0);
    let most = AtomicUsize::new(0);
    let got: Vec<Vec<u8>> = std::thread::scope(|s| {
        let hs: Vec<_> = todo
            .iter()
            .enumerate()
            .map(|(j, (k, sd, z))| {
                let (start, active, most) = (&start, &active, &most);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        start.wait();
                        let a = active.fetch_add(1, Ordering::SeqCst) + 1;
                        most.fetch_max(a, Ordering::SeqCst);
                        let p = if shared { pool(i) } else { pool((i + j) % SIZES.len()) };
                        let (b, _) = p.install(|| work(*k, *sd, *z));
                        active.fetch_sub(1, Ordering::SeqCst);
                        b
                    })
                    .unwrap()
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for (a, b) in alone.iter().zip(&got) {
        differs(c, a, b, format!("alone and next to {} others ({})", n - 1, if shared { "one pool" } else { "own pools" }))?;
    }
    c.count("concurrent runs compared", n as u64);
    c.count("runs that overlapped another one", most.load(Ordering::SeqCst) as u64);
    Ok(())
}
/// what a process prints for a seed
pub fn print_digest(seed: u64) {
    println!("digest {}", digests(seed));
}
fn digests(seed: u64) -> String {
    let mut o = vec![];
    for (i, k) in [PROTOCOL, PROTOCOL, PROTOCOL, PROTOCOL, PROGRAM, PROGRAM, SUMCHECK, ARITHMETIC, OPENING].into_iter().enumerate() {
        o.push(format!("{:016x}", digest(&work(k, hash64(&[&seed.to_le_bytes(), &(i as u64).to_le_bytes()]), 3).0)));
    }
    o.join(" ")
}
/// fresh processes with different numbers of threads in their default pool
fn processes(c: &mut Ctx) -> Res {
    let seed = c.u64();
    c.describe(format!("processes {:016x}", seed));
    c.nontrivial();
    let here = pool(2).install(|| digests(seed));
    for threads in ["1", "2", "6", "13"] {
        let o = std::process::Command::new(std::env::current_exe().unwrap()).args(["digest", &seed.to_string()]).env("RAYON_NUM_THREADS", threads).output();
        let o = match o {
            Ok(o) => o,
            Err(_) => continue, // no process, nothing observed
        };
        let s = String::from_utf8_lossy(&o.stdout).to_string();
        let got = match s.lines().find_map(|l| l.strip_prefix("digest ")) {
            Some(g) => g.to_string(),
            None => return viol("process", format!("a process with {} threads ends without a result ({:?})", threads, o.status)),
        };
        ensure!(got == here, "differs_process", "with {} threads in another process: {} instead of {}", threads, got, here);
        c.count("processes compared", 1);
    }
    Ok(())
}
