//! C30: what is written out and read back works like the original.
use crate::{ctx::*, ensure, p_pcs::*, run::*};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize, Compress, Validate};
use std::sync::{Arc, OnceLock};
use zk_sql::{
    subroutines::{
        poly_iop::prelude::*,
        pcs::{prelude::*, StructuredReferenceString},
        PolynomialCommitmentScheme,
    },
};

pub fn families() -> Vec<Family> {
    vec![
        fam("C30", "openings", REL | DBG, 160, 1600, openings),
        fam("C30", "parameters", REL | DBG, 48, 480, parameters),
        fam("C30", "damaged", REL | DBG, 160, 1600, damaged),
        fam("C30", "sumcheck", REL | DBG, 160, 1600, sumcheck),
    ]
}
type Srs = <Pcs as PolynomialCommitmentScheme<E>>::SRS;
type Pk = <Pcs as PolynomialCommitmentScheme<E>>::ProverParam;
type Vp = <Pcs as PolynomialCommitmentScheme<E>>::VerifierParam;
type Cm = <Pcs as PolynomialCommitmentScheme<E>>::Commitment;
type Op = <Pcs as PolynomialCommitmentScheme<E>>::Proof;

fn modes(c: &mut Ctx) -> (Compress, Validate) {
    (*c.pick(&[Compress::Yes, Compress::No]), *c.pick(&[Validate::Yes, Validate::No]))
}
fn put<T: CanonicalSerialize>(x: &T, m: Compress) -> Vec<u8> {
    let mut b = vec![];
    x.serialize_with_mode(&mut b, m).unwrap();
    b
}
/// there and back, checking the announced size and that writing again gives the same bytes
fn back<T: CanonicalSerialize + CanonicalDeserialize>(c: &mut Ctx, what: &str, x: &T) -> Result<T, Viol> {
    let (m, v) = modes(c);
    let b = put(x, m);
    ensure!(b.len() == x.serialized_size(m), "size", "{}: {} bytes announced, {} written", what, x.serialized_size(m), b.len());
    let mut rest = &b[..];
    let y = match guard(|| T::deserialize_with_mode(&mut rest, m, v)) {
        Ok(Ok(y)) => y,
        Ok(Err(e)) => return viol("unreadable", format!("{}: what was written cannot be read: {}", what, e)),
        Err(p) => return viol("read_panic", format!("{}: {}", what, p)),
    };
    ensure!(rest.is_empty(), "rest", "{}: {} bytes are left over", what, rest.len());
    for m in [Compress::Yes, Compress::No] {
        ensure!(put(&y, m) == put(x, m), "differs", "{}: read back as something else", what);
    }
    c.count("objects read back", 1);
    Ok(y)
}
fn params(nv: usize) -> &'static (Srs, Pk, Vp) {
    static P: OnceLock<Vec<OnceLock<(Srs, Pk, Vp)>>> = OnceLock::new();
    &P.get_or_init(|| (0..8).map(|_| OnceLock::new()).collect())[nv].get_or_init(|| {
        use rand_chacha::rand_core::SeedableRng;
        let mut rng = rand_chacha::ChaCha20Rng::seed_from_u64(77 + nv as u64);
        let s = Pcs::gen_srs_for_testing(&mut rng, nv).unwrap();
        let (p, v) = Pcs::trim(&s, None, Some(nv)).unwrap();
        (s, p, v)
    })
}
fn openings(c: &mut Ctx) -> Res {
    let nv = c.range(1, 6);
    let m = Arc::new(c.mle(nv));
    let x = c.point(nv);
    c.describe(format!("opening nv={} #{:08x} at {}", nv, fhash(&m.evaluations) as u32, sv(&x)));
    c.nontrivial();
    let (ck, vk) = keys(nv);
    let cm = Pcs::commit(ck, &m).unwrap();
    let (op, y) = Pcs::open(ck, &m, &x).unwrap();
    let cm2: Cm = back(c, "commitment", &cm)?;
    let op2: Op = back(c, "opening", &op)?;
    let y2: F = back(c, "value", &y)?;
    ensure!(cm2 == cm && op2 == op && y2 == y, "differs", "an object read back differs");
    ensure!(Pcs::verify(vk, &cm2, &x, &y2, &op2).ok() == Some(true), "verify", "an opening read back does not verify");
    ensure!(Pcs::verify(vk, &cm2, &x, &(y2 + F::from(1u64)), &op2).ok() != Some(true), "verify_false", "an opening read back proves a false value");
    // a list of them
    let l: Vec<Cm> = (0..c.range(0, 4)).map(|_| cm.clone()).collect();
    let l2: Vec<Cm> = back(c, "commitments", &l)?;
    ensure!(l == l2, "differs", "a list read back differs");
    Ok(())
}
fn parameters(c: &mut Ctx) -> Res {
    let nv = c.range(1, 6);
    let (s, pk, vk) = params(nv);
    let m = Arc::new(c.mle(nv));
    let x = c.rand_point(nv);
    c.describe(format!("parameters nv={} #{:08x}", nv, fhash(&m.evaluations) as u32));
    c.nontrivial();
    let pk2: Pk = back(c, "prover parameters", pk)?;
    let vk2: Vp = back(c, "verifier parameters", vk)?;
    let s2: Srs = back(c, "reference string", s)?;
    let k = c.range(1, nv);
    let (pk3, vk3) = match Pcs::trim(&s2, None, Some(k)) {
        Ok(x) => x,
        Err(e) => return viol("trim", format!("a reference string read back cannot be trimmed to {}: {}", k, e)),
    };
    let (pk4, vk4) = Pcs::trim(s, None, Some(k)).unwrap();
    ensure!(put(&pk3, Compress::Yes) == put(&pk4, Compress::Yes) && put(&vk3, Compress::Yes) == put(&vk4, Compress::Yes), "trim", "a reference string read back is trimmed differently");
    ensure!(put(&s2.extract_verifier_param(k), Compress::Yes) == put(&vk4, Compress::Yes), "trim", "a reference string read back is trimmed differently");
    let cm = Pcs::commit(&pk2, &m).unwrap();
    ensure!(cm == Pcs::commit(pk, &m).unwrap(), "commit", "parameters read back commit differently");
    let (op, y) = Pcs::open(&pk2, &m, &x).unwrap();
    ensure!((op.clone(), y) == Pcs::open(pk, &m, &x).unwrap(), "open", "parameters read back open differently");
    ensure!(Pcs::verify(&vk2, &cm, &x, &y, &op).ok() == Some(true), "verify", "parameters read back reject an opening");
    ensure!(Pcs::verify(&vk2, &cm, &x, &(y + F::from(1u64)), &op).ok() != Some(true), "verify_false", "parameters read back accept a false value");
    Ok(())
}
/// bytes that are missing or changed never make the reader crash, and what it
/// reads from them proves nothing new
fn damaged(c: &mut Ctx) -> Res {
    let nv = c.range(1, 4);
    let m = Arc::new(c.mle(nv));
    let x = c.rand_point(nv);
    let (ck, vk) = keys(nv);
    let cm = Pcs::commit(ck, &m).unwrap();
    let (op, y) = Pcs::open(ck, &m, &x).unwrap();
    let b = put(&op, Compress::Yes);
    let mut d = b.clone();
    let cut = c.coin(1, 2);
    if cut {
        d.truncate(c.range(0, b.len() - 1));
    } else {
        let at = c.range(0, b.len() - 1);
        d[at] ^= 1 << c.range(0, 7);
        if at < 8 {
            // an absurd length would only exhaust memory
            d[at] = b[at];
            d[0] = c.range(0, 6) as u8;
        }
    }
    c.describe(format!("opening nv={} {} of {} bytes #{:08x}", nv, d.len(), b.len(), hash64(&[&d]) as u32));
    if d != b {
        c.nontrivial();
    }
    match guard(|| Op::deserialize_with_mode(&d[..], Compress::Yes, Validate::Yes)) {
        Err(p) => viol("damaged_panic", p),
        Ok(Err(_)) => {
            c.count("damaged bytes refused", 1);
            Ok(())
        },
        Ok(Ok(op2)) => {
            let r = match guard(|| Pcs::verify(vk, &cm, &x, &y, &op2)) {
                Ok(r) => r.ok() == Some(true),
                Err(p) => return viol("damaged_verify_panic", p),
            };
            ensure!(!cut || op2 == op, "truncated", "an opening is read from too few bytes");
            ensure!(r == (op2 == op), "damaged_verdict", "a damaged opening: read as the same {}, verifies {}", op2 == op, r);
            c.count("damaged bytes read as something else", 1);
            Ok(())
        },
    }
}
/// what a sumcheck puts on the wire has one meaning: equal bytes for equal
/// messages only
fn sumcheck(c: &mut Ctx) -> Res {
    type P = PolyIOP<F>;
    let nv = c.range(1, 5);
    let (vp, rf) = crate::p_arith::gen_vp(c, nv, 4, 4);
    c.describe(format!("sumcheck nv={} {}", nv, crate::p_arith::vp_desc(&rf)));
    c.nontrivial();
    let mut t = <P as SumCheck<F>>::init_transcript();
    let p = <P as SumCheck<F>>::prove(&vp, &mut t).unwrap();
    let mut seen = std::collections::BTreeMap::new();
    for m in &p.proofs {
        let b = put(m, Compress::Yes);
        ensure!(b.len() == m.serialized_size(Compress::Yes), "size", "a message has another size than announced");
        let v = Vec::<F>::deserialize_compressed(&b[..]).ok();
        ensure!(v.as_ref() == Some(&m.verif_evaluations().to_vec()), "message", "a round message is not written as its evaluations");
        if let Some(o) = seen.insert(b, m.clone()) {
            ensure!(o == *m, "collision", "two round messages are written the same way");
        }
    }
    // the shape of the claim
    let a = put(&vp.aux_info, Compress::Yes);
    let mut o = vp.aux_info.clone();
    match c.range(0, 1) {
        0 => o.max_degree += c.range(1, 3),
        _ => o.num_variables += c.range(1, 3),
    }
    ensure!(put(&o, Compress::Yes) != a, "shape", "two shapes are written the same way");
    c.count("objects read back", p.proofs.len() as u64);
    Ok(())
}
