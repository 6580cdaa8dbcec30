//! K01..K03: the multilinear KZG commitment scheme on the real curve
use vpmc::*;
use crate::num::*;
use ark_ec::{pairing::Pairing, AffineRepr, CurveGroup};
use ark_ff::{Field, One, Zero};
use std::collections::HashMap;
use std::ops::Mul;
use std::sync::{Arc, Mutex};
use zk_sql::subroutines::pcs::prelude::{Commitment, MultilinearKzgPCS};
use zk_sql::subroutines::pcs::PolynomialCommitmentScheme;
use zk_sql::subroutines::poly_iop::structs::IOPProverMessage;
use zk_sql::transcript::IOPTranscript;

type K = MultilinearKzgPCS<E>;
type G1 = <E as Pairing>::G1Affine;
type Srs = <K as PolynomialCommitmentScheme<E>>::SRS;
type Pp = <K as PolynomialCommitmentScheme<E>>::ProverParam;
type Vp = <K as PolynomialCommitmentScheme<E>>::VerifierParam;
type Proof = <K as PolynomialCommitmentScheme<E>>::Proof;
type Batch = <K as PolynomialCommitmentScheme<E>>::BatchProof;
type Comm = Commitment<E>;
type Tr = IOPTranscript<F>;

pub fn dispatch(ctx: &Ctx) -> bool {
    match ctx.id.as_str() {
        "K01" => k01(ctx),
        "K02" => k02(ctx),
        "K03" => k03(ctx),
        _ => return false,
    }
    true
}

fn srs(n: usize, seed: u64) -> Result<Srs, String> {
    use ark_std::rand::SeedableRng;
    guard(|| <K as PolynomialCommitmentScheme<E>>::gen_srs_for_testing(&mut ark_std::rand::rngs::StdRng::seed_from_u64(seed), n).map_err(|e| format!("gen_srs: {:?}", e)))
}
fn trim(s: &Srs, m: usize) -> Result<(Pp, Vp), String> { guard(|| <K as PolynomialCommitmentScheme<E>>::trim(s, None, Some(m)).map_err(|e| format!("trim: {:?}", e))) }
fn commit(p: &Pp, t: &[F]) -> Result<Comm, String> { guard(|| K::commit(p, &mle(t)).map_err(|e| format!("commit: {:?}", e))) }
fn open(p: &Pp, t: &[F], pt: &[F]) -> Result<(Proof, F), String> { guard(|| K::open(p, &mle(t), pt).map_err(|e| format!("open: {:?}", e))) }
/// Ok only when the proof is accepted
fn verify(v: &Vp, c: &Comm, pt: &[F], val: &F, p: &Proof) -> Result<(), String> {
    guard(|| match K::verify(v, c, pt, val, p) { Ok(true) => Ok(()), Ok(false) => Err("not valid".into()), Err(e) => Err(format!("verify: {:?}", e)) })
}
fn front(t: &[F], k: usize) -> Vec<F> { (0..t.len() << k).map(|i| t[i >> k]).collect() }
fn tables(nv: usize) -> Vec<Vec<F>> {
    match nv {
        0 => vec![fs(&[0]), fs(&[1]), fs(&[-5])],
        1 => (0..16).map(|i| Idx(i).word(&fs(&[0, 1, -1, 5]), 2)).collect(),
        2 => (0..16).map(|i| Idx(i).word(&fs(&[0, 1]), 4)).chain([fs(&[3, 5, -7, 11]), fs(&[1, -1, 1, -1]), fs(&[2, 2, 2, 2])]).collect(),
        _ => {
            let n = 1i64 << nv;
            let mut v: Vec<Vec<i64>> = vec![vec![0; n as usize], vec![1; n as usize], (1..=n).collect(), (0..n).map(|i| if i % 2 == 0 { 1 } else { -1 }).collect()];
            for k in 0..n { let mut t = vec![0; n as usize]; t[k as usize] = 7; if n <= 16 { v.push(t); } }
            v.into_iter().map(|t| fs(&t)).chain([wild(nv, 0), wild(nv, 1)]).collect()
        }
    }
}
fn points(nv: usize) -> Vec<Vec<F>> {
    let mut v: Vec<Vec<F>> = vec![];
    if nv <= 2 { for i in 0..ipow(4, nv) { v.push(Idx(i).word(&[f(0), f(1), f(-1), f(7919)], nv)); } }
    else { v.push(bpoint(0, nv)); v.push(bpoint((1 << nv) - 1, nv)); v.push(bpoint(0b101, nv)); v.push(bpoint(0b010, nv)); v.push((0..nv).map(|i| f(2 + i as i64)).collect()); v.push(gpoint(nv, 0)); }
    v
}

fn k01(ctx: &Ctx) {
    let nmax = ctx.q(6usize, 8);
    let srss: Vec<Srs> = (1..=nmax).map(|n| srs(n, 7 + n as u64).unwrap_or_else(|e| panic!("{}", e))).collect();
    let params: Vec<(usize, usize, Pp, Vp)> = (1..=nmax).flat_map(|n| (1..=n).map(move |m| (n, m))).map(|(n, m)| { let (p, v) = trim(&srss[n - 1], m).unwrap_or_else(|e| panic!("{}", e)); (n, m, p, v) }).collect();
    // open and verify, at every size and every trimming
    let mut cases: Vec<(usize, Vec<F>, Vec<F>)> = vec![];
    for (k, (n, m, _, _)) in params.iter().enumerate() {
        for v in 0..=*m {
            let (mut ts, mut ps) = (tables(v), points(v));
            // the full product for untrimmed parameters of each size, a cut of it for the others
            if n != m || *n > 3 { ts = ts.into_iter().step_by(3).collect(); ps = ps.into_iter().step_by(if v <= 2 { 5 } else { 2 }).collect(); }
            for t in &ts { for p in &ps { cases.push((k, t.clone(), p.clone())); } }
        }
    }
    let cases = &cases;
    let params_ref = &params;
    ctx.space("open", cases.len() as u64, |i| {
        let (k, t, pt) = &cases[i as usize];
        let (_, _, pp, vp) = &params_ref[*k];
        let r = guard(|| {
            let c = commit(pp, t)?;
            if commit(pp, t)? != c { return Err("committing twice gives different commitments".into()); }
            let (p, val) = open(pp, t, pt)?;
            if val != ext(t, pt) { return Err(format!("opened to {}, expected {}", show(&val), show(&ext(t, pt)))); }
            if p.proofs.len() != pt.len() { return Err("one proof element per variable expected".into()); }
            verify(vp, &c, pt, &val, &p)
        });
        match r { Ok(()) => Ok(obs("verified", 4, true)), Err(e) => viol("open", e) }
    }, |i| { let (k, t, p) = &cases[i as usize]; format!("parameters for {} trimmed to {}, table {} point {}", params_ref[*k].0, params_ref[*k].1, shows(t), shows(p)) });
    // larger sizes
    let large: Vec<(usize, usize, usize)> = (7..=ctx.q(10usize, 13)).flat_map(|n| [n, n - 1, n / 2, 1].into_iter().flat_map(move |v| (0..3usize).map(move |k| (n, v, k)))).collect();
    let large = &large;
    ctx.space("large", large.len() as u64, |i| {
        let (n, nv, k) = large[i as usize];
        let t = wild(nv, k);
        let pt: Vec<F> = match k { 0 => gpoint(nv, 3), 1 => bpoint(0x5a5a & ((1 << nv) - 1), nv), _ => wild(nv, 7)[..nv].to_vec() };
        let r = guard(|| {
            let (pp, vp) = trim(&srs(n, 5)?, n)?;
            let c = commit(&pp, &t)?;
            let (p, val) = open(&pp, &t, &pt)?;
            if val != ext(&t, &pt) { return Err("opened to another value".into()); }
            verify(&vp, &c, &pt, &val, &p)?;
            if verify(&vp, &c, &pt, &(val + f(1)), &p).is_ok() { return Err("another value is accepted".into()); }
            for j in 0..nv {
                let mut q = pt.clone();
                q[j] += f(1);
                if verify(&vp, &c, &q, &val, &p).is_ok() { return Err(format!("accepted with another coordinate {}", j)); }
            }
            Ok(())
        });
        match r { Ok(()) => Ok(obs("verified", 4 + nv as u64, true)), Err(e) => viol("large", e) }
    }, |i| format!("parameters, variables, table {:?}", large[i as usize]));
    // the trimming makes no difference
    let top: Vec<usize> = (0..params.len()).filter(|k| params[*k].0 == nmax).collect();
    let mut cross = vec![];
    for a in &top { for b in &top { for v in 0..=params[*a].1.min(params[*b].1) { for (j, t) in tables(v).into_iter().enumerate() { if j % 4 == 1 { cross.push((*a, *b, t)); } } } } }
    let cross = &cross;
    ctx.space("trimming", cross.len() as u64, |i| {
        let (a, b, t) = &cross[i as usize];
        let pt = gpoint(nv_of(t), 1);
        let r = guard(|| {
            let (c, d) = (commit(&params_ref[*a].2, t)?, commit(&params_ref[*b].2, t)?);
            if c != d { return Err("the commitment depends on the trimming".into()); }
            let (p, v) = open(&params_ref[*a].2, t, &pt)?;
            verify(&params_ref[*b].3, &d, &pt, &v, &p)
        });
        match r { Ok(()) => Ok(obs("same", 4, true)), Err(e) => viol("trimming", e) }
    }, |i| format!("{} {} {}", cross[i as usize].0, cross[i as usize].1, shows(&cross[i as usize].2)));
    // additive and homogeneous
    let (pp, _) = (&params.last().unwrap().2, 0);
    let mut pairs = vec![];
    for v in 0..=3usize { let ts = tables(v); for a in 0..ts.len() { for b in 0..ts.len() { pairs.push((ts[a].clone(), ts[b].clone())); } } }
    let pairs = &pairs;
    ctx.space("additive", pairs.len() as u64 * 3, |i| {
        let (a, b) = &pairs[i as usize / 3];
        let k = f([1, -1, 5][i as usize % 3]);
        let r = guard(|| {
            let s: Vec<F> = a.iter().zip(b).map(|(x, y)| *x + k * *y).collect();
            let (ca, cb, cs) = (commit(pp, a)?, commit(pp, b)?, commit(pp, &s)?);
            if (ca.0.into_group() + cb.0.mul(k)).into_affine() != cs.0 { return Err("the commitment of a sum is not the sum of the commitments".into()); }
            Ok(())
        });
        match r { Ok(()) => Ok(obs("additive", 3, true)), Err(e) => viol("additive", e) }
    }, |i| format!("{} + {} * {}", shows(&pairs[i as usize / 3].0), [1, -1, 5][i as usize % 3], shows(&pairs[i as usize / 3].1)));
    // different tables, different commitments; equal ones exactly for tables that differ by
    // variables added in front
    let mut all: Vec<Vec<F>> = vec![];
    for i in 0..4 { all.push(fs(&[i])); }
    for i in 0..ipow(4, 2) { all.push(Idx(i).word(&fs(&[0, 1, 2, -1]), 2)); }
    for i in 0..ipow(3, 4) { all.push(Idx(i).word(&fs(&[0, 1, 2]), 4)); }
    for i in 0..ipow(2, 8) { all.push(Idx(i).word(&fs(&[0, 1]), 8)); }
    if ctx.thorough { for i in 0..1u64 << 16 { all.push(Idx(i).word(&fs(&[0, 1]), 16)); } }
    let all = &all;
    let seen: Mutex<HashMap<G1, Vec<F>>> = Mutex::new(HashMap::new());
    let top_nv = nmax;
    ctx.space("distinct", all.len() as u64, |i| {
        let t = &all[i as usize];
        let c = commit(pp, t).map_err(|e| Viol { key: "distinct".into(), msg: e })?;
        let full = front(t, top_nv - nv_of(t));
        for k in 0..=2usize.min(top_nv - nv_of(t)) {
            if commit(pp, &front(t, k)).ok() != Some(c) { return viol("front", format!("{} variables added in front change the commitment", k)); }
        }
        let mut g = seen.lock().unwrap();
        match g.get(&c.0) {
            Some(u) if *u != full => viol("distinct", format!("same commitment as {}", shows(u))),
            _ => { g.insert(c.0, full); Ok(obs("distinct", 3, true)) }
        }
    }, |i| shows(&all[i as usize]));
    // the added variables in front are ignored when opening: the commitment opens to the
    // value of the table at the last coordinates
    let mut fr = vec![];
    for v in 0..=2usize { for k in 1..=2usize { for t in tables(v) { fr.push((t, k)); } } }
    let fr = &fr;
    ctx.space("front-opening", fr.len() as u64, |i| {
        let (t, k) = &fr[i as usize];
        let r = guard(|| {
            let pt = gpoint(nv_of(t) + k, 3);
            let c = commit(pp, t)?;
            let (p, v) = open(pp, &front(t, *k), &pt)?;
            if v != ext(t, &pt[*k..]) { return Err("the value depends on the added variables".into()); }
            verify(&params_ref.last().unwrap().3, &c, &pt, &v, &p)
        });
        match r { Ok(()) => Ok(obs("verified", 3, true)), Err(e) => viol("front-opening", e) }
    }, |i| format!("{} + {}", shows(&fr[i as usize].0), fr[i as usize].1));
    // limits
    let lim = nmax + 3;
    ctx.space("limits", ((nmax + 1) * lim * (lim + 1)) as u64, |i| {
        let mut ix = Idx(i);
        let n = ix.take(nmax as u64 + 1) as usize;
        let m = ix.take(lim as u64) as usize;
        let v = ix.0 as usize;
        let err = |r: Result<(), String>, what: &str| match r {
            Ok(()) => viol("limits", format!("{} was not refused", what)),
            Err(e) if e.starts_with("panic") => viol("limits", format!("{}: {}", what, e)),
            Err(_) => Ok(obs(format!("{} refused with an error", what), 1, true)),
        };
        if n == 0 { return err(srs(0, 1).map(|_| ()), "parameters for no variables"); }
        if m > n { return err(trim(&srss[n - 1], m).map(|_| ()), "trimming beyond the parameters"); }
        if m == 0 { return Ok(obs("trimmed to nothing: not considered", 0, false)); }
        let (pp, vp) = match trim(&srss[n - 1], m) { Ok(x) => x, Err(e) => return viol("limits", e) };
        if v > m {
            let t = vec![f(1); 1 << v];
            let pt = gpoint(v, 0);
            err(commit(&pp, &t).map(|_| ()), "committing to a table too large")?;
            err(open(&pp, &t, &pt).map(|_| ()), "opening a table too large")?;
            let c = Commitment(G1::generator());
            let (p, _) = open(&pp, &fs(&[1, 2]), &[f(3)]).map_err(|e| Viol { key: "limits".into(), msg: e })?;
            return err(verify(&vp, &c, &pt, &f(1), &p), "a point too long");
        }
        // points of the wrong length for the table
        let t = vec![f(3); 1 << v];
        for l in 0..=m + 1 {
            if l != v { err(open(&pp, &t, &gpoint(l, 0)).map(|_| ()), "a point of the wrong length")?; }
        }
        // no proof of one length is valid for a point of another
        let (p, val) = open(&pp, &t, &gpoint(v, 0)).map_err(|e| Viol { key: "limits".into(), msg: e })?;
        let c = commit(&pp, &t).map_err(|e| Viol { key: "limits".into(), msg: e })?;
        for l in 0..=m {
            if l != v && verify(&vp, &c, &gpoint(l, 0), &val, &p).is_ok() { return viol("limits", format!("a proof for {} coordinates verifies with {}", v, l)); }
        }
        Ok(obs("wrong lengths refused", m as u64, true))
    }, |i| { let mut ix = Idx(i); format!("parameters {} trimmed to {} table {}", ix.take(nmax as u64 + 1), ix.take(lim as u64), ix.0) });
}

// ---- K02 ---------------------------------------------------------------------

fn nums(x: F) -> Vec<F> {
    let mut out = vec![];
    for v in [x + F::one(), x - F::one(), F::zero(), F::one(), -x, x + x, x.inverse().unwrap_or(f(9))] { if v != x && !out.contains(&v) { out.push(v); } }
    out
}
fn groups(x: G1) -> Vec<G1> {
    let g = G1::generator();
    let mut out = vec![];
    for v in [G1::identity(), g, (x + g).into_affine(), (-x.into_group()).into_affine(), (x + x).into_affine()] { if v != x && !out.contains(&v) { out.push(v); } }
    out
}
#[derive(Clone, PartialEq, Debug)]
struct Inst { c: Comm, pt: Vec<F>, val: F, proof: Proof }
struct Sub { name: String, act: Box<dyn Fn(&mut Inst) + Send + Sync> }
fn subs(h: &Inst, pool: &[Inst]) -> Vec<Sub> {
    let mut out: Vec<Sub> = vec![];
    let mut put = |name: String, act: Box<dyn Fn(&mut Inst) + Send + Sync>| { let mut x = h.clone(); act(&mut x); if x != *h { out.push(Sub { name, act }); } };
    for (k, g) in groups(h.c.0).into_iter().enumerate() { put(format!("commitment alternative {}", k), Box::new(move |x| x.c = Commitment(g))); }
    for j in 0..h.pt.len() {
        for v in nums(h.pt[j]) { put(format!("coordinate {} becomes {}", j, show(&v)), Box::new(move |x| x.pt[j] = v)); }
        for j2 in j + 1..h.pt.len() { put(format!("coordinates {} and {} swapped", j, j2), Box::new(move |x| x.pt.swap(j, j2))); }
        put(format!("coordinate {} removed", j), Box::new(move |x| { x.pt.remove(j); }));
        put(format!("coordinate added at {}", j), Box::new(move |x| x.pt.insert(j, f(1))));
    }
    for v in nums(h.val) { put(format!("value becomes {}", show(&v)), Box::new(move |x| x.val = v)); }
    for j in 0..h.proof.proofs.len() {
        for (k, g) in groups(h.proof.proofs[j]).into_iter().enumerate() { put(format!("proof element {} alternative {}", j, k), Box::new(move |x| x.proof.proofs[j] = g)); }
        for j2 in j + 1..h.proof.proofs.len() { put(format!("proof elements {} and {} swapped", j, j2), Box::new(move |x| x.proof.proofs.swap(j, j2))); }
        put(format!("proof element {} removed", j), Box::new(move |x| { x.proof.proofs.remove(j); }));
    }
    for g in [G1::generator(), G1::identity()] {
        put(format!("proof element added at the end ({})", g.is_zero()), Box::new(move |x| x.proof.proofs.push(g)));
        put(format!("proof element added at the start ({})", g.is_zero()), Box::new(move |x| x.proof.proofs.insert(0, g)));
    }
    put("proof elements reversed".into(), Box::new(|x| x.proof.proofs.reverse()));
    put("no proof elements".into(), Box::new(|x| x.proof.proofs.clear()));
    for (k, o) in pool.iter().enumerate() {
        let (a, b, c, d) = (o.c, o.pt.clone(), o.val, o.proof.clone());
        put(format!("commitment of instance {}", k), Box::new(move |x| x.c = a));
        put(format!("point of instance {}", k), Box::new(move |x| x.pt = b.clone()));
        put(format!("value of instance {}", k), Box::new(move |x| x.val = c));
        put(format!("proof of instance {}", k), Box::new(move |x| x.proof = d.clone()));
    }
    out
}
fn k02(ctx: &Ctx) {
    let n = 6;
    let s = srs(n, 11).unwrap_or_else(|e| panic!("{}", e));
    let (pp, vp) = trim(&s, n).unwrap_or_else(|e| panic!("{}", e));
    let (_, vp2) = trim(&srs(n, 12).unwrap_or_else(|e| panic!("{}", e)), n).unwrap_or_else(|e| panic!("{}", e));
    let pick: Vec<(Vec<F>, Vec<F>)> = vec![
        (fs(&[5]), vec![]), (fs(&[3, 5]), fs(&[7])), (fs(&[0, 1]), fs(&[1])), (fs(&[4, 4]), fs(&[9])),
        (fs(&[3, 5, -7, 11]), fs(&[2, 9])), (fs(&[3, 5, -7, 11]), fs(&[9, 2])), (fs(&[0, 0, 0, 1]), fs(&[1, 1])), (fs(&[1, 2, 1, 2]), fs(&[6, 8])), (fs(&[0, 0, 0, 0]), fs(&[3, 4])),
        (fs(&[1, 2, 3, 4, 5, 6, 7, 9]), gpoint(3, 0)), (fs(&[0, 0, 0, 1, 0, 0, 0, 0]), fs(&[1, 1, 0])), (fs(&[2, -2, 3, -3, 4, -4, 5, -5]), fs(&[3, 3, 8])),
        (wild(4, 0), gpoint(4, 0)), (wild(4, 1), bpoint(6, 4)), (wild(5, 0), gpoint(5, 1)), (wild(6, 0), wild(3, 1)[..6].to_vec()),
    ];
    let small = 12;
    // what makes the value of a substituted instance right: the table behind the commitment
    let inst: Vec<Inst> = pick.iter().map(|(t, p)| { let c = commit(&pp, t).unwrap(); let (proof, val) = open(&pp, t, p).unwrap(); Inst { c, pt: p.clone(), val, proof } }).collect();
    // (without the variables it does not depend on in front), and its multiples
    let mut truth: HashMap<G1, Vec<F>> = HashMap::new();
    for (t, _) in &pick { for k in [1i64, -1, 2, 0, 4, -2] {
        let mut u: Vec<F> = t.iter().map(|x| *x * f(k)).collect();
        while u.len() > 1 && u.chunks(2).all(|c| c[0] == c[1]) { u = u.chunks(2).map(|c| c[0]).collect(); }
        truth.insert(commit(&pp, &u).unwrap().0, u);
    } }
    // a changed instance may still be an honest one: then it has to be accepted
    let honest = |x: &Inst| -> bool {
        match truth.get(&x.c.0) {
            Some(t) if nv_of(t) <= x.pt.len() && x.pt.len() <= n => match open(&pp, &front(t, x.pt.len() - nv_of(t)), &x.pt) { Ok((p, v)) => p == x.proof && v == x.val, Err(_) => false },
            _ => false,
        }
    };
    let judge = |x: &Inst, vp: &Vp, what: &str| {
        let ok = verify(vp, &x.c, &x.pt, &x.val, &x.proof).is_ok();
        match (honest(x), ok) {
            (true, true) => Ok(obs("still an honest opening: accepted", 1, true)),
            (true, false) => viol("honest", "an honest opening is refused"),
            (false, true) => viol("substituted", format!("accepted: {}", what)),
            (false, false) => Ok(obs("refused", 1, true)),
        }
    };
    for (k, h) in inst.iter().enumerate() {
        ctx.space(&format!("unchanged-{}", k), 1, |_| match verify(&vp, &h.c, &h.pt, &h.val, &h.proof) { Ok(()) => Ok(obs("accepted", 1, true)), Err(e) => viol("honest", e) }, |_| format!("{:?}", pick[k]));
        // with other parameters; a constant opens without any
        ctx.space(&format!("parameters-{}", k), 1, |_| match verify(&vp2, &h.c, &h.pt, &h.val, &h.proof) { Ok(()) if !h.c.0.is_zero() => viol("parameters", "accepted under other parameters"), _ => Ok(obs("refused (or the zero table)", 1, true)) }, |_| format!("{:?}", pick[k]));
        let ss = subs(h, if k < small { &inst[..small] } else { &inst });
        ctx.space(&format!("one-{}", k), ss.len() as u64, |i| { let mut x = h.clone(); (ss[i as usize].act)(&mut x); judge(&x, &vp, &ss[i as usize].name) }, |i| format!("table {} point {}: {}", shows(&pick[k].0), shows(&pick[k].1), ss[i as usize].name));
        if k < small && (ctx.thorough || k % 3 != 2) {
            let m = ss.len();
            let st = ctx.q(if h.pt.len() > 1 { 3 } else { 1 }, 1);
            let prs: Vec<(usize, usize)> = (0..m).flat_map(|a| (0..m).map(move |b| (a, b))).filter(|(a, b)| a != b && (a + b) % st == 0).collect();
            ctx.space(&format!("two-{}", k), prs.len() as u64, |i| {
                let (a, b) = prs[i as usize];
                let x = match guard(|| { let mut x = h.clone(); (ss[a].act)(&mut x); (ss[b].act)(&mut x); Ok(x) }) { Ok(x) => x, Err(_) => return Ok(obs("not applicable together", 0, false)) };
                if x == *h { return Ok(obs("undone", 0, false)); }
                judge(&x, &vp, &format!("{} then {}", ss[a].name, ss[b].name))
            }, |i| format!("table {} point {}: {} then {}", shows(&pick[k].0), shows(&pick[k].1), ss[prs[i as usize].0].name, ss[prs[i as usize].1].name));
        }
    }
    // every mix of commitment, point, value and proof of a family
    for nv in 1..=2usize {
        let ts: Vec<Vec<F>> = if nv == 1 { vec![fs(&[0, 0]), fs(&[1, 1]), fs(&[0, 1]), fs(&[1, 0]), fs(&[0, 2])] } else { vec![fs(&[0, 0, 0, 0]), fs(&[0, 1, 0, 1]), fs(&[0, 0, 1, 1]), fs(&[3, 5, -7, 11])] };
        let ps: Vec<Vec<F>> = if nv == 1 { vec![fs(&[0]), fs(&[1]), fs(&[5])] } else { vec![fs(&[0, 1]), fs(&[1, 0]), fs(&[1, 1]), fs(&[5, 6])] };
        let mut vals: Vec<F> = vec![];
        let mut proofs: Vec<Proof> = vec![];
        for t in &ts { for p in &ps { let (q, v) = open(&pp, t, p).unwrap(); if !vals.contains(&v) { vals.push(v); } if !proofs.contains(&q) { proofs.push(q); } } }
        let cs: Vec<Comm> = ts.iter().map(|t| commit(&pp, t).unwrap()).collect();
        let tab: HashMap<G1, usize> = cs.iter().enumerate().map(|(k, c)| (c.0, k)).collect();
        let total = (cs.len() * ps.len() * vals.len() * proofs.len()) as u64;
        let get = |i: u64| { let mut ix = Idx(i); Inst { c: *ix.pick(&cs), pt: ix.pick(&ps).clone(), val: *ix.pick(&vals), proof: ix.pick(&proofs).clone() } };
        ctx.space(&format!("mixes-{}", nv), total, |i| {
            let x = get(i);
            let t = &ts[tab[&x.c.0]];
            let (q, v) = open(&pp, t, &x.pt).unwrap();
            let ok = verify(&vp, &x.c, &x.pt, &x.val, &x.proof).is_ok();
            match (q == x.proof && v == x.val, ok) {
                (true, true) => Ok(obs("honest: accepted", 1, true)),
                (true, false) => viol("honest", "an honest opening is refused"),
                (false, true) => viol("mixed", "a mix of openings is accepted"),
                (false, false) => Ok(obs("mixed: refused", 1, true)),
            }
        }, |i| { let x = get(i); format!("table {} point {} value {}", shows(&ts[tab[&x.c.0]]), shows(&x.pt), show(&x.val)) });
    }
}

// ---- K03 ---------------------------------------------------------------------

fn tr() -> Tr { let mut t = Tr::new(b"batch"); t.append_message(b"start", b"start").unwrap(); t }
fn multi_open(pp: &Pp, ts: &[Vec<F>], pts: &[Vec<F>], evals: &[F], t: &mut Tr) -> Result<Batch, String> {
    let polys: Vec<_> = ts.iter().map(|t| Arc::new(mle(t))).collect();
    guard(|| K::multi_open(pp, &polys, pts, evals, t).map_err(|e| format!("multi_open: {:?}", e)))
}
fn batch_verify(vp: &Vp, cs: &[Comm], pts: &[Vec<F>], b: &Batch, t: &mut Tr) -> Result<(), String> {
    guard(|| match K::batch_verify(vp, cs, pts, b, t) { Ok(true) => Ok(()), Ok(false) => Err("not valid".into()), Err(e) => Err(format!("batch_verify: {:?}", e)) })
}
fn bmsgs(b: &Batch) -> Vec<Vec<F>> { b.clone().vp_sum_check_proof_mut().proofs.iter().map(|m| m.clone().vp_evaluations_mut().clone()).collect() }
fn set_bmsgs(b: &mut Batch, m: Vec<Vec<F>>) { b.vp_sum_check_proof_mut().proofs = m.into_iter().map(IOPProverMessage::vp_new).collect(); }
/// what the prover's weighted sum of the evaluations is, for these tables
fn weighted_sum(pp: &Pp, ts: &[Vec<F>], pts: &[Vec<F>], evals: &[F]) -> Result<F, String> {
    let b = multi_open(pp, ts, pts, evals, &mut tr())?;
    let m = bmsgs(&b);
    Ok(m[0][0] + m[0][1])
}
/// the weights, read off constant tables (the tables themselves are not part of the transcript)
fn weights(pp: &Pp, nv: usize, pts: &[Vec<F>], evals: &[F]) -> Result<Vec<F>, String> {
    (0..pts.len()).map(|k| weighted_sum(pp, &(0..pts.len()).map(|j| vec![f((j == k) as i64); 1 << nv]).collect::<Vec<_>>(), pts, evals)).collect()
}
fn batch_tables(nv: usize, k: usize, flavour: u64) -> Vec<Vec<F>> {
    (0..k).map(|j| match flavour {
        0 => (0..1usize << nv).map(|i| f((i * i * 5 + 3 * j + 2) as i64 % 17 - 6)).collect(),
        1 => (0..1usize << nv).map(|i| f((i == j % (1 << nv)) as i64)).collect(),
        4 => wild(nv, j),
        3 => (0..1usize << nv).map(|i| f((i * i * 5 + 2) as i64 % 17 - 6)).collect(),
        _ => vec![f(if j == 0 { 3 } else { 0 }); 1 << nv],
    }).collect()
}
fn batch_points(nv: usize) -> Vec<Vec<F>> { vec![gpoint(nv, 0), bpoint(1, nv), (0..nv).map(|i| f(5 - i as i64)).collect()] }

#[derive(Clone)]
struct BInst { cs: Vec<Comm>, pts: Vec<Vec<F>>, b: Batch }
struct BSub { name: String, part: u8, act: Box<dyn Fn(&mut BInst) + Send + Sync> }
fn bsubs(h: &BInst) -> Vec<BSub> {
    let mut out: Vec<BSub> = vec![];
    let mut put = |part: u8, name: String, act: Box<dyn Fn(&mut BInst) + Send + Sync>| {
        let mut x = h.clone();
        act(&mut x);
        if x.cs != h.cs || x.pts != h.pts || x.b != h.b { out.push(BSub { name, part, act }); }
    };
    for k in 0..h.cs.len() {
        for (j, g) in groups(h.cs[k].0).into_iter().enumerate() { put(0, format!("commitment {} alternative {}", k, j), Box::new(move |x| x.cs[k] = Commitment(g))); }
        for k2 in k + 1..h.cs.len() {
            put(0, format!("commitments {} and {} swapped", k, k2), Box::new(move |x| x.cs.swap(k, k2)));
            put(0, format!("commitment {} is commitment {}", k, k2), Box::new(move |x| x.cs[k] = x.cs[k2]));
            put(1, format!("points {} and {} swapped", k, k2), Box::new(move |x| x.pts.swap(k, k2)));
            put(1, format!("point {} is point {}", k, k2), Box::new(move |x| x.pts[k] = x.pts[k2].clone()));
            put(2, format!("values {} and {} swapped", k, k2), Box::new(move |x| x.b.f_i_eval_at_point_i.swap(k, k2)));
            for d in [1i64, -1, 12345] { put(2, format!("values {} and {} moved by {}", k, k2, d), Box::new(move |x| { x.b.f_i_eval_at_point_i[k] += f(d); x.b.f_i_eval_at_point_i[k2] -= f(d); })); }
        }
        for j in 0..h.pts[k].len() {
            for v in nums(h.pts[k][j]) { put(1, format!("point {} coordinate {} becomes {}", k, j, show(&v)), Box::new(move |x| x.pts[k][j] = v)); }
            for j2 in j + 1..h.pts[k].len() { put(1, format!("point {} coordinates {} and {} swapped", k, j, j2), Box::new(move |x| x.pts[k].swap(j, j2))); }
        }
        for v in nums(h.b.f_i_eval_at_point_i[k]) { put(2, format!("value {} becomes {}", k, show(&v)), Box::new(move |x| x.b.f_i_eval_at_point_i[k] = v)); }
        put(2, format!("value {} removed", k), Box::new(move |x| { x.b.f_i_eval_at_point_i.remove(k); }));
        if h.cs.len() > 1 {
            put(0, format!("commitment {} removed", k), Box::new(move |x| { x.cs.remove(k); }));
            put(1, format!("point {} removed", k), Box::new(move |x| { x.pts.remove(k); }));
        }
    }
    let m = bmsgs(&h.b);
    for r in 0..m.len() {
        for e in 0..m[r].len() {
            for v in nums(m[r][e]) { put(3, format!("round {} value {} becomes {}", r, e, show(&v)), Box::new(move |x| { let mut m = bmsgs(&x.b); m[r][e] = v; set_bmsgs(&mut x.b, m); })); }
            for e2 in e + 1..m[r].len() { put(3, format!("round {} values {} and {} moved", r, e, e2), Box::new(move |x| { let mut m = bmsgs(&x.b); m[r][e] += f(1); m[r][e2] -= f(1); set_bmsgs(&mut x.b, m); })); }
        }
        put(3, format!("round {} removed", r), Box::new(move |x| { let mut m = bmsgs(&x.b); m.remove(r); set_bmsgs(&mut x.b, m); }));
        put(3, format!("round {} shortened", r), Box::new(move |x| { let mut m = bmsgs(&x.b); m[r].pop(); set_bmsgs(&mut x.b, m); }));
        put(3, format!("round {} lengthened", r), Box::new(move |x| { let mut m = bmsgs(&x.b); m[r].push(f(0)); set_bmsgs(&mut x.b, m); }));
    }
    let mut hb = h.b.clone();
    let p = hb.vp_sum_check_proof_mut().point.clone();
    for j in 0..p.len() { for v in nums(p[j]) { put(4, format!("end point {} becomes {}", j, show(&v)), Box::new(move |x| x.b.vp_sum_check_proof_mut().point[j] = v)); } }
    put(4, "end point shortened".into(), Box::new(|x| { x.b.vp_sum_check_proof_mut().point.pop(); }));
    put(4, "end point lengthened".into(), Box::new(|x| x.b.vp_sum_check_proof_mut().point.push(f(0))));
    let g = hb.vp_g_prime_proof_mut().proofs.clone();
    for j in 0..g.len() {
        for (k, v) in groups(g[j]).into_iter().enumerate() { put(5, format!("opening element {} alternative {}", j, k), Box::new(move |x| x.b.vp_g_prime_proof_mut().proofs[j] = v)); }
        for j2 in j + 1..g.len() { put(5, format!("opening elements {} and {} swapped", j, j2), Box::new(move |x| x.b.vp_g_prime_proof_mut().proofs.swap(j, j2))); }
        put(5, format!("opening element {} removed", j), Box::new(move |x| { x.b.vp_g_prime_proof_mut().proofs.remove(j); }));
    }
    put(5, "opening element added".into(), Box::new(|x| x.b.vp_g_prime_proof_mut().proofs.push(G1::generator())));
    out
}

fn k03(ctx: &Ctx) {
    let n = 6;
    let s = srs(n, 21).unwrap_or_else(|e| panic!("{}", e));
    let (pp, vp) = trim(&s, n).unwrap_or_else(|e| panic!("{}", e));
    let (_, vp2) = trim(&srs(n, 22).unwrap_or_else(|e| panic!("{}", e)), n).unwrap_or_else(|e| panic!("{}", e));
    let (pp, vp, vp2) = (&pp, &vp, &vp2);
    let commits = |ts: &[Vec<F>]| ts.iter().map(|t| commit(pp, t).unwrap()).collect::<Vec<_>>();
    let truth = |ts: &[Vec<F>], pts: &[Vec<F>]| ts.iter().zip(pts).map(|(t, p)| ext(t, p)).collect::<Vec<F>>();
    // complete, for any number of tables and any assignment of points
    let kmax = ctx.q(5usize, 9);
    let mut cases: Vec<(usize, u64, Vec<usize>)> = vec![];
    for nv in 1..=3usize { for fl in 0..3u64 { for k in 1..=kmax {
        let menu: Vec<usize> = if k <= ctx.q(4, 6) { vec![0, 1, 2] } else { vec![0, 1] };
        for i in 0..ipow(menu.len(), k) { cases.push((nv, fl, Idx(i).word(&menu, k))); }
    } } }
    for k in [6usize, 7, 8, 9, 16, 17] { for nv in 1..=2 { for sel in 0..3usize { cases.push((nv, 0, (0..k).map(|j| match sel { 0 => 0, 1 => j % 3, _ => (j / 2) % 3 }).collect())); } } }
    for nv in 1..=6usize { for k in [1usize, 2, 3, 4, 5, 7, 8, 9, 16, 17, 32, 33].into_iter().take(ctx.q(if nv > 4 { 8 } else { 12 }, 12)) { for sel in 0..5usize { cases.push((nv, 4, (0..k).map(|j| match sel { 0 => 0, 1 => j % 3, 2 => (j * j + 1) % 3, 3 => (j + 1 == k) as usize, _ => 2 - 2 * j / k.max(2) }).collect())); } } }
    let cases = &cases;
    let get = |i: u64| { let (nv, fl, w) = &cases[i as usize]; let ts = batch_tables(*nv, w.len(), *fl); let ps = batch_points(*nv); (ts, w.iter().map(|j| ps[*j].clone()).collect::<Vec<_>>()) };
    let descr = |ts: &[Vec<F>], pts: &[Vec<F>]| format!("tables {} points {}", ts.iter().map(|t| shows(t)).collect::<Vec<_>>().join(" "), pts.iter().map(|t| shows(t)).collect::<Vec<_>>().join(" "));
    let whole = |ts: Vec<Vec<F>>, pts: Vec<Vec<F>>| -> CaseRes {
        let r = guard(|| {
            let (mut tp, mut tv) = (tr(), tr());
            let ev = truth(&ts, &pts);
            let b = multi_open(pp, &ts, &pts, &ev, &mut tp)?;
            if b.f_i_eval_at_point_i != ev { return Err("the proof carries other values".into()); }
            batch_verify(vp, &commits(&ts), &pts, &b, &mut tv)?;
            if tp.get_and_append_challenge(b"end").unwrap() != tv.get_and_append_challenge(b"end").unwrap() { return Err("the transcripts end differently".into()); }
            if ts.iter().any(|t| t.iter().any(|x| !x.is_zero())) && batch_verify(vp2, &commits(&ts), &pts, &b, &mut tr()).is_ok() { return Err("accepted under other parameters".into()); }
            let mut other = Tr::new(b"batch");
            other.append_message(b"start", b"else").unwrap();
            if batch_verify(vp, &commits(&ts), &pts, &b, &mut other).is_ok() { return Err("accepted after another history".into()); }
            Ok(())
        });
        match r { Ok(()) => Ok(obs("verified", ts.len() as u64 + 2, true)), Err(e) => viol("complete", e) }
    };
    ctx.space("complete", cases.len() as u64, |i| { let (t, p) = get(i); whole(t, p) }, |i| { let (t, p) = get(i); descr(&t, &p) });
    // points that agree in some coordinates only, tables that are equal
    let mut grid: Vec<(usize, u64, Vec<Vec<i64>>)> = vec![];
    for (nv, k, al) in [(1usize, 2usize, vec![0i64, 1, 5, -3]), (2, 2, vec![0, 1, 5, -3]), (3, 2, vec![0, 1, 5]), (2, 3, vec![1, 5]), (3, 3, vec![1, 5]), (2, 4, vec![1, 5])] {
        let al = if ctx.thorough { vec![0, 1, 5] } else { al };
        let pts: Vec<Vec<i64>> = (0..ipow(al.len(), nv)).map(|i| Idx(i).word(&al, nv)).collect();
        for fl in [0u64, 3] { for i in 0..ipow(pts.len(), k) { if ctx.thorough || fl == 0 || nv + k < 5 { grid.push((nv, fl, Idx(i).word(&pts, k))); } } }
    }
    let grid = &grid;
    let getg = |i: u64| { let (nv, fl, w) = &grid[i as usize]; (batch_tables(*nv, w.len(), *fl), w.iter().map(|p| fs(p)).collect::<Vec<_>>()) };
    ctx.space("points that agree in part", grid.len() as u64, |i| { let (t, p) = getg(i); whole(t, p) }, |i| { let (t, p) = getg(i); descr(&t, &p) });
    // wrong values handed to the prover
    let mut wrong: Vec<(usize, Vec<usize>, Vec<i64>)> = vec![];
    for nv in 1..=2usize { for k in 1..=ctx.q(3usize, 4) { for i in 0..ipow(2, k) { for j in 0..ipow(4, k) {
        let d = Idx(j).word(&[0i64, 1, -1, 1000], k);
        if d.iter().any(|x| *x != 0) { wrong.push((nv, Idx(i).word(&[0usize, 1], k), d)); }
    } } } }
    let wrong = &wrong;
    let getw = |i: u64| { let (nv, w, d) = &wrong[i as usize]; let ts = batch_tables(*nv, w.len(), 0); let ps = batch_points(*nv); let pts: Vec<_> = w.iter().map(|j| ps[*j].clone()).collect(); let ev: Vec<F> = truth(&ts, &pts).iter().zip(d).map(|(x, y)| *x + f(*y)).collect(); (ts, pts, ev) };
    ctx.space("wrong-values", wrong.len() as u64, |i| {
        let (ts, pts, ev) = getw(i);
        match multi_open(pp, &ts, &pts, &ev, &mut tr()).and_then(|b| batch_verify(vp, &commits(&ts), &pts, &b, &mut tr())) {
            Ok(()) => viol("wrong-values", "wrong values were accepted"),
            Err(_) => Ok(obs("refused", 2, true)),
        }
    }, |i| { let (t, p, e) = getw(i); format!("{} values {}", descr(&t, &p), shows(&e)) });
    // substitutions
    let insts: Vec<(Vec<Vec<F>>, Vec<Vec<F>>)> = [(1usize, vec![0usize], 0u64), (1, vec![0, 0], 0), (1, vec![0, 2], 0), (2, vec![0, 1, 0], 0), (2, vec![0, 0, 0], 0), (3, vec![2, 0], 0), (2, vec![0, 1, 2, 0, 1], 0), (5, vec![0, 2, 1, 1, 0, 2, 0], 4), (4, vec![0; 9], 4), (6, vec![0, 1, 2], 4)].iter().map(|(nv, w, fl)| { let ps = batch_points(*nv); (batch_tables(*nv, w.len(), *fl), w.iter().map(|j| ps[*j].clone()).collect()) }).collect();
    for (k, (ts, pts)) in insts.iter().enumerate() {
        let b = multi_open(pp, ts, pts, &truth(ts, pts), &mut tr()).unwrap_or_else(|e| panic!("{}", e));
        let h = BInst { cs: commits(ts), pts: pts.clone(), b };
        let ss = bsubs(&h);
        let h = &h;
        let judge = |x: &BInst, what: &str| match batch_verify(vp, &x.cs, &x.pts, &x.b, &mut tr()) {
            Ok(()) => viol("substituted", format!("accepted: {}", what)),
            Err(_) => Ok(obs("refused", 1, true)),
        };
        ctx.space(&format!("one-{}", k), ss.len() as u64, |i| { let mut x = h.clone(); (ss[i as usize].act)(&mut x); judge(&x, &ss[i as usize].name) }, |i| format!("{}: {}", descr(ts, pts), ss[i as usize].name));
        if k > 6 && !ctx.thorough { continue; }
        let prs: Vec<(usize, usize)> = (0..ss.len()).flat_map(|a| (a + 1..ss.len()).map(move |b| (a, b))).filter(|(a, b)| ss[*a].part != ss[*b].part && (ctx.thorough || k < 3 || (a + b) % 7 == 0)).collect();
        ctx.space(&format!("two-{}", k), prs.len() as u64, |i| {
            let (a, b) = prs[i as usize];
            let x = match guard(|| { let mut x = h.clone(); (ss[a].act)(&mut x); (ss[b].act)(&mut x); Ok(x) }) { Ok(x) => x, Err(_) => return Ok(obs("not applicable together", 0, false)) };
            judge(&x, &format!("{} and {}", ss[a].name, ss[b].name))
        }, |i| format!("{}: {} and {}", descr(ts, pts), ss[prs[i as usize].0].name, ss[prs[i as usize].1].name));
    }
    // values and points come before the combining challenge: the weights of two different
    // statements are unrelated
    for k in 2..=3usize {
        let ps = batch_points(1);
        let mut st: Vec<(Vec<Vec<F>>, Vec<F>)> = vec![];
        for i in 0..ipow(3, k) { for j in 0..ipow(3, k) { if k == 2 || (i + j) % 5 == 0 { st.push((Idx(i).word(&ps, k), Idx(j).word(&fs(&[0, 1, 5]), k))); } } }
        let seen: Mutex<HashMap<F, usize>> = Mutex::new(HashMap::new());
        let st = &st;
        ctx.space(&format!("weights-{}", k), st.len() as u64, |i| {
            let (pts, ev) = &st[i as usize];
            let w = weights(pp, 1, pts, ev).map_err(|e| Viol { key: "weights".into(), msg: e })?;
            if k == 2 && w[0] + w[1] != F::one() { return viol("weights", "the weights do not add up to one"); }
            if w.iter().any(|x| x.is_zero() || x.is_one()) || (1..k).any(|j| w[j] == w[0]) { return viol("weights", format!("trivial weights {}", shows(&w))); }
            let mut g = seen.lock().unwrap();
            if let Some(o) = g.insert(w[0], i as usize) { return viol("weights", format!("the same weights as for points {:?} values {}", st[o].0.iter().map(|p| shows(p)).collect::<Vec<_>>(), shows(&st[o].1))); }
            Ok(obs("own weights", k as u64, true))
        }, |i| format!("points {:?} values {}", st[i as usize].0.iter().map(|p| shows(p)).collect::<Vec<_>>(), shows(&st[i as usize].1)));
    }
    // forging: values moved so that a weighted sum seen before stays the same
    let fk: Vec<(usize, usize, usize)> = (2..=4usize).flat_map(|k| (0..k).flat_map(move |a| (0..k).filter(move |b| *b != a).map(move |b| (k, a, b)))).collect();
    ctx.space("weighted-values", fk.len() as u64 * 2, |i| {
        let (k, a, b) = fk[i as usize / 2];
        let nv = 1 + i as usize % 2;
        let ts = batch_tables(nv, k, 0);
        let pts: Vec<Vec<F>> = (0..k).map(|j| batch_points(nv)[j % 3].clone()).collect();
        let mut ev = truth(&ts, &pts);
        let w = weights(pp, nv, &pts, &ev).map_err(|e| Viol { key: "weighted-values".into(), msg: e })?;
        ev[a] += w[b];
        ev[b] -= w[a];
        match multi_open(pp, &ts, &pts, &ev, &mut tr()).and_then(|p| batch_verify(vp, &commits(&ts), &pts, &p, &mut tr())) {
            Ok(()) => viol("weighted-values", "values chosen after seeing the combining challenge were accepted"),
            Err(_) => Ok(obs("refused", 2, true)),
        }
    }, |i| format!("{:?}", fk[i as usize / 2]));
    // forging: the polynomial opened at a point of the prover's choice. Constant round
    // messages end at the same value whatever the challenges are; a point at which the
    // combined polynomial has that value is found by solving a quadratic equation.
    let mut ch: Vec<(usize, usize, i64)> = vec![];
    for nv in 1..=3usize { for k in 1..=3usize { for e in 1..=8i64 { ch.push((nv, k, e)); } } }
    let ch = &ch;
    ctx.space("chosen-point", ch.len() as u64, |i| {
        let (nv, k, e) = ch[i as usize];
        let ts = batch_tables(nv, k, 0);
        let z = gpoint(nv, 0);
        let pts = vec![z.clone(); k];
        let mut ev = truth(&ts, &pts);
        ev[k - 1] += f(e);
        let r = guard(|| {
            let w = weights(pp, nv, &pts, &ev)?;
            let sum: F = w.iter().zip(&ev).map(|(a, b)| *a * b).sum();
            let comb: Vec<F> = (0..1usize << nv).map(|r| (0..k).map(|j| w[j] * ts[j][r]).sum()).collect();
            let mut target = sum;
            let mut rounds = vec![];
            for _ in 0..nv { target *= f(2).inverse().unwrap(); rounds.push(vec![target; 3]); }
            // eq(a, z) comb(a) = target in the first coordinate of a, the others fixed
            let rest = gpoint(nv - 1, 5);
            let at = |x: F| { let mut p = vec![x]; p.extend(&rest); p };
            let h = |x: F| eq_ref(&at(x), &z) * ext(&comb, &at(x)) - target;
            let (h0, h1, h2) = (h(f(0)), h(f(1)), h(f(2)));
            let half = f(2).inverse().unwrap();
            let a = (h2 - h1 - h1 + h0) * half;
            let b = h1 - h0 - a;
            let disc = b * b - f(4) * a * h0;
            let root = match disc.sqrt() { Some(r) => r, None => return Ok(None) };
            let x = (root - b) * (a + a).inverse().unwrap();
            assert!(h(x).is_zero());
            let a2 = at(x);
            let eqz = eq_ref(&a2, &z);
            let (p, _) = open(pp, &comb.iter().map(|c| *c * eqz).collect::<Vec<_>>(), &a2)?;
            let mut forged = multi_open(pp, &ts, &pts, &ev, &mut tr())?;
            set_bmsgs(&mut forged, rounds);
            forged.vp_sum_check_proof_mut().point = a2;
            *forged.vp_g_prime_proof_mut() = p;
            Ok(Some(batch_verify(vp, &commits(&ts), &pts, &forged, &mut tr())))
        });
        match r {
            Err(e) => viol("chosen-point", e),
            Ok(None) => Ok(obs("no such point", 0, false)),
            Ok(Some(Ok(()))) => viol("chosen-point", "wrong values were accepted with an opening at a point of the prover's choice"),
            Ok(Some(Err(_))) => Ok(obs("forged: refused", 3, true)),
        }
    }, |i| format!("variables, tables, error {:?}", ch[i as usize]));
}
