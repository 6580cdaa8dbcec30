//! Runs a gadget on both sides and judges what the verifier ended up accepting.
//!
//! `judge` is the "ideal verifier": it runs the real prover gadget, hands the
//! verifier the prover's commitments and the true sums, runs the real verifier
//! gadget and then decides exactly (on every row) whether every claim the
//! verifier recorded is true.  `real` additionally runs the real
//! compile_proof / verify_claims pipeline.
use vpmc::*;
use crate::mock::*;
use ark_bls12_381::{Bls12_381, Fr};
use ark_ff::{One, PrimeField, Zero};
use ark_poly::DenseMultilinearExtension;
use std::collections::HashMap;
use zk_sql::tracker::prelude::*;
use zk_sql::tracker::vp_hooks::{CompiledZKSQLProof, ProverTracker, VerifierTracker, TAMPER};

pub type E = Bls12_381;
pub type F = Fr;
pub type Mle = DenseMultilinearExtension<F>;
pub type PT = ProverTrackerRef<E, Mock>;
pub type VT = VerifierTrackerRef<E, Mock>;
pub type TP = TrackedPoly<E, Mock>;
pub type TC = TrackedComm<E, Mock>;
pub type PBag = Bag<E, Mock>;
pub type VBag = BagComm<E, Mock>;

/// integers from BIG on stand for field elements from 2^64 on: BIG+k is 2^64+k
pub const BIG: i64 = 1 << 40;
pub fn f(x: i64) -> F {
    if x >= BIG {
        return F::from(1u128 << 64) + F::from((x - BIG) as u64);
    }
    if x < 0 { -F::from((-x) as u64) } else { F::from(x as u64) }
}
pub fn show(x: &F) -> String {
    let n = -*x;
    let big = |y: &F| { let b = y.into_bigint(); b.0[1] == 0 && b.0[2] == 0 && b.0[3] == 0 && b.0[0] < 1 << 40 };
    if big(x) { format!("{}", x.into_bigint().0[0]) } else if big(&n) { format!("-{}", n.into_bigint().0[0]) } else { format!("{}", x) }
}
pub fn shows(xs: &[F]) -> String {
    format!("[{}]", xs.iter().map(show).collect::<Vec<_>>().join(","))
}
pub fn mle(evals: &[F]) -> Mle {
    let nv = evals.len().trailing_zeros() as usize;
    assert_eq!(1 << nv, evals.len());
    DenseMultilinearExtension::from_evaluations_slice(nv, evals)
}
pub fn bpoint(i: usize, nv: usize) -> Vec<F> {
    (0..nv).map(|k| if (i >> k) & 1 == 1 { F::one() } else { F::zero() }).collect()
}

/// how an input polynomial of a gadget comes about (mirrored on both sides)
#[derive(Clone, Debug)]
pub enum Op {
    C(Vec<F>),
    Add(usize, usize),
    Sub(usize, usize),
    Mul(usize, usize),
    AddS(usize, F),
    MulS(usize, F),
    Front(usize, usize),
    Back(usize, usize),
}
impl Op {
    pub fn show(&self) -> String {
        match self {
            Op::C(v) => format!("commit{}", shows(v)),
            Op::Add(a, b) => format!("p{}+p{}", a, b),
            Op::Sub(a, b) => format!("p{}-p{}", a, b),
            Op::Mul(a, b) => format!("p{}*p{}", a, b),
            Op::AddS(a, c) => format!("p{}+{}", a, show(c)),
            Op::MulS(a, c) => format!("p{}*{}", a, show(c)),
            Op::Front(a, k) => format!("front(p{},{})", a, k),
            Op::Back(a, k) => format!("back(p{},{})", a, k),
        }
    }
}
/// the table a recipe denotes (reference)
pub fn tables(ops: &[Op]) -> Vec<Vec<F>> {
    let mut t: Vec<Vec<F>> = vec![];
    for op in ops {
        let z = |a: &Vec<F>, b: &Vec<F>, g: &dyn Fn(F, F) -> F| a.iter().zip(b).map(|(x, y)| g(*x, *y)).collect::<Vec<F>>();
        let n = match op {
            Op::C(v) => v.clone(),
            Op::Add(a, b) => z(&t[*a], &t[*b], &|x, y| x + y),
            Op::Sub(a, b) => z(&t[*a], &t[*b], &|x, y| x - y),
            Op::Mul(a, b) => z(&t[*a], &t[*b], &|x, y| x * y),
            Op::AddS(a, c) => t[*a].iter().map(|x| *x + c).collect(),
            Op::MulS(a, c) => t[*a].iter().map(|x| *x * c).collect(),
            Op::Front(a, k) => (0..t[*a].len() << k).map(|i| t[*a][i >> k]).collect(),
            Op::Back(a, k) => { let l = t[*a].len(); (0..l << k).map(|i| t[*a][i % l]).collect() }
        };
        t.push(n);
    }
    t
}
pub fn p_apply(t: &mut PT, polys: &[TP], op: &Op) -> TP {
    match op {
        Op::C(v) => t.track_and_commit_poly(mle(v)).unwrap(),
        Op::Add(a, b) => polys[*a].add_poly(&polys[*b]),
        Op::Sub(a, b) => polys[*a].sub_poly(&polys[*b]),
        Op::Mul(a, b) => polys[*a].mul_poly(&polys[*b]),
        Op::AddS(a, c) => polys[*a].add_scalar(*c),
        Op::MulS(a, c) => polys[*a].mul_scalar(*c),
        Op::Front(a, k) => polys[*a].increase_nv_front(*k),
        Op::Back(a, k) => polys[*a].increase_nv_back(*k),
    }
}
pub fn v_apply(t: &mut VT, comms: &[TC], op: &Op, pid: TrackerID) -> TC {
    match op {
        Op::C(_) => t.transfer_prover_comm(pid),
        Op::Add(a, b) => comms[*a].add_comms(&comms[*b]),
        Op::Sub(a, b) => comms[*a].sub_comms(&comms[*b]),
        Op::Mul(a, b) => comms[*a].mul_comms(&comms[*b]),
        Op::AddS(a, c) => comms[*a].add_scalar(*c),
        Op::MulS(a, c) => comms[*a].mul_scalar(*c),
        Op::Front(a, k) => comms[*a].increase_nv_front(*k),
        Op::Back(a, k) => comms[*a].increase_nv_back(*k),
    }
}

pub struct Verdict {
    /// prover gadget refused (error or panic)
    pub prover: Result<(), String>,
    /// verifier gadget refused (error or panic)
    pub verifier: Result<(), String>,
    /// every claim the verifier recorded is true of the committed polynomials
    pub claims_true: bool,
    /// prover and verifier agree on ids, claims and the claimed polynomials, row by row
    pub mirror: Result<(), String>,
    /// verdict of compile_proof + verify_claims, when run
    pub real: Option<Result<(), String>>,
    pub why: String,
    /// rows of the output polynomials (prover side)
    pub outs: Vec<Vec<F>>,
    pub nclaims: u64,
}
impl Verdict {
    /// what an ideal verifier of the recorded claims says
    pub fn sound_accept(&self) -> bool {
        self.prover.is_ok() && self.verifier.is_ok() && self.claims_true
    }
    pub fn complete_accept(&self) -> bool {
        self.sound_accept() && self.mirror.is_ok()
    }
    pub fn show(&self) -> String {
        format!("prover={:?} verifier={:?} claims_true={} mirror={:?} real={:?} {}", self.prover, self.verifier, self.claims_true, self.mirror, self.real, self.why)
    }
    /// compare with the reference verdict
    pub fn expect(&self, key: &str, want: Want) -> CaseRes {
        let how = if self.prover.is_err() { "refused by prover" } else if self.verifier.is_err() { "refused by verifier" } else if !self.claims_true { "a recorded claim is false" } else { "accepted" };
        match want {
            Want::Accept => {
                if !self.complete_accept() {
                    return viol(key, format!("true statement not accepted: {}", self.show()));
                }
                if let Some(Err(e)) = &self.real {
                    return viol(key, format!("true statement rejected by compile_proof/verify_claims: {}", e));
                }
            }
            Want::Reject => {
                if self.sound_accept() {
                    return viol(key, format!("false statement accepted: {}", self.show()));
                }
                if let Some(Ok(())) = &self.real {
                    return viol(key, format!("false statement accepted by compile_proof/verify_claims: {}", self.show()));
                }
            }
            Want::Any => {}
        }
        if want != Want::Reject && self.prover.is_ok() && self.verifier.is_ok() {
            if let Err(e) = &self.mirror {
                return viol(format!("{}:mirror", key), format!("prover and verifier do not describe the same claims: {}", e));
            }
        }
        Ok(obs(format!("{:?}: {}", want, how), self.nclaims + 1, self.real.is_some()))
    }
}

/// what the reference semantics says about a statement
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Want {
    /// it is true and the honest prover is able to prove it
    Accept,
    /// it is false
    Reject,
    /// it is true but outside the honest prover's abilities
    Any,
}
impl Want {
    pub fn iff(b: bool) -> Want {
        if b { Want::Accept } else { Want::Reject }
    }
}

/// the proof object an honest (or cheating) prover would hand over, without the
/// sumcheck part: commitments and the true sums
pub fn bare_proof(pt: &ProverTracker<E, Mock>) -> CompiledZKSQLProof<E, Mock> {
    let mut pt = pt.clone();
    let n = pt.materialized_polys.values().map(|p| p.num_vars).max().unwrap_or(0);
    let mut sums = HashMap::new();
    for c in pt.sum_check_claims.clone() {
        let e = pt.evaluations(c.label).clone();
        let nv = e.len().trailing_zeros() as usize;
        let s: F = e.iter().sum::<F>() * F::from(1u64 << (n - nv));
        sums.insert(c.label, s);
    }
    let mut p = CompiledZKSQLProof::<E, Mock>::default();
    p.comms = pt.materialized_comms.clone();
    p.sumcheck_claims = sums;
    p
}

fn fill_queries(pt: &ProverTracker<E, Mock>, vt: &VerifierTracker<E, Mock>) {
    let mut q = vt.query_map.borrow_mut();
    for (id, c) in pt.materialized_comms.iter() {
        for i in 0..c.evals.len() {
            q.insert((*id, bpoint(i, c.nv as usize)), c.evals[i]);
        }
    }
}

/// a deviation of a dishonest prover: what it does to the table it is about to
/// commit, given the number of the commitment (counted from the gadget's start)
/// and everything committed so far
type Deviation<'a> = &'a dyn Fn(usize, &mut Vec<F>);

/// what a run exposed to a dishonest prover
#[derive(Default, Clone)]
pub struct Trace {
    /// tables the gadget itself committed, in order
    pub aux: Vec<Vec<F>>,
    /// true sums of the recorded sum claims, in order
    pub sums: Vec<F>,
}

struct TamperGuard;
impl Drop for TamperGuard {
    fn drop(&mut self) {
        TAMPER.with(|t| *t.borrow_mut() = None);
    }
}

/// run gadget closures on the given inputs; see module documentation
pub fn run_full(
    ops: &[Op],
    prove: &dyn Fn(&mut PT, &[TP]) -> Result<Vec<TP>, String>,
    verify: &dyn Fn(&mut VT, &[TC]) -> Result<Vec<TC>, String>,
    real: bool,
    dev: Option<Deviation>,
    want_trace: bool,
) -> (Verdict, Trace) {
    let mut v = Verdict { prover: Ok(()), verifier: Ok(()), claims_true: false, mirror: Ok(()), real: None, why: String::new(), outs: vec![], nclaims: 0 };
    let mut trace = Trace::default();
    let mut pt = PT::new_from_pcs_params(());
    let mut polys: Vec<TP> = vec![];
    for op in ops {
        let p = p_apply(&mut pt, &polys, op);
        polys.push(p);
    }
    let log: std::rc::Rc<std::cell::RefCell<Vec<Vec<F>>>> = Default::default();
    let pouts = {
        let _g = TamperGuard;
        if dev.is_some() || want_trace {
            let log = log.clone();
            // the closure must be 'static for the hook; it is removed by the guard before `dev` ends
            let dev: Option<Deviation<'static>> = dev.map(|d| unsafe { std::mem::transmute::<Deviation, Deviation<'static>>(d) });
            let mut k = 0usize;
            TAMPER.with(|t| *t.borrow_mut() = Some(Box::new(move |any| {
                let m = any.downcast_mut::<Mle>().expect("hook called with another type");
                if let Some(d) = dev {
                    let n = m.evaluations.len();
                    d(k, &mut m.evaluations);
                    assert_eq!(n, m.evaluations.len());
                }
                log.borrow_mut().push(m.evaluations.clone());
                k += 1;
            })));
        }
        guard(|| prove(&mut pt, &polys))
    };
    trace.aux = log.borrow().clone();
    let pouts = match pouts {
        Ok(o) => o,
        Err(e) => { v.prover = Err(e); return (v, trace); }
    };
    let base = pt.clone_underlying_tracker();
    let proof = bare_proof(&base);
    if want_trace {
        let mut p = base.clone();
        for c in p.sum_check_claims.clone() {
            trace.sums.push(p.evaluations(c.label).iter().sum());
        }
    }
    let run_v = |proof: CompiledZKSQLProof<E, Mock>| -> Result<(VT, Vec<TC>), String> {
        guard(|| {
            let mut vt = VT::new_from_pcs_params(());
            vt.set_compiled_proof(proof);
            let mut comms: Vec<TC> = vec![];
            for (op, p) in ops.iter().zip(&polys) {
                let c = v_apply(&mut vt, &comms, op, p.id);
                comms.push(c);
            }
            let outs = verify(&mut vt, &comms)?;
            Ok((vt, outs))
        })
    };
    let ideal = run_v(proof);
    match &ideal {
        Err(e) => { v.verifier = Err(e.clone()); }
        Ok((vt, vouts)) => {
            let r = guard(|| { judge_claims(&base, vt, &pouts, vouts, &mut v); Ok(()) });
            if let Err(e) = r {
                v.claims_true = false;
                v.mirror = Err(format!("evaluating the verifier's claims: {}", e));
            }
        }
    }
    if real {
        let r = guard(|| {
            let proof = pt.compile_proof().map_err(|e| format!("compile_proof: {:?}", e))?;
            let (mut vt, _) = run_v(proof).map_err(|e| format!("verifier gadget: {}", e))?;
            vt.transfer_proof_poly_evals();
            vt.verify_claims().map_err(|e| format!("verify_claims: {:?}", e))
        });
        v.real = Some(r);
    }
    (v, trace)
}

pub fn run_gadget(
    ops: &[Op],
    prove: impl Fn(&mut PT, &[TP]) -> Result<Vec<TP>, String>,
    verify: impl Fn(&mut VT, &[TC]) -> Result<Vec<TC>, String>,
    real: bool,
) -> Verdict {
    run_full(ops, &prove, &verify, real, None, false).0
}

/// Judge one statement.  With `attack`, a false statement is additionally run
/// with every deviation of the dishonest prover's repertoire at every
/// commitment the gadget makes on its own:
///  * every single row set to 0, 1, -1, 2, its value plus/minus one;
///  * the whole table replaced by zeros, ones, its reverse, or any table
///    committed before it (inputs included) of the same size;
///  * tables of at most two rows: every word over {0, 1, -1, 2, old values};
///  * any single row moved by the amount that makes sums of neighbouring sum
///    claims agree (what a prover who knows the challenge would do).
/// None of them may get the false statement accepted.
pub fn decide(
    key: &str,
    ops: &[Op],
    prove: impl Fn(&mut PT, &[TP]) -> Result<Vec<TP>, String>,
    verify: impl Fn(&mut VT, &[TC]) -> Result<Vec<TC>, String>,
    want: Want,
    real: bool,
    attack: bool,
) -> CaseRes {
    let (v, trace) = run_full(ops, &prove, &verify, real, None, attack && want == Want::Reject);
    let mut o = v.expect(key, want)?;
    if want != Want::Reject || !attack {
        return Ok(o);
    }
    let inputs: Vec<Vec<F>> = ops.iter().filter_map(|o| if let Op::C(v) = o { Some(v.clone()) } else { None }).collect();
    let mut tried = 0u64;
    let mut try_one = |what: &dyn Fn() -> String, k: usize, d: &dyn Fn(&mut Vec<F>)| -> Result<Trace, Viol> {
        tried += 1;
        let dev = |i: usize, t: &mut Vec<F>| if i == k { d(t) };
        let (v, t) = run_full(ops, &prove, &verify, false, Some(&dev), true);
        if v.sound_accept() {
            return viol(format!("{}:attack", key), format!("false statement accepted when the prover, at its commitment {} ({}), {}: {}", k, shows(&trace.aux[k]), what(), v.show()));
        }
        Ok(t)
    };
    for k in 0..trace.aux.len() {
        let old = &trace.aux[k];
        let n = old.len();
        let small = [f(0), f(1), f(-1), f(2)];
        for r in 0..n {
            for x in small.iter().cloned().chain([old[r] + f(1), old[r] - f(1)]) {
                if x != old[r] {
                    try_one(&|| format!("sets row {} to {}", r, show(&x)), k, &|t| t[r] = x)?;
                }
            }
        }
        for x in [f(0), f(1)] {
            try_one(&|| format!("commits all {}", show(&x)), k, &|t| t.iter_mut().for_each(|y| *y = x))?;
        }
        try_one(&|| "reverses the table".into(), k, &|t| t.reverse())?;
        for src in inputs.iter().chain(&trace.aux[..k]) {
            if src.len() == n && src != old {
                try_one(&|| format!("commits {}", shows(src)), k, &|t| t.clone_from(src))?;
            }
        }
        if n == 2 {
            let vals: Vec<F> = small.iter().cloned().chain(old.iter().cloned()).collect();
            for a in &vals { for b in &vals {
                try_one(&|| format!("commits [{},{}]", show(a), show(b)), k, &|t| { t[0] = *a; t[1] = *b })?;
            } }
        }
        for r in if n > 1 { vec![0, n - 1] } else { vec![0] } {
            let t1 = try_one(&|| format!("adds one to row {}", r), k, &|t| t[r] += f(1))?;
            if t1.sums.len() != trace.sums.len() { continue; }
            let m = t1.sums.len();
            let mut deltas: Vec<F> = vec![];
            for a in 0..m { for size in 2..=4usize { if a + size > m { continue; } for j in 1..size {
                let tot = |s: &[F]| -> F { s[a..a + j].iter().sum::<F>() - s[a + j..a + size].iter().sum::<F>() };
                let (t, s) = (tot(&trace.sums), tot(&t1.sums) - tot(&trace.sums));
                if t.is_zero() || s.is_zero() { continue; }
                let d = -t / s;
                if !deltas.contains(&d) { deltas.push(d); }
            } } }
            for d in deltas {
                try_one(&|| format!("moves row {} by {} to balance the sums", r, show(&d)), k, &|t| t[r] += d)?;
            }
        }
    }
    o.steps += tried * (v.nclaims + 1);
    o.outcome = format!("{} (and under {} deviations)", o.outcome, if tried == 0 { "0" } else { "all" });
    Ok(o)
}

fn judge_claims(base: &ProverTracker<E, Mock>, vt: &VT, pouts: &[TP], vouts: &[TC], v: &mut Verdict) {
    let mut pt = base.clone();
    let vt = vt.clone_underlying_tracker();
    fill_queries(base, &vt);
    v.nclaims = (vt.zero_check_claims.len() + vt.sum_check_claims.len()) as u64;
    if pt.id_counter != vt.id_counter {
        v.mirror = Err(format!("prover used {} ids, verifier {}", pt.id_counter, vt.id_counter));
    }
    let pz: Vec<_> = pt.zero_check_claims.iter().map(|c| c.label).collect();
    let vz: Vec<_> = vt.zero_check_claims.iter().map(|c| c.label).collect();
    let ps: Vec<_> = pt.sum_check_claims.iter().map(|c| c.label).collect();
    let vs: Vec<_> = vt.sum_check_claims.iter().map(|c| c.label).collect();
    if pz != vz || ps != vs {
        v.mirror = Err(format!("claims differ: prover zero {:?} sum {:?}, verifier zero {:?} sum {:?}", pz, ps, vz, vs));
    }
    let n = base.materialized_polys.values().map(|p| p.num_vars).max().unwrap_or(0);
    let mut all = true;
    // rows of a verifier-side claim; the number of variables comes from the prover's polynomial
    let rows = |pt: &mut ProverTracker<E, Mock>, id: TrackerID| -> (Vec<F>, Vec<F>) {
        let pe = pt.evaluations(id).clone();
        let nv = pe.len().trailing_zeros() as usize;
        let ve: Vec<F> = (0..pe.len()).map(|i| vt.eval_virtual_comm(id, &bpoint(i, nv)).unwrap()).collect();
        (pe, ve)
    };
    for c in vt.zero_check_claims.iter() {
        let (pe, ve) = rows(&mut pt, c.label);
        if ve.iter().any(|x| !x.is_zero()) {
            all = false;
            v.why = format!("zero claim {} is {}", c.label, trunc(&shows(&ve), 300));
        }
        if pe != ve {
            v.mirror = Err(format!("zero claim {}: prover rows {} verifier rows {}", c.label, trunc(&shows(&pe), 200), trunc(&shows(&ve), 200)));
        }
    }
    for c in vt.sum_check_claims.iter() {
        let (pe, ve) = rows(&mut pt, c.label);
        let nv = pe.len().trailing_zeros() as usize;
        let s: F = ve.iter().sum::<F>() * F::from(1u64 << (n - nv));
        if s != c.claimed_sum {
            all = false;
            v.why = format!("sum claim {}: claimed {} true {}", c.label, show(&c.claimed_sum), show(&s));
        }
        if pe != ve {
            v.mirror = Err(format!("sum claim {}: prover rows {} verifier rows {}", c.label, trunc(&shows(&pe), 200), trunc(&shows(&ve), 200)));
        }
    }
    for o in pouts {
        v.outs.push(pt.evaluations(o.id).clone());
    }
    if pouts.len() != vouts.len() {
        v.mirror = Err("different number of output columns".into());
    } else {
        for (o, c) in pouts.iter().zip(vouts) {
            let pe = pt.evaluations(o.id).clone();
            let nv = pe.len().trailing_zeros() as usize;
            let ve: Vec<F> = (0..pe.len()).map(|i| vt.eval_virtual_comm(c.id, &bpoint(i, nv)).unwrap()).collect();
            if o.id != c.id || pe != ve {
                v.mirror = Err(format!("output {}/{}: prover rows {} verifier rows {}", o.id, c.id, shows(&pe), shows(&ve)));
            }
        }
    }
    v.claims_true = all;
}

// ---- reference semantics helpers -------------------------------------------------

/// (value, weight) multiset as an association list keyed by value
pub type MSet = HashMap<F, F>;
pub fn add_weighted(m: &mut MSet, vals: &[F], sel: &[F], mult: &[F], sign: F) {
    for ((v, s), k) in vals.iter().zip(sel).zip(mult) {
        *m.entry(*v).or_insert_with(F::zero) += *s * k * sign;
    }
}
pub fn is_zero_mset(m: &MSet) -> bool {
    m.values().all(|x| x.is_zero())
}
pub fn ones(n: usize) -> Vec<F> {
    vec![F::one(); n]
}
/// values of active rows (boolean selector)
pub fn active(vals: &[F], sel: &[F]) -> Vec<F> {
    vals.iter().zip(sel).filter(|(_, s)| !s.is_zero()).map(|(v, _)| *v).collect()
}
pub fn es<T, E2: std::fmt::Debug>(r: Result<T, E2>) -> Result<T, String> {
    r.map_err(|e| format!("{:?}", e))
}
