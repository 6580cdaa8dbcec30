//! Whole sessions: record claims, compile, verify (T03, T04, T06, T07)
use vpmc::*;
use crate::mock::*;
use crate::run::{bpoint, f, mle, show, shows, E, F};
use super::ops::ext;
use ark_ec::{pairing::Pairing, AffineRepr, CurveGroup};
use ark_ff::{Field, One, Zero};
use std::collections::BTreeMap;
use std::sync::OnceLock;
use zk_sql::subroutines::pcs::prelude::{Commitment, MultilinearKzgPCS};
use zk_sql::subroutines::pcs::PolynomialCommitmentScheme;
use zk_sql::tracker::prelude::*;
use zk_sql::tracker::vp_hooks::{CompiledZKSQLProof, ProverTracker};

pub type Kzg = MultilinearKzgPCS<E>;
pub type G1 = <E as Pairing>::G1Affine;

/// a commitment scheme with ready parameters
pub trait Scheme: PolynomialCommitmentScheme<E> + 'static {
    fn pp() -> Self::ProverParam;
    fn vp() -> Self::VerifierParam;
    const REAL: bool;
}
impl Scheme for Mock {
    fn pp() {}
    fn vp() {}
    const REAL: bool = false;
}
type KP = (<Kzg as PolynomialCommitmentScheme<E>>::ProverParam, <Kzg as PolynomialCommitmentScheme<E>>::VerifierParam);
pub fn kzg_params(seed: u64) -> KP {
    use ark_std::rand::SeedableRng;
    let mut rng = ark_std::rand::rngs::StdRng::seed_from_u64(seed);
    let srs = <Kzg as PolynomialCommitmentScheme<E>>::gen_srs_for_testing(&mut rng, 4).unwrap();
    <Kzg as PolynomialCommitmentScheme<E>>::trim(srs, None, Some(4)).unwrap()
}
pub fn kzg_cached(seed: u64) -> &'static KP {
    static A: OnceLock<KP> = OnceLock::new();
    static B: OnceLock<KP> = OnceLock::new();
    if seed == 0 { A.get_or_init(|| kzg_params(0)) } else { B.get_or_init(|| kzg_params(1)) }
}
impl Scheme for Kzg {
    fn pp() -> Self::ProverParam { kzg_cached(0).0.clone() }
    fn vp() -> Self::VerifierParam { kzg_cached(0).1.clone() }
    const REAL: bool = true;
}

/// the polynomial a claim is about
#[derive(Clone, Debug, PartialEq)]
pub enum Ex {
    P(usize),
    Diff(usize, usize),
    Prod(usize, usize),
    Cube(usize),
    PlusC(usize, i64),
    Times(usize, i64),
    Front(usize, usize),
    Back(usize, usize),
    /// (a - b) * c
    DiffProd(usize, usize, usize),
    Pow(usize, usize),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Claim {
    Zero(Ex),
    /// the verifier takes the sum from the proof
    Sum(Ex),
    /// the sum is public: the true one, at the size of the largest table, plus this
    SumOff(Ex, i64),
    /// the sum is public: the given number
    SumIs(Ex, i64),
}
#[derive(Clone, Debug, Default)]
pub struct Sess {
    pub tables: Vec<Vec<F>>,
    pub claims: Vec<Claim>,
}
impl Claim {
    pub fn ex(&self) -> &Ex {
        match self { Claim::Zero(e) | Claim::Sum(e) | Claim::SumOff(e, _) | Claim::SumIs(e, _) => e }
    }
}
impl Sess {
    pub fn show(&self) -> String {
        format!("tables {} claims {:?}", self.tables.iter().map(|t| shows(t)).collect::<Vec<_>>().join(" "), self.claims)
    }
    pub fn nv(&self, i: usize) -> usize { self.tables[i].len().trailing_zeros() as usize }
    pub fn rows(&self, e: &Ex) -> Vec<F> {
        let t = &self.tables;
        let z = |a: &[F], b: &[F], g: &dyn Fn(F, F) -> F| a.iter().zip(b).map(|(x, y)| g(*x, *y)).collect::<Vec<F>>();
        match e {
            Ex::P(a) => t[*a].clone(),
            Ex::Diff(a, b) => z(&t[*a], &t[*b], &|x, y| x - y),
            Ex::Prod(a, b) => z(&t[*a], &t[*b], &|x, y| x * y),
            Ex::Cube(a) => t[*a].iter().map(|x| *x * x * x).collect(),
            Ex::PlusC(a, c) => t[*a].iter().map(|x| *x + f(*c)).collect(),
            Ex::Times(a, c) => t[*a].iter().map(|x| *x * f(*c)).collect(),
            Ex::Front(a, k) => (0..t[*a].len() << k).map(|i| t[*a][i >> k]).collect(),
            Ex::Back(a, k) => { let l = t[*a].len(); (0..l << k).map(|i| t[*a][i % l]).collect() }
            Ex::Pow(a, k) => t[*a].iter().map(|x| x.pow([*k as u64])).collect(),
            Ex::DiffProd(a, b, c) => z(&z(&t[*a], &t[*b], &|x, y| x - y), &t[*c], &|x, y| x * y),
        }
    }
    /// variables of the largest table a session like this holds
    pub fn max_nv(&self) -> usize {
        let m = (0..self.tables.len()).map(|i| self.nv(i)).max().unwrap_or(0);
        self.claims.iter().map(|c| self.rows(c.ex()).len().trailing_zeros() as usize).max().unwrap_or(0).max(m)
    }
    pub fn full_sum(&self, e: &Ex) -> F {
        let r = self.rows(e);
        r.iter().sum::<F>() * f(1 << (self.max_nv() - r.len().trailing_zeros() as usize))
    }
    pub fn public_sum(&self, c: &Claim) -> Option<F> {
        match c {
            Claim::SumOff(e, d) => Some(self.full_sum(e) + f(*d)),
            Claim::SumIs(_, x) => Some(f(*x)),
            _ => None,
        }
    }
    pub fn holds(&self, c: &Claim) -> bool {
        match c {
            Claim::Zero(e) => self.rows(e).iter().all(|x| x.is_zero()),
            Claim::Sum(_) => true,
            Claim::SumOff(_, d) => *d == 0,
            Claim::SumIs(e, x) => self.full_sum(e) == f(*x),
        }
    }
}

fn p_ex<P: Scheme>(ps: &[TrackedPoly<E, P>], e: &Ex) -> TrackedPoly<E, P> {
    match e {
        Ex::P(a) => ps[*a].clone(),
        Ex::Diff(a, b) => ps[*a].sub_poly(&ps[*b]),
        Ex::Prod(a, b) => ps[*a].mul_poly(&ps[*b]),
        Ex::Cube(a) => ps[*a].mul_poly(&ps[*a]).mul_poly(&ps[*a]),
        Ex::PlusC(a, c) => ps[*a].add_scalar(f(*c)),
        Ex::Times(a, c) => ps[*a].mul_scalar(f(*c)),
        Ex::Front(a, k) => ps[*a].increase_nv_front(*k),
        Ex::Back(a, k) => ps[*a].increase_nv_back(*k),
        Ex::Pow(a, k) => (1..*k).fold(ps[*a].clone(), |p, _| p.mul_poly(&ps[*a])),
        Ex::DiffProd(a, b, c) => ps[*a].sub_poly(&ps[*b]).mul_poly(&ps[*c]),
    }
}
fn v_ex<P: Scheme>(ps: &[TrackedComm<E, P>], e: &Ex) -> TrackedComm<E, P> {
    match e {
        Ex::P(a) => ps[*a].clone(),
        Ex::Diff(a, b) => ps[*a].sub_comms(&ps[*b]),
        Ex::Prod(a, b) => ps[*a].mul_comms(&ps[*b]),
        Ex::Cube(a) => ps[*a].mul_comms(&ps[*a]).mul_comms(&ps[*a]),
        Ex::PlusC(a, c) => ps[*a].add_scalar(f(*c)),
        Ex::Times(a, c) => ps[*a].mul_scalar(f(*c)),
        Ex::Front(a, k) => ps[*a].increase_nv_front(*k),
        Ex::Back(a, k) => ps[*a].increase_nv_back(*k),
        Ex::Pow(a, k) => (1..*k).fold(ps[*a].clone(), |p, _| p.mul_comms(&ps[*a])),
        Ex::DiffProd(a, b, c) => ps[*a].sub_comms(&ps[*b]).mul_comms(&ps[*c]),
    }
}
pub struct Proved<P: Scheme> {
    pub pt: ProverTrackerRef<E, P>,
    pub ids: Vec<TrackerID>,
    pub claim_ids: Vec<TrackerID>,
}
/// the prover's side up to the point where everything is recorded
pub fn record<P: Scheme>(s: &Sess) -> Proved<P> {
    let mut pt = ProverTrackerRef::<E, P>::new_from_pcs_params(P::pp());
    let ps: Vec<_> = s.tables.iter().map(|t| pt.track_and_commit_poly(mle(t)).unwrap()).collect();
    let mut claim_ids = vec![];
    for c in &s.claims {
        let p = p_ex(&ps, c.ex());
        claim_ids.push(p.id);
        match c {
            Claim::Zero(_) => pt.add_zerocheck_claim(p.id),
            _ => pt.add_sumcheck_claim(p.id, s.public_sum(c).unwrap_or_else(|| s.rows(c.ex()).iter().sum())),
        }
    }
    Proved { pt, ids: ps.iter().map(|p| p.id).collect(), claim_ids }
}
pub fn compile<P: Scheme>(pt: &mut ProverTrackerRef<E, P>) -> Result<CompiledZKSQLProof<E, P>, String> {
    guard(|| pt.compile_proof().map_err(|e| format!("compile_proof: {:?}", e)))
}
/// the verifier's side; Ok when everything was accepted
pub fn verify<P: Scheme>(s: &Sess, ids: &[TrackerID], vp: P::VerifierParam, proof: CompiledZKSQLProof<E, P>) -> Result<(), String> {
    guard(|| {
        let vt = v_record(s, ids, vp, proof);
        vt.verify_claims().map_err(|e| format!("verify_claims: {:?}", e))
    })
}
pub fn v_record<P: Scheme>(s: &Sess, ids: &[TrackerID], vp: P::VerifierParam, proof: CompiledZKSQLProof<E, P>) -> VerifierTrackerRef<E, P> {
    let mut vt = VerifierTrackerRef::<E, P>::new_from_pcs_params(vp);
    vt.set_compiled_proof(proof);
    let cs: Vec<_> = ids.iter().map(|id| vt.transfer_prover_comm(*id)).collect();
    for c in &s.claims {
        let p = v_ex(&cs, c.ex());
        match c {
            Claim::Zero(_) => vt.add_zerocheck_claim(p.id),
            _ => {
                let x = s.public_sum(c).unwrap_or_else(|| vt.get_prover_claimed_sum(p.id));
                vt.add_sumcheck_claim(p.id, x);
            }
        }
    }
    vt.transfer_proof_poly_evals();
    vt
}
/// everything in a proof that anyone could compare
pub fn fingerprint<P: Scheme>(p: &CompiledZKSQLProof<E, P>) -> String
where P::BatchProof: std::fmt::Debug, P::Commitment: std::fmt::Debug {
    let c: BTreeMap<_, _> = p.comms.iter().map(|(k, v)| (*k, format!("{:?}", v))).collect();
    let s: BTreeMap<_, _> = p.sumcheck_claims.iter().collect();
    let q: BTreeMap<_, _> = p.query_map.iter().map(|((a, b), c)| ((*a, format!("{:?}", b)), format!("{:?}", c))).collect();
    format!("{:?} {:?} {:?} {:?} {:?} {:?}", c, s, p.sc_proof, p.sc_aux_info, q, p.pcs_proof)
}

// ---- T03 ---------------------------------------------------------------------

fn accept_iff<P: Scheme>(s: &Sess) -> CaseRes
where P::BatchProof: std::fmt::Debug, P::Commitment: std::fmt::Debug {
    let want = s.claims.iter().all(|c| s.holds(c));
    // a public sum of a smaller table that is right at its own size only: the
    // documentation does not say which size a public sum refers to
    let unclear = s.claims.iter().any(|c| !s.holds(c) && matches!(c, Claim::SumIs(e, x) if s.rows(e).iter().sum::<F>() == f(*x)))
        && s.claims.iter().all(|c| s.holds(c) || matches!(c, Claim::SumIs(e, x) if s.rows(e).iter().sum::<F>() == f(*x)));
    let n = s.claims.len() as u64;
    let r = guard(|| {
        let mut p = record::<P>(s);
        let mut copy = p.pt.deep_copy();
        let proof = compile(&mut p.pt)?;
        match compile(&mut copy) {
            Err(e) => return Ok(Err(format!("a copy of the session does not compile: {}", e))),
            Ok(q) => if fingerprint(&q) != fingerprint(&proof) { return Ok(Err("two compilations of the same session differ".to_string())); }
        }
        for (c, id) in s.claims.iter().zip(&p.claim_ids) {
            if !matches!(c, Claim::Zero(_)) && proof.sumcheck_claims.get(id) != Some(&s.full_sum(c.ex())) {
                return Ok(Err(format!("the proof states sum {:?} for {:?}, expected {}", proof.sumcheck_claims.get(id).map(show), c, show(&s.full_sum(c.ex())))));
            }
        }
        verify(s, &p.ids, P::vp(), proof)?;
        Ok(Ok(()))
    });
    match (want, r) {
        (_, Ok(Err(e))) => viol("compile", e),
        (true, Ok(Ok(()))) => Ok(obs("all true: accepted", n + 2, true)),
        (true, Err(e)) => viol("true-refused", format!("all claims are true but: {}", e)),
        (false, Ok(Ok(()))) if unclear => Ok(obs("sum of a smaller table: accepted", n + 2, true)),
        (false, Ok(Ok(()))) => viol("false-accepted", "a claim is false but the proof was accepted"),
        (false, Err(_)) => Ok(obs("some false: refused", n + 2, true)),
    }
}

/// claims one can make about tables of these sizes
fn claim_menu(nvs: &[usize], lean: bool) -> Vec<Claim> {
    let mut m = vec![];
    for a in 0..nvs.len() {
        m.push(Claim::Zero(Ex::P(a)));
        m.push(Claim::Sum(Ex::P(a)));
        m.push(Claim::SumOff(Ex::P(a), 0));
        m.push(Claim::SumOff(Ex::P(a), 1));
        m.push(Claim::Zero(Ex::PlusC(a, -1)));
        if !lean {
            m.push(Claim::SumIs(Ex::P(a), 1));
            m.push(Claim::Sum(Ex::Times(a, -3)));
            m.push(Claim::Sum(Ex::Cube(a)));
            m.push(Claim::Sum(Ex::Back(a, 1)));
            m.push(Claim::SumOff(Ex::Front(a, 1), 0));
            m.push(Claim::Zero(Ex::Back(a, 1)));
        }
        for b in a + 1..nvs.len() {
            if nvs[a] == nvs[b] {
                m.push(Claim::Zero(Ex::Diff(a, b)));
                m.push(Claim::SumOff(Ex::Diff(a, b), 0));
                m.push(Claim::Zero(Ex::Prod(a, b)));
                if !lean {
                    m.push(Claim::Sum(Ex::Prod(a, b)));
                    m.push(Claim::Zero(Ex::DiffProd(a, b, a)));
                    m.push(Claim::SumOff(Ex::DiffProd(a, b, b), -1));
                }
            }
        }
    }
    m
}
fn table_menu(nv: usize, small: bool) -> Vec<Vec<F>> {
    let fs = |x: &[i64]| x.iter().map(|y| f(*y)).collect::<Vec<F>>();
    match (nv, small) {
        (0, _) => vec![fs(&[0]), fs(&[1]), fs(&[5])],
        (1, false) => (0..9).map(|i| { let mut i = Idx(i); i.word(&[f(0), f(1), f(-1)], 2) }).collect(),
        (1, true) => vec![fs(&[0, 0]), fs(&[1, 1]), fs(&[1, -1]), fs(&[0, 1])],
        (2, false) => (0..16).map(|i| { let mut i = Idx(i); i.word(&[f(0), f(1)], 4) }).chain([fs(&[1, -1, 1, -1]), fs(&[1, 1, -1, -1]), fs(&[1, -1, 0, 0]), fs(&[3, 5, -7, 11])]).collect(),
        (2, true) => vec![fs(&[0, 0, 0, 0]), fs(&[1, 1, 1, 1]), fs(&[0, 0, 0, 1]), fs(&[1, -1, 1, -1]), fs(&[3, 5, -7, 11])],
        _ => vec![fs(&[0; 8]), fs(&[1; 8]), fs(&[0, 0, 0, 0, 0, 1, 0, 0]), fs(&[1, -1, 2, -2, 3, -3, 4, -4])],
    }
}
struct SessSpace { nvs: Vec<usize>, tabs: Vec<Vec<Vec<F>>>, menu: Vec<Claim>, lens: Vec<usize> }
impl SessSpace {
    fn new(nvs: &[usize], small: bool, lean: bool, maxlen: usize) -> Self {
        SessSpace { nvs: nvs.to_vec(), tabs: nvs.iter().map(|n| table_menu(*n, small)).collect(), menu: claim_menu(nvs, lean), lens: (0..=maxlen).collect() }
    }
    fn name(&self) -> String { self.nvs.iter().map(|n| n.to_string()).collect::<Vec<_>>().join("-") }
    fn n(&self) -> u64 {
        let t: u64 = self.tabs.iter().map(|t| t.len() as u64).product();
        t * self.lens.iter().map(|l| ipow(self.menu.len(), *l)).sum::<u64>()
    }
    fn get(&self, i: u64) -> Sess {
        let mut ix = Idx(i);
        let tables = self.tabs.iter().map(|t| ix.pick(t).clone()).collect();
        for l in &self.lens {
            let c = ipow(self.menu.len(), *l);
            if ix.0 < c { return Sess { tables, claims: ix.word(&self.menu, *l) }; }
            ix.0 -= c;
        }
        unreachable!()
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Wrong { No, Cell(usize, usize), Sum(usize, i64), TwoSums(usize, usize) }
/// a session with many tables in pairs of equal ones
#[derive(Clone, Debug)]
struct Many { n: usize, sizes: usize, claims: usize, wrong: Wrong }
impl Many {
    fn nv(&self, j: usize) -> usize {
        let j = j / 2;
        match self.sizes { 0 => 1, 1 => 1 + j % 3, 2 => 1 + (self.n / 2 - j) % 4, 3 => if j == 0 { 6 } else { j % 3 }, _ => 2 }
    }
    fn make(&self) -> Sess {
        let mut tables: Vec<Vec<F>> = (0..self.n).map(|j| (0..1i64 << self.nv(j)).map(|r| f((r * r * 5 + (j as i64 / 2 + 1) * (3 * r + 2)) % 23 - 9)).collect()).collect();
        let mut claims: Vec<Claim> = vec![];
        for j in 0..self.n {
            let (a, b) = (j, j ^ 1);
            let paired = b < self.n;
            match (self.claims, j % 3) {
                // equalities
                (0, _) if paired => claims.push(Claim::Zero(Ex::Diff(a, b))),
                // sums of everything
                (1, _) => claims.push(Claim::SumOff(Ex::P(a), 0)),
                // a bit of both
                (2, 0) | (2, 1) if paired => { claims.push(Claim::Zero(Ex::DiffProd(a, b, b))); claims.push(Claim::Sum(Ex::P(a))); }
                (2, _) => claims.push(Claim::SumOff(Ex::Pow(a, 2 + j % 4), 0)),
                // one claim of a high degree, the rest linear
                (3, _) if j == self.n / 2 => claims.push(Claim::SumOff(Ex::Pow(a, 11), 0)),
                (3, 1) if paired => claims.push(Claim::Zero(Ex::Diff(a, b))),
                (3, _) => claims.push(Claim::SumOff(Ex::Times(a, -2), 0)),
                // the same claim several times
                (4, _) => { let c = if paired { Claim::Zero(Ex::Diff(a.min(b), a.max(b))) } else { Claim::SumOff(Ex::P(0), 0) }; claims.push(c.clone()); claims.push(c); claims.push(Claim::SumOff(Ex::Back(a, 1), 0)); }
                _ => {}
            }
        }
        match self.wrong {
            Wrong::No => {}
            Wrong::Cell(t, r) => tables[t][r] += f(1),
            Wrong::Sum(c, d) => if let Claim::SumOff(_, x) = &mut claims[c] { *x += d },
            Wrong::TwoSums(c, d) => { if let Claim::SumOff(_, x) = &mut claims[c] { *x += 1 } if let Claim::SumOff(_, x) = &mut claims[d] { *x -= 1 } }
        }
        Sess { tables, claims }
    }
}
fn many(ctx: &Ctx) -> Vec<Many> {
    let mut out = vec![];
    for n in [1usize, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 20, 33].into_iter().take(ctx.q(13, 15)) {
        for sizes in 0..5 { for claims in 0..5 {
            let base = Many { n, sizes, claims, wrong: Wrong::No };
            let s = base.make();
            if s.claims.is_empty() { continue; }
            let mut put = |wrong| out.push(Many { n, sizes, claims, wrong });
            put(Wrong::No);
            for t in 0..n { for r in 0..s.tables[t].len() { put(Wrong::Cell(t, r)); } }
            let sums: Vec<usize> = (0..s.claims.len()).filter(|c| matches!(s.claims[*c], Claim::SumOff(..))).collect();
            for c in &sums { put(Wrong::Sum(*c, 1)); put(Wrong::Sum(*c, -2)); }
            for w in sums.windows(2) { put(Wrong::TwoSums(w[0], w[1])); put(Wrong::TwoSums(w[1], w[0])); }
            if sums.len() > 2 { put(Wrong::TwoSums(sums[0], sums[sums.len() - 1])); }
        } }
    }
    out
}

pub fn t03(ctx: &Ctx) {
    let debug_quick = ctx.variant == "debug" && !ctx.thorough;
    let run = |kind: &str, sp: SessSpace, real: bool| {
        let name = format!("{}-{}", kind, sp.name());
        if real { ctx.space(&name, sp.n(), |i| accept_iff::<Kzg>(&sp.get(i)), |i| sp.get(i).show()); }
        else { ctx.space(&name, sp.n(), |i| accept_iff::<Mock>(&sp.get(i)), |i| sp.get(i).show()); }
    };
    // all pairs of claims over one and two tables of any sizes; the order of the tables matters
    for nvs in [&[1usize][..], &[2], &[1, 1], &[1, 2], &[2, 1], &[2, 2], &[0, 1], &[1, 0], &[0, 2], &[1, 3], &[3, 1]] {
        let small = nvs.len() == 2;
        run("claims", SessSpace::new(nvs, small && !(nvs == [1, 1]) || small && debug_quick, false, 2), false);
    }
    // three claims
    run("three-claims", SessSpace::new(&[1], false, false, 3), false);
    run("three-claims", SessSpace::new(&[1, 1], true, true, 3), false);
    // three tables
    for nvs in [&[1usize, 1, 1][..], &[1, 2, 1], &[2, 1, 0], &[0, 1, 2], &[1, 2, 3], &[3, 2, 1]] {
        run("tables", SessSpace::new(nvs, true, true, if ctx.thorough { 2 } else { 1 }), false);
    }
    // five tables of one size: the batched opening pads to a power of two
    run("five-tables", SessSpace::new(&[1, 1, 1, 1, 1], true, true, 1), false);
    // many tables and many claims: all of them true, one table cell changed, or one public sum
    let m = many(ctx);
    let m = &m;
    ctx.space("many", m.len() as u64, |i| accept_iff::<Mock>(&m[i as usize].make()), |i| format!("{:?}", m[i as usize]));
    let k: Vec<Many> = m.iter().filter(|x| x.make().max_nv() <= 4 && x.n < 10).enumerate().filter(|(i, x)| x.wrong == Wrong::No || i % ctx.q(41, 3) == 0).map(|x| x.1.clone()).collect();
    let k = &k;
    ctx.space("many-kzg", k.len() as u64, |i| accept_iff::<Kzg>(&k[i as usize].make()), |i| format!("{:?}", k[i as usize]));
    // with the real commitment scheme
    for nvs in [&[1usize][..], &[2]] {
        run("kzg", SessSpace::new(nvs, true, false, if debug_quick { 1 } else { 2 }), true);
    }
    for nvs in [&[1usize, 1][..], &[1, 2], &[2, 1], &[0, 1], &[1, 3], &[1, 1, 1]] {
        run("kzg", SessSpace::new(nvs, true, nvs.len() == 3 || debug_quick, 1), true);
    }
}

// ---- T04 ---------------------------------------------------------------------

type KProof = CompiledZKSQLProof<E, Kzg>;
pub struct Alt {
    pub name: String,
    /// the part it touches: two alterations of the same part may undo each other
    pub part: String,
    pub act: Box<dyn Fn(&mut KProof) + Send + Sync>,
}
fn sessions() -> Vec<Sess> {
    let fs = |x: &[i64]| x.iter().map(|y| f(*y)).collect::<Vec<F>>();
    vec![
        Sess { tables: vec![fs(&[4, -9])], claims: vec![Claim::Sum(Ex::P(0))] },
        Sess { tables: vec![fs(&[3, 5]), fs(&[3, 5])], claims: vec![Claim::Zero(Ex::Diff(0, 1)), Claim::Sum(Ex::Prod(0, 1))] },
        Sess { tables: vec![fs(&[3, 5]), fs(&[1, 2, -5, 13])], claims: vec![Claim::Sum(Ex::P(0)), Claim::Sum(Ex::P(1)), Claim::Zero(Ex::Times(1, 0))] },
        Sess { tables: vec![fs(&[7, 5, 0, 2]), fs(&[7, 1, 4, 2]), fs(&[0, 2, 3, 0])], claims: vec![Claim::Sum(Ex::P(2)), Claim::SumOff(Ex::Diff(0, 1), 0), Claim::Sum(Ex::Cube(0))] },
        Sess { tables: vec![fs(&[1, 0, 1, 1]), fs(&[6])], claims: vec![Claim::Zero(Ex::DiffProd(0, 0, 0)), Claim::Sum(Ex::P(1)), Claim::Sum(Ex::Front(1, 1))] },
        Sess { tables: (0..6).map(|j| (0..1i64 << [2, 2, 1, 3, 2, 4][j]).map(|r| f((r * r * 7 + j as i64 * 3 + 2) % 19 - 6)).collect()).collect(), claims: vec![Claim::Sum(Ex::P(5)), Claim::Sum(Ex::Prod(0, 1)), Claim::SumOff(Ex::P(2), 0), Claim::Zero(Ex::Diff(3, 3)), Claim::Sum(Ex::Cube(4)), Claim::Sum(Ex::DiffProd(0, 1, 4)), Claim::Sum(Ex::P(3)), Claim::Zero(Ex::Times(2, 0))] },
        Sess { tables: (0..9).map(|j| vec![f(j + 2), f(3 * j - 5), f(j * j), f(1 - j)]).collect(), claims: (0..9).map(|j| if j % 2 == 0 { Claim::Sum(Ex::P(j)) } else { Claim::SumOff(Ex::Prod(j, j - 1), 0) }).collect() },
    ]
}
fn nums(x: F) -> Vec<(&'static str, F)> {
    vec![("plus one", x + F::one()), ("zero", F::zero()), ("negated", -x), ("one", F::one()), ("doubled", x + x)]
}
fn points(x: G1) -> Vec<(&'static str, G1)> {
    let g = G1::generator();
    vec![("the point at infinity", G1::identity()), ("the generator", g), ("plus the generator", (x + g).into_affine()), ("negated", (-x.into_group()).into_affine()), ("doubled", (x + x).into_affine())]
}
fn msg_alts(out: &mut Vec<Alt>, what: &str, msgs: &[Vec<F>], at: std::sync::Arc<dyn Fn(&mut KProof, &mut dyn FnMut(&mut Vec<Vec<F>>)) + Send + Sync>) {
    let mut put = |name: String, part: String, g: Box<dyn Fn(&mut Vec<Vec<F>>) + Send + Sync>| {
        let at = at.clone();
        out.push(Alt { name, part, act: Box::new(move |p| at(p, &mut |m| g(m))) });
    };
    for (r, m) in msgs.iter().enumerate() {
        for e in 0..m.len() {
            for (n, v) in nums(m[e]) {
                if v != m[e] { put(format!("{} round {} entry {} {}", what, r, e, n), format!("{}", what), Box::new(move |ms| ms[r][e] = v)); }
            }
            for e2 in e + 1..m.len() {
                if m[e] != m[e2] { put(format!("{} round {} entries {} and {} swapped", what, r, e, e2), format!("{}", what), Box::new(move |ms| ms[r].swap(e, e2))); }
                // keeps the sum of the two
                put(format!("{} round {} entries {} and {} moved against each other", what, r, e, e2), format!("{}", what), Box::new(move |ms| { ms[r][e] += F::one(); ms[r][e2] -= F::one(); }));
            }
        }
        put(format!("{} round {} last entry dropped", what, r), format!("{}", what), Box::new(move |ms| { ms[r].pop(); }));
        put(format!("{} round {} an entry too many", what, r), format!("{}", what), Box::new(move |ms| { ms[r].push(F::zero()); }));
        put(format!("{} round {} emptied", what, r), format!("{}", what), Box::new(move |ms| { ms[r].clear(); }));
        put(format!("{} round {} removed", what, r), format!("{}", what), Box::new(move |ms| { ms.remove(r); }));
        for r2 in r + 1..msgs.len() {
            if msgs[r] != msgs[r2] { put(format!("{} rounds {} and {} swapped", what, r, r2), format!("{}", what), Box::new(move |ms| ms.swap(r, r2))); }
        }
    }
}
fn alterations(s: &Sess, pr: &Proved<Kzg>, proof: &KProof, others: &[KProof]) -> Vec<Alt> {
    let mut out: Vec<Alt> = vec![];
    for (k, id) in pr.ids.iter().cloned().enumerate() {
        let c = proof.comms[&id].0;
        let mut cand = points(c);
        for (j, o) in pr.ids.iter().enumerate() { if j != k { cand.push(("another table's", proof.comms[o].0)); } }
        for (n, v) in cand {
            if v != c { out.push(Alt { name: format!("commitment {} becomes {}", k, n), part: "comm".into(), act: Box::new(move |p| { p.comms.insert(id, Commitment(v)); }) }); }
        }
        out.push(Alt { name: format!("commitment {} removed", k), part: "comm".into(), act: Box::new(move |p| { p.comms.remove(&id); }) });
        for id2 in pr.ids.iter().skip(k + 1).cloned() {
            let (a, b) = (proof.comms[&id], proof.comms[&id2]);
            if a != b { out.push(Alt { name: format!("commitments {} and {} swapped", id, id2), part: "comm".into(), act: Box::new(move |p| { p.comms.insert(id, b); p.comms.insert(id2, a); }) }); }
        }
    }
    for (k, c) in s.claims.iter().enumerate() {
        if let Claim::Sum(_) = c {
            let id = pr.claim_ids[k];
            let x = proof.sumcheck_claims[&id];
            for (n, v) in nums(x) {
                if v != x { out.push(Alt { name: format!("claimed sum {} becomes {}", k, n), part: "sum".into(), act: Box::new(move |p| { p.sumcheck_claims.insert(id, v); }) }); }
            }
            out.push(Alt { name: format!("claimed sum {} removed", k), part: "sum".into(), act: Box::new(move |p| { p.sumcheck_claims.remove(&id); }) });
            for (k2, c2) in s.claims.iter().enumerate().skip(k + 1) {
                if let Claim::Sum(_) = c2 {
                    let id2 = pr.claim_ids[k2];
                    let y = proof.sumcheck_claims[&id2];
                    if x != y { out.push(Alt { name: format!("claimed sums {} and {} swapped", k, k2), part: "sum".into(), act: Box::new(move |p| { p.sumcheck_claims.insert(id, y); p.sumcheck_claims.insert(id2, x); }) }); }
                    out.push(Alt { name: format!("claimed sums {} and {} moved against each other", k, k2), part: "sum".into(), act: Box::new(move |p| { *p.sumcheck_claims.get_mut(&id).unwrap() += F::one(); *p.sumcheck_claims.get_mut(&id2).unwrap() -= F::one(); }) });
                }
            }
        }
    }
    let main: Vec<Vec<F>> = proof.sc_proof.proofs.iter().map(|m| m.clone().vp_evaluations_mut().clone()).collect();
    fn with_msgs(ps: &mut Vec<IopMsg>, g: &mut dyn FnMut(&mut Vec<Vec<F>>)) {
        let mut v: Vec<Vec<F>> = ps.iter().map(|m| m.clone().vp_evaluations_mut().clone()).collect();
        let proto = ps[0].clone();
        g(&mut v);
        *ps = v.into_iter().map(|x| { let mut m = proto.clone(); *m.vp_evaluations_mut() = x; m }).collect();
    }
    msg_alts(&mut out, "sumcheck", &main, std::sync::Arc::new(|p: &mut KProof, g: &mut dyn FnMut(&mut Vec<Vec<F>>)| with_msgs(&mut p.sc_proof.proofs, g)));
    for d in [-1i64, 1] {
        out.push(Alt { name: format!("number of variables {:+}", d), part: "aux".into(), act: Box::new(move |p| p.sc_aux_info.num_variables = (p.sc_aux_info.num_variables as i64 + d) as usize) });
        out.push(Alt { name: format!("degree {:+}", d), part: "aux".into(), act: Box::new(move |p| p.sc_aux_info.max_degree = (p.sc_aux_info.max_degree as i64 + d) as usize) });
    }
    let mut b = proof.pcs_proof[0].clone();
    for j in 0..b.f_i_eval_at_point_i.len() {
        let x = b.f_i_eval_at_point_i[j];
        for (n, v) in nums(x) {
            if v != x { out.push(Alt { name: format!("opened value {} becomes {}", j, n), part: "eval".into(), act: Box::new(move |p| p.pcs_proof[0].f_i_eval_at_point_i[j] = v) }); }
        }
        for j2 in j + 1..b.f_i_eval_at_point_i.len() {
            if x != b.f_i_eval_at_point_i[j2] { out.push(Alt { name: format!("opened values {} and {} swapped", j, j2), part: "eval".into(), act: Box::new(move |p| p.pcs_proof[0].f_i_eval_at_point_i.swap(j, j2)) }); }
        }
        out.push(Alt { name: format!("opened value {} removed", j), part: "eval".into(), act: Box::new(move |p| { p.pcs_proof[0].f_i_eval_at_point_i.remove(j); }) });
    }
    let bm: Vec<Vec<F>> = b.vp_sum_check_proof_mut().proofs.iter().map(|m| m.clone().vp_evaluations_mut().clone()).collect();
    msg_alts(&mut out, "batch sumcheck", &bm, std::sync::Arc::new(|p: &mut KProof, g: &mut dyn FnMut(&mut Vec<Vec<F>>)| with_msgs(&mut p.pcs_proof[0].vp_sum_check_proof_mut().proofs, g)));
    let bp = b.vp_sum_check_proof_mut().point.clone();
    for j in 0..bp.len() {
        for (n, v) in nums(bp[j]) {
            if v != bp[j] { out.push(Alt { name: format!("batch point {} becomes {}", j, n), part: "bpoint".into(), act: Box::new(move |p| p.pcs_proof[0].vp_sum_check_proof_mut().point[j] = v) }); }
        }
    }
    out.push(Alt { name: "batch point shortened".into(), part: "bpoint".into(), act: Box::new(|p| { p.pcs_proof[0].vp_sum_check_proof_mut().point.pop(); }) });
    out.push(Alt { name: "batch point extended".into(), part: "bpoint".into(), act: Box::new(|p| { p.pcs_proof[0].vp_sum_check_proof_mut().point.push(F::one()); }) });
    let gp = b.vp_g_prime_proof_mut().proofs.clone();
    for j in 0..gp.len() {
        for (n, v) in points(gp[j]) {
            if v != gp[j] { out.push(Alt { name: format!("opening element {} becomes {}", j, n), part: "open".into(), act: Box::new(move |p| p.pcs_proof[0].vp_g_prime_proof_mut().proofs[j] = v) }); }
        }
        if !gp[j].is_zero() { out.push(Alt { name: format!("opening element {} removed", j), part: "open".into(), act: Box::new(move |p| { p.pcs_proof[0].vp_g_prime_proof_mut().proofs.remove(j); }) }); }
        for j2 in j + 1..gp.len() {
            if gp[j] != gp[j2] { out.push(Alt { name: format!("opening elements {} and {} swapped", j, j2), part: "open".into(), act: Box::new(move |p| p.pcs_proof[0].vp_g_prime_proof_mut().proofs.swap(j, j2)) }); }
        }
    }
    out.push(Alt { name: "opening element too many".into(), part: "open".into(), act: Box::new(|p| p.pcs_proof[0].vp_g_prime_proof_mut().proofs.push(G1::generator())) });
    out.push(Alt { name: "no batch opening".into(), part: "batch".into(), act: Box::new(|p| p.pcs_proof.clear()) });
    for (k, o) in others.iter().enumerate() {
        let (x, y, z) = (o.pcs_proof.clone(), o.sc_proof.clone(), o.comms.clone());
        if format!("{:?}", x) != format!("{:?}", proof.pcs_proof) { out.push(Alt { name: format!("batch opening of session {}", k), part: "batch".into(), act: Box::new(move |p| p.pcs_proof = x.clone()) }); }
        if y != proof.sc_proof { out.push(Alt { name: format!("sumcheck proof of session {}", k), part: "sumcheck".into(), act: Box::new(move |p| p.sc_proof = y.clone()) }); }
        if z != proof.comms && z.len() >= proof.comms.len() { out.push(Alt { name: format!("commitments of session {}", k), part: "comm".into(), act: Box::new(move |p| p.comms = z.clone()) }); }
    }
    out
}
type IopMsg = zk_sql::subroutines::poly_iop::structs::IOPProverMessage<F>;

pub fn t04(ctx: &Ctx) {
    let ss = sessions();
    let proved: Vec<(Proved<Kzg>, KProof)> = ss.iter().map(|s| {
        let mut p = record::<Kzg>(s);
        let c = compile(&mut p.pt).unwrap_or_else(|e| panic!("an honest session does not compile: {}", e));
        (p, c)
    }).collect();
    for (k, s) in ss.iter().enumerate() {
        let ids = proved[k].0.ids.clone();
        let cids = proved[k].0.claim_ids.clone();
        let proof = &proved[k].1;
        let others: Vec<KProof> = proved.iter().map(|p| p.1.clone()).collect();
        let alts = alterations(s, &Proved { pt: ProverTrackerRef::new_from_pcs_params(Kzg::pp()), ids: ids.clone(), claim_ids: cids }, proof, &others);
        let (kproof, ids) = (Shared(proof.clone()), &ids);
        let kproof = &kproof;
        ctx.space(&format!("session{}-unaltered", k), 1, |_| match verify::<Kzg>(s, ids, Kzg::vp(), kproof.get()) {
            Ok(()) => Ok(obs("accepted", 1, true)),
            Err(e) => viol("honest", format!("an unaltered proof is refused: {}", e)),
        }, |_| s.show());
        ctx.space(&format!("session{}-altered", k), alts.len() as u64, |i| {
            let mut p = kproof.get();
            (alts[i as usize].act)(&mut p);
            match verify::<Kzg>(s, ids, Kzg::vp(), p) {
                Ok(()) => viol(format!("altered:{}", alts[i as usize].name), "an altered proof is accepted"),
                Err(_) => Ok(obs("refused", 1, true)),
            }
        }, |i| format!("{}: {}", s.show(), alts[i as usize].name));
        // other claims, in number or in sum, and other public parameters
        let mut vs: Vec<(String, Sess)> = vec![];
        for c in 0..s.claims.len() {
            let mut t = s.clone();
            t.claims.remove(c);
            vs.push((format!("claim {} not recorded", c), t));
            let mut t = s.clone();
            t.claims.insert(c, Claim::Zero(Ex::P(0)));
            vs.push((format!("a zero claim more before claim {}", c), t));
            let mut t = s.clone();
            t.claims.insert(c, Claim::SumIs(Ex::P(0), 12345));
            vs.push((format!("a sum claim more before claim {}", c), t));
            if !matches!(s.claims[c], Claim::Zero(_)) {
                for d in [1i64, -1, 2] {
                    let mut t = s.clone();
                    t.claims[c] = Claim::SumOff(s.claims[c].ex().clone(), d);
                    vs.push((format!("claim {} with a sum off by {}", c, d), t));
                }
                let mut t = s.clone();
                t.claims[c] = Claim::Zero(s.claims[c].ex().clone());
                vs.push((format!("claim {} recorded as a zero claim", c), t));
            } else {
                let mut t = s.clone();
                t.claims[c] = Claim::SumIs(s.claims[c].ex().clone(), 0);
                vs.push((format!("claim {} recorded as a sum claim", c), t));
            }
        }
        ctx.space(&format!("session{}-other-claims", k), vs.len() as u64, |i| {
            match verify::<Kzg>(&vs[i as usize].1, ids, Kzg::vp(), kproof.get()) {
                Ok(()) => viol(format!("claims:{}", vs[i as usize].0), "the proof is accepted for other claims"),
                Err(_) => Ok(obs("refused", 1, true)),
            }
        }, |i| format!("{}: {}", s.show(), vs[i as usize].0));
        ctx.space(&format!("session{}-other-parameters", k), 1, |_| {
            match verify::<Kzg>(s, ids, kzg_cached(1).1.clone(), kproof.get()) {
                Ok(()) => viol("parameters", "the proof is accepted under other public parameters"),
                Err(_) => Ok(obs("refused", 1, true)),
            }
        }, |_| s.show());
        // two alterations at a time, of different parts
        if k < 5 || ctx.thorough {
            let n = alts.len();
            let mut pairs = vec![];
            for a in 0..n { for b in a + 1..n { if alts[a].part != alts[b].part { pairs.push((a, b)); } } }
            ctx.space(&format!("session{}-two-alterations", k), pairs.len() as u64, |i| {
                let (a, b) = pairs[i as usize];
                let p = guard(|| { let mut p = kproof.get(); (alts[a].act)(&mut p); (alts[b].act)(&mut p); Ok(p) });
                let p = match p { Ok(p) => p, Err(_) => return Ok(obs("not applicable together", 0, false)) };
                match verify::<Kzg>(s, ids, Kzg::vp(), p) {
                    Ok(()) => viol(format!("altered:{} and {}", alts[a].name, alts[b].name), "an altered proof is accepted"),
                    Err(_) => Ok(obs("refused", 1, true)),
                }
            }, |i| format!("{}: {} and {}", s.show(), alts[pairs[i as usize].0].name, alts[pairs[i as usize].1].name));
        }
    }
}
/// proofs are plain data
struct Shared(KProof);
unsafe impl Sync for Shared {}
impl Shared { fn get(&self) -> KProof { self.0.clone() } }
