//! G19 sequences of gadgets in one session
use super::common::*;
use ark_ec::pairing::Pairing;
use std::collections::HashMap;
use std::sync::OnceLock;
use zk_sql::subroutines::pcs::prelude::MultilinearKzgPCS;
use zk_sql::subroutines::pcs::PolynomialCommitmentScheme;

type En = E;
type Kzg = MultilinearKzgPCS<En>;
type KP = (<Kzg as PolynomialCommitmentScheme<En>>::ProverParam, <Kzg as PolynomialCommitmentScheme<En>>::VerifierParam);
fn kzg() -> &'static KP {
    static A: OnceLock<KP> = OnceLock::new();
    A.get_or_init(|| {
        use ark_std::rand::SeedableRng;
        let mut rng = ark_std::rand::rngs::StdRng::seed_from_u64(7);
        let srs = <Kzg as PolynomialCommitmentScheme<En>>::gen_srs_for_testing(&mut rng, 4).unwrap();
        <Kzg as PolynomialCommitmentScheme<En>>::trim(srs, None, Some(4)).unwrap()
    })
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum K {
    Multi, Eq, Sum, Incl, InclAdv, Perm, Sort, NoZeros, SelValid, Supp, SuppAdv, BagDisj, BagDisjAdv, SetDisj,
    Union, Diff, Inter, JoinRed, Join, JoinAdv, Index, Cross, GroupBy,
}
#[derive(Clone, Debug)]
pub struct Step {
    pub name: &'static str,
    pub k: K,
    pub tabs: Vec<Tab>,
    pub ok: bool,
    /// (table position, columns of the previous output; its selector is appended)
    pub feed: Option<(usize, &'static [usize])>,
}

pub trait Sch: PolynomialCommitmentScheme<En> + Sized + 'static {}
impl<T: PolynomialCommitmentScheme<En> + 'static> Sch for T {}
pub type P_<S> = TrackedPoly<En, S>;
pub type C_<S> = TrackedComm<En, S>;

pub fn pbag<S: Sch>(x: &[P_<S>]) -> Bag<En, S> { Bag::new(x[0].clone(), x[1].clone()) }
pub fn vbag<S: Sch>(x: &[C_<S>], nv: usize) -> BagComm<En, S> { BagComm::new(x[0].clone(), x[1].clone(), nv) }
pub fn ptable<S: Sch>(x: &[P_<S>]) -> Table<En, S> { let (s, c) = x.split_last().unwrap(); Table::new(c.to_vec(), s.clone()) }
pub fn vtable<S: Sch>(x: &[C_<S>], nv: usize) -> TableComm<En, S> { let (s, c) = x.split_last().unwrap(); TableComm::new(c.to_vec(), s.clone(), nv) }
fn pcols<S: Sch>(t: Table<En, S>) -> Vec<P_<S>> { let mut v = t.col_vals; v.push(t.selector); v }
fn vcols<S: Sch>(t: TableComm<En, S>) -> Vec<C_<S>> { let mut v = t.col_vals; v.push(t.selector); v }
fn none<T, U, X: std::fmt::Debug>(r: Result<T, X>) -> Result<Vec<U>, String> { es(r).map(|_| vec![]) }

pub fn prove<S: Sch>(k: K, t: &mut ProverTrackerRef<En, S>, x: &[Vec<P_<S>>]) -> Result<Vec<P_<S>>, String> {
    let b = |i: usize| pbag(&x[i]);
    match k {
        K::Multi => none(BagMultitoolIOP::<En, S>::prove(t, &[b(0), b(1)], &[b(2)], &[x[0][2].clone(), x[1][2].clone()], &[x[2][2].clone()])),
        K::Eq => none(BagEqIOP::<En, S>::prove(t, &b(0), &b(1))),
        K::Sum => none(BagSumIOP::<En, S>::prove(t, &b(0), &b(1), &b(2))),
        K::Incl => none(BagInclusionIOP::<En, S>::prove(t, &b(0), &b(1))),
        K::InclAdv => none(BagInclusionIOP::<En, S>::prove_with_advice(t, &b(0), &b(1), &x[1][2])),
        K::Perm => none(BagPrescPermIOP::<En, S>::prove(t, &b(0), &b(1), &x[2][0])),
        K::Sort => none(BagStrictSortIOP::<En, S>::prove(t, &b(0), &b(1))),
        K::NoZeros => none(BagNoZerosIOP::<En, S>::prove(t, &b(0))),
        K::SelValid => none(SelectorValidIOP::<En, S>::prove(t, x[0].last().unwrap())),
        K::Supp => none(BagSuppIOP::<En, S>::prove(t, &b(0), &b(1), &b(2))),
        K::SuppAdv => none(BagSuppIOP::<En, S>::prove_with_advice(t, &b(0), &b(1), &x[1][2], &b(2))),
        K::BagDisj => none(BagDisjointIOP::<En, S>::prove(t, &b(0), &b(1), &b(2))),
        K::BagDisjAdv => none(BagDisjointIOP::<En, S>::prove_with_advice(t, &b(0), &b(1), &b(2), &x[2][2], &x[2][3], &b(3))),
        K::SetDisj => none(SetDisjointIOP::<En, S>::prove(t, &b(0), &b(1), &b(2))),
        K::Union => none(SetUnionIOP::<En, S>::prove(t, &b(0), &b(1), &b(2), &b(3))),
        K::Diff => none(SetDiffIOP::<En, S>::prove(t, &b(0), &b(1), &b(2), &b(3), &x[1][2], &b(4))),
        K::Inter => none(SetIntersectIOP::<En, S>::prove(t, &b(0), &b(1), &b(2), &b(3), &b(4), &b(5))),
        K::JoinRed => none(JoinReductionIOP::<En, S>::prove(t, &b(0), &b(1), &x[0][2], &x[1][2], &b(2))),
        K::Join => es(FinalJoinOneToManyIOP::<En, S>::prove(t, &ptable(&x[0]), &ptable(&x[1]), 0, 0)).map(pcols),
        K::JoinAdv => es(FinalJoinOneToManyIOP::<En, S>::prove_with_advice(t, &ptable(&x[0]), &ptable(&x[1]), 0, 0, &x[2])).map(pcols),
        K::Index => none(IndexTransformIOP::<En, S>::prove(t, &ptable(&x[0]), &ptable(&x[1]))),
        K::Cross => es(CrossProductIOP::<En, S>::prover_cross_product(&ptable(&x[0]), &ptable(&x[1]))).map(pcols),
        K::GroupBy => es(GroupByIOP::<En, S>::prove_with_advice(t, &ptable(&x[0]), &GroupByInstructionWithProvingAdvice {
            grouping_cols: vec![0], support_cols: vec![x[1][0].clone()], support_sel: x[1][1].clone(), support_multiplicity: x[1][2].clone(),
            agg_instr: vec![(1, AggregationType::Sum, x[1][3].clone())],
        }, &b(2))).map(pcols),
    }
}
pub fn verify<S: Sch>(k: K, t: &mut VerifierTrackerRef<En, S>, x: &[Vec<C_<S>>], n: &[usize]) -> Result<Vec<C_<S>>, String> {
    let b = |i: usize| vbag(&x[i], n[i]);
    match k {
        K::Multi => none(BagMultitoolIOP::<En, S>::verify(t, &[b(0), b(1)], &[b(2)], &[x[0][2].clone(), x[1][2].clone()], &[x[2][2].clone()])),
        K::Eq => none(BagEqIOP::<En, S>::verify(t, &b(0), &b(1))),
        K::Sum => none(BagSumIOP::<En, S>::verify(t, &b(0), &b(1), &b(2))),
        K::Incl => none(BagInclusionIOP::<En, S>::verify(t, &b(0), &b(1))),
        K::InclAdv => none(BagInclusionIOP::<En, S>::verify_with_advice(t, &b(0), &b(1), &x[1][2])),
        K::Perm => none(BagPrescPermIOP::<En, S>::verify(t, &b(0), &b(1), &x[2][0])),
        K::Sort => none(BagStrictSortIOP::<En, S>::verify(t, &b(0), &b(1))),
        K::NoZeros => none(BagNoZerosIOP::<En, S>::verify(t, &b(0))),
        K::SelValid => none(SelectorValidIOP::<En, S>::verify(t, x[0].last().unwrap())),
        K::Supp => none(BagSuppIOP::<En, S>::verify(t, &b(0), &b(1), &b(2))),
        K::SuppAdv => none(BagSuppIOP::<En, S>::verify_with_advice(t, &b(0), &b(1), &x[1][2], &b(2))),
        K::BagDisj => none(BagDisjointIOP::<En, S>::verify(t, &b(0), &b(1), &b(2))),
        K::BagDisjAdv => none(BagDisjointIOP::<En, S>::verify_with_advice(t, &b(0), &b(1), &b(2), &x[2][2], &x[2][3], &b(3))),
        K::SetDisj => none(SetDisjointIOP::<En, S>::verify(t, &b(0), &b(1), &b(2))),
        K::Union => none(SetUnionIOP::<En, S>::verify(t, &b(0), &b(1), &b(2), &b(3))),
        K::Diff => none(SetDiffIOP::<En, S>::verify(t, &b(0), &b(1), &b(2), &b(3), &x[1][2], &b(4))),
        K::Inter => none(SetIntersectIOP::<En, S>::verify(t, &b(0), &b(1), &b(2), &b(3), &b(4), &b(5))),
        K::JoinRed => none(JoinReductionIOP::<En, S>::verify(t, &b(0), &b(1), &x[0][2], &x[1][2], &b(2))),
        K::Join => es(FinalJoinOneToManyIOP::<En, S>::verify(t, &vtable(&x[0], n[0]), &vtable(&x[1], n[1]), 0, 0)).map(vcols),
        K::JoinAdv => es(FinalJoinOneToManyIOP::<En, S>::verify_with_advice(t, &vtable(&x[0], n[0]), &vtable(&x[1], n[1]), 0, 0, &x[2])).map(vcols),
        K::Index => none(IndexTransformIOP::<En, S>::verify(t, &vtable(&x[0], n[0]), &vtable(&x[1], n[1]))),
        K::Cross => es(CrossProductIOP::<En, S>::verifier_cross_product(&vtable(&x[0], n[0]), &vtable(&x[1], n[1]))).map(vcols),
        K::GroupBy => es(GroupByIOP::<En, S>::verify_with_advice(t, &vtable(&x[0], n[0]), &GroupByInstructionWithVerifyingAdvice {
            grouping_cols: vec![0], support_cols: vec![x[1][0].clone()], support_sel: x[1][1].clone(), support_multiplicity: x[1][2].clone(),
            agg_instr: vec![(1, AggregationType::Sum, x[1][3].clone())],
        }, &b(2))).map(vcols),
    }
}
/// the table a step hands on
fn output(k: K, t: &[Tab]) -> Tab {
    let w = |r: &Vec<i64>| r.len() - 1;
    match k {
        K::Join => t[1].iter().map(|b| {
            let z = vec![0; t[0][0].len()];
            let a = t[0].iter().find(|a| a[w(a)] == 1 && a[0] == b[0]).unwrap_or(&z);
            a[..w(a)].iter().chain(b).cloned().collect()
        }).collect(),
        K::JoinAdv => t[1].iter().zip(&t[2]).map(|(b, a)| a.iter().chain(b).cloned().collect()).collect(),
        K::Cross => t[0].iter().flat_map(|a| t[1].iter().map(move |b| {
            let mut r: Vec<i64> = a[..w(a)].iter().chain(&b[..w(b)]).cloned().collect();
            r.push(a[w(a)] * b[w(b)]);
            r
        })).collect(),
        K::GroupBy => t[1].iter().map(|s| vec![s[0], s[3], s[1]]).collect(),
        _ => vec![],
    }
}
/// truth of the statements that are fed with outputs (none of them depends on the order of rows)
fn truth(k: K, t: &[Tab]) -> bool {
    let v = |i: usize| { let mut v = sel_vals(&t[i]); v.sort(); v };
    match k {
        K::NoZeros => v(0).iter().all(|x| *x != 0),
        K::Eq => v(0) == v(1),
        K::Sum => { let mut w = v(0); w.extend(v(1)); w.sort(); w == v(2) }
        K::Incl => set(&v(0)).is_subset(&set(&v(1))),
        K::SelValid => t[0].iter().all(|r| { let s = *r.last().unwrap(); s == 0 || s == 1 }),
        K::Supp => super::sorts::supp_ok(&t[0], &t[1], &t[2].iter().map(|x| x[0]).collect::<Vec<_>>()),
        K::BagDisj => set(&v(0)).is_disjoint(&set(&v(1))),
        K::Join => t[1].iter().all(|b| b[b.len() - 1] == 0 || t[0].iter().any(|a| a[a.len() - 1] == 1 && a[0] == b[0])),
        K::Cross => true,
        K::Index => { let s = t[0][0].len() - 1; t[1].iter().all(|r| r[s] == 0 || t[0].iter().any(|q| q[s] != 0 && q[..s] == r[..s])) }
        K::GroupBy => {
            let w = t[0][0].len() - 1;
            let bag: Tab = t[0].iter().map(|r| vec![r[0], r[w]]).collect();
            let range: Vec<i64> = t[2].iter().map(|x| x[0]).collect();
            let c = counts(&sel_vals(&bag));
            super::sorts::supp_ok(&bag, &t[1], &range) && t[1].iter().all(|x| x[1] == 0 || (x[2] == *c.get(&x[0]).unwrap_or(&0)
                && x[3] == t[0].iter().filter(|y| y[0] == x[0]).map(|y| y[1] * y[w]).sum::<i64>()))
        }
        _ => unreachable!(),
    }
}

/// how the inputs come about
#[derive(Clone, Copy, Debug, PartialEq)]
struct Mode {
    /// equal columns are one committed polynomial throughout the session
    share: bool,
    /// all inputs are committed before the first gadget
    eager: bool,
    /// inputs are derived from what is committed
    derived: bool,
}
const MODES_: [Mode; 6] = [
    Mode { share: false, eager: false, derived: false }, Mode { share: true, eager: false, derived: false },
    Mode { share: false, eager: true, derived: false }, Mode { share: true, eager: true, derived: false },
    Mode { share: true, eager: false, derived: true }, Mode { share: false, eager: true, derived: true },
];
fn shift(m: Mode) -> F { if m.derived { f(1) } else { f(0) } }
fn p_in<S: Sch>(t: &mut ProverTrackerRef<En, S>, cache: &mut HashMap<Vec<i64>, P_<S>>, c: Vec<i64>, m: Mode) -> P_<S> {
    if let (true, Some(p)) = (m.share, cache.get(&c)) { return p.clone(); }
    let p = t.track_and_commit_poly(mle(&c.iter().map(|x| f(*x) - shift(m)).collect::<Vec<_>>())).unwrap();
    let p = if m.derived { p.add_scalar(shift(m)) } else { p };
    cache.insert(c, p.clone());
    p
}
fn v_in<S: Sch>(t: &mut VerifierTrackerRef<En, S>, cache: &mut HashMap<Vec<i64>, C_<S>>, c: Vec<i64>, m: Mode) -> C_<S> {
    if let (true, Some(p)) = (m.share, cache.get(&c)) { return p.clone(); }
    let id = t.get_next_id();
    let p = t.transfer_prover_comm(id);
    let p = if m.derived { p.add_scalar(shift(m)) } else { p };
    cache.insert(c, p.clone());
    p
}
fn tcols(t: &Tab) -> Vec<Vec<i64>> { (0..t[0].len()).map(|k| t.iter().map(|r| r[k]).collect()).collect() }
/// does the step commit table i itself
fn own(s: &Step, i: usize) -> bool { s.feed.map_or(true, |(j, _)| i != j) }

fn p_run<S: Sch>(prog: &[Step], m: Mode, t: &mut ProverTrackerRef<En, S>) -> Result<Vec<P_<S>>, String> {
    let mut cache = HashMap::new();
    let mut early: Vec<Vec<Vec<P_<S>>>> = vec![];
    let bring = |t: &mut ProverTrackerRef<En, S>, cache: &mut HashMap<Vec<i64>, P_<S>>, s: &Step| -> Vec<Vec<P_<S>>> {
        s.tabs.iter().enumerate().map(|(i, x)| if own(s, i) { tcols(x).into_iter().map(|c| p_in(t, cache, c, m)).collect() } else { vec![] }).collect()
    };
    if m.eager { for s in prog { early.push(bring(t, &mut cache, s)); } }
    let mut last: Vec<P_<S>> = vec![];
    let mut all = vec![];
    for (i, s) in prog.iter().enumerate() {
        let mut x = if m.eager { early[i].clone() } else { bring(t, &mut cache, s) };
        if let Some((j, cols)) = s.feed {
            x[j] = cols.iter().map(|c| last[*c].clone()).collect();
            x[j].push(last.last().unwrap().clone());
        }
        last = prove(s.k, t, &x)?;
        all.extend(last.iter().cloned());
    }
    Ok(all)
}
fn v_run<S: Sch>(prog: &[Step], m: Mode, t: &mut VerifierTrackerRef<En, S>) -> Result<Vec<C_<S>>, String> {
    let mut cache = HashMap::new();
    let mut early: Vec<Vec<Vec<C_<S>>>> = vec![];
    let bring = |t: &mut VerifierTrackerRef<En, S>, cache: &mut HashMap<Vec<i64>, C_<S>>, s: &Step| -> Vec<Vec<C_<S>>> {
        s.tabs.iter().enumerate().map(|(i, x)| if own(s, i) { tcols(x).into_iter().map(|c| v_in(t, cache, c, m)).collect() } else { vec![] }).collect()
    };
    if m.eager { for s in prog { early.push(bring(t, &mut cache, s)); } }
    let mut last: Vec<C_<S>> = vec![];
    let mut all = vec![];
    for (i, s) in prog.iter().enumerate() {
        let mut x = if m.eager { early[i].clone() } else { bring(t, &mut cache, s) };
        if let Some((j, cols)) = s.feed {
            x[j] = cols.iter().map(|c| last[*c].clone()).collect();
            x[j].push(last.last().unwrap().clone());
        }
        let n: Vec<usize> = s.tabs.iter().map(|t| t.len().trailing_zeros() as usize).collect();
        last = verify(s.k, t, &x, &n)?;
        all.extend(last.iter().cloned());
    }
    Ok(all)
}
/// fill in the fed tables by the reference; returns whether all statements are true
fn resolve(prog: &mut [Step]) -> bool {
    let mut all = true;
    let mut last: Tab = vec![];
    for s in prog.iter_mut() {
        if let Some((j, cols)) = s.feed {
            let t: Tab = last.iter().map(|r| cols.iter().map(|c| r[*c]).chain([*r.last().unwrap()]).collect()).collect();
            s.tabs[j] = t;
            s.ok = truth(s.k, &s.tabs);
        }
        all &= s.ok;
        last = output(s.k, &s.tabs);
    }
    all
}
fn show_prog(p: &[Step], m: Mode) -> String {
    format!("{} ({:?})", p.iter().map(|s| format!("{}{}", if s.ok { "" } else { "false " }, s.name)).collect::<Vec<_>>().join("; "), m)
}
fn case(key: &str, prog: &[Step], m: Mode) -> CaseRes {
    let mut prog = prog.to_vec();
    let ok = resolve(&mut prog);
    let v = run_gadget(&[], |t, _| p_run(&prog, m, t), |t, _| v_run(&prog, m, t), true);
    v.expect(key, Want::iff(ok))
}
fn case_kzg(key: &str, prog: &[Step], m: Mode) -> CaseRes {
    let mut prog = prog.to_vec();
    let ok = resolve(&mut prog);
    let r = guard(|| {
        let mut pt = ProverTrackerRef::<En, Kzg>::new_from_pcs_params(kzg().0.clone());
        p_run(&prog, m, &mut pt).map_err(|e| format!("prover gadget: {}", e))?;
        let proof = pt.compile_proof().map_err(|e| format!("compile_proof: {:?}", e))?;
        let mut vt = VerifierTrackerRef::<En, Kzg>::new_from_pcs_params(kzg().1.clone());
        vt.set_compiled_proof(proof);
        v_run(&prog, m, &mut vt).map_err(|e| format!("verifier gadget: {}", e))?;
        vt.transfer_proof_poly_evals();
        vt.verify_claims().map_err(|e| format!("verify_claims: {:?}", e))
    });
    match (ok, r) {
        (true, Err(e)) => viol(key, format!("true statements not accepted: {}", e)),
        (false, Ok(())) => viol(key, "a false statement is accepted"),
        (true, _) => Ok(obs("Accept: accepted", prog.len() as u64, true)),
        (false, Err(e)) => Ok(obs(format!("Reject: {}", e.split(':').next().unwrap_or("")), prog.len() as u64, true)),
    }
}

pub fn steps() -> Vec<[Step; 2]> {
    let r: Tab = range_tab(&[0, 1, 2, 3]);
    let t = |x: &[&[i64]]| -> Tab { x.iter().map(|r| r.to_vec()).collect() };
    let x = t(&[&[1, 1], &[2, 1], &[2, 1], &[3, 1]]);
    let xp = t(&[&[2, 1], &[3, 1], &[1, 1], &[2, 1]]);
    let xf = t(&[&[2, 1], &[3, 1], &[1, 1], &[1, 1]]);
    let y = t(&[&[1, 1], &[2, 1], &[3, 1], &[5, 0]]);
    let (a, b) = (t(&[&[1, 1], &[2, 1]]), t(&[&[2, 1], &[3, 1]]));
    let s = t(&[&[0, 0], &[1, 1], &[2, 1], &[3, 1]]);
    let sf = t(&[&[0, 0], &[1, 1], &[2, 1], &[4, 1]]);
    let one = |v: i64| t(&[&[v, 1], &[0, 0]]);
    let mut o: Vec<[Step; 2]> = vec![];
    let mut add = |name: &'static str, k: K, good: Vec<Tab>, bad: Vec<Tab>| {
        o.push([Step { name, k, tabs: good, ok: true, feed: None }, Step { name, k, tabs: bad, ok: false, feed: None }]);
    };
    let m0 = t(&[&[1, 1, 1], &[2, 1, 2], &[2, 1, 1], &[3, 1, 1]]);
    let m1 = t(&[&[3, 1, 2], &[4, 0, 9]]);
    add("multitool", K::Multi, vec![m0.clone(), m1.clone(), t(&[&[1, 1, 1], &[2, 1, 3], &[3, 1, 3], &[5, 0, 4]])],
        vec![m0, m1, t(&[&[1, 1, 1], &[2, 1, 3], &[3, 1, 2], &[5, 0, 4]])]);
    add("eq", K::Eq, vec![x.clone(), xp.clone()], vec![x.clone(), xf.clone()]);
    add("eq the other way round", K::Eq, vec![xp.clone(), x.clone()], vec![xf.clone(), x.clone()]);
    add("sum", K::Sum, vec![a.clone(), b.clone(), x.clone()], vec![a.clone(), b.clone(), xf.clone()]);
    add("inclusion", K::Incl, vec![x.clone(), y.clone()], vec![x.clone(), t(&[&[1, 1], &[2, 1], &[5, 1], &[3, 0]])]);
    add("inclusion with advice", K::InclAdv, vec![x.clone(), t(&[&[1, 1, 1], &[2, 1, 2], &[3, 1, 1], &[5, 0, 7]])], vec![x.clone(), t(&[&[1, 1, 1], &[2, 1, 1], &[3, 1, 1], &[5, 0, 7]])]);
    let g = t(&[&[2, 1], &[1, 1], &[2, 1], &[3, 1]]);
    add("prescribed permutation", K::Perm, vec![x.clone(), g.clone(), t(&[&[1], &[0], &[2], &[3]])], vec![x.clone(), g, t(&[&[1], &[0], &[3], &[2]])]);
    add("strict sort", K::Sort, vec![t(&[&[0, 1], &[1, 1], &[2, 1], &[4, 1]]), r.clone()], vec![t(&[&[0, 1], &[1, 1], &[1, 1], &[4, 1]]), r.clone()]);
    add("no zeros", K::NoZeros, vec![t(&[&[1, 1], &[2, 1], &[0, 0], &[3, 1]])], vec![t(&[&[1, 1], &[0, 1], &[0, 0], &[3, 1]])]);
    add("selector valid", K::SelValid, vec![t(&[&[1], &[0], &[1], &[1]])], vec![t(&[&[1], &[0], &[2], &[1]])]);
    add("support", K::Supp, vec![x.clone(), s.clone(), r.clone()], vec![x.clone(), sf.clone(), r.clone()]);
    add("support with advice", K::SuppAdv, vec![x.clone(), t(&[&[0, 0, 0], &[1, 1, 1], &[2, 1, 2], &[3, 1, 1]]), r.clone()], vec![x.clone(), t(&[&[0, 0, 0], &[1, 1, 1], &[2, 1, 1], &[3, 1, 1]]), r.clone()]);
    add("bag disjoint", K::BagDisj, vec![x.clone(), t(&[&[4, 1], &[5, 1]]), r.clone()], vec![x.clone(), t(&[&[4, 1], &[3, 1]]), r.clone()]);
    let ma = t(&[&[1, 1, 1, 0], &[2, 1, 2, 0], &[3, 1, 1, 0], &[4, 1, 0, 1]]);
    add("bag disjoint with advice", K::BagDisjAdv, vec![x.clone(), t(&[&[4, 1], &[5, 0]]), ma.clone(), r.clone()], vec![x.clone(), t(&[&[4, 1], &[3, 1]]), ma, r.clone()]);
    add("set disjoint", K::SetDisj, vec![y.clone(), t(&[&[4, 1], &[6, 1]]), r.clone()], vec![y.clone(), t(&[&[4, 1], &[2, 1]]), r.clone()]);
    add("union", K::Union, vec![a.clone(), b.clone(), s.clone(), r.clone()], vec![a.clone(), b.clone(), sf, r.clone()]);
    let bm = t(&[&[2, 1, 1], &[3, 1, 0]]);
    add("difference", K::Diff, vec![a.clone(), bm.clone(), one(1), one(2), r.clone()], vec![a.clone(), bm, one(2), one(2), r.clone()]);
    add("intersection", K::Inter, vec![a.clone(), b.clone(), one(1), one(2), one(3), r.clone()], vec![a.clone(), b.clone(), one(1), one(1), one(3), r.clone()]);
    add("join reduction", K::JoinRed, vec![t(&[&[1, 1, 1], &[2, 1, 0]]), t(&[&[2, 1, 0], &[3, 1, 1]]), r.clone()], vec![t(&[&[1, 1, 1], &[2, 1, 1]]), t(&[&[2, 1, 0], &[3, 1, 1]]), r.clone()]);
    let ja = t(&[&[1, 7, 1], &[2, 8, 1]]);
    let jb = t(&[&[1, 5, 1], &[2, 6, 1], &[2, 7, 1], &[1, 8, 1]]);
    add("join", K::Join, vec![ja.clone(), jb.clone()], vec![ja.clone(), t(&[&[1, 5, 1], &[2, 6, 1], &[4, 7, 1], &[1, 8, 1]])]);
    add("join with advice", K::JoinAdv, vec![ja.clone(), jb.clone(), t(&[&[1, 7], &[2, 8], &[2, 8], &[1, 7]])], vec![ja.clone(), jb.clone(), t(&[&[1, 7], &[2, 8], &[2, 8], &[2, 8]])]);
    let ii = t(&[&[1, 5, 1], &[2, 6, 1], &[3, 7, 0], &[2, 6, 1]]);
    add("index transform", K::Index, vec![ii.clone(), t(&[&[2, 6, 1], &[1, 5, 1]])], vec![ii, t(&[&[2, 5, 1], &[1, 5, 1]])]);
    let gt = t(&[&[1, 4, 1], &[1, 5, 1], &[2, 4, 1], &[2, 3, 0]]);
    add("group by", K::GroupBy, vec![gt.clone(), t(&[&[0, 0, 0, 0], &[0, 0, 0, 0], &[1, 1, 2, 9], &[2, 1, 1, 4]]), r.clone()],
        vec![gt, t(&[&[0, 0, 0, 0], &[0, 0, 0, 0], &[1, 1, 2, 8], &[2, 1, 1, 4]]), r]);
    o
}
/// (producers, fed steps that hand on tables, fed steps at the end)
fn chains() -> Vec<Vec<Step>> {
    let r: Tab = range_tab(&[0, 1, 2, 3]);
    let t = |x: &[&[i64]]| -> Tab { x.iter().map(|r| r.to_vec()).collect() };
    let st = |name, k, tabs, feed: Option<(usize, &'static [usize])>| Step { name, k, tabs, ok: true, feed };
    let ja = t(&[&[1, 7, 1], &[2, 8, 1]]);
    let jb = t(&[&[1, 5, 1], &[2, 6, 1], &[2, 7, 1], &[1, 8, 1]]);
    let prods: Vec<Step> = vec![
        st("join", K::Join, vec![ja.clone(), jb.clone()], None),                                   // 1757 2826 2827 1718
        st("join with advice", K::JoinAdv, vec![ja.clone(), jb.clone(), t(&[&[1, 7], &[2, 8], &[2, 8], &[1, 7]])], None),
        st("join of two rows", K::Join, vec![ja.clone(), t(&[&[2, 6, 1], &[1, 0, 1]])], None),
        st("product", K::Cross, vec![t(&[&[1, 1], &[2, 1]]), t(&[&[1, 7, 1], &[2, 5, 0]])], None),
        st("product of two columns", K::Cross, vec![ja.clone(), t(&[&[3, 1], &[0, 1]])], None),
        st("group by", K::GroupBy, vec![t(&[&[1, 4, 1], &[1, 5, 1], &[2, 4, 1], &[2, 3, 0]]), t(&[&[0, 0, 0, 0], &[0, 0, 0, 0], &[1, 1, 2, 9], &[2, 1, 1, 4]]), r.clone()], None),
    ];
    let e = vec![vec![0i64; 2]; 1];
    const C0: &[usize] = &[0];
    const C1: &[usize] = &[1];
    const C01: &[usize] = &[0, 1];
    // the fed table is sized by resolve()
    let mids: Vec<Option<Step>> = vec![
        None,
        Some(st("product with a column", K::Cross, vec![e.clone(), t(&[&[1, 1], &[2, 0]])], Some((0, C01)))),
        Some(st("a column times it", K::Cross, vec![t(&[&[1, 1], &[2, 1]]), e.clone()], Some((1, C01)))),
        Some(st("join into it", K::Join, vec![t(&[&[1, 2, 1], &[2, 3, 1]]), e.clone()], Some((1, C01)))),
        Some(st("join of it", K::Join, vec![e.clone(), t(&[&[1, 2, 1], &[2, 3, 1]])], Some((0, C01)))),
    ];
    let mut ends: Vec<Step> = vec![];
    for c in [C0, C1] {
        ends.push(st("no zeros", K::NoZeros, vec![e.clone()], Some((0, c))));
        ends.push(st("selector valid", K::SelValid, vec![e.clone()], Some((0, c))));
        for v in [t(&[&[1, 1], &[2, 1], &[7, 1], &[8, 1]]), t(&[&[2, 1], &[1, 1], &[9, 1], &[4, 1]]), t(&[&[3, 1], &[3, 0], &[5, 1], &[0, 1]])] {
            ends.push(st("inclusion of it", K::Incl, vec![e.clone(), v.clone()], Some((0, c))));
            ends.push(st("inclusion in it", K::Incl, vec![v[..1].to_vec(), e.clone()], Some((1, c))));
            ends.push(st("bag disjoint", K::BagDisj, vec![e.clone(), v[..2].to_vec(), range_tab(&[0, 1, 2, 3, 4, 5, 6, 7])], Some((0, c))));
        }
        for v in [t(&[&[0, 0], &[0, 0], &[1, 1], &[2, 1]]), t(&[&[0, 0], &[0, 0], &[7, 1], &[8, 1]]), t(&[&[0, 0], &[1, 1]]), t(&[&[0, 0], &[0, 0], &[4, 1], &[9, 1]])] {
            ends.push(st("support of it", K::Supp, vec![e.clone(), v, range_tab(&[0, 1, 2, 3, 4, 5, 6, 7])], Some((0, c))));
        }
    }
    for v in [t(&[&[1, 1], &[2, 1], &[2, 1], &[1, 1]]), t(&[&[2, 1], &[1, 1]]), t(&[&[1, 1], &[2, 1], &[2, 1], &[2, 1]]), t(&[&[1, 1], &[2, 1], &[0, 0], &[3, 0]])] {
        ends.push(st("equal to it", K::Eq, vec![v.clone(), e.clone()], Some((1, C0))));
        let (l, r) = v.split_at(v.len() / 2);
        ends.push(st("it is the sum", K::Sum, vec![l.to_vec(), r.to_vec(), e.clone()], Some((2, C0))));
    }
    for (g, h) in [(2i64, 14i64), (1, 7), (2, 16), (1, 9)] {
        ends.push(st("group by of it", K::GroupBy, vec![e.clone(), t(&[&[0, 0, 0, 0], &[0, 0, 0, 0], &[1, 1, g, h], &[2, 1, 2, 16]]), r.clone()], Some((0, C01))));
        ends.push(st("group by of it into two rows", K::GroupBy, vec![e.clone(), t(&[&[0, 0, 0, 0], &[1, 1, g, h]]), r.clone()], Some((0, C01))));
        ends.push(st("group by of it with another sum", K::GroupBy, vec![e.clone(), t(&[&[0, 0, 0, 0], &[0, 0, 0, 0], &[1, 1, g, h], &[2, 1, 1, 8]]), r.clone()], Some((0, C01))));
    }
    ends.push(st("index transform of it", K::Index, vec![e.clone(), t(&[&[1, 7, 1], &[2, 8, 1]])], Some((0, C01))));
    ends.push(st("index transform to it", K::Index, vec![t(&[&[1, 7, 1], &[2, 8, 1]]), e.clone()], Some((1, C01))));
    let mut o = vec![];
    for p in &prods { for m in &mids { for z in &ends {
        let mut v = vec![p.clone()];
        if let Some(m) = m { v.push(m.clone()); }
        v.push(z.clone());
        o.push(v);
    } } }
    o
}

/// chains outside the gadgets' completeness (documented in their own checks) are left out
fn fits(prog: &[Step], debug: bool) -> bool {
    let mut p = prog.to_vec();
    resolve(&mut p);
    p.iter().all(|s| {
        let n = |i: usize| s.tabs[i].len();
        match s.k {
            K::Eq => n(0) == n(1),
            // the honest prover needs as many support rows as input rows, an equal number for group by
            K::GroupBy => n(0) == n(1) || !s.ok,
            K::BagDisj => !s.ok || diffs_in(&padded_support(&sel_vals(&s.tabs[0]), &sel_vals(&s.tabs[1]), 2 * n(0).max(n(1))), &s.tabs[2].iter().map(|x| x[0]).collect::<Vec<_>>()),
            // the debug build insists on unique keys
            K::Join => !debug || dup_free(&s.tabs[0].iter().map(|r| r[0]).collect::<Vec<_>>()) || !s.ok,
            _ => true,
        }
    })
}

pub fn g19(ctx: &Ctx) {
    let st = steps();
    let flat: Vec<Step> = st.iter().flatten().cloned().collect();
    let n = flat.len() as u64;
    let sp = |name: &str, count: u64, dec: &(dyn Fn(u64) -> (Vec<Step>, Mode) + Sync), real: bool| {
        ctx.space(name, count, |i| { let (p, m) = dec(i); if real { case_kzg(name, &p, m) } else { case(name, &p, m) } }, |i| { let (mut p, m) = dec(i); resolve(&mut p); show_prog(&p, m) });
    };
    sp("one gadget", n * 6, &|i| { let mut ix = Idx(i); (vec![ix.pick(&flat).clone()], *ix.pick(&MODES_)) }, false);
    let pm = ctx.q(4u64, 6);
    sp("two gadgets", n * n * pm, &|i| { let mut ix = Idx(i); (vec![ix.pick(&flat).clone(), ix.pick(&flat).clone()], MODES_[ix.take(pm) as usize]) }, false);
    let g = st.len() as u64;
    let three = |i: u64, bad: Option<usize>, modes: &[Mode]| {
        let mut ix = Idx(i);
        let p = (0..3).map(|k| st[ix.take(g) as usize][(bad == Some(k)) as usize].clone()).collect();
        (p, *ix.pick(modes))
    };
    let md = ctx.q(&MODES_[3..4], &MODES_[..]);
    sp("three true gadgets", ipow(st.len(), 3) * md.len() as u64, &|i| three(i, None, md), false);
    if ctx.thorough {
        for k in 0..3 { sp(&format!("three gadgets, number {} false", k + 1), ipow(st.len(), 3), &|i| three(i, Some(k), &MODES_[1..2]), false); }
    }
    // a whole query: all gadgets in one session, in every rotation of either order, with at most one of them false
    let q = |i: u64, step: usize| {
        let mut ix = Idx(i);
        let (rot, rev, m) = (ix.take(g) as usize * step % st.len(), ix.take(2), *ix.pick(&MODES_));
        let bad = ix.take(g + 1) as usize;
        let mut p: Vec<Step> = (0..st.len()).map(|k| st[k][(bad == k + 1) as usize].clone()).collect();
        p.rotate_left(rot);
        if rev == 1 { p.reverse(); }
        (p, m)
    };
    sp("all gadgets in one session", g * 2 * 6 * ctx.q(1, g + 1), &|i| q(i, 1), false);
    if !ctx.thorough { sp("all gadgets in one session, one of them false", 6 * (g + 1), &|i| q(i / 6 * (g * 2 * 6) + i % 6 * (g * 2) + i % g, 1), false); }
    let debug = ctx.variant == "debug";
    let ch: Vec<Vec<Step>> = chains().into_iter().filter(|c| fits(c, debug)).collect();
    let c = ch.len() as u64;
    sp("outputs fed into gadgets", c * ctx.q(2, 6), &|i| { let mut ix = Idx(i); (ix.pick(&ch).clone(), MODES_[ix.take(6) as usize]) }, false);
    // the real commitment scheme
    sp("one gadget, real commitments", n, &|i| { let mut ix = Idx(i); (vec![ix.pick(&flat).clone()], MODES_[0]) }, true);
    let km = ctx.q(&MODES_[3..4], &MODES_[..]);
    sp("two gadgets, real commitments", if debug && !ctx.thorough { 0 } else { g * g * km.len() as u64 * 2 }, &|i| {
        let mut ix = Idx(i);
        let bad = ix.take(2) == 1;
        (vec![st[ix.take(g) as usize][0].clone(), st[ix.take(g) as usize][bad as usize].clone()], *ix.pick(km))
    }, true);
    sp("all gadgets in one session, real commitments", ctx.q(if debug { 0 } else { 12 }, 2 * 6 * g), &|i| q(i, 5), true);
    let kc: Vec<Vec<Step>> = ch.iter().filter(|p| { let mut p = p.to_vec(); resolve(&mut p); p.iter().all(|s| s.tabs.iter().all(|t| t.len() <= 8)) }).cloned().collect();
    sp("outputs fed into gadgets, real commitments", if debug && !ctx.thorough { 0 } else { kc.len() as u64 / ctx.q(4, 1) }, &|i| (kc[(i * ctx.q(4, 1)) as usize].clone(), MODES_[3]), true);
}
