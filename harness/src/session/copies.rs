//! T05: copies of a session go on independently
use vpmc::*;
use super::claims::{compile, fingerprint};
use super::ops::{ext, gpoint, value, step, M, S};
use crate::mock::*;
use crate::run::*;
use zk_sql::tracker::prelude::*;

fn fs(x: &[i64]) -> Vec<F> { x.iter().map(|y| f(*y)).collect() }

/// the sequence run on a fresh session must leave the same state as run on a copy
fn p_run(t: &mut PT, ps: &mut Vec<TP>, w: &[S]) -> Vec<F> {
    let mut ch = vec![];
    for s in w {
        match s {
            S::Op(o) => { let p = p_apply(t, ps, o); ps.push(p); }
            S::Track(v) => { let p = t.track_mat_poly(mle(v)); ps.push(p); }
            S::Read(a) => { ps[*a].evaluations(); let p = ps[*a].clone(); ps.push(p); }
            S::Chal(l) => ch.push(t.get_and_append_challenge(l).unwrap()),
            S::App(l, x) => t.append_serializable_element(l, &f(*x as i64)).unwrap(),
            S::Zero(a) => t.add_zerocheck_claim(ps[*a].id),
            S::Sum(a) => t.add_sumcheck_claim(ps[*a].id, f(0)),
        }
    }
    ch
}
/// handles of the same polynomials in this session. The session behind a
/// reference is private, so it is taken from a spare polynomial: every session
/// that is compared tracks one at this point.
fn rebind(t: &mut PT, ps: &[TP]) -> Vec<TP> {
    let spare = t.track_mat_poly(mle(&fs(&[0, 0])));
    ps.iter().map(|p| TrackedPoly::new(p.id, p.num_vars(), spare.tracker.clone())).collect()
}
fn v_rebind(t: &mut VT, cs: &[TC]) -> Vec<TC> {
    let spare = t.track_mat_comm(MockComm { nv: 1, evals: fs(&[0, 0]) }).unwrap();
    cs.iter().map(|c| TrackedComm::new(c.id, spare.tracker.clone())).collect()
}
fn p_state(t: &PT, ps: &[TP]) -> String {
    let mut out = String::new();
    let mut tr = t.clone_underlying_tracker();
    out += &format!("{:?} {:?} {:?} {:?} ", tr.id_counter, tr.sum_check_claims, tr.zero_check_claims, tr.transcript.get_and_append_challenge(b"state"));
    let mut ids: Vec<_> = tr.materialized_comms.iter().map(|(k, c)| (*k, format!("{:?}", c))).collect();
    ids.sort();
    out += &format!("{:?} ", ids);
    for p in ps {
        out += &shows(tr.evaluations(p.id));
    }
    let mut c = t.deep_copy();
    match compile(&mut c) { Ok(p) => out += &fingerprint(&p), Err(e) => out += &e }
    out
}

struct Plan { pre: Vec<S>, a: Vec<S>, b: Vec<S>, order: u64 }
/// the two words interleaved: bit k of the order says whose turn it is
fn orders(la: usize, lb: usize) -> Vec<Vec<bool>> {
    (0..1u64 << (la + lb)).map(|m| (0..la + lb).map(|k| m >> k & 1 == 1).collect::<Vec<bool>>()).filter(|o| o.iter().filter(|x| **x).count() == la).collect()
}
fn menu() -> Vec<S> {
    vec![
        S::Op(Op::C(fs(&[1, 4]))), S::Track(fs(&[2, 2])), S::Op(Op::Sub(0, 1)), S::Op(Op::Mul(2, 1)), S::Read(2), S::Op(Op::Back(2, 1)),
        S::Op(Op::AddS(2, f(5))), S::Op(Op::MulS(0, f(-2))), S::Chal(b"x"), S::App(b"x", 9), S::Zero(0), S::Sum(2),
    ]
}
fn plan(i: u64, menu: &[S], pres: &[Vec<S>], la: usize, lb: usize) -> Plan {
    let mut ix = Idx(i);
    let o = orders(la, lb);
    let order = ix.take(o.len() as u64);
    let base = vec![S::Op(Op::C(fs(&[3, 5]))), S::Op(Op::C(fs(&[-7, 11]))), S::Op(Op::Mul(0, 1))];
    let mut pre = base;
    pre.extend(ix.pick(pres).clone());
    Plan { pre, a: ix.word(menu, la), b: ix.word(menu, lb), order }
}
fn show_plan(p: &Plan, la: usize, lb: usize) -> String {
    format!("before: {} | copy: {} | original: {} | order (copy's turns) {:?}", super::ops::show_seq(&p.pre), super::ops::show_seq(&p.a), super::ops::show_seq(&p.b), orders(la, lb)[p.order as usize])
}

pub fn t05(ctx: &Ctx) {
    let pres: Vec<Vec<S>> = vec![vec![], vec![S::Zero(2)], vec![S::Read(2), S::Sum(0)]];
    let m = menu();
    let (la, lb) = (2, 2);
    let n = orders(la, lb).len() as u64 * pres.len() as u64 * ipow(m.len(), la + lb);
    let n = if ctx.thorough { n } else { orders(la, lb).len() as u64 * ipow(m.len(), la + lb) };
    let qpres = if ctx.thorough { pres.clone() } else { vec![vec![S::Zero(2)]] };
    ctx.space("prover-copies", n, |i| prover_copy(&plan(i, &m, &qpres, la, lb), la, lb), |i| show_plan(&plan(i, &m, &qpres, la, lb), la, lb));
    // one copy is compiled, the other goes on
    let n = pres.len() as u64 * ipow(m.len(), 2) * 2;
    ctx.space("prover-copy-compiled", n, |i| {
        let p = plan(i / 2, &m, &pres, 0, 2);
        let r = guard(|| {
            let (mut t, mut ps) = (PT::new_from_pcs_params(()), vec![]);
            p_run(&mut t, &mut ps, &p.pre);
            let (mut u, mut qs) = (PT::new_from_pcs_params(()), vec![]);
            p_run(&mut u, &mut qs, &p.pre);
            let mut c = t.deep_copy();
            if i % 2 == 0 { let _ = compile(&mut c); p_run(&mut t, &mut ps, &p.b); }
            else { p_run(&mut t, &mut ps, &p.b[..1]); let _ = compile(&mut c); p_run(&mut t, &mut ps, &p.b[1..]); }
            p_run(&mut u, &mut qs, &p.b);
            if p_state(&t, &ps) != p_state(&u, &qs) { return Err("compiling a copy changed the original".into()); }
            Ok(())
        });
        match r { Ok(()) => Ok(obs("independent", 4, true)), Err(e) => viol("prover-copy", e) }
    }, |i| show_plan(&plan(i / 2, &m, &pres, 0, 2), 0, 2));
    // verifier
    let vm: Vec<S> = m.iter().filter(|s| !matches!(s, S::Track(_) | S::Read(_))).cloned().collect();
    let vpres: Vec<Vec<S>> = vec![vec![S::Zero(2)]];
    let n = orders(la, lb).len() as u64 * ipow(vm.len(), la + lb);
    ctx.space("verifier-copies", n, |i| verifier_copy(&plan(i, &vm, &vpres, la, lb), la, lb), |i| show_plan(&plan(i, &vm, &vpres, la, lb), la, lb));
    ctx.space("verifier-copy-verifies", 8, |i| verifier_verifies(i), |i| format!("{}", i));
}

fn prover_copy(p: &Plan, la: usize, lb: usize) -> CaseRes {
    let o = &orders(la, lb)[p.order as usize];
    let r = guard(|| {
        let (mut t, mut ps) = (PT::new_from_pcs_params(()), vec![]);
        p_run(&mut t, &mut ps, &p.pre);
        let mut c = t.deep_copy();
        let mut cs = rebind(&mut c, &ps);
        rebind(&mut t, &ps);
        let (mut ia, mut ib) = (0, 0);
        let (mut cha, mut chb) = (vec![], vec![]);
        for turn in o {
            if *turn { cha.extend(p_run(&mut c, &mut cs, &p.a[ia..ia + 1])); ia += 1; }
            else { chb.extend(p_run(&mut t, &mut ps, &p.b[ib..ib + 1])); ib += 1; }
        }
        for (what, w, st, ch) in [("copy", &p.a, p_state(&c, &cs), cha), ("original", &p.b, p_state(&t, &ps), chb)] {
            let (mut u, mut us) = (PT::new_from_pcs_params(()), vec![]);
            p_run(&mut u, &mut us, &p.pre);
            rebind(&mut u, &us);
            let ch2 = p_run(&mut u, &mut us, w);
            if ch != ch2 { return Err(format!("the {} draws other challenges than a session of its own", what)); }
            let s2 = p_state(&u, &us);
            if st != s2 { return Err(format!("the {} is not in the state of a session of its own: {} instead of {}", what, trunc(&st, 400), trunc(&s2, 400))); }
        }
        Ok(())
    });
    match r { Ok(()) => Ok(obs("independent", (la + lb) as u64 * 2, true)), Err(e) => viol("prover-copy", e) }
}

fn v_run(t: &mut VT, cs: &mut Vec<TC>, w: &[S]) -> Vec<F> {
    let mut ch = vec![];
    for s in w {
        match s {
            S::Op(Op::C(v)) => cs.push(t.track_mat_comm(MockComm { nv: v.len().trailing_zeros() as u64, evals: v.clone() }).unwrap()),
            S::Op(o) => { let c = v_apply(t, cs, o, TrackerID(0)); cs.push(c); }
            S::Read(a) => { let c = cs[*a].clone(); cs.push(c); }
            S::Chal(l) => ch.push(t.get_and_append_challenge(l).unwrap()),
            S::App(l, x) => t.append_serializable_element(l, &f(*x as i64)).unwrap(),
            S::Zero(a) => t.add_zerocheck_claim(cs[*a].id),
            S::Sum(a) => { let k = cs[*a].id; t.add_sumcheck_claim(k, f(3)) }
            S::Track(_) => unreachable!(),
        }
    }
    ch
}
fn v_state(t: &VT) -> String {
    let mut tr = t.clone_underlying_tracker();
    let mut ids: Vec<_> = tr.materialized_comms.iter().map(|(k, c)| (*k, format!("{:?}", c))).collect();
    ids.sort();
    format!("{:?} {:?} {:?} {:?} {:?}", tr.id_counter, tr.sum_check_claims, tr.zero_check_claims, tr.transcript.get_and_append_challenge(b"state"), ids)
}
/// model of a word, for the values
fn model(w: &[S]) -> Vec<M> {
    let mut ms = vec![];
    for s in w { ms = step(&ms, s).expect("legal"); }
    ms
}
fn verifier_copy(p: &Plan, la: usize, lb: usize) -> CaseRes {
    let o = &orders(la, lb)[p.order as usize];
    let mut evals_off = None;
    let r = guard(|| {
        let (mut t, mut ps) = (VT::new_from_pcs_params(()), vec![]);
        v_run(&mut t, &mut ps, &p.pre);
        let mut c = t.deep_copy();
        let mut cs = v_rebind(&mut c, &ps);
        v_rebind(&mut t, &ps);
        let (mut ia, mut ib) = (0, 0);
        let (mut cha, mut chb) = (vec![], vec![]);
        for turn in o {
            if *turn { cha.extend(v_run(&mut c, &mut cs, &p.a[ia..ia + 1])); ia += 1; }
            else { chb.extend(v_run(&mut t, &mut ps, &p.b[ib..ib + 1])); ib += 1; }
        }
        for (what, w, st, ch) in [("copy", &p.a, v_state(&c), cha), ("original", &p.b, v_state(&t), chb)] {
            let (mut u, mut us) = (VT::new_from_pcs_params(()), vec![]);
            v_run(&mut u, &mut us, &p.pre);
            v_rebind(&mut u, &us);
            let ch2 = v_run(&mut u, &mut us, w);
            if ch != ch2 { return Err(format!("the {} draws other challenges than a session of its own", what)); }
            let s2 = v_state(&u);
            if st != s2 { return Err(format!("the {} is not in the state of a session of its own: {} instead of {}", what, trunc(&st, 400), trunc(&s2, 400))); }
        }
        // values: each side is given its own answers
        for (what, w, sess, hs) in [("copy", &p.a, &c, &cs), ("original", &p.b, &t, &ps)] {
            let mut all = p.pre.clone();
            all.extend(w.iter().cloned());
            let ms = model(&all);
            let ul = sess.clone_underlying_tracker();
            ul.query_map.borrow_mut().clear();
            for (i, m) in ms.iter().enumerate() {
                if let S::Op(Op::C(v)) = &m.expr {
                    for nv in m.nv..=m.nv + 2 { let g = gpoint(nv)[..m.nv].to_vec(); let e = ext(v, &g); ul.query_map.borrow_mut().insert((hs[i].id, g), e); }
                }
            }
            for (i, m) in ms.iter().enumerate() {
                let g = gpoint(m.nv);
                let got = guard(|| hs[i].eval_virtual_comm(&g).map_err(|e| format!("{:?}", e)));
                if got.as_ref().ok() != Some(&value(&ms, i, &g)) {
                    evals_off = Some(format!("in the {}, p{} (id {}) evaluates to {:?}, expected {}", what, i, hs[i].id, got.map(|x| show(&x)), show(&value(&ms, i, &g))));
                }
            }
        }
        Ok(())
    });
    match (r, evals_off) {
        (Err(e), _) => viol("verifier-copy", e),
        // the copies go on assigning the same ids and share the table of evaluation functions
        (Ok(()), Some(e)) if derived(p) => viol("verifier-copy-shares-evaluation-functions", e),
        (Ok(()), Some(e)) => viol("verifier-copy-values", e),
        (Ok(()), None) => Ok(obs("independent", (la + lb) as u64 * 2, true)),
    }
}
/// both sides made a polynomial after the copy
fn derived(p: &Plan) -> bool {
    let d = |w: &[S]| w.iter().any(|s| matches!(s, S::Op(_)));
    d(&p.a) && d(&p.b)
}
/// the copy verifies (a good or a bad proof), then the original does, and the other way round
fn verifier_verifies(i: u64) -> CaseRes {
    let r = guard(|| {
        let mut pt = PT::new_from_pcs_params(());
        let a = pt.track_and_commit_poly(mle(&fs(&[3, 5]))).unwrap();
        let b = pt.track_and_commit_poly(mle(&fs(&[0, 0]))).unwrap();
        pt.add_sumcheck_claim(a.id, f(8));
        pt.add_zerocheck_claim(b.id);
        let good = compile(&mut pt)?;
        let mut bad = good.clone();
        bad.sc_proof.proofs[0].vp_evaluations_mut()[0] += f(1);
        let mut vt = VT::new_from_pcs_params(());
        vt.set_compiled_proof(good.clone());
        let (ca, cb) = (vt.transfer_prover_comm(a.id), vt.transfer_prover_comm(b.id));
        vt.add_sumcheck_claim(ca.id, f(8));
        vt.add_zerocheck_claim(cb.id);
        let mut copy = vt.deep_copy();
        let (first, second) = if i & 1 == 0 { (&mut vt, &mut copy) } else { (&mut copy, &mut vt) };
        let (g1, g2) = (i & 2 == 0, i & 4 == 0);
        first.set_compiled_proof(if g1 { good.clone() } else { bad.clone() });
        let r1 = guard(|| first.verify_claims().map_err(|e| format!("{:?}", e)));
        second.set_compiled_proof(if g2 { good.clone() } else { bad.clone() });
        let r2 = guard(|| second.verify_claims().map_err(|e| format!("{:?}", e)));
        if r1.is_ok() != g1 { return Err(format!("first: {:?}, expected {}", r1, g1)); }
        if r2.is_ok() != g2 { return Err(format!("second: {:?}, expected {}", r2, g2)); }
        Ok(())
    });
    match r { Ok(()) => Ok(obs("independent", 4, true)), Err(e) => viol("verifier-copy-verifies", e) }
}
