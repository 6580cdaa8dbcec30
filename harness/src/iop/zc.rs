//! S03: the zero check on its own
use super::sc::*;
use crate::num::*;
use ark_ff::Zero;
use vpmc::*;
use zk_sql::arithmetic::VPAuxInfo;
use zk_sql::subroutines::poly_iop::prelude::ZeroCheck;

fn ztr() -> Tr { <P as ZeroCheck<F>>::init_transcript() }
/// the zero check draws first, so something has to be said before
fn start() -> Tr { let mut t = ztr(); t.append_message(b"start", b"s").unwrap(); t }
fn zprove(s: &Spec, t: &mut Tr) -> Result<(Proof, VPAuxInfo<F>), String> {
    let vp = s.build();
    guard(|| <P as ZeroCheck<F>>::prove(&vp, t).map_err(|e| format!("prove: {:?}", e))).map(|p| (p, vp.aux_info.clone()))
}
/// the polynomial with these values at 0, 1, 2, ...
fn uni(v: &[F], x: F) -> F {
    use ark_ff::{Field, One};
    (0..v.len()).map(|i| v[i] * (0..v.len()).filter(|j| *j != i).map(|j| (x - f(j as i64)) * f(i as i64 - j as i64).inverse().unwrap()).fold(F::one(), |a, b| a * b)).sum()
}
type Sub = (Vec<F>, F, Vec<F>);
fn zverify(p: &Proof, aux: &VPAuxInfo<F>, t: &mut Tr) -> Result<Sub, String> {
    guard(|| <P as ZeroCheck<F>>::verify(p, aux, t).map(|s| (s.point, s.expected_evaluation, s.init_challenge)).map_err(|e| format!("verify: {:?}", e)))
}
fn matches(s: &Spec, sub: &Sub) -> bool { sub.0.len() == s.nv() && sub.1 == s.at(&sub.0) }

fn iff(s: &Spec) -> CaseRes {
    let zero = s.rows().iter().all(|x| x.is_zero());
    let (mut tp, mut tv) = (start(), start());
    let r = guard(|| {
        let (p, aux) = zprove(s, &mut tp)?;
        if aux.max_degree != s.degree() { return Err("proving changed the polynomial".into()); }
        Ok((zverify(&p, &aux, &mut tv), p))
    });
    match r {
        Err(e) => viol("zerocheck", e),
        Ok((v, p)) => match (zero, v) {
            (true, Ok(sub)) => {
                if sub.0 != p.point { return viol("zerocheck", "the verifier's point is not the prover's"); }
                if !matches(s, &sub) { return viol("zerocheck", "the subclaim does not match the polynomial"); }
                if sub.2.len() != s.nv() { return viol("zerocheck", "the first challenge has the wrong length"); }
                // the value the sumcheck ended with is the polynomial times eq with the first challenge
                let last = msgs(&p).pop().unwrap();
                if uni(&last, *sub.0.last().unwrap()) != sub.1 * eq_ref(&sub.0, &sub.2) { return viol("zerocheck", "the first challenge is not the one the proof was made with"); }
                if tp.get_and_append_challenge(b"end").unwrap() != tv.get_and_append_challenge(b"end").unwrap() { return viol("zerocheck", "the transcripts end differently"); }
                Ok(obs("zero: accepted", s.nv() as u64 * 2, true))
            }
            (true, Err(e)) => viol("zerocheck", format!("the polynomial is zero but {}", e)),
            (false, Ok(sub)) if matches(s, &sub) => viol("zerocheck", "the polynomial is not zero but was accepted"),
            (false, _) => Ok(obs("not zero: refused", s.nv() as u64 * 2, true)),
        }
    }
}

pub fn s03(ctx: &Ctx) {
    let one: Vec<Vec<(F, Vec<usize>)>> = vec![vec![(f(1), vec![0])], vec![(f(-3), vec![0, 0])], vec![(f(1), vec![0, 0, 0]), (f(-1), vec![0])], vec![(f(0), vec![0])], vec![(f(1), vec![0]), (f(-1), vec![0])]];
    let two: Vec<Vec<(F, Vec<usize>)>> = vec![
        vec![(f(1), vec![0]), (f(-1), vec![1])], vec![(f(1), vec![0, 1])], vec![(f(1), vec![0, 0]), (f(-1), vec![1, 1])], vec![(f(1), vec![0, 0, 1]), (f(-1), vec![0, 1])],
        vec![(f(1), vec![0]), (f(1), vec![1])], vec![(f(2), vec![0, 1]), (f(-1), vec![0]), (f(-1), vec![1])],
    ];
    for (name, tabs, shapes, k) in [
        ("one-1", all_tables(&[0, 1, -1, 2], 1), &one, 1usize), ("one-2", all_tables(&[0, 1, -1, 2], 2), &one, 1), ("one-3", all_tables(&[0, 1], 3), &one, 1), ("one-3b", all_tables(&[0, 1, -1], 3), &one, 1),
        ("two-1", all_tables(&[0, 1, -1, 2], 1), &two, 2), ("two-2", all_tables(&[0, 1], 2), &two, 2), ("two-2b", all_tables(&[0, 1, -1], 2), &two, 2),
    ] {
        let full = ipow(tabs.len(), k) * shapes.len() as u64;
        let get = |i: u64| { let mut ix = Idx(i); let sh = ix.pick(shapes).clone(); Spec { tables: ix.word(&tabs, k), products: sh, shared: true } };
        ctx.space(name, full, |i| iff(&get(i)), |i| get(i).show());
    }
    // one row out of many
    let nvmax = ctx.q(7, 10);
    let mut sp: Vec<Spec> = vec![];
    for nv in 1..=nvmax {
        for at in 0..=1usize << nv {
            for (v, w) in [(1i64, 0i64), (5, 0), (1, -1)] {
                let mut t = vec![f(0); 1 << nv];
                if at < t.len() { t[at] = f(v); let n = t.len(); t[(at + 1) % n] += f(w); }
                sp.push(Spec { tables: vec![t], products: one[0].clone(), shared: true });
            }
        }
    }
    ctx.space("one-row", sp.len() as u64, |i| iff(&sp[i as usize]), |i| sp[i as usize].show());
    // two rows out of many that cancel, at every pair of rows
    let pmax = ctx.q(5usize, 6);
    let pairs: Vec<(usize, usize, usize)> = (1..=pmax).flat_map(|nv| (0..1usize << nv).flat_map(move |a| (0..1usize << nv).filter(move |b| *b != a).map(move |b| (nv, a, b)))).collect();
    let getp = |i: u64| { let (nv, a, b) = pairs[i as usize]; let mut t = vec![f(0); 1 << nv]; t[a] = f(3); t[b] = f(-3); Spec { tables: vec![t], products: one[0].clone(), shared: true } };
    ctx.space("two-rows", pairs.len() as u64, |i| iff(&getp(i)), |i| getp(i).show());
    // identities between many tables of full-size elements: t_k * t_(k+1) = u_k for all k;
    // wrong nowhere, in one row of one u, or in one row of two of them that cancel
    let imax = ctx.q(6usize, 8);
    let mut ids: Vec<(usize, usize, usize, usize, usize)> = vec![];
    for nv in 1..=imax { for n in [1usize, 2, 3, 5, 8] { for k in 0..=n { for r in 0..1usize << nv { for how in 0..3usize { if k < n || (r == 0 && how == 0) { ids.push((nv, n, k, r, how)); } } } } } }
    let geti = |i: u64| {
        let (nv, n, k, r, how) = ids[i as usize];
        let t: Vec<Vec<F>> = (0..=n).map(|j| wild(nv, j)).collect();
        let mut u: Vec<Vec<F>> = (0..n).map(|j| t[j].iter().zip(&t[j + 1]).map(|(a, b)| *a * b).collect()).collect();
        let c: Vec<F> = (0..n).map(|j| f(2 * j as i64 + 1)).collect();
        if k < n { match how {
            0 => u[k][r] += f(1),
            1 => { u[k][r] += f(1); let q = (r + 1) % u[k].len(); u[k][q] -= f(1); }
            // the two errors weigh the same: the identity holds after all (or is doubled)
            _ => { let j = (k + 1) % n; let (x, y) = (c[j], c[k]); u[k][r] += x; u[j][r] -= y; }
        } }
        let mut tables = t;
        tables.extend(u);
        let products = (0..n).flat_map(|j| [(c[j], vec![j, j + 1]), (-c[j], vec![n + 1 + j])]).collect();
        Spec { tables, products, shared: true }
    };
    ctx.space("identities", ids.len() as u64, |i| iff(&geti(i)), |i| format!("variables, identities, wrong one, row, how: {:?}", ids[i as usize]));
    // high degrees
    let dm = ctx.q(36u64, 48);
    let get = |i: u64| { let (d, nz) = (i / 2 + 1, i % 2); Spec { tables: vec![fs(&[0, 1, 1, 0]), fs(&[0, 1, 1, nz as i64])], products: vec![(f(1), vec![0; d as usize]), (f(-1), vec![1; d as usize])], shared: true } };
    ctx.space("degrees", dm * 2, |i| iff(&get(i)), |i| get(i).show());
    // nothing said before: the draw is refused
    ctx.space("empty-transcript", 2, |i| {
        let s = Spec { tables: vec![fs(&[0, 0])], products: one[0].clone(), shared: true };
        let r = if i == 0 { zprove(&s, &mut ztr()).map(|_| ()) } else { let (p, a) = zprove(&s, &mut start()).unwrap(); zverify(&p, &a, &mut ztr()).map(|_| ()) };
        match r { Err(e) if !e.starts_with("panic") => Ok(obs("refused with an error", 1, true)), Err(e) => viol("empty-transcript", e), Ok(()) => viol("empty-transcript", "a challenge was drawn from an empty transcript") }
    }, |i| format!("{}", i));
    // altered proofs
    let z = [
        Spec { tables: vec![fs(&[0, 0]), fs(&[3, 5])], products: vec![(f(1), vec![0, 1])], shared: true },
        Spec { tables: vec![fs(&[3, 5]), fs(&[3, 5])], products: vec![(f(1), vec![0]), (f(-1), vec![1])], shared: true },
        Spec { tables: vec![fs(&[0, 1, 1, 0]), fs(&[1, 0, 1, 0])], products: vec![(f(1), vec![0, 0, 1]), (f(-1), vec![0, 1])], shared: true },
        Spec { tables: vec![fs(&[0, 1, 1, 0, 0, 0, 1, 1]), fs(&[2; 8])], products: vec![(f(1), vec![0, 0]), (f(-1), vec![0])], shared: true },
        // not zero: every alteration has to leave it refused
        Spec { tables: vec![fs(&[1, -1]), fs(&[3, 5])], products: vec![(f(1), vec![0])], shared: true },
        Spec { tables: vec![fs(&[1, -1, 0, 0]), fs(&[1, 1, 1, 1])], products: vec![(f(1), vec![0, 1])], shared: true },
    ];
    let wide = |bad: bool| { let (a, b) = (wild(4, 0), wild(4, 1)); let mut c: Vec<F> = a.iter().zip(&b).map(|(x, y)| *x * y).collect(); if bad { c[11] += f(1); c[12] -= f(1); } Spec { tables: vec![a, b, c], products: vec![(f(1), vec![0, 1, 1]), (f(-1), vec![2, 1])], shared: true } };
    let z: Vec<Spec> = z.into_iter().chain([wide(false), wide(true)]).collect();
    for (k, s) in z.iter().enumerate() {
        let (proof, aux) = zprove(s, &mut start()).unwrap_or_else(|e| panic!("{}", e));
        let m = msgs(&proof);
        let alts = msg_alterations(&m);
        let n = alts.len();
        let judge = |c: Vec<Vec<F>>| {
            let mut p = proof.clone();
            set_msgs(&mut p, c);
            match zverify(&p, &aux, &mut start()) {
                Err(_) => Ok(obs("refused", 1, true)),
                Ok(sub) if matches(s, &sub) => viol("altered", "an altered proof leaves a matching subclaim"),
                Ok(_) => Ok(obs("accepted with a subclaim that does not match", 1, true)),
            }
        };
        ctx.space(&format!("altered-{}", k), n as u64, |i| { let mut c = m.clone(); (alts[i as usize].act)(&mut c); judge(c) }, |i| format!("{}: {}", s.show(), alts[i as usize].name));
        if n <= ctx.q(300, 1000) {
            ctx.space(&format!("altered-twice-{}", k), (n * n) as u64, |i| {
                let c = match guard(|| { let mut c = m.clone(); (alts[i as usize / n].act)(&mut c); (alts[i as usize % n].act)(&mut c); Ok(c) }) { Ok(c) => c, Err(_) => return Ok(obs("not applicable together", 0, false)) };
                if c.len() >= m.len() && c[..m.len()] == m[..] { return Ok(obs("undone", 0, false)); }
                judge(c)
            }, |i| format!("{}: {} then {}", s.show(), alts[i as usize / n].name, alts[i as usize % n].name));
        }
    }
    // a proof of another polynomial's zero: accepted as a protocol run, but its subclaim
    // matches only polynomials equal to that one
    let tabs = all_tables(&[0, 1, -1], 2);
    let zs: Vec<Spec> = tabs.iter().map(|t| Spec { tables: vec![t.clone(), fs(&[0; 4])], products: vec![(f(1), vec![0, 1])], shared: true }).collect();
    let n = tabs.len() as u64;
    ctx.space("liars", n * 2, |i| {
        let t = &tabs[(i / 2) as usize];
        let told = &zs[(i / 2) as usize];
        let claimed = Spec { tables: vec![t.clone(), fs(&[1; 4])], products: vec![(f(1), vec![0, 1])], shared: true };
        let (p, aux) = zprove(told, &mut start()).map_err(|e| Viol { key: "liars".into(), msg: e })?;
        let sub = zverify(&p, &aux, &mut start()).map_err(|e| Viol { key: "liars".into(), msg: e })?;
        if !matches(told, &sub) { return viol("liars", "the subclaim does not match the polynomial that was proved"); }
        let zero = t.iter().all(|x| x.is_zero());
        if matches(&claimed, &sub) != zero { return viol("liars", "the subclaim of another polynomial's proof matches this one"); }
        Ok(obs(if zero { "also zero" } else { "does not match" }, 2, true))
    }, |i| shows(&tabs[(i / 2) as usize]));
}
