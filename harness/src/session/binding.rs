//! T06: what the challenges depend on.  T07: the final check of the sumcheck.
use vpmc::*;
use super::claims::*;
use crate::mock::*;
use crate::run::{f, mle, show, shows, E, F};
use ark_ff::{Field, One, Zero};
use std::collections::HashMap;
use std::sync::Arc;
use zk_sql::tracker::prelude::*;

fn fs(x: &[i64]) -> Vec<F> { x.iter().map(|y| f(*y)).collect() }

#[derive(Clone, Copy, Debug, PartialEq)]
enum H { Commit(usize), App(&'static str, i64), Chal(&'static str) }
const TABS: [&[i64]; 4] = [&[3, 5], &[5, 3], &[3, 5, 3, 5], &[0, 0]];
const ALPHA: [H; 9] = [H::Commit(0), H::Commit(1), H::Commit(2), H::Commit(3), H::App("a", 7), H::App("a", 8), H::App("b", 7), H::Chal("a"), H::Chal("b")];

fn end_of<P: Scheme>(w: &[H]) -> Result<(F, F), String> {
    guard(|| {
        let mut pt = ProverTrackerRef::<E, P>::new_from_pcs_params(P::pp());
        let mut vt = VerifierTrackerRef::<E, P>::new_from_pcs_params(P::vp());
        for h in w {
            match h {
                H::Commit(k) => {
                    let p = pt.track_and_commit_poly(mle(&fs(TABS[*k]))).map_err(|e| format!("{:?}", e))?;
                    let c = pt.clone_underlying_tracker().materialized_comms[&p.id].clone();
                    vt.track_mat_comm(c).map_err(|e| format!("{:?}", e))?;
                }
                H::App(l, x) => {
                    pt.append_serializable_element(l.as_bytes(), &f(*x)).map_err(|e| format!("{:?}", e))?;
                    vt.append_serializable_element(l.as_bytes(), &f(*x)).map_err(|e| format!("{:?}", e))?;
                }
                H::Chal(l) => {
                    let a = pt.get_and_append_challenge(l.as_bytes()).map_err(|e| format!("{:?}", e))?;
                    let b = vt.get_and_append_challenge(l.as_bytes()).map_err(|e| format!("{:?}", e))?;
                    if a != b { return Err("prover and verifier draw different challenges".into()); }
                }
            }
        }
        let a = pt.get_and_append_challenge(b"end").map_err(|e| format!("{:?}", e))?;
        let b = vt.get_and_append_challenge(b"end").map_err(|e| format!("{:?}", e))?;
        Ok((a, b))
    })
}
fn histories<P: Scheme>(ctx: &Ctx, name: &str, maxlen: usize) {
    let n: u64 = (0..=maxlen).map(|l| ipow(ALPHA.len(), l)).sum();
    let word = |i: u64| {
        let mut ix = Idx(i);
        for l in 0..=maxlen {
            let c = ipow(ALPHA.len(), l);
            if ix.0 < c { return ix.word(&ALPHA, l); }
            ix.0 -= c;
        }
        unreachable!()
    };
    if let Some((s, _)) = &ctx.only { if s != name { return; } }
    let slots: Vec<std::sync::OnceLock<Result<(F, F), String>>> = (0..n).map(|_| Default::default()).collect();
    std::thread::scope(|sc| {
        for k in 0..8 {
            let (slots, word) = (&slots, &word);
            sc.spawn(move || for i in (k..n).step_by(8) { let _ = slots[i as usize].set(end_of::<P>(&word(i))); });
        }
    });
    let mut first: HashMap<F, u64> = HashMap::new();
    for i in 0..n { if let Ok((a, _)) = slots[i as usize].get().unwrap() { first.entry(*a).or_insert(i); } }
    ctx.space(name, n, |i| {
        let w = word(i);
        // nothing can be drawn before something was said
        let legal = w.iter().find(|h| !matches!(h, H::Chal(_))).is_some() && !matches!(w[0], H::Chal(_));
        match slots[i as usize].get().unwrap() {
            Err(e) if legal => viol("history", format!("refused: {}", e)),
            Err(_) => Ok(obs("nothing said yet: refused", w.len() as u64, true)),
            Ok(_) if !legal => viol("history", "a challenge was drawn before anything was said"),
            Ok((a, b)) if a != b => viol("history", "prover and verifier draw different challenges at the end"),
            Ok((a, _)) if first[a] != i => viol("history", format!("the same challenge follows the different history {:?}", word(first[a]))),
            Ok(_) => Ok(obs("own challenge", w.len() as u64 + 1, true)),
        }
    }, |i| format!("{:?}", word(i)));
}

/// the sum the sumcheck of a compiled proof starts from
fn start_sum<P: Scheme>(s: &Sess) -> Result<F, String> {
    let mut p = record::<P>(s);
    let proof = compile(&mut p.pt)?;
    let m = proof.sc_proof.proofs[0].clone().vp_evaluations_mut().clone();
    Ok(m[0] + m[1])
}

pub fn t06(ctx: &Ctx) {
    histories::<Mock>(ctx, "histories", ctx.q(5, 6));
    histories::<Kzg>(ctx, "histories-kzg", ctx.q(3, 4));

    // Claimed sums are fixed before the challenges that combine the claims.
    // k-th claim about table k plus a constant: the sums change with the
    // constants, the commitments do not.  If the challenges did not depend on
    // the sums, the combined sum would be an affine function of the constants.
    for m in 1..=4usize {
        let pos: Vec<(usize, usize)> = (0..m).flat_map(|a| (0..m).map(move |b| (a, b))).collect();
        let steps = [1i64, -1, 2];
        let sess = |ks: &[i64]| Sess {
            tables: (0..m).map(|k| fs(&[3 + k as i64, 5])).collect(),
            claims: (0..m).map(|k| Claim::Sum(Ex::PlusC(k, ks[k]))).collect(),
        };
        ctx.space(&format!("sums-bound-{}", m), (pos.len() * steps.len()) as u64, |i| {
            let mut ix = Idx(i);
            let (a, b) = *ix.pick(&pos);
            let d = *ix.pick(&steps);
            let at = |x: i64, y: i64| { let mut ks = vec![0; m]; ks[a] += x; ks[b] += y; start_sum::<Mock>(&sess(&ks)) };
            let r = guard(|| Ok((at(0, 0)?, at(d, 0)?, at(0, d)?, at(d, d)?)));
            match r {
                Err(e) => viol("sums", e),
                Ok((o, x, y, xy)) => {
                    if xy - x == y - o { viol("sums", format!("the challenges that combine the claims do not depend on claimed sums {} and {}", a, b)) }
                    else { Ok(obs("bound", 4 * m as u64, true)) }
                }
            }
        }, |i| { let mut ix = Idx(i); format!("{} sum claims, constants {:?} moved by {}", m, ix.pick(&pos), ix.pick(&steps)) });
    }
    // The attack itself: learn the weights of two claims as if they were
    // constant and move the claimed sums against each other.
    for (a, b) in [(0usize, 1usize), (0, 2), (1, 2)] {
        ctx.space(&format!("sums-moved-{}-{}", a, b), 6, |i| {
            let d = f([1, -1, 7, 100, -5, 2][i as usize]);
            let sess = |ks: &[i64]| Sess { tables: (0..3).map(|k| fs(&[3 + k as i64, 5])).collect(), claims: (0..3).map(|k| Claim::Sum(Ex::PlusC(k, ks[k]))).collect() };
            let r = guard(|| {
                let w = |k: usize| { let mut ks = vec![0; 3]; ks[k] = 1; Ok::<F, String>((start_sum::<Mock>(&sess(&ks))? - start_sum::<Mock>(&sess(&[0; 3]))?) / f(2)) };
                let (wa, wb) = (w(a)?, w(b)?);
                let s = sess(&[0; 3]);
                let mut p = record::<Mock>(&s);
                let mut proof = compile(&mut p.pt)?;
                *proof.sumcheck_claims.get_mut(&p.claim_ids[a]).unwrap() += d * wb;
                *proof.sumcheck_claims.get_mut(&p.claim_ids[b]).unwrap() -= d * wa;
                Ok(verify(&s, &p.ids, (), proof))
            });
            match r {
                Err(e) => viol("sums", e),
                Ok(Ok(())) => viol("sums-moved", "two wrong sums were accepted together"),
                Ok(Err(_)) => Ok(obs("refused", 6, true)),
            }
        }, |i| format!("{}", i));
    }
    // Every claim has a weight of its own: sums 1 and -1 (and zero elsewhere) do not cancel.
    for m in 2..=5usize {
        let pairs: Vec<(usize, usize)> = (0..m).flat_map(|a| (0..m).map(move |b| (a, b))).filter(|(a, b)| a != b).collect();
        ctx.space(&format!("own-weights-{}", m), pairs.len() as u64 * 2, |i| {
            let (a, b) = pairs[i as usize / 2];
            let s = Sess {
                tables: (0..m).map(|k| if k == a { fs(&[1, 0]) } else if k == b { fs(&[0, -1]) } else { fs(&[2, -2]) }).collect(),
                claims: (0..m).map(|k| Claim::Sum(Ex::P(k))).chain(if i % 2 == 0 { vec![] } else { vec![Claim::Zero(Ex::Diff(0, 0))] }).collect(),
            };
            match start_sum::<Mock>(&s) {
                Err(e) => viol("weights", e),
                Ok(x) if x.is_zero() => viol("weights", format!("claims {} and {} are combined with the same weight", a, b)),
                Ok(_) => Ok(obs("own weights", m as u64, true)),
            }
        }, |i| format!("{} claims, sums 1 and -1 at {:?}", m, pairs[i as usize / 2]));
        // zero claims: p and -p, both false, do not cancel (at compile time of a debug build or at verification)
        ctx.space(&format!("own-zero-weights-{}", m), pairs.len() as u64, |i| {
            let (a, b) = pairs[i as usize];
            let s = Sess {
                tables: (0..m).map(|k| if k == a { fs(&[1, 4]) } else if k == b { fs(&[-1, -4]) } else { fs(&[0, 0]) }).collect(),
                claims: (0..m).map(|k| Claim::Zero(Ex::P(k))).collect(),
            };
            let r = guard(|| {
                let mut p = record::<Mock>(&s);
                let proof = compile(&mut p.pt)?;
                verify(&s, &p.ids, (), proof)
            });
            match r {
                Ok(()) => viol("zero-weights", format!("false zero claims {} and {} cancel", a, b)),
                Err(_) => Ok(obs("refused", m as u64, true)),
            }
        }, |i| format!("{} zero claims, p and -p at {:?}", m, pairs[i as usize]));
    }
    // Rows of a zero claim have weights of their own: 1 and -1 at any two rows do not cancel.
    for nv in 1..=3usize {
        let rows: Vec<(usize, usize)> = (0..1 << nv).flat_map(|a| (0..1 << nv).map(move |b| (a, b))).filter(|(a, b)| a != b).collect();
        ctx.space(&format!("own-row-weights-{}", nv), rows.len() as u64, |i| {
            let (a, b) = rows[i as usize];
            let mut t = vec![f(0); 1 << nv];
            t[a] = f(1);
            t[b] = f(-1);
            let s = Sess { tables: vec![t], claims: vec![Claim::Zero(Ex::P(0))] };
            let r = guard(|| {
                let mut p = record::<Mock>(&s);
                let proof = compile(&mut p.pt)?;
                verify(&s, &p.ids, (), proof)
            });
            match r {
                Ok(()) => viol("row-weights", format!("rows {} and {} of a zero claim cancel", a, b)),
                Err(_) => Ok(obs("refused", 1, true)),
            }
        }, |i| format!("rows {:?}", rows[i as usize]));
    }
    // Nothing said before the claims are combined may be exchanged afterwards:
    // an honest proof does not verify after any other message, challenge or
    // commitment was exchanged before it.
    let noise: Vec<Vec<H>> = (0..=2).flat_map(|l| (0..ipow(7, l)).map(move |i| { let mut ix = Idx(i); ix.word(&[ALPHA[4], ALPHA[5], ALPHA[6], ALPHA[7], ALPHA[8], H::App("c", 0), H::Chal("c")], l) })).collect();
    let n = noise.len() as u64;
    let s = Sess { tables: vec![fs(&[3, 5]), fs(&[0, 0])], claims: vec![Claim::Sum(Ex::P(0)), Claim::Zero(Ex::P(1))] };
    ctx.space("history-of-proof", n * n, |i| {
        let (wp, wv) = (&noise[(i % n) as usize], &noise[(i / n) as usize]);
        let r = guard(|| {
            let mut pt = ProverTrackerRef::<E, Mock>::new_from_pcs_params(());
            let ps: Vec<_> = s.tables.iter().map(|t| pt.track_and_commit_poly(mle(t)).unwrap()).collect();
            for h in wp { match h { H::App(l, x) => pt.append_serializable_element(l.as_bytes(), &f(*x)).unwrap(), H::Chal(l) => { pt.get_and_append_challenge(l.as_bytes()).unwrap(); } _ => {} } }
            pt.add_sumcheck_claim(ps[0].id, f(8));
            pt.add_zerocheck_claim(ps[1].id);
            let proof = compile(&mut pt)?;
            let mut vt = VerifierTrackerRef::<E, Mock>::new_from_pcs_params(());
            vt.set_compiled_proof(proof);
            let cs: Vec<_> = ps.iter().map(|p| vt.transfer_prover_comm(p.id)).collect();
            for h in wv { match h { H::App(l, x) => vt.append_serializable_element(l.as_bytes(), &f(*x)).unwrap(), H::Chal(l) => { vt.get_and_append_challenge(l.as_bytes()).unwrap(); } _ => {} } }
            vt.add_sumcheck_claim(cs[0].id, f(8));
            vt.add_zerocheck_claim(cs[1].id);
            Ok(vt.verify_claims().map_err(|e| format!("{:?}", e)))
        });
        match (wp == wv, r) {
            (_, Err(e)) => viol("history-of-proof", e),
            (true, Ok(Err(e))) => viol("history-of-proof", format!("equal histories but refused: {}", e)),
            (false, Ok(Ok(()))) => viol("history-of-proof", "the proof is accepted although other messages were exchanged before it"),
            (same, _) => Ok(obs(if same { "equal: accepted" } else { "different: refused" }, 6, true)),
        }
    }, |i| format!("prover {:?} verifier {:?}", noise[(i % n) as usize], noise[(i / n) as usize]));
}

// ---- T07 ---------------------------------------------------------------------

/// a prover that records claims of the same kinds and number about other polynomials
fn lie(honest: &Sess, told: &Sess, by: usize) -> Result<Result<(), String>, String> {
    guard(|| {
        let mut p = record::<Kzg>(told);
        let mut proof = compile(&mut p.pt)?;
        // name the sums as the verifier will look for them
        let q = record::<Kzg>(honest);
        let mut named = HashMap::new();
        for (a, b) in p.claim_ids.iter().zip(&q.claim_ids) {
            if let Some(x) = proof.sumcheck_claims.get(a) { named.insert(*b, *x); }
        }
        proof.sumcheck_claims = named;
        let _ = by;
        Ok(verify::<Kzg>(honest, &q.ids, Kzg::vp(), proof))
    })
}
pub fn t07(ctx: &Ctx) {
    let zero = [Ex::Diff(0, 0), Ex::Times(0, 0), Ex::Diff(1, 1)];
    let tabs: Vec<Vec<F>> = vec![fs(&[1, 0]), fs(&[1, -1]), fs(&[3, 5])];
    let n = (zero.len() * tabs.len() * tabs.len()) as u64;
    let mk = |i: u64, sum: bool| {
        let mut ix = Idx(i);
        let z = ix.pick(&zero).clone();
        let tables = vec![ix.pick(&tabs).clone(), ix.pick(&tabs).clone()];
        let honest = Sess { tables: tables.clone(), claims: vec![if sum { Claim::Sum(Ex::P(0)) } else { Claim::Zero(Ex::P(0)) }] };
        let told = Sess { tables, claims: vec![if sum { Claim::Sum(Ex::PlusC(0, 1)) } else { Claim::Zero(z) }] };
        (honest, told)
    };
    for sum in [false, true] {
        let key = if sum { "sum-claim-about-another-polynomial" } else { "zero-claim-about-another-polynomial" };
        ctx.space(key, n, |i| {
            let (h, t) = mk(i, sum);
            match lie(&h, &t, 0) {
                Err(e) => viol("liar", e),
                Ok(Ok(())) => viol(key, format!("accepted: the verifier recorded {:?}, the proof is about {:?}", h.claims, t.claims)),
                Ok(Err(_)) => Ok(obs("refused", 2, true)),
            }
        }, |i| { let (h, t) = mk(i, sum); format!("verifier {} prover {:?}", h.show(), t.claims) });
    }
    // the honest side of the property: the value the sumcheck ends with is the
    // value of the combined polynomial, so an honest proof is never refused for it
    ctx.space("honest", n * 2, |i| {
        let (h, _) = mk(i / 2, true);
        let r = guard(|| {
            let mut p = record::<Kzg>(&h);
            let proof = compile(&mut p.pt)?;
            verify::<Kzg>(&h, &p.ids, Kzg::vp(), proof)
        });
        match r { Ok(()) => Ok(obs("accepted", 2, true)), Err(e) => viol("honest", e) }
    }, |i| format!("{}", i));
    // the opening: a prover that commits to some tables and goes on with others
    let menus: Vec<Vec<Vec<Vec<F>>>> = vec![
        (0..9).map(|i| vec![{ let mut i = Idx(i); i.word(&[f(0), f(1), f(-1)], 2) }]).collect(),
        vec![vec![fs(&[3, 5]), fs(&[1, 1])], vec![fs(&[1, 1]), fs(&[3, 5])], vec![fs(&[3, 5]), fs(&[5, 3])], vec![fs(&[0, 0]), fs(&[4, 6])], vec![fs(&[3, 5]), fs(&[3, 5])]],
        vec![vec![fs(&[3, 5]), fs(&[1, 2, 3, 4])], vec![fs(&[5, 3]), fs(&[1, 2, 3, 4])], vec![fs(&[3, 5]), fs(&[2, 1, 4, 3])], vec![fs(&[3, 5]), fs(&[1, 3, 2, 4])]],
    ];
    for (k, menu) in menus.iter().enumerate() {
        let claims: Vec<Vec<Claim>> = vec![
            vec![Claim::Sum(Ex::P(0))],
            vec![Claim::Sum(Ex::Cube(0)), Claim::Zero(Ex::Diff(0, 0))],
            vec![Claim::Sum(Ex::Front(0, 1))],
        ];
        let m = menu.len() as u64;
        let n = m * m * claims.len() as u64;
        let get = |i: u64| {
            let mut ix = Idx(i);
            let (a, b) = (ix.pick(menu).clone(), ix.pick(menu).clone());
            (Sess { tables: a, claims: ix.pick(&claims).clone() }, b)
        };
        ctx.space(&format!("opens-other-tables-{}", k), n, |i| {
            let (s, b) = get(i);
            let r = guard(|| {
                let p = record::<Kzg>(&s);
                let mut t = p.pt.clone_underlying_tracker();
                for (id, tab) in p.ids.iter().zip(&b) { t.materialized_polys.insert(*id, Arc::new(mle(tab))); }
                // the sums are those of the other tables
                let o = Sess { tables: b.clone(), claims: s.claims.clone() };
                let sums: Vec<(TrackerID, F)> = o.claims.iter().zip(&p.claim_ids).filter(|(c, _)| matches!(c, Claim::Sum(_))).map(|(c, id)| (*id, o.full_sum(c.ex()))).collect();
                t.sum_check_claims.clear();
                for (id, x) in sums { t.add_sumcheck_claim(id, x); }
                let mut pt = ProverTrackerRef::<E, Kzg>::new_from_tracker(t);
                let proof = compile(&mut pt)?;
                Ok(verify::<Kzg>(&s, &p.ids, Kzg::vp(), proof))
            });
            match (s.tables == b, r) {
                (true, Ok(Ok(()))) => Ok(obs("its own tables: accepted", 3, true)),
                (true, Ok(Err(e))) | (true, Err(e)) => viol("opens-own-tables", e),
                (false, Ok(Ok(()))) => viol("opens-other-tables", "accepted although other tables than the committed ones were opened"),
                (false, _) => Ok(obs("other tables: refused", 3, true)),
            }
        }, |i| { let (s, b) = get(i); format!("{} opened {:?}", s.show(), b.iter().map(|t| shows(t)).collect::<Vec<_>>()) });
    }
}
