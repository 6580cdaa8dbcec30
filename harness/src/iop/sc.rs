//! S01, S02: the sumcheck on its own
use vpmc::*;
use crate::num::*;
use ark_ff::{One, Zero};
use std::sync::Arc;
use zk_sql::arithmetic::{VPAuxInfo, VirtualPolynomial};
use zk_sql::subroutines::poly_iop::prelude::{IOPProof, PolyIOP, SumCheck};
use zk_sql::subroutines::poly_iop::structs::IOPProverMessage;
use zk_sql::transcript::IOPTranscript;

pub type Vp = VirtualPolynomial<F>;
pub type Tr = IOPTranscript<F>;
pub type Proof = IOPProof<F>;
pub type P = PolyIOP<F>;

/// a sum of products of tables
#[derive(Clone, Debug)]
pub struct Spec {
    pub tables: Vec<Vec<F>>,
    pub products: Vec<(F, Vec<usize>)>,
    /// repeated factors are one shared table (or equal but separate ones)
    pub shared: bool,
}
impl Spec {
    pub fn nv(&self) -> usize { nv_of(&self.tables[0]) }
    pub fn show(&self) -> String {
        let p: Vec<String> = self.products.iter().map(|(c, p)| format!("{}{}", show(c), p.iter().map(|i| format!("*t{}", i)).collect::<String>())).collect();
        format!("{} over tables {}{}", p.join(" + "), self.tables.iter().map(|t| if t.len() <= 16 { shows(t) } else { format!("[{} rows]", t.len()) }).collect::<Vec<_>>().join(" "), if self.shared { "" } else { " (separate copies)" })
    }
    pub fn build(&self) -> Vp {
        let ts: Vec<_> = self.tables.iter().map(|t| Arc::new(mle(t))).collect();
        let mut vp = Vp::new(self.nv());
        for (c, p) in &self.products {
            let l: Vec<_> = p.iter().map(|i| if self.shared { ts[*i].clone() } else { Arc::new(mle(&self.tables[*i])) }).collect();
            vp.add_mle_list(l, *c).expect("add_mle_list");
        }
        vp
    }
    pub fn rows(&self) -> Vec<F> {
        (0..1 << self.nv()).map(|r| self.products.iter().map(|(c, p)| *c * p.iter().map(|i| self.tables[*i][r]).product::<F>()).sum()).collect()
    }
    pub fn sum(&self) -> F { self.rows().iter().sum() }
    pub fn at(&self, pt: &[F]) -> F {
        let v: Vec<F> = self.tables.iter().map(|t| ext(t, pt)).collect();
        self.products.iter().map(|(c, p)| *c * p.iter().map(|i| v[*i]).product::<F>()).sum()
    }
    pub fn degree(&self) -> usize { self.products.iter().map(|p| p.1.len()).max().unwrap_or(0) }
}
pub fn msgs(p: &Proof) -> Vec<Vec<F>> { p.proofs.iter().map(|m| m.clone().vp_evaluations_mut().clone()).collect() }
pub fn set_msgs(p: &mut Proof, m: Vec<Vec<F>>) { p.proofs = m.into_iter().map(IOPProverMessage::vp_new).collect(); }
pub fn tr() -> Tr { <P as SumCheck<F>>::init_transcript() }
pub fn prove(vp: &Vp, t: &mut Tr) -> Result<Proof, String> {
    guard(|| <P as SumCheck<F>>::prove(vp, t).map_err(|e| format!("prove: {:?}", e)))
}
pub fn verify(sum: F, p: &Proof, aux: &VPAuxInfo<F>, t: &mut Tr) -> Result<(Vec<F>, F), String> {
    guard(|| <P as SumCheck<F>>::verify(sum, p, aux, t).map(|s| (s.point, s.expected_evaluation)).map_err(|e| format!("verify: {:?}", e)))
}

/// Products over k tables: all multisets of the given lengths
pub fn multisets(k: usize, lens: std::ops::RangeInclusive<usize>) -> Vec<Vec<usize>> {
    let mut out = vec![];
    for l in lens {
        for i in 0..ipow(k, l) {
            let w: Vec<usize> = Idx(i).word(&(0..k).collect::<Vec<_>>(), l);
            if w.windows(2).all(|x| x[0] <= x[1]) { out.push(w); }
        }
    }
    out
}
pub fn all_tables(alpha: &[i64], nv: usize) -> Vec<Vec<F>> {
    let a = fs(alpha);
    (0..ipow(a.len(), 1 << nv)).map(|i| Idx(i).word(&a, 1 << nv)).collect()
}
fn patterned(nv: usize, k: usize) -> Vec<F> { (0..1u64 << nv).map(|i| F::from((i * i * 31 + i * (7 + k as u64) + 5 * k as u64) % 101) - F::from(40u64)).collect() }

fn honest(s: &Spec) -> CaseRes {
    let r = guard(|| {
        let vp = s.build();
        let (mut tp, mut tv) = (tr(), tr());
        let proof = prove(&vp, &mut tp)?;
        let sum = s.sum();
        let nv = s.nv();
        if <P as SumCheck<F>>::extract_sum(&proof) != sum { return Err(format!("the proof carries the sum {}, expected {}", show(&<P as SumCheck<F>>::extract_sum(&proof)), show(&sum))); }
        let (pt, e) = verify(sum, &proof, &vp.aux_info, &mut tv)?;
        if pt.len() != nv || pt != proof.point { return Err("the verifier's point is not the prover's".into()); }
        if e != s.at(&pt) { return Err("the expected value is not the polynomial's value at the point".into()); }
        if vp.evaluate(&pt).ok() != Some(e) { return Err("VirtualPolynomial::evaluate disagrees at the point".into()); }
        if tp.get_and_append_challenge(b"end").unwrap() != tv.get_and_append_challenge(b"end").unwrap() { return Err("the transcripts end differently".into()); }
        // every round message is the univariate polynomial it should be
        let d = s.degree();
        for (j, m) in msgs(&proof).iter().enumerate() {
            if m.len() != d + 1 { return Err(format!("round {} has {} values, expected {}", j, m.len(), d + 1)); }
            if s.nv() <= 3 && d <= 4 {
                for (x, v) in m.iter().enumerate() {
                    let mut want = F::zero();
                    for b in 0..1usize << (nv - j - 1) {
                        let mut p = pt[..j].to_vec();
                        p.push(F::from(x as u64));
                        p.extend(bpoint(b, nv - j - 1));
                        want += s.at(&p);
                    }
                    if *v != want { return Err(format!("round {}: value at {} is wrong", j, x)); }
                }
            }
        }
        Ok(())
    });
    match r { Ok(()) => Ok(obs("verified", s.nv() as u64 * 2, true)), Err(e) => viol("sumcheck", e) }
}

pub fn s01(ctx: &Ctx) {
    let c3 = fs(&[1, -2, 0]);
    let prods = multisets(2, 1..=3);
    // shapes: every list of up to three products of up to three factors out of two tables
    let pairs: Vec<Vec<Vec<F>>> = vec![
        vec![fs(&[3, 5]), fs(&[-7, 11])], vec![fs(&[0, 0]), fs(&[2, -2])], vec![fs(&[1, 1]), fs(&[1, 0])],
        vec![fs(&[3, 5, -7, 11]), fs(&[2, 0, -1, 4])], vec![fs(&[0, 0, 1, 0]), fs(&[1, 1, 1, 1])],
    ];
    let item: Vec<(F, Vec<usize>)> = c3.iter().flat_map(|c| prods.iter().map(move |p| (*c, p.clone()))).collect();
    for l in 1..=3usize {
        let n = ipow(item.len(), l) * pairs.len() as u64 * 2;
        let get = |i: u64| { let mut ix = Idx(i); let shared = ix.take(2) == 0; Spec { tables: ix.pick(&pairs).clone(), shared, products: ix.word(&item, l) } };
        ctx.space(&format!("shapes-{}", l), n, |i| honest(&get(i)), |i| get(i).show());
    }
    // contents: all tables
    let shapes: Vec<Vec<(F, Vec<usize>)>> = vec![
        vec![(f(1), vec![0])], vec![(f(1), vec![0, 1])], vec![(f(3), vec![0, 0])], vec![(f(-1), vec![0, 0, 1])],
        vec![(f(1), vec![0]), (f(-1), vec![1])], vec![(f(2), vec![0, 1]), (f(1), vec![0])], vec![(f(1), vec![0, 1, 1]), (f(-1), vec![0, 1]), (f(5), vec![1])],
        vec![(f(0), vec![0, 0, 0, 0]), (f(1), vec![1])],
    ];
    for (name, tabs) in [("1", all_tables(&[0, 1, -1, 4], 1)), ("2", if ctx.thorough { all_tables(&[0, 1, -1], 2) } else { all_tables(&[0, 1], 2) }), ("2b", all_tables(&[0, -1], 2)), ("3", if ctx.thorough { all_tables(&[0, 1], 3) } else { all_tables(&[0, 1], 3).into_iter().step_by(5).collect() })] {
        let n = ipow(tabs.len(), 2) * shapes.len() as u64;
        let get = |i: u64| { let mut ix = Idx(i); let sh = ix.pick(&shapes).clone(); Spec { tables: ix.word(&tabs, 2), products: sh, shared: true } };
        ctx.space(&format!("contents-{}", name), n, |i| honest(&get(i)), |i| get(i).show());
    }
    // three tables
    let prods3 = multisets(3, 1..=3);
    let t3: Vec<Vec<F>> = vec![fs(&[3, 5, -7, 11]), fs(&[2, 0, -1, 4]), fs(&[0, 1, 1, 6])];
    let n = ipow(prods3.len(), 2);
    ctx.space("three-tables", n, |i| { let mut ix = Idx(i); honest(&Spec { tables: t3.clone(), products: vec![(f(2), ix.pick(&prods3).clone()), (f(-3), ix.pick(&prods3).clone())], shared: true }) }, |i| format!("{}", i));
    // degrees: the interpolation has different code for up to 20, up to 33 and more values
    let dmax = ctx.q(36, 48) as usize;
    let get = |i: u64| {
        let mut ix = Idx(i);
        let nv = 1 + ix.take(2) as usize;
        let d2 = ix.take(dmax as u64) as usize + 1;
        let d1 = ix.take(dmax as u64) as usize + 1;
        let pw = |d: usize| (0..d).map(|k| k % 2).collect::<Vec<_>>();
        Spec { tables: vec![patterned(nv, 1), patterned(nv, 2)], products: vec![(f(2), pw(d1)), (f(-1), pw(d2))], shared: true }
    };
    ctx.space("degrees", (dmax * dmax * 2) as u64, |i| honest(&get(i)), |i| format!("degrees {} {} nv {}", get(i).products[0].1.len(), get(i).products[1].1.len(), get(i).nv()));
    // many products, many tables, long products, elements of full size
    let lens: [fn(usize, usize) -> usize; 6] = [|_, _| 1, |_, _| 2, |k, _| 1 + k % 5, |k, n| 1 + (n - 1 - k) % 4, |k, _| if k == 0 { 7 } else { 1 }, |k, n| if k + 1 == n { 6 } else { 2 }];
    let (pmax, wmax) = (ctx.q(20usize, 40), ctx.q(6usize, 8));
    let nwide = (pmax * wmax * lens.len() * 6) as u64;
    let getw = |i: u64| {
        let mut ix = Idx(i);
        let (shared, own) = (ix.take(2) == 0, ix.take(3) as usize);
        let len = *ix.pick(&lens);
        let (n, nv) = (ix.take(pmax as u64) as usize + 1, ix.take(wmax as u64) as usize + 1);
        // tables: two for all, one more for every product, or one for every factor
        let tabs = [2, n, n + 7][own];
        let tables = (0..tabs).map(|k| wild(nv, k)).collect();
        let products = (0..n).map(|k| (f(k as i64 + 2) * if k % 2 == 0 { f(1) } else { -wild(0, k)[0] }, (0..len(k, n)).map(|j| match own { 0 => (j + k) % 2, 1 => if j == 0 { k } else { (k * 3 + j * 5) % n }, _ => (k + j) % tabs }).collect())).collect();
        Spec { tables, products, shared }
    };
    ctx.space("wide", nwide, |i| honest(&getw(i)), |i| { let s = getw(i); format!("{} tables, {} variables, products {:?}", s.tables.len(), s.nv(), s.products.iter().map(|p| &p.1).collect::<Vec<_>>()) });
    // sizes, with different numbers of threads: the same proof
    let pools: Vec<rayon::ThreadPool> = [1usize, 2, 3, 4, 8].iter().map(|n| rayon::ThreadPoolBuilder::new().num_threads(*n).build().unwrap()).collect();
    let nvmax = ctx.q(8, 12);
    ctx.space("sizes", nvmax * shapes.len() as u64 * pools.len() as u64, |i| {
        let mut ix = Idx(i);
        let sh = ix.pick(&shapes).clone();
        let pool = ix.pick(&pools);
        let nv = ix.take(nvmax) as usize + 1;
        let s = Spec { tables: vec![patterned(nv, 1), patterned(nv, 2)], products: sh, shared: true };
        let one = prove(&s.build(), &mut tr());
        let many = pool.install(|| prove(&s.build(), &mut tr()));
        if one != many { return viol("threads", "the proof depends on the number of threads"); }
        pool.install(|| honest(&s))
    }, |i| { let mut ix = Idx(i); let sh = ix.pick(&shapes).clone(); let p = ix.take(pools.len() as u64); format!("{:?} pool {} nv {}", sh, p, ix.0 + 1) });
    // no variables
    let consts = [0i64, 1, 5];
    ctx.space("no-variables", 3 * shapes.len() as u64, |i| {
        let mut ix = Idx(i);
        let sh = ix.pick(&shapes).clone();
        let c = *ix.pick(&consts);
        let s = Spec { tables: vec![fs(&[c]), fs(&[3])], products: sh, shared: true };
        match guard(|| <P as SumCheck<F>>::prove(&s.build(), &mut tr()).map_err(|e| format!("{:?}", e))) {
            Ok(_) => viol("no-variables", "a constant was proved"),
            Err(e) if e.starts_with("panic") => viol("no-variables", e),
            Err(_) => Ok(obs("refused with an error", 1, true)),
        }
    }, |i| format!("{}", i));
    // the transcript may already carry anything
    let mut ix_words = vec![];
    for l in 0..=3usize { for i in 0..ipow(3, l) { ix_words.push(Idx(i).word(&[0u8, 1, 2], l)); } }
    let w = &ix_words;
    ctx.space("earlier-transcript", (w.len() * w.len()) as u64, |i| {
        let s = Spec { tables: vec![fs(&[3, 5, -7, 11]), fs(&[2, 0, -1, 4])], products: shapes[6].clone(), shared: true };
        let feed = |w: &[u8]| { let mut t = tr(); for o in w { match o { 0 => t.append_field_element(b"x", &f(7)).unwrap(), 1 => t.append_message(b"y", b"abc").unwrap(), _ => { let _ = t.get_and_append_challenge(b"c"); } } } t };
        let (wp, wv) = (&w[i as usize % w.len()], &w[i as usize / w.len()]);
        let (mut tp, mut tv) = (feed(wp), feed(wv));
        // a draw from an empty transcript is refused, and says nothing
        let canon = |w: &[u8]| { let k = w.iter().position(|o| *o != 2).unwrap_or(w.len()); w[k..].to_vec() };
        let r = guard(|| {
            let vp = s.build();
            let proof = prove(&vp, &mut tp)?;
            let v = verify(s.sum(), &proof, &vp.aux_info, &mut tv);
            Ok((proof, v))
        });
        match r {
            Err(e) => viol("earlier-transcript", e),
            Ok((p, v)) => match (canon(wp) == canon(wv), v) {
                (true, Ok((pt, e))) if pt == p.point && e == s.at(&pt) => Ok(obs("same history: verified", 4, true)),
                (true, v) => viol("earlier-transcript", format!("same history but {:?}", v.map(|x| shows(&x.0)))),
                (false, Ok((pt, e))) if e == s.at(&pt) => viol("earlier-transcript", "verified after another history"),
                (false, _) => Ok(obs("other history: refused or unmatched", 4, true)),
            }
        }
    }, |i| format!("{:?} {:?}", w[i as usize % w.len()], w[i as usize / w.len()]));
}

// ---- S02 ---------------------------------------------------------------------

pub struct MAlt { pub name: String, pub act: Box<dyn Fn(&mut Vec<Vec<F>>) + Send + Sync> }
pub fn values(x: F, all: &[F]) -> Vec<F> {
    let mut v = vec![x + F::one(), x - F::one(), F::zero(), F::one(), -x, x + x];
    v.extend_from_slice(all);
    let mut out: Vec<F> = vec![];
    for y in v { if y != x && !out.contains(&y) { out.push(y); } }
    out
}
/// every alteration of the round messages that changes them
pub fn msg_alterations(m: &[Vec<F>]) -> Vec<MAlt> {
    let mut out: Vec<MAlt> = vec![];
    let all: Vec<F> = m.iter().flatten().cloned().collect();
    let base = m.to_vec();
    let mut put = |name: String, act: Box<dyn Fn(&mut Vec<Vec<F>>) + Send + Sync>| {
        let mut c = base.clone();
        act(&mut c);
        // rounds beyond the number of variables are not part of the proof
        if c[..c.len().min(base.len())] != base[..] { out.push(MAlt { name, act }); }
    };
    for r in 0..m.len() {
        for e in 0..m[r].len() {
            for v in values(m[r][e], &all) { put(format!("round {} value {} becomes {}", r, e, show(&v)), Box::new(move |ms| ms[r][e] = v)); }
            for e2 in e + 1..m[r].len() {
                put(format!("round {} values {} and {} swapped", r, e, e2), Box::new(move |ms| ms[r].swap(e, e2)));
                for d in [1i64, -1, 17] { put(format!("round {} values {} and {} moved by {}", r, e, e2, d), Box::new(move |ms| { ms[r][e] += f(d); ms[r][e2] -= f(d); })); }
            }
            put(format!("round {} value {} removed", r, e), Box::new(move |ms| { ms[r].remove(e); }));
            put(format!("round {} value {} doubled up", r, e), Box::new(move |ms| { let x = ms[r][e]; ms[r].insert(e, x); }));
        }
        for x in [f(0), f(1)] { put(format!("round {} one value more", r), Box::new(move |ms| ms[r].push(x))); }
        put(format!("round {} emptied", r), Box::new(move |ms| ms[r].clear()));
        put(format!("round {} dropped", r), Box::new(move |ms| { ms.remove(r); }));
        put(format!("round {} twice", r), Box::new(move |ms| { let x = ms[r].clone(); ms.insert(r, x); }));
        for r2 in r + 1..m.len() {
            put(format!("rounds {} and {} swapped", r, r2), Box::new(move |ms| ms.swap(r, r2)));
            put(format!("round {} replaced by round {}", r, r2), Box::new(move |ms| ms[r] = ms[r2].clone()));
            put(format!("round {} replaced by round {}", r2, r), Box::new(move |ms| ms[r2] = ms[r].clone()));
        }
    }
    out
}
pub fn family() -> Vec<Spec> {
    let t1 = vec![fs(&[3, 5]), fs(&[-7, 11])];
    let t2 = vec![fs(&[3, 5, -7, 11]), fs(&[2, 0, -1, 4])];
    let t3 = vec![fs(&[1, 2, 3, 4, 5, 6, 7, 9]), fs(&[0, 0, 1, 0, -1, 0, 0, 2])];
    let z = vec![fs(&[0, 0]), fs(&[1, -1])];
    let c = vec![fs(&[1, 1, 1, 1]), fs(&[0, 0, 0, 1])];
    let ps: Vec<Vec<(F, Vec<usize>)>> = vec![
        vec![(f(1), vec![0])], vec![(f(1), vec![0, 1])], vec![(f(-2), vec![1, 1]), (f(1), vec![0])], vec![(f(1), vec![0, 0, 1]), (f(4), vec![0, 1])],
    ];
    let wide = vec![(f(1), vec![0, 1, 2]), (f(-2), vec![3]), (f(5), vec![2, 2, 1, 0, 3]), (f(1), vec![1]), (f(7), vec![0, 3]), (f(-1), vec![2])];
    let mut out = vec![
        Spec { tables: (0..4).map(|k| wild(4, k)).collect(), products: wide.clone(), shared: true },
        Spec { tables: (0..4).map(|k| wild(6, k)).collect(), products: wide[3..].to_vec(), shared: true },
        Spec { tables: (0..4).map(|k| wild(2, k)).collect(), products: vec![(f(3), vec![0, 1, 2, 3, 0, 1, 2, 3, 1]), (f(1), vec![1])], shared: true },
    ];
    for t in [&t1, &t2, &t3, &z, &c] { for p in &ps { out.push(Spec { tables: t.clone(), products: p.clone(), shared: true }); } }
    out
}

fn judge_altered(s: &Spec, sum: F, p: &Proof, aux: &VPAuxInfo<F>, key: &str) -> CaseRes {
    match verify(sum, p, aux, &mut tr()) {
        Err(_) => Ok(obs("refused", s.nv() as u64, true)),
        Ok((pt, e)) => {
            if pt.len() == s.nv() && e == s.at(&pt) { viol(key, "accepted with a subclaim that matches the polynomial") }
            else { Ok(obs("accepted with a subclaim that does not match", s.nv() as u64, true)) }
        }
    }
}

pub fn s02(ctx: &Ctx) {
    let fam = family();
    for (k, s) in fam.iter().enumerate() {
        let vp = s.build();
        let proof = prove(&vp, &mut tr()).unwrap_or_else(|e| panic!("{}", e));
        let m = msgs(&proof);
        // wrong sums
        let sum = s.sum();
        let all: Vec<F> = m.iter().flatten().cloned().collect();
        let sums = values(sum, &all);
        ctx.space(&format!("wrong-sum-{}", k), sums.len() as u64, |i| match verify(sums[i as usize], &proof, &vp.aux_info, &mut tr()) {
            Ok(_) => viol("wrong-sum", "a wrong sum was accepted"),
            Err(_) => Ok(obs("refused", 1, true)),
        }, |i| format!("{} sum {}", s.show(), show(&sums[i as usize])));
        let alts = msg_alterations(&m);
        let all_msgs = |act: &[usize]| { let mut c = m.clone(); for a in act { (alts[*a].act)(&mut c); } c };
        // one alteration, with the true sum and with the sum the altered proof carries
        ctx.space(&format!("altered-{}", k), alts.len() as u64 * 2, |i| {
            let c = all_msgs(&[i as usize / 2]);
            let carried = if i % 2 == 0 { sum } else if c.is_empty() || c[0].len() < 2 { return Ok(obs("carries no sum", 0, false)); } else { c[0][0] + c[0][1] };
            let mut p = proof.clone();
            set_msgs(&mut p, c);
            judge_altered(s, carried, &p, &vp.aux_info, "altered")
        }, |i| format!("{}: {} ({} sum)", s.show(), alts[i as usize / 2].name, if i % 2 == 0 { "true" } else { "carried" }));
        // other degree and number of variables
        let mut auxs = vec![];
        for (d, v) in [(1i64, 0i64), (-1, 0), (0, 1), (0, -1), (1, 1), (-1, -1)] {
            let (nd, nn) = (vp.aux_info.max_degree as i64 + d, vp.aux_info.num_variables as i64 + v);
            if nd >= 0 && nn >= 0 { let mut a = vp.aux_info.clone(); a.max_degree = nd as usize; a.num_variables = nn as usize; auxs.push(a); }
        }
        ctx.space(&format!("aux-{}", k), auxs.len() as u64, |i| judge_altered(s, sum, &proof, &auxs[i as usize], "aux"), |i| format!("{}: {:?}", s.show(), auxs[i as usize]));
        // two alterations
        let n = alts.len();
        let n2 = if n <= ctx.q(160, 600) { (n * n) as u64 } else { 0 };
        if n2 > 0 {
            ctx.space(&format!("altered-twice-{}", k), n2, |i| {
                let (a, b) = (i as usize / n, i as usize % n);
                let c = match guard(|| Ok(all_msgs(&[a, b]))) { Ok(c) => c, Err(_) => return Ok(obs("not applicable together", 0, false)) };
                if c.len() >= m.len() && c[..m.len()] == m[..] { return Ok(obs("undone", 0, false)); }
                let mut p = proof.clone();
                set_msgs(&mut p, c);
                judge_altered(s, sum, &p, &vp.aux_info, "altered-twice")
            }, |i| format!("{}: {} then {}", s.show(), alts[i as usize / n].name, alts[i as usize % n].name));
        }
    }
    // a prover that runs the protocol for another polynomial of the same degree and
    // number of variables: with its sum the proof goes through, but the subclaim is
    // about the other polynomial; with any other sum it is refused
    for (name, tabs, shape) in [
        ("linear-1", all_tables(&[0, 1, -1, 2], 1), vec![(f(1), vec![0])]),
        ("square-1", all_tables(&[0, 1, -1, 2], 1), vec![(f(1), vec![0, 0])]),
        ("linear-2", all_tables(&[0, 1], 2), vec![(f(1), vec![0])]),
        ("cube-2", all_tables(&[0, 1], 2), vec![(f(1), vec![0, 0, 0]), (f(2), vec![0])]),
        ("linear-2b", all_tables(&[0, 1, -1], 2), vec![(f(1), vec![0])]),
        ("linear-3", all_tables(&[0, 1], 3).into_iter().step_by(if ctx.thorough { 1 } else { 3 }).collect(), vec![(f(1), vec![0])]),
    ] {
        let spec = |t: &Vec<F>| Spec { tables: vec![t.clone()], products: shape.clone(), shared: true };
        let specs: Vec<Spec> = tabs.iter().map(spec).collect();
        let proofs: Vec<Proof> = specs.iter().map(|s| prove(&s.build(), &mut tr()).unwrap_or_else(|e| panic!("{}", e))).collect();
        let n = tabs.len() as u64;
        let auxs = specs[0].build().aux_info;
        ctx.space(&format!("liars-{}", name), n * n, |i| {
            let (a, b) = ((i % n) as usize, (i / n) as usize);
            let (s, g) = (&specs[a], &specs[b]);
            let v = verify(s.sum(), &proofs[b], &auxs, &mut tr());
            let same_poly = proofs[a].proofs == proofs[b].proofs && s.at(&proofs[a].point) == g.at(&proofs[a].point);
            match v {
                Err(_) if s.sum() == g.sum() => viol("liars", "a proof was refused although the sum is the one it proves"),
                Err(_) => Ok(obs("other sum: refused", 2, true)),
                Ok(_) if s.sum() != g.sum() => viol("liars", "a wrong sum was accepted"),
                Ok((pt, e)) => match (s.at(&pt) == e, same_poly) {
                    (true, false) => viol("liars", "the subclaim of another polynomial's proof matches this one"),
                    (false, true) => viol("liars", "the subclaim does not match the polynomial that was proved"),
                    (true, true) => Ok(obs("same polynomial: matches", 2, true)),
                    (false, false) => Ok(obs("other polynomial, same sum: does not match", 2, true)),
                },
            }
        }, |i| format!("claimed {} proved {}", specs[(i % n) as usize].show(), specs[(i / n) as usize].show()));
        // every challenge depends on the messages so far, and on nothing later
        let ms: Vec<Vec<Vec<F>>> = proofs.iter().map(msgs).collect();
        ctx.space(&format!("bound-{}", name), n * n, |i| {
            let (a, b) = ((i % n) as usize, (i / n) as usize);
            for j in 0..proofs[a].point.len() {
                let same = ms[a][..=j] == ms[b][..=j];
                if same != (proofs[a].point[j] == proofs[b].point[j]) {
                    return viol("bound", format!("challenge {}: messages so far {}, challenges {}", j, if same { "equal" } else { "differ" }, if same { "differ" } else { "equal" }));
                }
            }
            Ok(obs(if a == b { "same" } else { "different" }, proofs[a].point.len() as u64, true))
        }, |i| format!("{} and {}", specs[(i % n) as usize].show(), specs[(i / n) as usize].show()));
    }
}
