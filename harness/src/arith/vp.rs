//! A02: virtual polynomials, against lists of products
use super::*;
use crate::num::*;
use ark_ff::{One, Zero};
use std::sync::Arc;
use zk_sql::arithmetic::VirtualPolynomial;

type Vp = VirtualPolynomial<F>;
/// the reference: coefficient and factors of each product
type Ref = Vec<(F, Vec<Vec<F>>)>;
struct Pool { nv: usize, arcs: Vec<Arc<Mle>>, others: Vec<(Vp, Ref, usize)> }
// the pointers in a virtual polynomial are only keys
unsafe impl Sync for Pool {}

fn build(nv: usize, arcs: &[Arc<Mle>], terms: &[(i64, &[usize])]) -> (Vp, Ref, usize) {
    let mut v = Vp::new(nv);
    let mut r = vec![];
    for (c, ix) in terms {
        v.add_mle_list(ix.iter().map(|k| arcs[*k].clone()).collect::<Vec<_>>(), f(*c)).unwrap();
        r.push((f(*c), ix.iter().map(|k| arcs[*k].evaluations.clone()).collect()));
    }
    (v, r, nv)
}
fn pool(nv: usize) -> Pool {
    let t: Vec<i64> = (0..1 << nv).collect();
    let arc = |g: &dyn Fn(i64) -> i64, nv: usize| Arc::new(mle(&(0..1i64 << nv).map(|x| f(g(x))).collect::<Vec<_>>()));
    // tables 0 and 2 are equal but not the same; 3 has a variable more
    let arcs = vec![arc(&|x| 3 * x + 2, nv), arc(&|x| if x % 2 == 1 { -5 } else { x }, nv), arc(&|x| 3 * x + 2, nv), arc(&|x| x + 1, nv + 1), arc(&|_| 0, nv)];
    let _ = t;
    let others = vec![
        build(nv, &arcs, &[]),
        build(nv, &arcs, &[(2, &[0])]),
        build(nv, &arcs, &[(1, &[1, 0, 1]), (-3, &[2])]),
        build(nv, &arcs, &[(-1, &[0]), (0, &[0, 1])]),
        (Vp::new_from_mle(&arcs[1], f(4)), vec![(f(4), vec![arcs[1].evaluations.clone()])], nv),
        build(nv + 1, &arcs, &[(1, &[3])]),
        build(nv + 1, &arcs, &[]),
    ];
    Pool { nv, arcs, others }
}
#[derive(Clone, Debug)]
enum Act { Add(Vec<usize>, i64), Mul(usize, i64), Plus(usize), PlusOf(usize), Twice, Hat(usize), HatWrong, Copy }
fn acts(deep: bool) -> Vec<Act> {
    let mut v = vec![];
    for (l, c) in [(vec![0], 1), (vec![0], -1), (vec![1], 3), (vec![2], 1), (vec![0, 0], 1), (vec![0, 1], 2), (vec![1, 0, 1], 1), (vec![2, 0], 0), (vec![4], 5), (vec![], 1), (vec![3], 1), (vec![0, 3], 1), (vec![3, 1], 1)] { v.push(Act::Add(l, c)); }
    for (k, c) in [(0, 1), (0, -1), (1, 2), (2, 0), (4, 1), (3, 1)] { v.push(Act::Mul(k, c)); }
    for k in 0..7 { v.push(Act::Plus(k)); }
    for k in [2usize, 4] { v.push(Act::PlusOf(k)); }
    v.push(Act::Twice);
    for k in 0..2 { v.push(Act::Hat(k)); }
    v.push(Act::HatWrong);
    if deep { v.push(Act::Copy); }
    v
}
fn value(r: &Ref, pt: &[F]) -> F { r.iter().map(|(c, p)| *c * p.iter().map(|t| ext(t, pt)).product::<F>()).sum() }
fn row(r: &Ref, k: usize) -> F { r.iter().map(|(c, p)| *c * p.iter().map(|t| t[k]).product::<F>()).sum() }
fn check(v: &Vp, r: &Ref, nv: usize, all: bool) -> Result<(), String> {
    if v.aux_info.num_variables != nv { return Err(format!("{} variables instead of {}", v.aux_info.num_variables, nv)); }
    for a in &v.products {
        if a.1.len() > v.aux_info.max_degree { return Err(format!("a product of {} tables in a polynomial of declared degree {}", a.1.len(), v.aux_info.max_degree)); }
        if a.1.iter().any(|k| *k >= v.flattened_ml_extensions.len()) { return Err("a product refers to a table that is not there".into()); }
    }
    if v.flattened_ml_extensions.iter().any(|m| m.num_vars != nv) { return Err("a table of another size".into()); }
    let want: Vec<F> = (0..1usize << nv).map(|k| row(r, k)).collect();
    let m = v.materialize();
    if m.num_vars != nv || m.evaluations != want { return Err(format!("materialized as {} instead of {}", shows(&m.evaluations), shows(&want))); }
    let mut pts = vec![gpoint(nv, 0)];
    if all { pts.push((0..nv).map(|k| f(-2 - k as i64)).collect()); for k in 0..1usize << nv { pts.push(bpoint(k, nv)); } }
    for p in &pts {
        let got = v.evaluate(p).map_err(|e| e.to_string())?;
        if got != value(r, p) { return Err(format!("value {} instead of {} at {}", show(&got), show(&value(r, p)), shows(p))); }
    }
    for l in [nv + 1, nv.wrapping_sub(1)] { if l <= nv + 1 { match guard(|| Ok(v.evaluate(&gpoint(l, 0)))) { Ok(Err(_)) => {} Ok(Ok(_)) => return Err("evaluated at a point of the wrong length".into()), Err(e) => return Err(e) } } }
    Ok(())
}
/// the outcome: None when the step is refused, which has to leave the polynomial as it was
fn step(p: &Pool, v: &mut Vp, r: &mut Ref, a: &Act) -> Result<bool, String> {
    let nv = p.nv;
    let before = v.clone();
    let tab = |k: usize| p.arcs[k].evaluations.clone();
    let plus = |x: &Vp, y: &Vp| -> Result<Vp, String> {
        let (sx, sy) = (x.clone(), y.clone());
        let s = guard(|| Ok(x + y));
        if *x != sx || *y != sy { return Err("an operand of an addition was changed".into()); }
        s
    };
    match a {
        Act::Add(l, c) => {
            let bad = l.is_empty() || l.iter().any(|k| p.arcs[*k].num_vars != nv);
            match (guard(|| Ok(v.add_mle_list(l.iter().map(|k| p.arcs[*k].clone()).collect::<Vec<_>>(), f(*c))))?, bad) {
                (Ok(()), true) => return Err(format!("{:?} was not refused", a)),
                (Err(e), false) => return Err(format!("{:?} was refused: {}", a, e)),
                (Err(_), true) => return Ok(false),
                (Ok(()), false) => r.push((f(*c), l.iter().map(|k| tab(*k)).collect())),
            }
        }
        Act::Mul(k, c) => {
            let bad = p.arcs[*k].num_vars != nv;
            match (guard(|| Ok(v.mul_by_mle(p.arcs[*k].clone(), f(*c))))?, bad) {
                (Ok(()), true) => return Err(format!("{:?} was not refused", a)),
                (Err(e), false) => return Err(format!("{:?} was refused: {}", a, e)),
                (Err(_), true) => return Ok(false),
                (Ok(()), false) => for (d, l) in r.iter_mut() { *d *= f(*c); l.push(tab(*k)); },
            }
        }
        Act::Plus(k) => {
            let (o, or, onv) = &p.others[*k];
            match (plus(v, o), *onv != nv && !or.is_empty()) {
                (Ok(_), true) => return Err("polynomials of different sizes were added".into()),
                (Err(e), false) => return Err(e),
                (Err(_), true) => return Ok(false),
                (Ok(s), false) => { *v = s; r.extend(or.clone()); }
            }
        }
        Act::PlusOf(k) => {
            let (o, or, _) = &p.others[*k];
            *v = plus(o, v)?;
            *r = or.iter().cloned().chain(r.iter().cloned()).collect();
        }
        Act::Twice => { let s = plus(v, v)?; *v = s; let c = r.clone(); r.extend(c); }
        Act::Hat(k) => {
            let g = if *k == 0 { gpoint(nv, 3) } else { (0..nv).map(|j| f(j as i64 % 2)).collect() };
            let h = guard(|| Ok(v.build_f_hat(&g)))?;
            if *v != before { return Err("build_f_hat changed its polynomial".into()); }
            match (h, nv == 0) {
                (Ok(_), true) => return Err("weighted without variables".into()),
                (Err(_), true) => return Ok(false),
                (Err(e), false) => return Err(e.to_string()),
                (Ok(h), false) => {
                    *v = h;
                    let eq: Vec<F> = (0..1usize << nv).map(|x| eq_ref(&bpoint(x, nv), &g)).collect();
                    for (_, l) in r.iter_mut() { l.push(eq.clone()); }
                }
            }
        }
        Act::HatWrong => {
            for l in [nv + 1, nv.wrapping_sub(1)] { if l <= nv + 1 { if guard(|| Ok(v.build_f_hat(&gpoint(l, 0))))?.is_ok() { return Err("weighted with a point of the wrong length".into()); } } }
            if *v != before { return Err("build_f_hat changed its polynomial".into()); }
            return Ok(false);
        }
        Act::Copy => {
            // what happens to a copy stays there
            let mut c = v.clone();
            let _ = c.add_mle_list(vec![p.arcs[0].clone(), p.arcs[1].clone(), p.arcs[0].clone()], f(9));
            let _ = c.mul_by_mle(p.arcs[1].clone(), f(2));
            if *v != before { return Err("a copy shares state with its original".into()); }
        }
    }
    Ok(true)
}

pub fn a02(ctx: &Ctx) {
    let alpha = acts(true);
    for nv in 0..=2usize {
        let p = pool(nv);
        let p = &p;
        for len in 0..=ctx.q(if nv == 1 { 4 } else { 3 }, if nv == 2 { 4 } else { 5 }) {
            // what it starts from: nothing, a table, a sum
            let starts = 3u64;
            // longer histories in the quick run: two kinds of first steps
            let n = ipow(alpha.len(), len) * starts;
            let get = |i: u64| { let mut ix = Idx(i); let s = ix.take(starts); (s, ix.word(&alpha, len)) };
            ctx.space(&format!("histories-{}-{}", nv, len), n, |i| {
                let (s, w) = get(i);
                case("history", || {
                    let (mut v, mut r) = match s {
                        0 => (Vp::new(nv), vec![]),
                        1 => (Vp::new_from_mle(&p.arcs[0], f(7)), vec![(f(7), vec![p.arcs[0].evaluations.clone()])]),
                        _ => { let (v, r, _) = &p.others[2]; (v.clone(), r.clone()) }
                    };
                    let mut no = 0;
                    for (k, a) in w.iter().enumerate() {
                        if !step(p, &mut v, &mut r, a)? { no += 1; }
                        // prefixes are histories of their own
                        if k + 1 == w.len() { check(&v, &r, nv, len < 3 || i % 7 == 0).map_err(|e| format!("after {:?}: {}", a, e))?; }
                    }
                    if w.is_empty() { check(&v, &r, nv, true)?; }
                    Ok(obs(format!("{} steps refused", no), len as u64 + 1, true))
                })
            }, |i| format!("{:?}", get(i)));
        }
    }
    // longer sums: many products, long products
    let ks: Vec<(usize, usize, usize)> = (1..=3usize).flat_map(|nv| (0..=9usize).flat_map(move |a| (1..=7usize).map(move |b| (nv, a, b)))).collect();
    ctx.space("sizes", ks.len() as u64, |i| {
        let (nv, n, len) = ks[i as usize];
        case("sizes", || {
            let p = pool(nv);
            let mut v = Vp::new(nv);
            let mut r = vec![];
            for k in 0..n {
                let l: Vec<usize> = (0..1 + (k + len) % len.max(1) + len / 2).map(|j| [0, 1, 2, 4, 0][(j * (k + 1)) % 5]).collect();
                v.add_mle_list(l.iter().map(|x| p.arcs[*x].clone()).collect::<Vec<_>>(), f(k as i64 + 1)).map_err(|e| e.to_string())?;
                r.push((f(k as i64 + 1), l.iter().map(|x| p.arcs[*x].evaluations.clone()).collect()));
            }
            check(&v, &r, nv, true)?;
            Ok(obs("exact", n as u64, true))
        })
    }, |i| format!("{:?}", ks[i as usize]));
    // random polynomials: the sum is what it is said to be
    let mut rs = vec![];
    for nv in 0..=2usize { for lo in 1..=2usize { for hi in lo + 1..=4 { for n in 0..=3usize { for seed in 0..ctx.q(64u64, 1024) { rs.push((nv, lo, hi, n, seed)); } } } } }
    ctx.space("random", rs.len() as u64, |i| {
        let (nv, lo, hi, n, seed) = rs[i as usize];
        case("random", || {
            // a walk over small words, different for every seed
            let words: Vec<u64> = (0..600u64).map(|k| { let x = (seed + 1).wrapping_mul(0x9e3779b97f4a7c15).rotate_left((k * 7 % 61) as u32) ^ k; if k % 4 == 3 { x >> 3 } else { x } }).collect();
            let (v, sum) = Vp::rand(nv, (lo, hi), n, &mut Script::new(words.clone())).map_err(|e| e.to_string())?;
            let shape = |v: &Vp| v.aux_info.num_variables == nv && v.products.len() == n && v.products.iter().all(|(_, l)| l.len() >= lo && l.len() < hi && l.len() <= v.aux_info.max_degree);
            if !shape(&v) { return Err("wrong shape".into()); }
            let m = v.materialize();
            if m.evaluations.iter().sum::<F>() != sum { return Err("the sum is not the sum over the rows".into()); }
            let z = Vp::rand_zero(nv, (lo, hi), n, &mut Script::new(words)).map_err(|e| e.to_string())?;
            if !shape(&z) { return Err("wrong shape".into()); }
            if z.materialize().evaluations.iter().any(|x| !x.is_zero()) { return Err("not zero on some row".into()); }
            let _ = F::one();
            Ok(obs(if sum.is_zero() { "sum zero" } else { "sum not zero" }, 2, true))
        })
    }, |i| format!("{:?}", rs[i as usize]));
}
