//! A01: utilities over multilinear tables, against the definition
use super::*;
use crate::num::*;
use ark_ff::{One, Zero};
use ark_poly::MultilinearExtension;
use std::collections::HashMap;
use std::sync::{Arc, Mutex};
use zk_sql::arithmetic as ar;
use zk_sql::tracker::prelude as tk;

fn tables(nv: usize, deep: bool) -> Vec<Vec<F>> {
    match nv {
        0 => fs(&[0, 1, 5, -1]).into_iter().map(|x| vec![x]).collect(),
        1 => (0..25).map(|i| Idx(i).word(&fs(&[0, 1, -1, 5, 2]), 2)).chain([wild(1, 0)]).collect(),
        2 => (0..if deep { 256 } else { 81 }).map(|i| Idx(i).word(&if deep { fs(&[0, 1, -2, 5]) } else { fs(&[0, 1, 5]) }, 4)).chain([wild(2, 0), wild(2, 1)]).collect(),
        3 if deep => (0..6561).map(|i| Idx(i).word(&fs(&[0, 1, -7]), 8)).collect(),
        3 => (0..256).map(|i| Idx(i).word(&fs(&[0, 1]), 8)).chain(wide(3)).collect(),
        _ => wide(nv),
    }
}
/// for larger sizes: tables with one non-zero row (by linearity they say everything about a
/// linear function), and some with all rows different
fn wide(nv: usize) -> Vec<Vec<F>> {
    let n = 1usize << nv;
    let mut v: Vec<Vec<F>> = vec![wild(nv, 0), wild(nv, 1), (1..=n as i64).map(f).collect(), (1..=n as i64).map(|x| f(x * x - 40)).collect()];
    for k in 0..n { let mut t = vec![f(0); n]; t[k] = f(3); v.push(t); }
    v
}
fn points(nv: usize) -> Vec<Vec<F>> {
    match nv {
        0..=3 => (0..ipow(4, nv)).map(|i| Idx(i).word(&fs(&[0, 1, -3, 7919]), nv)).collect(),
        _ => (0..ipow(2, nv.min(6))).map(|i| { let w = bpoint(i as usize, nv.min(6)); let mut g = gpoint(nv, 0); for (k, x) in w.iter().enumerate() { if x.is_one() { g[k] = f(0); } } g }).chain((0..ipow(2, nv.min(6))).map(|i| bpoint(i as usize * 5 % (1 << nv), nv))).collect(),
    }
}
fn same(what: &str, got: &[F], want: &[F]) -> Result<(), String> { if got == want { Ok(()) } else { Err(format!("{}: {} instead of {}", what, trunc(&shows(got), 200), trunc(&shows(want), 200))) } }
fn msame(what: &str, got: &Mle, nv: usize, want: &[F]) -> Result<(), String> {
    if got.num_vars != nv { return Err(format!("{}: {} variables instead of {}", what, got.num_vars, nv)); }
    same(what, &got.evaluations, want)
}
/// all evaluations and partial evaluations of one table at one point
fn partial(t: &[F], pt: &[F]) -> Result<u64, String> {
    let nv = pt.len();
    let m = mle(t);
    let want = ext(t, pt);
    same("evaluate_opt", &[ar::evaluate_opt(&m, pt)], &[want])?;
    same("evaluate_no_par", &[ar::evaluate_no_par(&m, pt)], &[want])?;
    for d in 0..=nv {
        let rest = nv - d;
        let first: Vec<F> = (0..1usize << rest).map(|j| ext(t, &[&pt[..d], &bpoint(j, rest)[..]].concat())).collect();
        msame(&format!("fix_variables {}", d), &ar::fix_variables(&m, &pt[..d]), rest, &first)?;
        let last: Vec<F> = (0..1usize << rest).map(|j| ext(t, &[&bpoint(j, rest)[..], &pt[rest..]].concat())).collect();
        msame(&format!("fix_last_variables {}", d), &ar::fix_last_variables(&m, &pt[rest..]), rest, &last)?;
        if d > 0 { msame(&format!("fix_last_variables_no_par {}", d), &ar::fix_last_variables_no_par(&m, &pt[rest..]), rest, &last)?; }
    }
    same("the table itself", &m.evaluations, t)?;
    Ok(2 + 3 * nv as u64)
}

pub fn a01(ctx: &Ctx) {
    ctx.assume("thread schedules of rayon are not controlled: larger tables run in pools of 1 to 4 threads");
    for nv in 0..=ctx.q(6usize, 8) {
        let (ts, ps) = (tables(nv, ctx.thorough), points(nv).into_iter().step_by(if nv > 5 { 1 << (nv - 2) } else { 1 }).collect::<Vec<_>>());
        ctx.space(&format!("evaluate-{}", nv), (ts.len() * ps.len()) as u64, |i| {
            let mut ix = Idx(i);
            let (t, p) = (ix.pick(&ts), ix.pick(&ps));
            case("evaluate", || Ok(obs("as defined", partial(t, p)?, true)))
        }, |i| { let mut ix = Idx(i); format!("table {} point {}", shows(ix.pick(&ts)), shows(ix.pick(&ps))) });
        // points of another length
        let ts = &ts;
        ctx.space(&format!("wrong-length-{}", nv), (ts.len() * 6) as u64, |i| {
            let (t, l) = (&ts[i as usize / 6], i as usize % 6);
            case("wrong-length", || {
                let m = mle(t);
                let p = gpoint(l, 0);
                if l != nv {
                    refused("evaluate_opt", || Ok(ar::evaluate_opt(&m, &p)))?;
                    refused("evaluate_no_par", || Ok(ar::evaluate_no_par(&m, &p)))?;
                }
                if l > nv {
                    refused("fix_variables", || Ok(ar::fix_variables(&m, &p)))?;
                    refused("fix_last_variables", || Ok(ar::fix_last_variables(&m, &p)))?;
                    refused("fix_last_variables_no_par", || Ok(ar::fix_last_variables_no_par(&m, &p)))?;
                }
                Ok(obs(if l == nv { "not considered" } else { "refused" }, 2, l != nv))
            })
        }, |i| format!("table {} coordinates {}", shows(&ts[i as usize / 6]), i % 6));
    }
    // sizes at which the work is split between threads
    let big: Vec<(usize, usize, usize)> = (6..=ctx.q(11usize, 13)).flat_map(|nv| (1..=4usize).flat_map(move |th| (0..5usize).map(move |k| (nv, th, k)))).collect();
    ctx.space("threads", big.len() as u64, |i| {
        let (nv, th, k) = big[i as usize];
        case("threads", || {
            let pool = rayon::ThreadPoolBuilder::new().num_threads(th).build().map_err(|e| e.to_string())?;
            let n = 1i64 << nv;
            let t: Vec<F> = if k == 4 { wild(nv, 3) } else { (0..n).map(|x| match k { 0 => f(x + 1), 1 => f(x * x * x - 7 * x), 2 => f((x & 1) * 3), _ => f(x >> (nv - 1)) }).collect() };
            let pt: Vec<F> = (0..nv).map(|j| match (j + k) % 3 { 0 => f(0), 1 => f(1), _ => f(41 + j as i64) }).collect();
            let g = gpoint(nv, k);
            pool.install(|| {
                let m = mle(&t);
                let want = ext(&t, &g);
                same("evaluate_opt", &[ar::evaluate_opt(&m, &g)], &[want])?;
                same("evaluate_no_par", &[ar::evaluate_no_par(&m, &g)], &[want])?;
                same("evaluate_opt", &[ar::evaluate_opt(&m, &pt)], &[ext(&t, &pt)])?;
                for d in [1usize, nv / 2, nv - 1] {
                    let a = ar::fix_variables(&m, &g[..d]);
                    same("fixing all variables in two steps", &[ar::evaluate_opt(&a, &g[d..])], &[want])?;
                    let b = ar::fix_last_variables(&m, &g[d..]);
                    same("fixing all variables from the end", &[ar::evaluate_no_par(&b, &g[..d])], &[want])?;
                    if ar::fix_last_variables_no_par(&m, &g[d..]) != b { return Err("fix_last_variables differs from fix_last_variables_no_par".into()); }
                }
                let e = ar::build_eq_x_r_vec(&g).map_err(|e| e.to_string())?;
                let want: Vec<F> = (0..1usize << nv).map(|r| eq_ref(&bpoint(r, nv), &g)).collect();
                same("build_eq_x_r_vec", &e, &want)?;
                Ok(obs("as defined", 12, true))
            })
        })
    }, |i| format!("variables, threads, table {:?}", big[i as usize]));
    // the equality polynomial
    let nvq = ctx.q(5usize, 7);
    let menu = fs(&[0, 1, -1, 2, 7919]);
    for nv in 0..=nvq {
        ctx.space(&format!("eq-table-{}", nv), ipow(menu.len(), nv), |i| {
            let r = Idx(i).word(&menu, nv);
            case("eq", || {
                let want: Vec<F> = (0..1usize << nv).map(|k| eq_ref(&bpoint(k, nv), &r)).collect();
                let (a, b, c) = (ar::build_eq_x_r_vec(&r), ar::build_eq_x_r(&r), tk::build_eq_x_r(&r));
                if nv == 0 {
                    if a.is_ok() || b.is_ok() || c.is_ok() { return Err("an equality polynomial without variables was built".into()); }
                    return Ok(obs("refused with an error", 3, true));
                }
                same("build_eq_x_r_vec", &a.map_err(|e| e.to_string())?, &want)?;
                msame("build_eq_x_r", &*b.map_err(|e| e.to_string())?, nv, &want)?;
                msame("tracker build_eq_x_r", &c.map_err(|e| e.to_string())?, nv, &want)?;
                Ok(obs("as defined", 3, true))
            })
        }, |i| shows(&Idx(i).word(&menu, nv)));
    }
    let m4 = fs(&[0, 1, -1, 7919]);
    for (a, b) in (0..=3usize).flat_map(|a| (0..=3usize).map(move |b| (a, b))) {
        ctx.space(&format!("eq-{}-{}", a, b), ipow(4, a + b), |i| {
            let mut ix = Idx(i);
            let (x, y) = (ix.word(&m4, a), ix.word(&m4, b));
            case("eq", || {
                let (r, s) = (ar::eq_eval(&x, &y), tk::eq_eval(&x, &y));
                if a != b {
                    if r.is_ok() || s.is_ok() { return Err("points of different lengths were compared".into()); }
                    return Ok(obs("refused with an error", 2, true));
                }
                let want = eq_ref(&x, &y);
                same("eq_eval", &[r.map_err(|e| e.to_string())?, s.map_err(|e| e.to_string())?], &[want, want])?;
                Ok(obs("as defined", 2, true))
            })
        }, |i| { let mut ix = Idx(i); format!("{} {}", shows(&ix.word(&m4, a)), shows(&ix.word(&m4, b))) });
    }
    // merging
    let mut lists: Vec<Vec<Vec<F>>> = vec![];
    for k in 1..=ctx.q(5usize, 6) {
        let pool: Vec<Vec<F>> = if k <= 3 { vec![fs(&[0]), fs(&[3]), fs(&[5, 7]), fs(&[1, 0]), fs(&[2, 3, 4, 5])] } else { vec![fs(&[3]), fs(&[5, 7]), fs(&[9, 1])] };
        for i in 0..ipow(pool.len(), k) { lists.push(Idx(i).word(&pool, k)); }
    }
    for k in [7usize, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65] { for nv in 0..=5usize { lists.push((0..k).map(|j| (0..1i64 << nv).map(|x| f(x + 10 * j as i64 + 1)).collect()).collect()); } }
    let lists = &lists;
    ctx.space("merge", lists.len() as u64, |i| {
        let l = &lists[i as usize];
        case("merge", || {
            let polys: Vec<Arc<Mle>> = l.iter().map(|t| Arc::new(mle(t))).collect();
            let r = ar::merge_polynomials(&polys);
            if l.iter().any(|t| t.len() != l[0].len()) {
                return match r { Ok(_) => Err("tables of different sizes were merged".into()), Err(_) => Ok(obs("refused with an error", 1, true)) };
            }
            let m = r.map_err(|e| e.to_string())?;
            let nv = nv_of(&l[0]);
            let bits = (0..).find(|b| 1usize << b >= l.len()).unwrap();
            if ar::get_batched_nv(nv, l.len()) != nv + bits { return Err(format!("get_batched_nv gives {} instead of {}", ar::get_batched_nv(nv, l.len()), nv + bits)); }
            let mut want = l.concat();
            want.resize(1 << (nv + bits), f(0));
            msame("merge_polynomials", &m, nv + bits, &want)?;
            for k in 0..1usize << bits {
                let pt = gpoint(nv, k);
                let at = ar::gen_eval_point(k, bits, &pt);
                same("gen_eval_point", &at, &[&pt[..], &bpoint(k, bits)[..]].concat())?;
                let want = if k < l.len() { ext(&l[k], &pt) } else { f(0) };
                same("the merged table at a table's point", &[m.evaluate(&at).ok_or("no value")?], &[want])?;
            }
            Ok(obs("as defined", 2 + l.len() as u64, true))
        })
    }, |i| lists[i as usize].iter().map(|t| shows(t)).collect::<Vec<_>>().join(" "));
    // identity and permutation tables
    ctx.space("identity", 11 * 9, |i| {
        let (nv, ch) = (i as usize % 11, i as usize / 11);
        case("identity", || {
            let n = 1i64 << nv;
            same("identity_permutation", &ar::identity_permutation::<F>(nv, ch), &(0..n * ch as i64).map(f).collect::<Vec<_>>())?;
            let ms = ar::identity_permutation_mles::<F>(nv, ch);
            if ms.len() != ch { return Err(format!("{} tables instead of {}", ms.len(), ch)); }
            for (k, m) in ms.iter().enumerate() { msame("identity_permutation_mles", m, nv, &(0..n).map(|x| f(x + k as i64 * n)).collect::<Vec<_>>())?; }
            Ok(obs("as defined", 2, true))
        })
    }, |i| format!("variables {} chunks {}", i % 11, i / 11));
    for (nv, ch) in [(0usize, 1usize), (0, 2), (0, 3), (0, 4), (1, 1), (1, 2), (2, 1), (0, 5), (0, 6), (1, 3)].into_iter().take(ctx.q(8, 10)) {
        let n = ch << nv;
        // every sequence of choices the source of randomness can make
        let total: u64 = (1..=n as u64).product();
        let seen: Mutex<HashMap<Vec<F>, u64>> = Mutex::new(HashMap::new());
        let get = |i: u64| { let mut ix = Idx(i); (0..n).map(|k| ix.take((n - k) as u64) + if k % 2 == 0 { 0 } else { 6 * (n - k) as u64 }).collect::<Vec<u64>>() };
        ctx.space(&format!("permutation-{}-{}", nv, ch), total, |i| {
            case("permutation", || {
                let p = ar::random_permutation::<F, _>(nv, ch, &mut Script::new(get(i)));
                let id: Vec<F> = (0..n as i64).map(f).collect();
                if p.len() != n || id.iter().any(|x| !p.contains(x)) { return Err(format!("not a permutation: {}", shows(&p))); }
                let ms = ar::random_permutation_mles::<F, _>(nv, ch, &mut Script::new(get(i)));
                if ms.len() != ch { return Err(format!("{} tables instead of {}", ms.len(), ch)); }
                for (k, m) in ms.iter().enumerate() { msame("random_permutation_mles", m, nv, &p[k << nv..(k + 1) << nv])?; }
                let new = seen.lock().unwrap().insert(p, i).is_none();
                Ok(obs(if new { "a permutation not seen before" } else { "a permutation" }, 2, true))
            })
        }, |i| format!("{:?}", get(i)));
    }
    // random tables: the sum is right, and the products of the other kind are zero
    for (nv, deg) in [(0usize, 1usize), (0, 2), (0, 3), (1, 1), (1, 2), (2, 1), (1, 3), (2, 2)] {
        let n = deg << nv;
        let words = if n <= 4 { vec![0u64, 1, 5] } else { vec![0u64, 3] };
        ctx.space(&format!("random-tables-{}-{}", nv, deg), ipow(words.len(), n), |i| {
            case("random-tables", || {
                let w: Vec<u64> = Idx(i).word(&words, n).into_iter().flat_map(|x| [x, 0, 0, 0]).collect();
                let (l, sum) = ar::random_mle_list::<F, _>(nv, deg, &mut Script::new(w.clone()));
                let prod = |l: &[Arc<Mle>], r: usize| l.iter().map(|m| m.evaluations[r]).product::<F>();
                if l.len() != deg || l.iter().any(|m| m.num_vars != nv || m.evaluations.len() != 1 << nv) { return Err("tables of the wrong shape".into()); }
                same("random_mle_list", &[sum], &[(0..1usize << nv).map(|r| prod(&l, r)).sum()])?;
                let z = ar::random_zero_mle_list::<F, _>(nv, deg, &mut Script::new(w));
                if z.len() != deg || z.iter().any(|m| m.num_vars != nv || m.evaluations.len() != 1 << nv) { return Err("tables of the wrong shape".into()); }
                if (0..1usize << nv).any(|r| !prod(&z, r).is_zero()) { return Err("random_zero_mle_list: a product is not zero".into()); }
                Ok(obs(if sum.is_zero() { "sum zero" } else { "sum not zero" }, 2, true))
            })
        }, |i| format!("{:?}", Idx(i).word(&words, n)));
    }
    // bits
    let mut ints: Vec<u64> = (0..1 << ctx.q(10, 14)).collect();
    for k in 0..64 { ints.push(1 << k); ints.push((1u64 << k) - 1); ints.push(!(1u64 << k)); }
    ints.push(u64::MAX);
    ctx.space("bits", ints.len() as u64, |i| {
        let x = ints[i as usize];
        case("bits", || {
            for n in 0..=66usize {
                let want: Vec<bool> = (0..n).map(|k| k < 64 && (x >> k) & 1 == 1).collect();
                if ar::bit_decompose(x, n) != want { return Err(format!("bit_decompose({}, {})", x, n)); }
                if tk::bit_decompose(x, n) != want { return Err(format!("tracker bit_decompose({}, {})", x, n)); }
                if n <= 20 && tk::binary_decompose::<F>(x, n) != want.iter().map(|b| if *b { f(1) } else { f(0) }).collect::<Vec<_>>() { return Err(format!("binary_decompose({}, {})", x, n)); }
                if n >= 1 && n <= 62 && x < 1 << n {
                    let low = (x as usize) & ((1usize << (n - 1)) - 1);
                    let want = (low << 1, (low << 1) + 1, (x >> (n - 1)) & 1 == 1);
                    if ar::get_index(x as usize, n) != want { return Err(format!("get_index({}, {}): {:?} instead of {:?}", x, n, ar::get_index(x as usize, n), want)); }
                }
            }
            Ok(obs("as defined", 67 * 3, true))
        })
    }, |i| format!("{}", ints[i as usize]));
    ctx.space("batched-size", 21 * 130, |i| {
        let (nv, k) = (i as usize % 21, i as usize / 21 + 1);
        case("batched-size", || {
            let bits = (0..).find(|b| 1usize << b >= k).unwrap();
            if ar::get_batched_nv(nv, k) != nv + bits { return Err(format!("{} instead of {}", ar::get_batched_nv(nv, k), nv + bits)); }
            Ok(obs("as defined", 1, true))
        })
    }, |i| format!("variables {} tables {}", i % 21, i / 21 + 1));
    // unused variables in front and at the back
    for nv in 0..=ctx.q(5usize, 6) {
        let ts = tables(nv, ctx.thorough);
        ctx.space(&format!("more-variables-{}", nv), ts.len() as u64 * 8, |i| {
            let (t, to) = (&ts[i as usize / 8], i as usize % 8);
            case("more-variables", || {
                let m = Arc::new(mle(t));
                if to < nv {
                    refused("front", || Ok(tk::dmle_increase_nv_front(&m, to)))?;
                    refused("back", || Ok(tk::dmle_increase_nv_back(&m, to)))?;
                    return Ok(obs("refused", 2, true));
                }
                let k = to - nv;
                let (a, b) = (tk::dmle_increase_nv_front(&m, to), tk::dmle_increase_nv_back(&m, to));
                msame("front", &a, to, &(0..1usize << to).map(|r| t[r >> k]).collect::<Vec<_>>())?;
                msame("back", &b, to, &(0..1usize << to).map(|r| t[r & ((1 << nv) - 1)]).collect::<Vec<_>>())?;
                let g = gpoint(to, 2);
                same("front at a point", &[ext(&a.evaluations, &g)], &[ext(t, &g[k..])])?;
                same("back at a point", &[ext(&b.evaluations, &g)], &[ext(t, &g[..nv])])?;
                same("the table itself", &m.evaluations, t)?;
                Ok(obs("as defined", 2, true))
            })
        }, |i| format!("{} to {} variables", shows(&ts[i as usize / 8]), i % 8));
    }
}
