//! G20 malformed inputs, and a verifier whose inputs are not the prover's
use super::common::*;
use super::compose::{pbag, prove, ptable, steps, vbag, verify, vtable, Step, K};
use std::collections::HashMap;

/// what a gadget is called on: per table the columns, as indices into the committed ones, and its declared size
type View = (Vec<Vec<usize>>, Vec<usize>);
struct Setup {
    cols: Vec<Vec<i64>>,
    view: View,
}
fn setup(tabs: &[Tab]) -> Setup {
    let mut cols = vec![];
    let mut v = vec![];
    for t in tabs {
        let k = cols.len();
        for j in 0..t[0].len() { cols.push(t.iter().map(|r| r[j]).collect()); }
        v.push((k..cols.len()).collect());
    }
    Setup { cols, view: (v, tabs.iter().map(nv).collect()) }
}
fn view_tabs(cols: &[Vec<i64>], v: &View) -> Vec<Tab> {
    v.0.iter().map(|t| { let n = t.iter().map(|c| cols[*c].len()).min().unwrap_or(0); (0..n).map(|i| t.iter().map(|c| cols[*c][i]).collect()).collect() }).collect()
}
fn run(k: K, cols: &[Vec<i64>], pv: &View, vv: &View) -> Verdict {
    run_cols(cols, pv == vv, |t, p| prove(k, t, &pv.0.iter().map(|x| x.iter().map(|c| p[*c].clone()).collect()).collect::<Vec<_>>()),
        |t, c| verify(k, t, &vv.0.iter().map(|x| x.iter().map(|i| c[*i].clone()).collect()).collect::<Vec<_>>(), &vv.1))
}
fn run_cols(cols: &[Vec<i64>], real: bool, p: impl Fn(&mut PT, &[TP]) -> Result<Vec<TP>, String>, v: impl Fn(&mut VT, &[TC]) -> Result<Vec<TC>, String>) -> Verdict {
    let ops: Vec<Op> = cols.iter().map(|c| Op::C(c.iter().map(|x| f(*x)).collect())).collect();
    run_gadget(&ops, p, v, real)
}

/// does the statement hold; None: not defined (selectors other than 0 and 1, inputs that are not sets)
pub fn holds(k: K, t: &[Tab]) -> Option<bool> {
    let weighted = |sides: &[(usize, i64, bool)]| {
        let mut m: HashMap<i64, i64> = HashMap::new();
        for (i, s, w) in sides { for r in &t[*i] { *m.entry(r[0]).or_insert(0) += s * r[1] * if *w { r[2] } else { 1 }; } }
        m.values().all(|x| *x == 0)
    };
    match k {
        K::Multi => return Some(weighted(&[(0, 1, true), (1, 1, true), (2, -1, true)])),
        K::Eq => return Some(t[0].len() == t[1].len() && weighted(&[(0, 1, false), (1, -1, false)])),
        K::Sum => return Some(weighted(&[(0, 1, false), (1, 1, false), (2, -1, false)])),
        K::InclAdv => return Some(weighted(&[(0, 1, false), (1, -1, true)])),
        K::NoZeros => return Some(t[0].iter().all(|r| r[1] == 0 || r[0] != 0)),
        K::SelValid => return Some(t[0].iter().all(|r| r[r.len() - 1] == 0 || r[r.len() - 1] == 1)),
        K::Perm => {
            if t[0].len() != t[1].len() || t[0].len() != t[2].len() { return Some(false); }
            let mut l: Vec<(i64, i64)> = t[0].iter().enumerate().map(|(i, r)| (i as i64, r[0])).collect();
            let mut r: Vec<(i64, i64)> = t[2].iter().zip(&t[1]).map(|(m, r)| (m[0], r[0])).collect();
            l.sort();
            r.sort();
            return Some(l == r);
        }
        _ => {}
    }
    let bags: Vec<(usize, usize)> = match k {
        K::Join | K::Index => vec![(0, t[0][0].len() - 1), (1, t[1][0].len() - 1)],
        K::JoinAdv => vec![(0, t[0][0].len() - 1), (1, t[1][0].len() - 1)],
        K::GroupBy => vec![(0, t[0][0].len() - 1), (1, 1), (2, 1)],
        K::Cross => return Some(true),
        _ => (0..t.len()).map(|i| (i, 1)).collect(),
    };
    if bags.iter().any(|(i, s)| range_table(k) != Some(*i) && t[*i].iter().any(|r| r[*s] != 0 && r[*s] != 1)) { return None; }
    // every row of a range table counts
    let r = |i: usize| -> Vec<i64> { t[i].iter().map(|x| x[0]).collect() };
    let v = |i: usize| sel_vals(&t[i]);
    let is = |i: usize, s: BTreeSet<i64>| counts(&v(i)) == counts(&s.into_iter().collect::<Vec<_>>());
    Some(match k {
        K::Incl => set(&v(0)).is_subset(&set(&v(1))),
        K::Sort => strict_sorted(&t[0], &r(1)),
        K::Supp => super::sorts::supp_ok(&t[0], &t[1], &r(2)),
        K::SuppAdv => {
            let c = counts(&v(0));
            super::sorts::supp_ok(&t[0], &t[1], &r(2)) && t[1].iter().all(|x| x[1] == 0 || (x[2] == *c.get(&x[0]).unwrap_or(&0) && x[2] != 0))
        }
        K::BagDisj | K::BagDisjAdv => set(&v(0)).is_disjoint(&set(&v(1))),
        K::SetDisj => { let mut w = v(0); w.extend(v(1)); dup_free(&w) }
        K::Union => {
            let mut all = set(&v(0));
            all.extend(v(1));
            strict_sorted(&t[2], &r(3)) && set(&v(2)) == all && dup_free(&v(2))
        }
        K::Diff | K::Inter => {
            if !dup_free(&v(0)) || !dup_free(&v(1)) { return None; }
            let (a, b) = (set(&v(0)), set(&v(1)));
            is(2, &a - &b) && is(3, &a & &b) && (k == K::Diff || is(4, &b - &a))
        }
        K::JoinRed => {
            let (a, b) = (set(&v(0)), set(&v(1)));
            let ok = |t: &Tab, o: &BTreeSet<i64>| t.iter().all(|x| (x[2] == 0 || x[2] == 1) && (x[1] == 0 || (x[2] == 1) != o.contains(&x[0])));
            ok(&t[0], &b) && ok(&t[1], &a)
        }
        K::Join => t[1].iter().all(|b| b[b.len() - 1] == 0 || t[0].iter().any(|a| a[a.len() - 1] == 1 && a[0] == b[0])),
        K::JoinAdv => t[1].len() == t[2].len() && t[1].iter().zip(&t[2]).all(|(b, x)| {
            b[b.len() - 1] == 0 || (x[0] == b[0] && t[0].iter().any(|a| a[a.len() - 1] == 1 && a[..a.len() - 1] == x[..]))
        }),
        K::Index => { let s = t[0][0].len() - 1; t[1].iter().all(|r| r[s] == 0 || t[0].iter().any(|q| q[s] != 0 && q[..s] == r[..s])) }
        K::GroupBy => {
            let w = t[0][0].len() - 1;
            let bag: Tab = t[0].iter().map(|r| vec![r[0], r[w]]).collect();
            let c = counts(&sel_vals(&bag));
            super::sorts::supp_ok(&bag, &t[1], &r(2)) && t[1].iter().all(|x| x[1] == 0 || (x[2] == *c.get(&x[0]).unwrap_or(&0)
                && x[3] == t[0].iter().filter(|y| y[0] == x[0]).map(|y| y[1] * y[w]).sum::<i64>()))
        }
        _ => unreachable!(),
    })
}
fn range_table(k: K) -> Option<usize> {
    match k {
        K::Sort => Some(1),
        K::Supp | K::SuppAdv | K::BagDisj | K::SetDisj | K::JoinRed | K::GroupBy => Some(2),
        K::BagDisjAdv | K::Union => Some(3),
        K::Diff => Some(4),
        K::Inter => Some(5),
        _ => None,
    }
}
/// columns of a gadget that the statement does not mention
fn unused(k: K, table: usize, col: usize) -> bool {
    match k {
        // the selectors play no role
        K::Perm => table < 2 && col == 1,
        // passed on as they are
        K::Join | K::JoinAdv if table == 1 && col == 1 => true,
        // a range table is its one column: any size will do, the selector plays no role
        _ => range_table(k) == Some(table) || (k == K::SelValid && col > 0),
    }
}
/// resize a column
fn resized(c: &[i64], how: usize) -> Option<Vec<i64>> {
    match how {
        0 if c.len() > 1 => Some(c[..c.len() / 2].to_vec()),
        1 => Some(c.iter().chain(c).cloned().collect()),
        2 => Some((0..2 * c.len()).map(|i| c[i / 2]).collect()),
        3 => Some((0..4 * c.len()).map(|i| if i < c.len() { c[i] } else { 0 }).collect()),
        4 if c.len() > 2 => Some(c[c.len() - c.len() / 4..].to_vec()),
        _ => None,
    }
}
fn judged(key: &str, v: Verdict, h: Option<bool>) -> CaseRes {
    v.expect(key, if h == Some(false) { Want::Reject } else { Want::Any })
}
/// no mirror requirement: the two sides are called on different things
fn asym(key: &str, mut v: Verdict, h: Option<bool>) -> CaseRes {
    v.mirror = Ok(());
    if h == Some(false) { v.expect(key, Want::Reject) } else { v.expect(key, Want::Any) }
}

pub fn g20(ctx: &Ctx) {
    let st: Vec<Step> = steps().into_iter().flatten().collect();

    // one column of another size, on both sides or for the verifier only in what it is told
    let mut cases: Vec<(usize, usize, usize, usize)> = vec![];
    for (i, s) in st.iter().enumerate() { for (j, t) in s.tabs.iter().enumerate() { for c in 0..t[0].len() { for how in 0..5 {
        if t[0].len() > 1 || s.k == K::Perm { cases.push((i, j, c, how)); }
    } } } }
    let name = "one column of another size";
    ctx.space(name, cases.len() as u64, |n| {
        let (i, j, c, how) = cases[n as usize];
        let s = &st[i];
        if unused(s.k, j, c) || s.k == K::Cross { return Ok(obs("not part of the statement", 0, false)); }
        let mut u = setup(&s.tabs);
        let k = u.view.0[j][c];
        match resized(&u.cols[k], how) {
            Some(x) => u.cols[k] = x,
            None => return Ok(obs("nothing to resize", 0, false)),
        }
        // the sizes the verifier is told: unchanged, or those of the resized column
        run(s.k, &u.cols, &u.view, &u.view).expect(name, Want::Reject)?;
        let mut vv = u.view.clone();
        vv.1[j] = u.cols[k].len().trailing_zeros() as usize;
        run(s.k, &u.cols, &u.view, &vv).expect(name, Want::Reject)
    }, |n| { let (i, j, c, how) = cases[n as usize]; format!("{}{}: table {} column {} resized ({})", if st[i].ok { "" } else { "false " }, st[i].name, j, c, how) });

    // one table of another size
    let mut cases: Vec<(usize, usize, usize)> = vec![];
    for (i, s) in st.iter().enumerate() { for j in 0..s.tabs.len() { for how in 0..5 { cases.push((i, j, how)); } } }
    let name = "one table of another size";
    ctx.space(name, cases.len() as u64, |n| {
        let (i, j, how) = cases[n as usize];
        let s = &st[i];
        let mut u = setup(&s.tabs);
        for k in u.view.0[j].clone() {
            match resized(&u.cols[k], how) {
                Some(x) => u.cols[k] = x,
                None => return Ok(obs("nothing to resize", 0, false)),
            }
        }
        u.view.1[j] = u.cols[u.view.0[j][0]].len().trailing_zeros() as usize;
        judged(name, run(s.k, &u.cols, &u.view, &u.view), holds(s.k, &view_tabs(&u.cols, &u.view)))
    }, |n| { let (i, j, how) = cases[n as usize]; format!("{}{}: table {} resized ({})", if st[i].ok { "" } else { "false " }, st[i].name, j, how) });

    // the verifier takes another column of the same size for one of its inputs, or two columns exchanged
    let mut cases: Vec<(usize, usize, usize, bool)> = vec![];
    for (i, s) in st.iter().enumerate() {
        let u = setup(&s.tabs);
        for a in 0..u.cols.len() { for b in 0..u.cols.len() {
            if a != b && u.cols[a].len() == u.cols[b].len() {
                cases.push((i, a, b, false));
                if a < b { cases.push((i, a, b, true)); }
            }
        } }
    }
    let name = "verifier on other columns";
    let view = |n: u64| -> (Setup, View) {
        let (i, a, b, swap) = cases[n as usize];
        let u = setup(&st[i].tabs);
        let mut vv = u.view.clone();
        for t in vv.0.iter_mut() { for c in t.iter_mut() { if *c == a { *c = b; } else if swap && *c == b { *c = a; } } }
        (u, vv)
    };
    ctx.space(name, cases.len() as u64, |n| {
        let s = &st[cases[n as usize].0];
        let (u, vv) = view(n);
        asym(name, run(s.k, &u.cols, &u.view, &vv), holds(s.k, &view_tabs(&u.cols, &vv)))
    }, |n| { let (i, a, b, swap) = cases[n as usize]; format!("{}{}: the verifier takes column {} for column {}{}", if st[i].ok { "" } else { "false " }, st[i].name, b, a, if swap { " and the other way round" } else { "" }) });

    // the number of bags and weights of the weighted bag argument, on either side, honest or not
    let bagrows: [[i64; 3]; 2] = [[1, 1, 2], [2, 1, 1]];
    let name = "numbers of bags and weights";
    ctx.space(name, 4 * 4 * 4 * 4 * 3, |n| {
        let mut ix = Idx(n);
        let (nf, ng, mf, mg, who) = (ix.take(4) as usize, ix.take(4) as usize, ix.take(4) as usize, ix.take(4) as usize, ix.take(3));
        // every bag is the same, weights of the right side scale so that true statements are frequent
        let mut cols: Vec<Vec<i64>> = vec![bagrows.iter().map(|r| r[0]).collect(), bagrows.iter().map(|r| r[1]).collect()];
        for w in [ng.max(1), nf.max(1)] { cols.push(bagrows.iter().map(|r| r[2] * w as i64).collect()); }
        let good = nf == mf && ng == mg && nf > 0 && ng > 0;
        // what the other side is called on when only one side is malformed: two and one bags
        let own = (nf, ng, mf, mg);
        let other = (2, 1, 2, 1);
        let (pr, vr) = match who { 0 => (own, own), 1 => (own, other), _ => (other, own) };
        if who > 0 { cols[2] = vec![2, 1]; cols[3] = vec![4, 2]; }
        let v = run_cols(&cols, who == 0, |t, p| {
            let b = Bag::new(p[0].clone(), p[1].clone());
            es(BagMultitoolIOP::<E, Mock>::prove(t, &vec![b.clone(); pr.0], &vec![b; pr.1], &vec![p[2].clone(); pr.2], &vec![p[3].clone(); pr.3])).map(|_| vec![])
        }, |t, c| {
            let b = BagComm::new(c[0].clone(), c[1].clone(), 1);
            es(BagMultitoolIOP::<E, Mock>::verify(t, &vec![b.clone(); vr.0], &vec![b; vr.1], &vec![c[2].clone(); vr.2], &vec![c[3].clone(); vr.3])).map(|_| vec![])
        });
        let truth = match who { 0 => good, 1 => true, _ => good && nf == 2 * ng };
        if truth && who == 0 { v.expect(name, Want::Accept) } else { asym(name, v, Some(truth)) }
    }, |n| { let mut ix = Idx(n); format!("{} left bags, {} right bags, {} left weights, {} right weights, {}", ix.take(4), ix.take(4), ix.take(4), ix.take(4), ["both sides", "prover only", "verifier only"][ix.take(3) as usize]) });

    // numbers of columns of tables
    let base: Vec<Vec<i64>> = vec![vec![1, 2], vec![5, 6], vec![8, 9], vec![1, 1]];
    let name = "numbers of columns, index transform";
    ctx.space(name, 4 * 4 * 3 * 2, |n| {
        let mut ix = Idx(n);
        let (a, b, who, bad) = (ix.take(4) as usize, ix.take(4) as usize, ix.take(3), ix.take(2) == 1);
        let mut cols = base.clone();
        // the output rows: the input rows, or with the last column of another row
        cols.extend(base.iter().cloned());
        if bad { let k = 4 + b.max(1) - 1; cols[k] = vec![7, 7]; }
        let tab = |n: usize, o: usize| -> Vec<usize> { (0..n).map(|k| o + k).chain([o + 3]).collect() };
        let own = (vec![tab(a, 0), tab(b, 4)], vec![1, 1]);
        let other = (vec![tab(2, 0), tab(2, 4)], vec![1, 1]);
        let (pr, vr) = match who { 0 => (&own, &own), 1 => (&own, &other), _ => (&other, &own) };
        let v = run(K::Index, &cols, pr, vr);
        let sound = if who == 1 { !(bad && b == 2) && !(bad && b == 1) } else { a == b && a > 0 && !bad };
        if who == 0 && sound { v.expect(name, Want::Accept) }
        else if who == 1 { let h = holds(K::Index, &view_tabs(&cols, vr)); asym(name, v, h) }
        else { asym(name, v, Some(sound)) }
    }, |n| { let mut ix = Idx(n); format!("{} columns to {} columns, {}, {}", ix.take(4), ix.take(4), ["both sides", "prover only", "verifier only"][ix.take(3) as usize], ["true", "false"][ix.take(2) as usize]) });

    let name = "join columns and advice";
    let a3: Vec<Vec<i64>> = vec![vec![1, 2], vec![2, 3], vec![1, 1]];
    let b3: Vec<Vec<i64>> = vec![vec![1, 2], vec![2, 3], vec![1, 1]];
    ctx.space(name, 4 * 4 * 4 * 3, |n| {
        let mut ix = Idx(n);
        let (ja, jb, adv, who) = (ix.take(4) as usize, ix.take(4) as usize, ix.take(4) as usize, ix.take(3));
        let cols: Vec<Vec<i64>> = a3.iter().chain(&b3).cloned().chain([vec![1, 2], vec![2, 3], vec![9, 9]]).collect();
        let own = (ja, jb, adv);
        let other = (0, 0, 2);
        let (pr, vr) = match who { 0 => (own, own), 1 => (own, other), _ => (other, own) };
        let v = run_cols(&cols, who == 0, |t, p| {
            let x = p[6..6 + pr.2.min(3)].to_vec();
            es(FinalJoinOneToManyIOP::<E, Mock>::prove_with_advice(t, &ptable(&p[0..3]), &ptable(&p[3..6]), pr.0, pr.1, &x)).map(|_| vec![])
        }, |t, c| {
            let x = c[6..6 + vr.2.min(3)].to_vec();
            es(FinalJoinOneToManyIOP::<E, Mock>::verify_with_advice(t, &vtable(&c[0..3], 1), &vtable(&c[3..6], 1), vr.0, vr.1, &x)).map(|_| vec![])
        });
        let good = |s: (usize, usize, usize)| s.2 == 2 && s.0 < 2 && s.1 < 2 && s.0 == s.1;
        if who == 0 && good(own) { v.expect(name, Want::Accept) }
        else { asym(name, v, if good(vr) { None } else { Some(false) }) }
    }, |n| { let mut ix = Idx(n); format!("join columns {} and {}, {} advice columns, {}", ix.take(4), ix.take(4), ix.take(4), ["both sides", "prover only", "verifier only"][ix.take(3) as usize]) });
    let name = "join columns of the honest join";
    ctx.space(name, 4 * 4 * 3, |n| {
        let mut ix = Idx(n);
        let (ja, jb, who) = (ix.take(4) as usize, ix.take(4) as usize, ix.take(3));
        let cols: Vec<Vec<i64>> = a3.iter().chain(&b3).cloned().collect();
        let (pr, vr) = match who { 0 => ((ja, jb), (ja, jb)), 1 => ((ja, jb), (0, 0)), _ => ((0, 0), (ja, jb)) };
        let v = run_cols(&cols, who == 0, |t, p| es(FinalJoinOneToManyIOP::<E, Mock>::prove(t, &ptable(&p[0..3]), &ptable(&p[3..6]), pr.0, pr.1)).map(|_| vec![]),
            |t, c| es(FinalJoinOneToManyIOP::<E, Mock>::verify(t, &vtable(&c[0..3], 1), &vtable(&c[3..6], 1), vr.0, vr.1)).map(|_| vec![]));
        let good = |s: (usize, usize)| s.0 < 2 && s.1 < 2 && s.0 == s.1;
        if who == 0 && good((ja, jb)) { v.expect(name, Want::Accept) }
        else { asym(name, v, if good(vr) { None } else { Some(false) }) }
    }, |n| { let mut ix = Idx(n); format!("join columns {} and {}, {}", ix.take(4), ix.take(4), ["both sides", "prover only", "verifier only"][ix.take(3) as usize]) });

    // inputs of another session
    let name = "inputs of another session";
    let mut cases: Vec<(usize, usize, usize)> = vec![];
    for (i, s) in st.iter().enumerate() { if s.k != K::Cross { for (j, t) in s.tabs.iter().enumerate() { for c in 0..t[0].len() { if !unused(s.k, j, c) { cases.push((i, j, c)); } } } } }
    ctx.space(name, cases.len() as u64, |n| {
        let (i, j, c) = cases[n as usize];
        let s = &st[i];
        let u = setup(&s.tabs);
        let k = u.view.0[j][c];
        // the other session has polynomials under the same numbers
        let v = run_cols(&u.cols, false, |t, p| {
            let mut o = PT::new_from_pcs_params(());
            let q: Vec<TP> = u.cols.iter().map(|x| o.track_and_commit_poly(mle(&x.iter().map(|y| f(*y)).collect::<Vec<_>>())).unwrap()).collect();
            prove(s.k, t, &u.view.0.iter().map(|x| x.iter().map(|i| if *i == k { q[*i].clone() } else { p[*i].clone() }).collect()).collect::<Vec<_>>())
        }, |t, c| verify(s.k, t, &u.view.0.iter().map(|x| x.iter().map(|i| c[*i].clone()).collect()).collect::<Vec<_>>(), &u.view.1));
        asym(name, v, Some(s.ok))
    }, |n| { let (i, j, c) = cases[n as usize]; format!("{}{}: table {} column {}", if st[i].ok { "" } else { "false " }, st[i].name, j, c) });
    let _ = (pbag::<Mock>, vbag::<Mock>);
}
