//! G05 strict sort, G06 no-zeros / selector validity, G07 support
use super::common::*;

/// t[0]: (value, selector); t[1]: range (value, selector)
pub fn sort(t: &[Tab], cfg: &Cfg) -> CaseRes {
    let mut ins = Ins::new(&cfg.modes);
    let (a, r) = (ins.bag(&t[0]), ins.bag(&t[1]));
    let range: Vec<i64> = t[1].iter().map(|x| x[0]).collect();
    judge(
        cfg,
        &ins,
        |pt, p| es2(BagStrictSortIOP::<E, Mock>::prove(pt, &pb(p, a), &pb(p, r))),
        |vt, c| es3(BagStrictSortIOP::<E, Mock>::verify(vt, &vb(c, a, nv(&t[0])), &vb(c, r, nv(&t[1])))),
        Want::iff(strict_sorted(&t[0], &range)),
    )
}
/// a space of columns against one fixed range table
pub fn with_range(ctx: &Ctx, name: &str, shape: &[(usize, Vec<Vec<i64>>)], range: &[i64], opt: Opt, stmt: impl Fn(&[Tab], &Cfg) -> CaseRes + Sync) {
    let rt = range_tab(range);
    let mut sh = shape.to_vec();
    // a range has one row alphabet per row: append it as a fixed table
    sh.push((0, vec![vec![0, 1]]));
    stmt_space(ctx, name, &sh, opt, |t, c| {
        let mut t = t.to_vec();
        *t.last_mut().unwrap() = rt.clone();
        stmt(&t, c)
    });
}

pub fn g05(ctx: &Ctx) {
    let r03 = [0i64, 1, 2, 3];
    let r = rows2(&[0, 1, 2, 3], &[0, 1]);
    with_range(ctx, "nv1, range 0..3", &[(1, rows2(&[-1, 0, 1, 3, 4], &[0, 1, 2]))], &r03, PLAIN, sort);
    with_range(ctx, "nv2, range 0..3", &[(2, r.clone())], &r03, PLAIN, sort);
    with_range(ctx, "nv2, range 0..3, values up to 5 and negative", &[(2, rows2(&[-2, 0, 1, 3, 5], &[0, 1]))], &r03, PLAIN, sort);
    with_range(ctx, "nv2, range 1..2", &[(2, r.clone())], &[1, 2], PLAIN, sort);
    with_range(ctx, "nv2, range 0..1", &[(2, r.clone())], &[0, 1], PLAIN, sort);
    with_range(ctx, "nv2, range 0 only", &[(2, rows2(&[0, 1], &[0, 1]))], &[0, 0], PLAIN, sort);
    with_range(ctx, "nv2, range 3,1,0,2 (unordered)", &[(2, r.clone())], &[3, 1, 0, 2], PLAIN, sort);
    with_range(ctx, "nv2, range 0..7", &[(2, rows2(&[0, 1, 4, 7], &[0, 1]))], &[0, 1, 2, 3, 4, 5, 6, 7], PLAIN, sort);
    let r3 = vec![vec![0, 0], vec![0, 1], vec![1, 1], vec![2, 1]];
    with_range(ctx, "nv3, range 0..3", &[(3, r3)], &r03, PLAIN, sort);
    let up: Vec<Vec<i64>> = rows2(&[0, 1], &[0, 1]);
    // nv3: values are the running sum of the words' first components, so sortedness is frequent
    let n = ipow(up.len() + 2, 8);
    let steps = { let mut v = up.clone(); v.push(vec![-1, 1]); v.push(vec![4, 1]); v };
    let stride = ctx.q(7u64, 1);
    let name = "nv3, running sums of steps -1,0,1,4";
    let dec = |i: u64| -> Tab {
        let w = Idx(i * stride).word(&steps, 8);
        let mut s = 0;
        w.iter().map(|x| { s += x[0]; vec![s, x[1]] }).collect()
    };
    ctx.space(name, n / stride, |i| {
        let cfg = Cfg { key: name.into(), modes: vec![], real: i % 11 == 0, attack: false, debug: ctx.variant == "debug" };
        sort(&[dec(i), range_tab(&r03)], &cfg)
    }, |i| format!("rows {:?}", dec(i)));
    if ctx.thorough {
        with_range(ctx, "nv2, all four-value words", &[(2, rows2(&[-1, 0, 1, 2, 3], &[0, 1, 2]))], &r03, PLAIN, sort);
    }
    // the selector of the range table plays no role
    stmt_space(ctx, "nv1, range rows and selectors free", &[(1, rows2(&[0, 1, 2], &[0, 1])), (1, rows2(&[0, 1, 2], &[0, 1]))], PLAIN, sort);
    with_range(ctx, "nv1 derived columns", &[(1, rows2(&[0, 1, 2], &[0, 1]))], &[0, 1], DERIVED, sort);
    with_range(ctx, "nv2 derived columns", &[(2, vec![vec![0, 0], vec![1, 1], vec![2, 1]])], &[0, 1], DERIVED, sort);
    with_range(ctx, "nv1 dishonest prover", &[(1, rows2(&[0, 1, 2, 4], &[0, 1]))], &r03, ATTACK, sort);
    with_range(ctx, "nv2 dishonest prover", &[(2, rows2(if ctx.thorough { &[0, 1, 2] } else { &[0, 1] }, &[0, 1]))], &r03, ATTACK, sort);
    ctx.assume("value differences do not wrap around the field (the range table holds small numbers)");
}

pub fn nozeros(t: &[Tab], cfg: &Cfg) -> CaseRes {
    let mut ins = Ins::new(&cfg.modes);
    let a = ins.bag(&t[0]);
    judge(
        cfg,
        &ins,
        |pt, p| es2(BagNoZerosIOP::<E, Mock>::prove(pt, &pb(p, a))),
        |vt, c| es3(BagNoZerosIOP::<E, Mock>::verify(vt, &vb(c, a, nv(&t[0])))),
        Want::iff(t[0].iter().all(|r| r[1] == 0 || r[0] != 0)),
    )
}
pub fn selvalid(t: &[Tab], cfg: &Cfg) -> CaseRes {
    let mut ins = Ins::new(&cfg.modes);
    let a = ins.add(col(&t[0], 0));
    judge(
        cfg,
        &ins,
        |pt, p| es2(SelectorValidIOP::<E, Mock>::prove(pt, &p[a])),
        |vt, c| es3(SelectorValidIOP::<E, Mock>::verify(vt, &c[a])),
        Want::iff(t[0].iter().all(|r| r[0] == 0 || r[0] == 1)),
    )
}
pub fn g06(ctx: &Ctx) {
    let all = rows2(&[0, 1, 2, -1], &[0, 1, 2, -1]);
    let some = vec![vec![0, 0], vec![0, 1], vec![2, 0], vec![-1, 1], vec![2, 2]];
    let few = vec![vec![0, 0], vec![0, 1], vec![2, 1]];
    stmt_space(ctx, "no zeros nv1", &[(1, all.clone())], PLAIN, nozeros);
    stmt_space(ctx, "no zeros nv2", &[(2, all.clone())], PLAIN, nozeros);
    stmt_space(ctx, "no zeros nv3", &[(3, if ctx.thorough { some.clone() } else { few.clone() })], PLAIN, nozeros);
    stmt_space(ctx, "no zeros nv4", &[(4, vec![vec![0, 0], vec![2, 1]])], PLAIN, nozeros);
    // one bad row at every place of a larger table
    for (n, name) in [(4usize, "no zeros nv4 one bad row"), (5, "no zeros nv5 one bad row")] {
        let len = 1u64 << n;
        ctx.space(name, len * 4, |i| {
            let (k, sel, all_on) = ((i % len) as usize, (i / len) % 2, i / len / 2);
            let t: Tab = (0..len as usize).map(|r| if r == k { vec![0, sel as i64] } else { vec![r as i64 - 3 * len as i64, all_on as i64] }).collect();
            let cfg = Cfg { key: name.into(), modes: vec![], real: true, attack: false, debug: ctx.variant == "debug" };
            nozeros(&[t], &cfg)
        }, |i| format!("zero value in row {} with selector {}, other selectors {}", i % len, (i / len) % 2, i / len / 2));
    }
    stmt_space(ctx, "no zeros nv1 derived columns", &[(1, all.clone())], DERIVED, nozeros);
    stmt_space(ctx, "no zeros nv2 derived columns", &[(2, some.clone())], DERIVED, nozeros);
    stmt_space(ctx, "no zeros nv1 dishonest prover", &[(1, all.clone())], ATTACK, nozeros);
    stmt_space(ctx, "no zeros nv2 dishonest prover", &[(2, some.clone())], ATTACK, nozeros);
    let s = rows1(&[0, 1, 2, -1]);
    stmt_space(ctx, "selector nv1", &[(1, s.clone())], PLAIN, selvalid);
    stmt_space(ctx, "selector nv2", &[(2, s.clone())], PLAIN, selvalid);
    stmt_space(ctx, "selector nv3", &[(3, if ctx.thorough { s.clone() } else { rows1(&[0, 1, -1]) })], PLAIN, selvalid);
    stmt_space(ctx, "selector nv2 derived columns", &[(2, s.clone())], DERIVED, selvalid);
    for (n, name) in [(4usize, "selector nv4 one bad row"), (5, "selector nv5 one bad row")] {
        let len = 1u64 << n;
        let bads = [0i64, 1, 2, -1, 3];
        ctx.space(name, len * 5 * 2, |i| {
            let mut ix = Idx(i);
            let k = ix.take(len) as usize;
            let b = *ix.pick(&bads);
            let par = ix.take(2) as usize;
            let t: Tab = (0..len as usize).map(|r| vec![if r == k { b } else { ((r + par) % 2) as i64 }]).collect();
            let cfg = Cfg { key: name.into(), modes: vec![], real: true, attack: false, debug: ctx.variant == "debug" };
            selvalid(&[t], &cfg)
        }, |i| format!("row {} of an alternating selector replaced, case {}", i % len, i));
    }
}

/// the honest prover's multiplicities: all occurrences on the first selected row of a value
pub fn supp_ok(bag: &Tab, supp: &Tab, range: &[i64]) -> bool {
    strict_sorted(supp, range) && set(&sel_vals(bag)) == set(&sel_vals(supp)) && dup_free(&sel_vals(supp))
}
pub fn supp(t: &[Tab], cfg: &Cfg) -> CaseRes {
    let mut ins = Ins::new(&cfg.modes);
    let (a, s, r) = (ins.bag(&t[0]), ins.bag(&t[1]), ins.bag(&t[2]));
    let range: Vec<i64> = t[2].iter().map(|x| x[0]).collect();
    judge(
        cfg,
        &ins,
        |pt, p| es2(BagSuppIOP::<E, Mock>::prove(pt, &pb(p, a), &pb(p, s), &pb(p, r))),
        |vt, c| es3(BagSuppIOP::<E, Mock>::verify(vt, &vb(c, a, nv(&t[0])), &vb(c, s, nv(&t[1])), &vb(c, r, nv(&t[2])))),
        Want::iff(supp_ok(&t[0], &t[1], &range)),
    )
}
/// t[1]: (value, selector, multiplicity)
pub fn supp_adv(t: &[Tab], cfg: &Cfg) -> CaseRes {
    let mut ins = Ins::new(&cfg.modes);
    let (a, s, r) = (ins.bag(&t[0]), ins.table(&t[1]), ins.bag(&t[2]));
    let range: Vec<i64> = t[2].iter().map(|x| x[0]).collect();
    let cnt = counts(&sel_vals(&t[0]));
    let mults = t[1].iter().filter(|x| x[1] != 0).all(|x| x[2] == *cnt.get(&x[0]).unwrap_or(&0) && x[2] != 0);
    judge(
        cfg,
        &ins,
        |pt, p| es2(BagSuppIOP::<E, Mock>::prove_with_advice(pt, &pb(p, a), &pb(p, (s[0], s[1])), &p[s[2]], &pb(p, r))),
        |vt, c| es3(BagSuppIOP::<E, Mock>::verify_with_advice(vt, &vb(c, a, nv(&t[0])), &vb(c, (s[0], s[1]), nv(&t[1])), &c[s[2]], &vb(c, r, nv(&t[2])))),
        Want::iff(supp_ok(&t[0], &t[1], &range) && mults),
    )
}
pub fn g07(ctx: &Ctx) {
    let r03 = [0i64, 1, 2, 3];
    let bag5 = vec![vec![0, 1], vec![1, 1], vec![2, 1], vec![1, 0], vec![3, 1]];
    let s6 = vec![vec![0, 0], vec![0, 1], vec![1, 1], vec![2, 1], vec![3, 1], vec![1, 0]];
    let bag3 = vec![vec![1, 1], vec![2, 1], vec![3, 0]];
    let s4 = vec![vec![0, 0], vec![1, 1], vec![2, 1], vec![3, 1]];
    with_range(ctx, "bag nv1, support nv1", &[(1, rows2(&[0, 1, 2, 3], &[0, 1])), (1, rows2(&[0, 1, 2, 3], &[0, 1]))], &r03, PLAIN, supp);
    with_range(ctx, "bag nv2, support nv1", &[(2, bag5.clone()), (1, s6.clone())], &r03, PLAIN, supp);
    with_range(ctx, "bag nv1, support nv2", &[(1, bag5.clone()), (2, s6.clone())], &r03, PLAIN, supp);
    with_range(ctx, "bag nv2, support nv2", &[(2, if ctx.thorough { bag5.clone() } else { bag3.clone() }), (2, if ctx.thorough { s6.clone() } else { s6[1..5].to_vec() })], &r03, PLAIN, supp);
    with_range(ctx, "bag nv3, support nv2", &[(3, vec![vec![1, 1], vec![3, 1], ]), (2, s4.clone())], &r03, PLAIN, supp);
    with_range(ctx, "bag nv2, support nv3", &[(2, vec![vec![1, 1], vec![2, 1]]), (3, vec![vec![0, 0], vec![1, 1], vec![2, 1]][..ctx.q(2, 3)].to_vec())], &r03, PLAIN, supp);
    with_range(ctx, "bag nv1, support nv2, range 0..1", &[(1, bag5.clone()), (2, s6.clone())], &[0, 1], PLAIN, supp);
    with_range(ctx, "derived columns", &[(1, bag3.clone()), (1, vec![vec![0, 0], vec![1, 1], vec![2, 1]])], &[0, 1], DERIVED, supp);
    with_range(ctx, "dishonest prover nv1", &[(1, bag3.clone()), (1, s4.clone())], &[0, 1, 2, 3], ATTACK, supp);
    with_range(ctx, "dishonest prover nv2/nv1", &[(2, vec![vec![1, 1], vec![2, 1]]), (1, s4.clone())], &[0, 1], ATTACK, supp);
    let mut m = vec![];
    for v in [1i64, 2, 3] { for k in [0i64, 1, 2, -1] { m.push(vec![v, 1, k]); } }
    m.push(vec![0, 0, 0]);
    m.push(vec![0, 0, 5]);
    m.push(vec![0, 0, 1]);
    with_range(ctx, "with advice, bag nv1, support nv1", &[(1, bag5.clone()), (1, m.clone())], &r03, PLAIN, supp_adv);
    with_range(ctx, "with advice, bag nv2, support nv1", &[(2, bag3.clone()), (1, m.clone())], &r03, PLAIN, supp_adv);
    let m2: Vec<Vec<i64>> = if ctx.thorough { m.clone() } else { vec![vec![0, 0, 0], vec![0, 0, 5], vec![1, 1, 1], vec![1, 1, 2], vec![2, 1, 1], vec![2, 1, 2]] };
    with_range(ctx, "with advice, bag nv2, support nv2", &[(2, vec![vec![1, 1], vec![2, 1], vec![1, 0]]), (2, m2)], &r03, PLAIN, supp_adv);
    with_range(ctx, "with advice, dishonest prover", &[(1, bag3[..ctx.q(2, 3)].to_vec()), (1, m.iter().filter(|r| r[0] != 3 && r[2] != 5 && (ctx.thorough || r[2] >= 0)).cloned().collect())], &[0, 1], ATTACK, supp_adv);
    ctx.assume("value differences do not wrap around the field (the range table holds small numbers)");
}
