//! G01 weighted bag argument, G02 bag equality / sum, G03 inclusion, G04
//! prescribed permutation
use super::common::*;

/// rows are (value, selector, weight)
pub fn multitool(tabs: &[Tab], nl: usize, cfg: &Cfg) -> CaseRes {
    let mut ins = Ins::new(&cfg.modes);
    let ix: Vec<Vec<usize>> = tabs.iter().map(|t| ins.table(t)).collect();
    let mut w: BTreeMap<i64, i64> = BTreeMap::new();
    for (i, t) in tabs.iter().enumerate() {
        for r in t {
            *w.entry(r[0]).or_insert(0) += r[1] * r[2] * if i < nl { 1 } else { -1 };
        }
    }
    judge(
        cfg,
        &ins,
        |t, p| {
            let b: Vec<PBag> = ix.iter().map(|x| pb(p, (x[0], x[1]))).collect();
            let m: Vec<TP> = ix.iter().map(|x| p[x[2]].clone()).collect();
            es2(BagMultitoolIOP::<E, Mock>::prove(t, &b[..nl], &b[nl..], &m[..nl], &m[nl..]))
        },
        |t, c| {
            let b: Vec<VBag> = ix.iter().zip(tabs).map(|(x, tab)| vb(c, (x[0], x[1]), nv(tab))).collect();
            let m: Vec<TC> = ix.iter().map(|x| c[x[2]].clone()).collect();
            es3(BagMultitoolIOP::<E, Mock>::verify(t, &b[..nl], &b[nl..], &m[..nl], &m[nl..]))
        },
        Want::iff(w.values().all(|x| *x == 0)),
    )
}

pub fn g01(ctx: &Ctx) {
    let full: Vec<Vec<i64>> = {
        let mut a = vec![];
        for v in [0i64, 1] { for s in [0i64, 1] { for m in [0i64, 1, 2] { a.push(vec![v, s, m]); } } }
        a
    };
    let a = |x: &[(i64, i64, i64)]| -> Vec<Vec<i64>> { x.iter().map(|r| vec![r.0, r.1, r.2]).collect() };
    let two = a(&[(1, 1, 1), (2, 0, 3)]);
    let three = a(&[(1, 1, 1), (2, 1, 1), (2, 0, 3)]);
    let four = a(&[(1, 1, 1), (2, 1, 1), (2, 0, 3), (1, 1, 2)]);
    let five = a(&[(1, 1, 1), (2, 1, 1), (2, 0, 1), (1, 1, 0), (1, 1, 2)]);
    let signed = a(&[(0, 1, 1), (-1, 1, -1), (7, 2, 1), (7, 1, 2), (7, 1, 1), (-1, -1, 1)]);
    let sp = |name: &str, left: &[usize], right: &[usize], alpha: &Vec<Vec<i64>>, opt: Opt| {
        let shape: Vec<_> = left.iter().chain(right).map(|n| (*n, alpha.clone())).collect();
        let nl = left.len();
        stmt_space(ctx, name, &shape, opt, |t, c| multitool(t, nl, c));
    };
    let big = if ctx.thorough { &five } else { &four };
    let mid = if ctx.thorough { &four } else { &three };
    sp("1x1 bags nv1, all rows", &[1], &[1], &full, PLAIN);
    sp("1x1 bags nv1, negative and repeated weights", &[1], &[1], &signed, PLAIN);
    sp("1x1 bags nv1/nv2", &[1], &[2], &five, PLAIN);
    sp("1x1 bags nv2/nv1", &[2], &[1], &five, PLAIN);
    sp("1x1 bags nv0/nv1", &[0], &[1], &full, PLAIN);
    sp("2x1 bags nv1,1/nv1", &[1, 1], &[1], &five, PLAIN);
    sp("1x2 bags nv1/nv1,1", &[1], &[1, 1], &five, PLAIN);
    sp("2x1 bags nv1,1/nv2", &[1, 1], &[2], big, PLAIN);
    sp("2x1 bags nv1,2/nv1", &[1, 2], &[1], big, PLAIN);
    sp("1x2 bags nv2/nv1,1", &[2], &[1, 1], big, PLAIN);
    sp("2x2 bags nv1", &[1, 1], &[1, 1], big, PLAIN);
    sp("2x2 bags nv0,1/nv1,0", &[0, 1], &[1, 0], &five, PLAIN);
    sp("3x1 bags nv1", &[1, 1, 1], &[1], mid, PLAIN);
    sp("1x1 bags nv2/nv2", &[2], &[2], big, PLAIN);
    sp("1x1 bags nv3/nv1", &[3], &[1], if ctx.thorough { &three } else { &two }, PLAIN);
    sp("1x1 bags nv1/nv3", &[1], &[3], if ctx.thorough { &three } else { &two }, PLAIN);
    sp("1x1 bags nv3/nv3", &[3], &[3], &two, PLAIN);
    sp("1x1 bags nv1, derived columns", &[1], &[1], &five, DERIVED);
    sp("1x1 bags nv1/nv2, derived columns", &[1], &[2], &three, DERIVED);
    sp("2x1 bags nv1, derived columns", &[1, 1], &[1], &three, DERIVED);
    sp("1x1 bags nv1, dishonest prover", &[1], &[1], &five, ATTACK);
    sp("1x1 bags nv1/nv2, dishonest prover", &[1], &[2], mid, ATTACK);
    sp("2x1 bags nv1, dishonest prover", &[1, 1], &[1], mid, ATTACK);
}

pub fn bag_eq(t: &[Tab], cfg: &Cfg) -> CaseRes {
    let mut ins = Ins::new(&cfg.modes);
    let (a, b) = (ins.bag(&t[0]), ins.bag(&t[1]));
    let want = nv(&t[0]) == nv(&t[1]) && counts(&sel_vals(&t[0])) == counts(&sel_vals(&t[1]));
    judge(
        cfg,
        &ins,
        |pt, p| es2(BagEqIOP::<E, Mock>::prove(pt, &pb(p, a), &pb(p, b))),
        |vt, c| es3(BagEqIOP::<E, Mock>::verify(vt, &vb(c, a, nv(&t[0])), &vb(c, b, nv(&t[1])))),
        Want::iff(want),
    )
}
pub fn bag_sum(t: &[Tab], cfg: &Cfg) -> CaseRes {
    let mut ins = Ins::new(&cfg.modes);
    let (a, b, g) = (ins.bag(&t[0]), ins.bag(&t[1]), ins.bag(&t[2]));
    let mut l = sel_vals(&t[0]);
    l.extend(sel_vals(&t[1]));
    let want = counts(&l) == counts(&sel_vals(&t[2]));
    judge(
        cfg,
        &ins,
        |pt, p| es2(BagSumIOP::<E, Mock>::prove(pt, &pb(p, a), &pb(p, b), &pb(p, g))),
        |vt, c| es3(BagSumIOP::<E, Mock>::verify(vt, &vb(c, a, nv(&t[0])), &vb(c, b, nv(&t[1])), &vb(c, g, nv(&t[2])))),
        Want::iff(want),
    )
}

pub fn g02(ctx: &Ctx) {
    let r8 = rows2(&[0, 1, 2, -1], &[0, 1]);
    let r5 = vec![vec![0, 0], vec![0, 1], vec![1, 0], vec![1, 1], vec![2, 1]];
    let r4 = vec![vec![0, 1], vec![1, 0], vec![1, 1], vec![2, 1]];
    let r3 = vec![vec![1, 1], vec![2, 1], vec![2, 0]];
    let r2 = vec![vec![1, 1], vec![2, 1]];
    stmt_space(ctx, "eq nv1", &[(1, r8.clone()), (1, r8.clone())], PLAIN, bag_eq);
    stmt_space(ctx, "eq nv2", &[(2, r5.clone()), (2, if ctx.thorough { r5.clone() } else { r4.clone() })], PLAIN, bag_eq);
    stmt_space(ctx, "eq nv3", &[(3, r2.clone()), (3, r2.clone())], PLAIN, bag_eq);
    stmt_space(ctx, "eq nv0", &[(0, r8.clone()), (0, r8.clone())], NOREAL, bag_eq);
    stmt_space(ctx, "eq different sizes nv1/nv2", &[(1, r5.clone()), (2, r3.clone())], PLAIN, bag_eq);
    stmt_space(ctx, "eq different sizes nv2/nv1", &[(2, r3.clone()), (1, r5.clone())], PLAIN, bag_eq);
    let big = vec![vec![1, 1], vec![BIG + 1, 1], vec![BIG, 1], vec![0, 1], vec![BIG + 1, 0]];
    stmt_space(ctx, "eq nv1 values beyond 64 bits", &[(1, big.clone()), (1, big.clone())], PLAIN, bag_eq);
    stmt_space(ctx, "eq nv1 derived columns", &[(1, r5.clone()), (1, r5.clone())], DERIVED, bag_eq);
    stmt_space(ctx, "eq nv1 dishonest prover", &[(1, r5.clone()), (1, r5.clone())], ATTACK, bag_eq);
    stmt_space(ctx, "eq nv2 dishonest prover", &[(2, r3.clone()), (2, if ctx.thorough { r3.clone() } else { r2.clone() })], ATTACK, bag_eq);
    for (name, s) in [("sum 1+1=1", [1, 1, 1]), ("sum 1+1=2", [1, 1, 2]), ("sum 1+2=2", [1, 2, 2]), ("sum 2+1=2", [2, 1, 2]), ("sum 0+1=1", [0, 1, 1]), ("sum 2+1=1", [2, 1, 1]), ("sum 1+1=3", [1, 1, 3])] {
        let cells: usize = s.iter().map(|n| 1usize << n).sum();
        let al = if cells <= 6 { &r5 } else if cells <= 8 { if ctx.thorough { &r5 } else { &r4 } } else if ctx.thorough { &r3 } else if cells <= 10 { &r3 } else { &r2 };
        stmt_space(ctx, name, &[(s[0], al.clone()), (s[1], al.clone()), (s[2], al.clone())], PLAIN, bag_sum);
    }
    stmt_space(ctx, "sum 1+2=3", &[(1, r2.clone()), (2, r2.clone()), (3, vec![vec![1, 1], vec![2, 1], vec![1, 0]])], PLAIN, bag_sum);
    stmt_space(ctx, "sum 1+1=1 derived columns", &[(1, r3.clone()), (1, r3.clone()), (1, r3.clone())], DERIVED, bag_sum);
    stmt_space(ctx, "sum 1+1=2 dishonest prover", &[(1, r3.clone()), (1, r2.clone()), (2, r3.clone())], ATTACK, bag_sum);
}

pub fn inclusion(t: &[Tab], cfg: &Cfg) -> CaseRes {
    let mut ins = Ins::new(&cfg.modes);
    let (a, b) = (ins.bag(&t[0]), ins.bag(&t[1]));
    let want = set(&sel_vals(&t[0])).is_subset(&set(&sel_vals(&t[1])));
    judge(
        cfg,
        &ins,
        |pt, p| es2(BagInclusionIOP::<E, Mock>::prove(pt, &pb(p, a), &pb(p, b))),
        |vt, c| es3(BagInclusionIOP::<E, Mock>::verify(vt, &vb(c, a, nv(&t[0])), &vb(c, b, nv(&t[1])))),
        Want::iff(want),
    )
}
/// second table: value, selector, advised multiplicity
pub fn inclusion_adv(t: &[Tab], cfg: &Cfg) -> CaseRes {
    let mut ins = Ins::new(&cfg.modes);
    let (a, b) = (ins.bag(&t[0]), ins.table(&t[1]));
    let mut w: BTreeMap<i64, i64> = counts(&sel_vals(&t[0]));
    for r in &t[1] {
        *w.entry(r[0]).or_insert(0) -= r[1] * r[2];
    }
    judge(
        cfg,
        &ins,
        |pt, p| es2(BagInclusionIOP::<E, Mock>::prove_with_advice(pt, &pb(p, a), &pb(p, (b[0], b[1])), &p[b[2]])),
        |vt, c| es3(BagInclusionIOP::<E, Mock>::verify_with_advice(vt, &vb(c, a, nv(&t[0])), &vb(c, (b[0], b[1]), nv(&t[1])), &c[b[2]])),
        Want::iff(w.values().all(|x| *x == 0)),
    )
}

pub fn g03(ctx: &Ctx) {
    let r8 = rows2(&[0, 1, 2, -1], &[0, 1]);
    let r5 = vec![vec![0, 0], vec![0, 1], vec![1, 0], vec![1, 1], vec![2, 1]];
    let r4 = vec![vec![0, 1], vec![1, 0], vec![1, 1], vec![2, 1]];
    let r3 = vec![vec![1, 1], vec![2, 1], vec![2, 0]];
    let r2 = vec![vec![1, 1], vec![2, 1]];
    stmt_space(ctx, "nv1 in nv1", &[(1, r8.clone()), (1, r8.clone())], PLAIN, inclusion);
    stmt_space(ctx, "nv2 in nv2", &[(2, if ctx.thorough { r5.clone() } else { r4.clone() }), (2, r5.clone())], PLAIN, inclusion);
    stmt_space(ctx, "nv2 in nv1", &[(2, r5.clone()), (1, r5.clone())], PLAIN, inclusion);
    stmt_space(ctx, "nv1 in nv2", &[(1, r5.clone()), (2, r5.clone())], PLAIN, inclusion);
    stmt_space(ctx, "nv0 in nv2", &[(0, r8.clone()), (2, r5.clone())], PLAIN, inclusion);
    stmt_space(ctx, "nv2 in nv0", &[(2, r5.clone()), (0, r8.clone())], PLAIN, inclusion);
    stmt_space(ctx, "nv3 in nv1", &[(3, r3.clone()), (1, r3.clone())], PLAIN, inclusion);
    stmt_space(ctx, "nv1 in nv3", &[(1, r3.clone()), (3, r3.clone())], PLAIN, inclusion);
    let big = vec![vec![1, 1], vec![BIG + 1, 1], vec![BIG, 1], vec![0, 1], vec![BIG + 1, 0]];
    stmt_space(ctx, "nv1 in nv1 values beyond 64 bits", &[(1, big.clone()), (1, big.clone())], PLAIN, inclusion);
    stmt_space(ctx, "nv1 in nv1 derived columns", &[(1, r4.clone()), (1, r4.clone())], DERIVED, inclusion);
    stmt_space(ctx, "nv1 in nv2 derived columns", &[(1, r3.clone()), (2, r2.clone())], DERIVED, inclusion);
    stmt_space(ctx, "nv1 in nv1 dishonest prover", &[(1, r5.clone()), (1, r5.clone())], ATTACK, inclusion);
    stmt_space(ctx, "nv1 in nv2 dishonest prover", &[(1, r3.clone()), (2, r3.clone())], ATTACK, inclusion);
    stmt_space(ctx, "nv2 in nv1 dishonest prover", &[(2, r3.clone()), (1, r3.clone())], ATTACK, inclusion);
    let mut m = vec![];
    for v in [1i64, 2] { for s in [0i64, 1] { for k in [-1i64, 0, 1, 2] { if s == 1 || k == 2 { m.push(vec![v, s, k]); } } } }
    stmt_space(ctx, "with advice nv1 in nv1", &[(1, r5.clone()), (1, m.clone())], PLAIN, inclusion_adv);
    stmt_space(ctx, "with advice nv2 in nv1", &[(2, r3.clone()), (1, m.clone())], PLAIN, inclusion_adv);
    stmt_space(ctx, "with advice nv1 in nv2", &[(1, r3.clone()), (2, if ctx.thorough { m.clone() } else { m.iter().filter(|r| r[2] != -1).cloned().collect() })], PLAIN, inclusion_adv);
    stmt_space(ctx, "with advice nv1 dishonest prover", &[(1, r3.clone()), (1, m.clone())], ATTACK, inclusion_adv);
}

/// t[0]: rows (f, g, perm, selector of f, selector of g)
pub fn presc_perm(t: &[Tab], cfg: &Cfg) -> CaseRes {
    let tab = &t[0];
    let mut ins = Ins::new(&cfg.modes);
    let x = ins.table(tab);
    let mut l: Vec<(i64, i64)> = tab.iter().enumerate().map(|(i, r)| (i as i64, r[0])).collect();
    let mut r: Vec<(i64, i64)> = tab.iter().map(|r| (r[2], r[1])).collect();
    l.sort();
    r.sort();
    let n = nv(tab);
    judge(
        cfg,
        &ins,
        |pt, p| es2(BagPrescPermIOP::<E, Mock>::prove(pt, &pb(p, (x[0], x[3])), &pb(p, (x[1], x[4])), &p[x[2]])),
        |vt, c| es3(BagPrescPermIOP::<E, Mock>::verify(vt, &vb(c, (x[0], x[3]), n), &vb(c, (x[1], x[4]), n), &c[x[2]])),
        Want::iff(l == r),
    )
}
fn presc_perm_sizes(t: &[Tab], cfg: &Cfg) -> CaseRes {
    let mut ins = Ins::new(&cfg.modes);
    let (a, b) = (ins.bag(&t[0]), ins.bag(&t[1]));
    let m = ins.add(col(&t[2], 0));
    let same = nv(&t[0]) == nv(&t[1]) && nv(&t[0]) == nv(&t[2]);
    let mut l: Vec<(i64, i64)> = t[0].iter().enumerate().map(|(i, r)| (i as i64, r[0])).collect();
    let mut r: Vec<(i64, i64)> = t[2].iter().zip(&t[1]).map(|(m, r)| (m[0], r[0])).collect();
    l.sort();
    r.sort();
    judge(
        cfg,
        &ins,
        |pt, p| es2(BagPrescPermIOP::<E, Mock>::prove(pt, &pb(p, a), &pb(p, b), &p[m])),
        |vt, c| es3(BagPrescPermIOP::<E, Mock>::verify(vt, &vb(c, a, nv(&t[0])), &vb(c, b, nv(&t[1])), &c[m])),
        Want::iff(same && l == r),
    )
}

pub fn g04(ctx: &Ctx) {
    let mk = |fs: &[i64], gs: &[i64], ps: &[i64], sels: &[(i64, i64)]| -> Vec<Vec<i64>> {
        let mut v = vec![];
        for f in fs { for g in gs { for p in ps { for s in sels { v.push(vec![*f, *g, *p, s.0, s.1]); } } } }
        v
    };
    let ones = [(1, 1)];
    stmt_space(ctx, "nv1", &[(1, mk(&[0, 1, 5], &[0, 1, 5], &[0, 1, 2, -1], &[(1, 1), (0, 1), (1, 0), (0, 0)]))], PLAIN, presc_perm);
    let four = |vals: &[i64]| rows2(vals, &[1]);
    let fg = if ctx.thorough { four(&[5, 6, 7]) } else { four(&[5, 6]) };
    stmt_space(ctx, "nv2", &[(2, fg), (2, four(&[5, 6, 7])), (2, rows1(&[0, 1, 2, 3]))], PLAIN, presc_perm_sizes);
    stmt_space(ctx, "nv2 out-of-range permutation entries", &[(2, four(&[5, 6])), (2, four(&[5, 6])), (2, rows1(&[0, 1, 2, 3, 4]))], PLAIN, presc_perm_sizes);
    // nv3: every placement of a small perturbation of a rotation / reversal
    let base: Vec<i64> = vec![0, 1, 2, 3, 4, 5, 6, 7];
    let shapes: Vec<Vec<i64>> = {
        let mut v = vec![];
        for k in 0..8 { v.push((0..8).map(|i| base[(i + k) % 8]).collect::<Vec<_>>()); }
        v.push(base.iter().rev().cloned().collect());
        v
    };
    let perms: Vec<Vec<i64>> = {
        let mut v = vec![];
        for s in &shapes {
            v.push(s.clone());
            for i in 0..8 { for j in 0..8 { if i != j { let mut t = s.clone(); t[i] = t[j]; v.push(t); let mut t = s.clone(); t.swap(i, j); v.push(t); } } }
        }
        v.sort();
        v.dedup();
        v
    };
    let n = perms.len() as u64 * shapes.len() as u64 * 2;
    let dec = |i: u64| {
        let mut ix = Idx(i);
        let perm = ix.pick(&perms).clone();
        let g = ix.pick(&shapes).clone();
        let twist = ix.take(2);
        // f is what the permutation prescribes (when it is one), possibly with two rows exchanged
        let mut fv = vec![0i64; 8];
        for k in 0..8 { fv[perm[k] as usize] = 10 + g[k]; }
        if twist == 1 { fv.swap(2, 5); }
        (0..8).map(|k| vec![fv[k], 10 + g[k], perm[k], 1, 1]).collect::<Tab>()
    };
    ctx.space("nv3 permutations and near-permutations", n, |i| {
        let cfg = Cfg { key: "nv3 permutations and near-permutations".into(), modes: vec![], real: i % 7 == 0, attack: false, debug: ctx.variant == "debug" };
        presc_perm(&[dec(i)], &cfg)
    }, |i| format!("rows (f,g,perm,..) {:?}", dec(i)));
    stmt_space(ctx, "sizes nv1/nv2/nv1", &[(1, four(&[5])), (2, four(&[5])), (1, rows1(&[0, 1]))], PLAIN, presc_perm_sizes);
    stmt_space(ctx, "sizes nv1/nv1/nv2", &[(1, four(&[5, 6])), (1, four(&[5, 6])), (2, rows1(&[0, 1]))], PLAIN, presc_perm_sizes);
    stmt_space(ctx, "sizes nv2/nv1/nv1", &[(2, four(&[5])), (1, four(&[5])), (1, rows1(&[0, 1]))], PLAIN, presc_perm_sizes);
    stmt_space(ctx, "sizes nv1/nv2/nv2", &[(1, four(&[5])), (2, four(&[5])), (2, rows1(&[0, 1]))], PLAIN, presc_perm_sizes);
    stmt_space(ctx, "nv1 derived columns", &[(1, mk(&[0, 1], &[0, 1], &[0, 1], &ones))], DERIVED, presc_perm);
    stmt_space(ctx, "nv1 dishonest prover", &[(1, mk(&[0, 1], &[0, 1], &[0, 1, 2], &ones))], ATTACK, presc_perm);
    stmt_space(ctx, "nv2 dishonest prover", &[(2, four(&[5, 6])), (2, four(&[5, 6])), (2, rows1(if ctx.thorough { &[0, 1, 2, 3] } else { &[0, 1] }))], ATTACK, presc_perm_sizes);
}
