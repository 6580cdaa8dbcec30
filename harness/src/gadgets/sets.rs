//! G08 bag disjointness, G09 set disjointness, G10 union, G11 difference, G12 intersection
use super::common::*;
use super::sorts::with_range;

fn range_of(t: &[Tab]) -> Vec<i64> {
    t.last().unwrap().iter().map(|x| x[0]).collect()
}

pub fn bag_disjoint(t: &[Tab], cfg: &Cfg) -> CaseRes {
    let mut ins = Ins::new(&cfg.modes);
    let (a, b, r) = (ins.bag(&t[0]), ins.bag(&t[1]), ins.bag(&t[2]));
    let (va, vb_) = (sel_vals(&t[0]), sel_vals(&t[1]));
    let disjoint = set(&va).is_disjoint(&set(&vb_));
    let merged = padded_support(&va, &vb_, 2 << nv(&t[0]).max(nv(&t[1])));
    let want = if !disjoint { Want::Reject } else if diffs_in(&merged, &range_of(t)) { Want::Accept } else { Want::Any };
    judge(
        cfg,
        &ins,
        |pt, p| es2(BagDisjointIOP::<E, Mock>::prove(pt, &pb(p, a), &pb(p, b), &pb(p, r))),
        |vt, c| es3(BagDisjointIOP::<E, Mock>::verify(vt, &vb(c, a, nv(&t[0])), &vb(c, b, nv(&t[1])), &vb(c, r, nv(&t[2])))),
        want,
    )
}
/// t[2]: (value, selector, multiplicity in a, multiplicity in b) of the merged column
pub fn bag_disjoint_adv(t: &[Tab], cfg: &Cfg) -> CaseRes {
    let mut ins = Ins::new(&cfg.modes);
    let (a, b, m, r) = (ins.bag(&t[0]), ins.bag(&t[1]), ins.table(&t[2]), ins.bag(&t[3]));
    let (va, vb_) = (sel_vals(&t[0]), sel_vals(&t[1]));
    let disjoint = set(&va).is_disjoint(&set(&vb_));
    let balanced = |v: &[i64], k: usize| {
        let mut w = counts(v);
        for x in &t[2] { *w.entry(x[0]).or_insert(0) -= x[1] * x[k]; }
        w.values().all(|x| *x == 0)
    };
    let good = strict_sorted(&t[2], &range_of(t)) && balanced(&va, 2) && balanced(&vb_, 3) && t[2].iter().all(|x| x[2] * x[3] == 0);
    let want = if !disjoint { Want::Reject } else if good { Want::Accept } else { Want::Any };
    judge(
        cfg,
        &ins,
        |pt, p| es2(BagDisjointIOP::<E, Mock>::prove_with_advice(pt, &pb(p, a), &pb(p, b), &pb(p, (m[0], m[1])), &p[m[2]], &p[m[3]], &pb(p, r))),
        |vt, c| es3(BagDisjointIOP::<E, Mock>::verify_with_advice(vt, &vb(c, a, nv(&t[0])), &vb(c, b, nv(&t[1])), &vb(c, (m[0], m[1]), nv(&t[2])), &c[m[2]], &c[m[3]], &vb(c, r, nv(&t[3])))),
        want,
    )
}
pub fn g08(ctx: &Ctx) {
    let r03 = [0i64, 1, 2, 3];
    let r8 = rows2(&[0, 1, 2, 3], &[0, 1]);
    let r4 = vec![vec![1, 1], vec![2, 1], vec![3, 1], vec![1, 0]];
    let r3 = vec![vec![1, 1], vec![2, 1], vec![2, 0]];
    with_range(ctx, "nv1/nv1", &[(1, r8.clone()), (1, r8.clone())], &r03, PLAIN, bag_disjoint);
    with_range(ctx, "nv1/nv2", &[(1, r8.clone()), (2, r4.clone())], &r03, PLAIN, bag_disjoint);
    with_range(ctx, "nv2/nv1", &[(2, r4.clone()), (1, r8.clone())], &r03, PLAIN, bag_disjoint);
    with_range(ctx, "nv2/nv2", &[(2, if ctx.thorough { r4.clone() } else { r3.clone() }), (2, r4.clone())], &r03, PLAIN, bag_disjoint);
    with_range(ctx, "nv0/nv2", &[(0, r8.clone()), (2, r4.clone())], &r03, PLAIN, bag_disjoint);
    with_range(ctx, "nv3/nv1", &[(3, vec![vec![1, 1], vec![2, 1]]), (1, r8.clone())], &r03, PLAIN, bag_disjoint);
    with_range(ctx, "nv1/nv1, range 0..1", &[(1, r8.clone()), (1, r8.clone())], &[0, 1], PLAIN, bag_disjoint);
    with_range(ctx, "nv1/nv1, larger and negative values", &[(1, rows2(&[-1, 0, 4, 7], &[0, 1])), (1, rows2(&[-1, 0, 4, 7], &[0, 1]))], &[0, 1, 2, 3, 4, 5, 6, 7], PLAIN, bag_disjoint);
    with_range(ctx, "nv2/nv2 all distinct values", &[(2, rows2(ctx.q(&[0, 1, 3], &[0, 1, 2, 3]), &[1])), (2, rows2(ctx.q(&[2, 3, 4], &[2, 3, 4, 5]), &[1]))], &r03, PLAIN, bag_disjoint);
    with_range(ctx, "derived columns", &[(1, r3.clone()), (1, r3.clone())], &r03, DERIVED, bag_disjoint);
    with_range(ctx, "dishonest prover nv1/nv1", &[(1, ctx.q(&r3, &r4).clone()), (1, ctx.q(&r3, &r4).clone())], &[0, 1], ATTACK, bag_disjoint);
    with_range(ctx, "dishonest prover nv1/nv2", &[(1, ctx.q(&r3[1..], &r3).to_vec()), (2, vec![vec![1, 1], vec![2, 1]])], &[0, 1], ATTACK, bag_disjoint);
    let mut m = vec![];
    for v in [1i64, 2, 3][..ctx.q(2, 3)].iter().cloned() { for s in [0i64, 1] { for (x, y) in [(0i64, 0i64), (1, 0), (0, 1), (1, 1), (2, 0), (0, 2)] { m.push(vec![v, s, x, y]); } } }
    with_range(ctx, "any advice, nv1/nv1, merged nv1", &[(1, r3.clone()), (1, r3.clone()), (1, m.clone())], &r03, PLAIN, bag_disjoint_adv);
    let m2: Vec<Vec<i64>> = if ctx.thorough { vec![vec![0, 0, 0, 0], vec![1, 1, 1, 0], vec![1, 1, 0, 1], vec![1, 1, 1, 1], vec![2, 1, 1, 0], vec![2, 1, 0, 1], vec![1, 0, 1, 0], vec![2, 0, 0, 1], vec![1, 2, 1, 0], vec![2, 1, 2, 0]] } else { vec![vec![0, 0, 0, 0], vec![1, 1, 1, 0], vec![1, 1, 0, 1], vec![2, 1, 1, 0], vec![2, 1, 0, 1], vec![1, 0, 1, 0]] };
    with_range(ctx, "any advice, nv1/nv1, merged nv2", &[(1, vec![vec![1, 1], vec![2, 1], vec![2, 0]]), (1, vec![vec![1, 1], vec![2, 1]]), (2, m2)], &r03, PLAIN, bag_disjoint_adv);
    with_range(ctx, "advice and dishonest prover", &[(1, vec![vec![1, 1], vec![2, 1]]), (1, vec![vec![1, 1], vec![2, 1]][ctx.q(1, 0)..].to_vec()), (1, vec![vec![1, 1, 1, 0], vec![1, 1, 0, 1], vec![2, 1, 0, 1], vec![2, 1, 1, 1]])], &[0, 1], ATTACK, bag_disjoint_adv);
    ctx.assume("value differences do not wrap around the field (the range table holds small numbers)");
}

/// the honest merged column of SetDisjoint is within the range
fn merged_in_range(a: &Tab, b: &Tab, range: &[i64]) -> bool {
    let len = 2usize << nv(a).max(nv(b));
    let mut v = sel_vals(a);
    v.extend(sel_vals(b));
    v.extend(vec![0; len - v.len()]);
    field_sort(&mut v);
    diffs_in(&v, range)
}
fn sets_disjoint_true(a: &Tab, b: &Tab) -> bool {
    let mut v = sel_vals(a);
    v.extend(sel_vals(b));
    dup_free(&v)
}
pub fn set_disjoint(t: &[Tab], cfg: &Cfg) -> CaseRes {
    let mut ins = Ins::new(&cfg.modes);
    let (a, b, r) = (ins.bag(&t[0]), ins.bag(&t[1]), ins.bag(&t[2]));
    let want = if !sets_disjoint_true(&t[0], &t[1]) { Want::Reject } else if merged_in_range(&t[0], &t[1], &range_of(t)) { Want::Accept } else { Want::Any };
    judge(
        cfg,
        &ins,
        |pt, p| es2(SetDisjointIOP::<E, Mock>::prove(pt, &pb(p, a), &pb(p, b), &pb(p, r))),
        |vt, c| es3(SetDisjointIOP::<E, Mock>::verify(vt, &vb(c, a, nv(&t[0])), &vb(c, b, nv(&t[1])), &vb(c, r, nv(&t[2])))),
        want,
    )
}
pub fn g09(ctx: &Ctx) {
    let r03 = [0i64, 1, 2, 3];
    let r8 = rows2(&[0, 1, 2, 3], &[0, 1]);
    let r5 = vec![vec![0, 1], vec![1, 1], vec![2, 1], vec![3, 1], vec![1, 0]][ctx.q(1, 0)..].to_vec();
    let r4 = vec![vec![1, 1], vec![2, 1], vec![3, 1], vec![1, 0]];
    with_range(ctx, "nv1/nv1", &[(1, r8.clone()), (1, r8.clone())], &r03, PLAIN, set_disjoint);
    with_range(ctx, "nv1/nv2", &[(1, r8.clone()), (2, r5.clone())], &r03, PLAIN, set_disjoint);
    with_range(ctx, "nv2/nv1", &[(2, r5.clone()), (1, r8.clone())], &r03, PLAIN, set_disjoint);
    with_range(ctx, "nv2/nv2", &[(2, r4.clone()), (2, if ctx.thorough { r5.clone() } else { vec![vec![4, 1], vec![5, 1], vec![3, 1]] })], &r03, PLAIN, set_disjoint);
    with_range(ctx, "nv0/nv1", &[(0, r8.clone()), (1, r8.clone())], &r03, PLAIN, set_disjoint);
    with_range(ctx, "nv1/nv1, range 0..1", &[(1, r8.clone()), (1, r8.clone())], &[0, 1], PLAIN, set_disjoint);
    with_range(ctx, "nv1/nv1, larger and negative values", &[(1, rows2(&[-1, 0, 4, 7], &[0, 1])), (1, rows2(&[-1, 0, 4, 7], &[0, 1]))], &[0, 1, 2, 3, 4, 5, 6, 7], PLAIN, set_disjoint);
    with_range(ctx, "nv3/nv1", &[(3, vec![vec![6, 1], vec![2, 1], vec![5, 0]][..ctx.q(2, 3)].to_vec()), (1, vec![vec![1, 1], vec![2, 1], vec![3, 0]])], &[0, 1, 2, 3, 4, 5, 6, 7], PLAIN, set_disjoint);
    // all orders of distinct values split over the two sets
    let vals = [1i64, 2, 4, 5, 6, 7];
    let name = "every arrangement of 6 values over nv2 and nv1";
    ctx.space(name, 720 * 4, |i| {
        let mut ix = Idx(i);
        let mut pool = vals.to_vec();
        let mut v = vec![];
        for k in (1..=6u64).rev() { let j = ix.take(k) as usize; v.push(pool.remove(j)); }
        let dup = ix.take(4) as usize;
        if dup > 0 { v[5] = v[dup]; }
        let a: Tab = v[..4].iter().map(|x| vec![*x, 1]).collect();
        let b: Tab = v[4..].iter().map(|x| vec![*x, 1]).collect();
        let cfg = Cfg { key: name.into(), modes: vec![], real: true, attack: false, debug: ctx.variant == "debug" };
        set_disjoint(&[a, b, range_tab(&[0, 1, 2, 3, 4, 5, 6, 7])], &cfg)
    }, |i| format!("arrangement {}", i));
    with_range(ctx, "derived columns", &[(1, vec![vec![1, 1], vec![2, 1], vec![2, 0]]), (1, vec![vec![1, 1], vec![2, 1], vec![3, 1]])], &r03, DERIVED, set_disjoint);
    with_range(ctx, "dishonest prover nv1/nv1", &[(1, r4.clone()), (1, ctx.q(&r4[..2], &r4).to_vec())], ctx.q(&[0, 1], &r03), ATTACK, set_disjoint);
    with_range(ctx, "dishonest prover nv2/nv1", &[(2, vec![vec![1, 1], vec![2, 1]]), (1, vec![vec![1, 1], vec![2, 0]])], &[0, 1], ATTACK, set_disjoint);
    ctx.assume("value differences do not wrap around the field (the range table holds small numbers)");
}

pub fn union(t: &[Tab], cfg: &Cfg) -> CaseRes {
    let mut ins = Ins::new(&cfg.modes);
    let (a, b, u, r) = (ins.bag(&t[0]), ins.bag(&t[1]), ins.bag(&t[2]), ins.bag(&t[3]));
    let mut all = set(&sel_vals(&t[0]));
    all.extend(sel_vals(&t[1]));
    let want = strict_sorted(&t[2], &range_of(t)) && set(&sel_vals(&t[2])) == all && dup_free(&sel_vals(&t[2]));
    judge(
        cfg,
        &ins,
        |pt, p| es2(SetUnionIOP::<E, Mock>::prove(pt, &pb(p, a), &pb(p, b), &pb(p, u), &pb(p, r))),
        |vt, c| es3(SetUnionIOP::<E, Mock>::verify(vt, &vb(c, a, nv(&t[0])), &vb(c, b, nv(&t[1])), &vb(c, u, nv(&t[2])), &vb(c, r, nv(&t[3])))),
        Want::iff(want),
    )
}
pub fn g10(ctx: &Ctx) {
    let r03 = [0i64, 1, 2, 3];
    let r4 = vec![vec![0, 1], vec![1, 1], vec![3, 1], vec![1, 0]];
    let r3 = vec![vec![1, 1], vec![2, 1], vec![3, 0]];
    let rs = ctx.q(vec![vec![1, 1], vec![2, 1]], r3.clone());
    let u6 = vec![vec![0, 0], vec![0, 1], vec![1, 1], vec![2, 1], vec![3, 1], vec![1, 0]];
    let u4 = vec![vec![0, 0], vec![1, 1], vec![2, 1], vec![3, 1]];
    with_range(ctx, "1 u 1 = 1", &[(1, rows2(&[0, 1, 2], &[0, 1])), (1, r4.clone()), (1, u6.clone())], &r03, PLAIN, union);
    with_range(ctx, "1 u 1 = 2", &[(1, r4.clone()), (1, r3.clone()), (2, if ctx.thorough { u6.clone() } else { u6[1..5].to_vec() })], &r03, PLAIN, union);
    with_range(ctx, "1 u 2 = 2", &[(1, r3.clone()), (2, rs.clone()), (2, if ctx.thorough { u4.clone() } else { u4[..3].to_vec() })], &r03, PLAIN, union);
    with_range(ctx, "2 u 1 = 2", &[(2, rs.clone()), (1, r3.clone()), (2, if ctx.thorough { u4.clone() } else { u4[..3].to_vec() })], &r03, PLAIN, union);
    with_range(ctx, "1 u 1 = 3", &[(1, vec![vec![1, 1], vec![2, 1]][ctx.q(1, 0)..].to_vec()), (1, vec![vec![1, 1], vec![2, 1], vec![3, 1]][..ctx.q(2, 3)].to_vec()), (3, vec![vec![0, 0], vec![1, 1], vec![2, 1], vec![3, 1]][..ctx.q(3, 4)].to_vec())], &r03, PLAIN, union);
    with_range(ctx, "derived columns", &[(1, vec![vec![1, 1], vec![2, 1]]), (1, vec![vec![1, 1], vec![2, 0]]), (1, vec![vec![0, 0], vec![1, 1], vec![2, 1]])], &[0, 1], DERIVED, union);
    with_range(ctx, "dishonest prover", &[(1, vec![vec![1, 1], vec![2, 1]][ctx.q(1, 0)..].to_vec()), (1, vec![vec![1, 1], vec![2, 0]]), (1, u4[..ctx.q(3, 4)].to_vec())], &[0, 1], ATTACK, union);
    ctx.assume("value differences do not wrap around the field (the range table holds small numbers)");
}

/// A, B (value, selector, multiplicity advice), L, M
pub fn diff(t: &[Tab], cfg: &Cfg) -> CaseRes {
    let mut ins = Ins::new(&cfg.modes);
    let (a, b, l, m, r) = (ins.bag(&t[0]), ins.table(&t[1]), ins.bag(&t[2]), ins.bag(&t[3]), ins.bag(&t[4]));
    let (va, vb_, vl, vm) = (sel_vals(&t[0]), sel_vals(&t[1]), sel_vals(&t[2]), sel_vals(&t[3]));
    let (sa, sb) = (set(&va), set(&vb_));
    let d: BTreeSet<i64> = sa.difference(&sb).cloned().collect();
    let i: BTreeSet<i64> = sa.intersection(&sb).cloned().collect();
    let right = counts(&vl) == counts(&d.iter().cloned().collect::<Vec<_>>());
    let right_m = counts(&vm) == counts(&i.iter().cloned().collect::<Vec<_>>());
    let mut w = counts(&vm);
    for x in &t[1] { *w.entry(x[0]).or_insert(0) -= x[1] * x[2]; }
    let adv = w.values().all(|x| *x == 0);
    let want = if !dup_free(&va) || !dup_free(&vb_) { Want::Any }
        else if !right || !right_m { Want::Reject }
        else if adv && merged_in_range(&t[2], &t[1], &range_of(t)) { Want::Accept }
        else { Want::Any };
    judge(
        cfg,
        &ins,
        |pt, p| es2(SetDiffIOP::<E, Mock>::prove(pt, &pb(p, a), &pb(p, (b[0], b[1])), &pb(p, l), &pb(p, m), &p[b[2]], &pb(p, r))),
        |vt, c| es3(SetDiffIOP::<E, Mock>::verify(vt, &vb(c, a, nv(&t[0])), &vb(c, (b[0], b[1]), nv(&t[1])), &vb(c, l, nv(&t[2])), &vb(c, m, nv(&t[3])), &c[b[2]], &vb(c, r, nv(&t[4])))),
        want,
    )
}
/// A, B, L, M, R
pub fn intersect(t: &[Tab], cfg: &Cfg) -> CaseRes {
    let mut ins = Ins::new(&cfg.modes);
    let (a, b, l, m, rr, r) = (ins.bag(&t[0]), ins.bag(&t[1]), ins.bag(&t[2]), ins.bag(&t[3]), ins.bag(&t[4]), ins.bag(&t[5]));
    let (va, vb_, vl, vm, vr) = (sel_vals(&t[0]), sel_vals(&t[1]), sel_vals(&t[2]), sel_vals(&t[3]), sel_vals(&t[4]));
    let (sa, sb) = (set(&va), set(&vb_));
    let is = |got: &[i64], x: BTreeSet<i64>| counts(got) == counts(&x.into_iter().collect::<Vec<_>>());
    let right = is(&vm, sa.intersection(&sb).cloned().collect());
    let parts = is(&vl, sa.difference(&sb).cloned().collect()) && is(&vr, sb.difference(&sa).cloned().collect());
    let want = if !dup_free(&va) || !dup_free(&vb_) { Want::Any }
        else if !right || !parts { Want::Reject }
        else if merged_in_range(&t[2], &t[4], &range_of(t)) { Want::Accept }
        else { Want::Any };
    judge(
        cfg,
        &ins,
        |pt, p| es2(SetIntersectIOP::<E, Mock>::prove(pt, &pb(p, a), &pb(p, b), &pb(p, l), &pb(p, m), &pb(p, rr), &pb(p, r))),
        |vt, c| es3(SetIntersectIOP::<E, Mock>::verify(vt, &vb(c, a, nv(&t[0])), &vb(c, b, nv(&t[1])), &vb(c, l, nv(&t[2])), &vb(c, m, nv(&t[3])), &vb(c, rr, nv(&t[4])), &vb(c, r, nv(&t[5])))),
        want,
    )
}
/// two-row bags that matter: up to two selected values out of 1..=k, in both orders, unselected rows with a stray value
fn pairs(k: i64) -> Vec<Tab> {
    let mut v: Vec<Tab> = vec![vec![vec![0, 0], vec![0, 0]], vec![vec![1, 0], vec![2, 0]]];
    for x in 1..=k {
        v.push(vec![vec![x, 1], vec![0, 0]]);
        v.push(vec![vec![x % k + 1, 0], vec![x, 1]]);
        for y in 1..=k {
            v.push(vec![vec![x, 1], vec![y, 1]]);
        }
    }
    v
}
/// all combinations of given tables
pub fn combo_space(ctx: &Ctx, name: &str, sets: &[Vec<Tab>], opt: Opt, stmt: impl Fn(&[Tab], &Cfg) -> CaseRes + Sync) {
    if opt.attack && ctx.variant == "debug" { return; }
    let ncols: usize = sets.iter().map(|s| s[0][0].len()).sum();
    let modes: Vec<Vec<u8>> = if opt.derived { (1..MODES as u8).map(|m| vec![m; ncols]).chain([(0..ncols).map(|k| (k % MODES) as u8).collect(), (0..ncols).map(|k| ((k + 1) * 3 % MODES) as u8).collect()]).collect() } else { vec![vec![]] };
    let n: u64 = sets.iter().map(|s| s.len() as u64).product::<u64>() * modes.len() as u64;
    if skip_in_debug(ctx, n) { return; }
    let dec = |i: u64| -> (Vec<Tab>, Vec<u8>) {
        let mut ix = Idx(i);
        let t = sets.iter().map(|s| ix.pick(s).clone()).collect();
        (t, ix.pick(&modes).clone())
    };
    ctx.space(name, n, |i| {
        let (t, modes) = dec(i);
        let cfg = Cfg { key: name.to_string(), modes, real: opt.real_every != 0 && i % opt.real_every == 0, attack: opt.attack, debug: ctx.variant == "debug" };
        stmt(&t, &cfg)
    }, |i| { let (t, m) = dec(i); format!("tables {:?}{}", t, if m.is_empty() { String::new() } else { format!(", modes {:?}", m) }) });
}
fn with_mult(ts: &[Tab], mults: &[(i64, i64)]) -> Vec<Tab> {
    let mut v = vec![];
    for t in ts { for m in mults { v.push(vec![vec![t[0][0], t[0][1], m.0], vec![t[1][0], t[1][1], m.1]]); } }
    v
}
fn wide(t: &Tab) -> Tab {
    // the same selected values in a table of four rows, with unselected rows between
    vec![t[1].clone(), vec![7, 0], t[0].clone(), vec![2, 0]]
}
pub fn g11(ctx: &Ctx) {
    let rg = vec![range_tab(&[0, 1, 2, 3])];
    let p2 = pairs(2);
    let p3 = pairs(3);
    let bm = with_mult(&p2, &[(0, 0), (1, 0), (0, 1), (1, 1), (2, 0)]);
    combo_space(ctx, "nv1 two values", &[p2.clone(), bm.clone(), p2.clone(), p2.clone(), rg.clone()], PLAIN, diff);
    // duplicate-free sets over three values, both multiplicity vectors that could be right
    let df = |ts: &[Tab]| -> Vec<Tab> { ts.iter().filter(|t| dup_free(&sel_vals(t))).cloned().collect() };
    let small3: Vec<Tab> = df(&p3).into_iter().filter(|t| t[0][0] == 0 || t[0][1] == 1).collect();
    let bm3 = with_mult(&small3, &[(0, 0), (1, 0), (0, 1), (1, 1)]);
    let lm: Vec<Tab> = if ctx.thorough { p3.clone() } else { small3.clone() };
    combo_space(ctx, "nv1 three values", &[small3.clone(), bm3.clone(), lm.clone(), if ctx.thorough { lm.clone() } else { small3.clone() }, rg.clone()], Opt { real_every: 29, ..PLAIN }, diff);
    let w2: Vec<Tab> = df(&p2).iter().map(wide).collect();
    combo_space(ctx, "A nv2, L and M nv1", &[w2.clone(), bm.clone(), df(&p2), p2.clone(), rg.clone()], PLAIN, diff);
    combo_space(ctx, "A nv1, L and M nv2", &[df(&p2), bm.clone(), w2.clone(), w2.clone(), rg.clone()], PLAIN, diff);
    let wbm: Vec<Tab> = df(&p2).iter().flat_map(|t| [(0i64, 0i64), (1, 0), (0, 1), (1, 1)].into_iter().map(move |m| { let w = wide(t); vec![vec![w[0][0], w[0][1], m.1], vec![w[1][0], w[1][1], 3], vec![w[2][0], w[2][1], m.0], vec![w[3][0], w[3][1], 0]] })).collect();
    combo_space(ctx, "B nv2", &[df(&p2), wbm, df(&p2), p2.clone(), rg.clone()], PLAIN, diff);
    let d2 = df(&p2);
    combo_space(ctx, "derived columns", &[d2.clone(), with_mult(&d2, &[(1, 0), (0, 1), (0, 0)][..ctx.q(2, 3)]), ctx.q(&d2[..4], &d2).to_vec(), ctx.q(&d2[..4], &d2).to_vec(), rg.clone()], Opt { real_every: 9, ..DERIVED }, diff);
    let d1: Vec<Tab> = vec![vec![vec![1, 1], vec![2, 1]], vec![vec![1, 1], vec![0, 0]], vec![vec![2, 1], vec![1, 0]]];
    combo_space(ctx, "dishonest prover", &[ctx.q(&d1[..2], &d1).to_vec(), with_mult(&d1[..ctx.q(2, 3)], &[(1, 0), (0, 0), (1, 1)][..ctx.q(2, 3)]), d1.clone(), ctx.q(d1.clone(), d2.clone()), vec![range_tab(&[0, 1])]], ATTACK, diff);
    ctx.assume("value differences do not wrap around the field (the range table holds small numbers)");
}
pub fn g12(ctx: &Ctx) {
    let rg = vec![range_tab(&[0, 1, 2, 3])];
    let p2 = pairs(2);
    let p3 = pairs(3);
    let df = |ts: &[Tab]| -> Vec<Tab> { ts.iter().filter(|t| dup_free(&sel_vals(t))).cloned().collect() };
    let d2 = df(&p2);
    let d3: Vec<Tab> = df(&p3).into_iter().filter(|t| t[0][0] == 0 || t[0][1] == 1).collect();
    let part2 = ctx.q(d2.clone(), p2.clone());
    combo_space(ctx, "nv1 two values", &[d2.clone(), d2.clone(), p2.clone(), p2.clone(), part2, rg.clone()], Opt { real_every: 5, ..PLAIN }, intersect);
    let canon: Vec<Tab> = d3.iter().filter(|t| t[0][1] == 1 || t[1][1] == 0).filter(|t| t[1][1] == 0 || t[0][0] < t[1][0]).cloned().collect();
    combo_space(ctx, "nv1 three values", &[d3.clone(), d3.clone(), canon.clone(), canon.clone(), canon.clone(), rg.clone()], Opt { real_every: 29, ..PLAIN }, intersect);
    let w2: Vec<Tab> = d2.iter().map(wide).collect();
    combo_space(ctx, "A nv2", &[w2.clone(), d2.clone(), d2.clone(), d2.clone(), d2.clone(), rg.clone()], PLAIN, intersect);
    combo_space(ctx, "B nv2", &[d2.clone(), w2.clone(), d2.clone(), d2.clone(), d2.clone(), rg.clone()], PLAIN, intersect);
    combo_space(ctx, "M nv2", &[d2.clone(), d2.clone(), d2.clone(), w2.clone(), d2.clone(), rg.clone()], PLAIN, intersect);
    combo_space(ctx, "L nv2, R nv1", &[d2.clone(), d2.clone(), w2.clone(), d2.clone(), d2.clone(), rg.clone()], PLAIN, intersect);
    let d1: Vec<Tab> = vec![vec![vec![1, 1], vec![2, 1]], vec![vec![1, 1], vec![0, 0]], vec![vec![1, 0], vec![2, 1]]];
    combo_space(ctx, "derived columns", &[d1.clone(), d1.clone(), d1.clone(), d1.clone(), vec![d1[1].clone(), d1[2].clone(), vec![vec![0, 0], vec![0, 0]]], rg.clone()], DERIVED, intersect);
    combo_space(ctx, "dishonest prover", &[d1[..2].to_vec(), ctx.q(d1[1..].to_vec(), d1.clone()), d1[1..].to_vec(), d1.clone(), d1[..2].to_vec(), vec![range_tab(&[0, 1])]], ATTACK, intersect);
    ctx.assume("value differences do not wrap around the field (the range table holds small numbers)");
}
