//! G13 join reduction, G14 one-to-many join, G15 index transform, G16 cross product, G17 group by
use super::common::*;
use super::sets::combo_space;
use super::sorts::{supp_ok, with_range};

// ---- G13 ---------------------------------------------------------------------

/// A (value, selector, l marker), B (value, selector, r marker), range
pub fn join_red(t: &[Tab], cfg: &Cfg) -> CaseRes {
    let mut ins = Ins::new(&cfg.modes);
    let (a, b, r) = (ins.table(&t[0]), ins.table(&t[1]), ins.bag(&t[2]));
    let (sa, sb) = (set(&sel_vals(&t[0])), set(&sel_vals(&t[1])));
    let ok = |t: &Tab, other: &BTreeSet<i64>| t.iter().all(|x| (x[2] == 0 || x[2] == 1) && (x[1] == 0 || (x[2] == 1) != other.contains(&x[0])));
    let right = ok(&t[0], &sb) && ok(&t[1], &sa);
    let range: Vec<i64> = t[2].iter().map(|x| x[0]).collect();
    let (va, vb_) = (sel_vals(&t[0]), sel_vals(&t[1]));
    let la: Vec<i64> = sa.difference(&sb).cloned().collect();
    let rb: Vec<i64> = sb.difference(&sa).cloned().collect();
    let (na, nb) = (nv(&t[0]), nv(&t[1]));
    let in_range = diffs_in(&padded_support(&la, &rb, 2 << na.max(nb)), &range)
        && diffs_in(&padded_support(&va, &[], 2 << na), &range)
        && diffs_in(&padded_support(&vb_, &[], 2 << nb), &range);
    let want = if !right { Want::Reject } else if in_range { Want::Accept } else { Want::Any };
    judge(
        cfg,
        &ins,
        |pt, p| es2(JoinReductionIOP::<E, Mock>::prove(pt, &pb(p, (a[0], a[1])), &pb(p, (b[0], b[1])), &p[a[2]], &p[b[2]], &pb(p, r))),
        |vt, c| es3(JoinReductionIOP::<E, Mock>::verify(vt, &vb(c, (a[0], a[1]), na), &vb(c, (b[0], b[1]), nb), &c[a[2]], &c[b[2]], &vb(c, r, nv(&t[2])))),
        want,
    )
}
/// the markers of the honest helper: checked, then used
pub fn join_red_helper(t: &[Tab], cfg: &Cfg) -> CaseRes {
    let m = |c: &[F]| Mle::from_evaluations_vec(c.len().trailing_zeros() as usize, c.to_vec());
    let cols: Vec<Mle> = [0usize, 1].iter().flat_map(|k| [m(&col(&t[*k], 0)), m(&col(&t[*k], 1))]).collect();
    let (l, r) = match guard(|| Ok(calc_join_reduction_lr_sel_advice::<E>(&cols[0], &cols[1], &cols[2], &cols[3]))) {
        Ok(x) => x,
        Err(e) => return viol(&cfg.key, format!("the marker helper fails: {}", e)),
    };
    let back = |v: &Mle| -> Option<Vec<i64>> { v.evaluations.iter().map(|x| if x.is_zero() { Some(0) } else if x.is_one() { Some(1) } else { None }).collect() };
    let (l, r) = match (back(&l), back(&r)) {
        (Some(l), Some(r)) if l.len() == t[0].len() && r.len() == t[1].len() => (l, r),
        _ => return viol(&cfg.key, "the marker helper returns non-boolean markers or a wrong length"),
    };
    let (sa, sb) = (set(&sel_vals(&t[0])), set(&sel_vals(&t[1])));
    let ok = |t: &Tab, m: &[i64], other: &BTreeSet<i64>| t.iter().zip(m).all(|(x, m)| x[1] == 0 || (*m == 1) != other.contains(&x[0]));
    if !ok(&t[0], &l, &sb) || !ok(&t[1], &r, &sa) {
        return viol(&cfg.key, format!("the marker helper returns wrong markers {:?} {:?}", l, r));
    }
    let w = |t: &Tab, m: &[i64]| -> Tab { t.iter().zip(m).map(|(x, m)| vec![x[0], x[1], *m]).collect() };
    join_red(&[w(&t[0], &l), w(&t[1], &r), t[2].clone()], cfg)
}
/// value/selector rows with every marker out of `ms`
fn marked(rows: &[Vec<i64>], ms: &[i64]) -> Vec<Vec<i64>> {
    rows.iter().flat_map(|r| ms.iter().map(move |m| vec![r[0], r[1], *m])).collect()
}
pub fn g13(ctx: &Ctx) {
    let r03 = [0i64, 1, 2, 3];
    let r3 = vec![vec![1, 1], vec![2, 1], vec![2, 0]];
    let r6 = rows2(&[0, 1, 2], &[0, 1]);
    let r2 = vec![vec![1, 1], vec![2, 1]];
    let ev = Opt { real_every: 7, ..PLAIN };
    with_range(ctx, "nv1/nv1", &[(1, marked(&r6, &[0, 1])), (1, marked(&r6[ctx.q(1, 0)..], &[0, 1]))], &r03, ev, join_red);
    with_range(ctx, "nv1/nv1, markers 0,1,2,-1", &[(1, marked(&r2, &[0, 1, 2, -1])), (1, marked(&r3[ctx.q(1, 0)..], &[0, 1, 2]))], &r03, ev, join_red);
    with_range(ctx, "nv1/nv2", &[(1, marked(&r2, &[0, 1])), (2, marked(&r3[1..ctx.q(2, 3)], &[0, 1]).into_iter().chain([vec![1, 1, 0], vec![3, 1, 1]]).collect())], &r03, ev, join_red);
    with_range(ctx, "nv2/nv1", &[(2, vec![vec![1, 1, 0], vec![1, 1, 1], vec![2, 1, 0], vec![3, 1, 1]]), (1, marked(&r2, &[0, 1]))], &r03, ev, join_red);
    with_range(ctx, "nv2/nv2", &[(2, vec![vec![1, 1, 0], vec![1, 1, 1], vec![2, 1, 1]]), (2, vec![vec![1, 1, 0], vec![2, 1, 0], vec![3, 1, 1]][..ctx.q(2, 3)].to_vec())], &r03, ev, join_red);
    with_range(ctx, "nv0/nv1", &[(0, marked(&r6, &[0, 1])), (1, marked(&r6, &[0, 1]))], &r03, ev, join_red);
    with_range(ctx, "helper nv1/nv1", &[(1, rows2(&[0, 1, 2, 3], &[0, 1])), (1, r6.clone())], &r03, PLAIN, join_red_helper);
    with_range(ctx, "helper nv2/nv1", &[(2, rows2(&[0, 1, 2], &[0, 1])[..ctx.q(4, 6)].to_vec()), (1, r3.clone())], &r03, ev, join_red_helper);
    with_range(ctx, "helper nv1/nv2", &[(1, r3.clone()), (2, rows2(&[1, 2, 3], &[0, 1])[..ctx.q(4, 6)].to_vec())], &r03, ev, join_red_helper);
    with_range(ctx, "helper nv2/nv2", &[(2, rows2(&[1, 3], &[1, 0])[..ctx.q(3, 4)].to_vec()), (2, r3[..ctx.q(2, 3)].to_vec())], &r03, ev, join_red_helper);
    with_range(ctx, "helper nv3/nv1", &[(3, r2.clone()), (1, rows2(&[1, 3], &[0, 1]))], &r03, Opt { real_every: 13, ..PLAIN }, join_red_helper);
    with_range(ctx, "derived columns", &[(1, vec![vec![1, 1, 0], vec![2, 1, 1]]), (1, vec![vec![1, 1, 0], vec![3, 1, 1], vec![1, 0, 0]])], &r03, Opt { real_every: 3, ..DERIVED }, join_red);
    with_range(ctx, "dishonest prover", &[(1, vec![vec![1, 1, 0], vec![1, 1, 1]]), (1, vec![vec![1, 1, 0], vec![2, 1, 1], vec![2, 1, 0]][..ctx.q(2, 3)].to_vec())], &[0, 1], Opt { real_every: 1, ..ATTACK }, join_red);
    ctx.assume("value differences do not wrap around the field (the range table holds small numbers)");
}

// ---- G14 ---------------------------------------------------------------------

pub type Join = (usize, usize);
fn partner(a: &Tab, b: &[i64], j: Join) -> bool {
    let s = a[0].len() - 1;
    a.iter().any(|r| r[s] == 1 && r[j.0] == b[j.1])
}
/// A (columns, selector), B (columns, selector): the honest join
pub fn join(j: Join) -> impl Fn(&[Tab], &Cfg) -> CaseRes + Sync {
    move |t, cfg| {
        let mut ins = Ins::new(&cfg.modes);
        let (a, b) = (ins.table(&t[0]), ins.table(&t[1]));
        let (na, nb) = (nv(&t[0]), nv(&t[1]));
        let (ca, cb) = (a.len() - 1, b.len() - 1);
        let total = t[1].iter().all(|r| r[cb] == 0 || partner(&t[0], r, j));
        let keys: Vec<i64> = t[0].iter().map(|r| r[j.0]).collect();
        let want = if !total { Want::Reject } else if cfg.debug && !dup_free(&keys) { Want::Any } else { Want::Accept };
        judge_outs(
            cfg,
            &ins,
            |pt, p| es(FinalJoinOneToManyIOP::<E, Mock>::prove(pt, &ptab(p, &a), &ptab(p, &b), j.0, j.1)).map(pout),
            |vt, c| es(FinalJoinOneToManyIOP::<E, Mock>::verify(vt, &vtab(c, &a, na), &vtab(c, &b, nb), j.0, j.1)).map(vout),
            want,
            |outs| joined(outs, t, j, ca, cb),
        )
    }
}
fn joined(outs: &[Vec<F>], t: &[Tab], j: Join, ca: usize, cb: usize) -> Result<(), String> {
    if outs.len() != ca + cb + 1 {
        return Err(format!("{} columns instead of {}", outs.len(), ca + cb + 1));
    }
    if outs.iter().any(|c| c.len() != t[1].len()) {
        return Err("wrong number of rows".into());
    }
    for k in 0..=cb {
        if outs[ca + k] != col(&t[1], k) {
            return Err(format!("column {} of the many side is not carried over", k));
        }
    }
    for (i, rb) in t[1].iter().enumerate() {
        if rb[cb] == 0 { continue; }
        let row: Vec<F> = (0..ca).map(|k| outs[k][i]).collect();
        if !t[0].iter().any(|r| r[ca] == 1 && r[j.0] == rb[j.1] && (0..ca).all(|k| f(r[k]) == row[k])) {
            return Err(format!("row {} is not a join partner", i));
        }
    }
    Ok(())
}
/// A, B, and the columns claimed to be A's rows brought into B's order
pub fn join_adv(j: Join) -> impl Fn(&[Tab], &Cfg) -> CaseRes + Sync {
    move |t, cfg| {
        let mut ins = Ins::new(&cfg.modes);
        let (a, b) = (ins.table(&t[0]), ins.table(&t[1]));
        let x: Vec<usize> = (0..t[2][0].len()).map(|k| ins.add(col(&t[2], k))).collect();
        let (na, nb) = (nv(&t[0]), nv(&t[1]));
        let (ca, cb) = (a.len() - 1, b.len() - 1);
        let right = (0..t[1].len()).all(|i| {
            t[1][i][cb] == 0 || (t[2][i][j.0] == t[1][i][j.1] && t[0].iter().any(|r| r[ca] == 1 && r[..ca] == t[2][i][..]))
        });
        let keys: Vec<i64> = t[0].iter().map(|r| r[j.0]).collect();
        let want = if !right { Want::Reject } else if cfg.debug && !dup_free(&keys) { Want::Any } else { Want::Accept };
        judge_outs(
            cfg,
            &ins,
            |pt, p| es(FinalJoinOneToManyIOP::<E, Mock>::prove_with_advice(pt, &ptab(p, &a), &ptab(p, &b), j.0, j.1, &x.iter().map(|k| p[*k].clone()).collect())).map(pout),
            |vt, c| es(FinalJoinOneToManyIOP::<E, Mock>::verify_with_advice(vt, &vtab(c, &a, na), &vtab(c, &b, nb), j.0, j.1, &x.iter().map(|k| c[*k].clone()).collect())).map(vout),
            want,
            |outs| joined(outs, t, j, ca, cb),
        )
    }
}
pub fn g14(ctx: &Ctx) {
    // A: (key, payload, selector)
    let a8 = vec![vec![1, 5, 1], vec![2, 6, 1], vec![2, 5, 1], vec![3, 7, 1], vec![1, 5, 0], vec![2, 6, 0]];
    let b6: Vec<Vec<i64>> = rows2(&[1, 2, 3], &[0, 1]);
    let b3 = vec![vec![1, 1], vec![2, 1], vec![9, 0]];
    let x4 = vec![vec![1, 5], vec![2, 6], vec![2, 5], vec![0, 0]];
    stmt_space(ctx, "honest nv1/nv1", &[(1, a8.clone()), (1, b6.clone())], PLAIN, join((0, 0)));
    stmt_space(ctx, "honest nv2/nv1", &[(2, a8[..ctx.q(5, 6)].to_vec()), (1, b3.clone())], PLAIN, join((0, 0)));
    stmt_space(ctx, "honest nv1/nv2", &[(1, a8.clone()), (2, b6[..ctx.q(4, 6)].to_vec())], PLAIN, join((0, 0)));
    stmt_space(ctx, "honest nv2/nv3", &[(2, vec![vec![1, 5, 1], vec![2, 6, 1], vec![3, 7, 1]]), (3, vec![vec![1, 1], vec![2, 1]])], Opt { real_every: 13, ..PLAIN }, join((0, 0)));
    // key in the second column of A, foreign key in the second of B
    let am = vec![vec![5, 1, 1], vec![1, 2, 1], vec![2, 1, 0], vec![2, 3, 1]];
    let bm = vec![vec![2, 1, 1], vec![1, 2, 1], vec![3, 3, 1], vec![1, 9, 0]];
    stmt_space(ctx, "honest, join columns 1 and 1", &[(1, am.clone()), (1, bm.clone())], PLAIN, join((1, 1)));
    stmt_space(ctx, "honest, join columns 0 and 1", &[(1, am.clone()), (1, bm.clone())], PLAIN, join((0, 1)));
    stmt_space(ctx, "honest, join columns 1 and 0", &[(1, am.clone()), (2, bm.clone())], PLAIN, join((1, 0)));
    let w3 = vec![vec![1, 2, 3, 1], vec![2, 3, 1, 1], vec![3, 1, 2, 1], vec![3, 3, 3, 0]];
    for ja in 0..3 { for jb in 0..3 {
        let name = format!("honest three columns, join columns {} and {}", ja, jb);
        stmt_space(ctx, &name, &[(1, w3.clone()), (1, w3.clone())], PLAIN, join((ja, jb)));
    } }
    stmt_space(ctx, "honest key column only", &[(1, b6.clone()), (1, b6.clone())], PLAIN, join((0, 0)));
    stmt_space(ctx, "honest, keys beyond 64 bits", &[(1, vec![vec![1, 5, 1], vec![BIG + 1, 6, 1], vec![BIG, 7, 1]]), (2, vec![vec![1, 1], vec![BIG + 1, 1], vec![BIG, 1]])], PLAIN, join((0, 0)));
    stmt_space(ctx, "any rows nv1/nv1", &[(1, a8.clone()), (1, b3.clone()), (1, x4.clone())], PLAIN, join_adv((0, 0)));
    stmt_space(ctx, "any rows nv2/nv1", &[(2, vec![vec![1, 5, 1], vec![2, 6, 1], vec![2, 6, 0], vec![1, 5, 0]]), (1, b3.clone()), (1, x4[..3].to_vec())], PLAIN, join_adv((0, 0)));
    stmt_space(ctx, "any rows nv1/nv2", &[(1, vec![vec![1, 5, 1], vec![2, 6, 1], vec![2, 6, 0]]), (2, b3[..ctx.q(2, 3)].to_vec()), (2, x4.clone())], Opt { real_every: 5, ..PLAIN }, join_adv((0, 0)));
    stmt_space(ctx, "any rows, join columns 1 and 1", &[(1, am[..3].to_vec()), (1, bm[..2].iter().chain([&bm[3]]).cloned().collect()), (1, vec![vec![5, 1], vec![1, 2], vec![2, 1], vec![1, 1]])], PLAIN, join_adv((1, 1)));
    stmt_space(ctx, "any rows, join columns 1 and 0", &[(1, am[..3].to_vec()), (1, bm[..2].iter().chain([&bm[3]]).cloned().collect()), (1, vec![vec![5, 1], vec![1, 2], vec![2, 1], vec![1, 1]])], PLAIN, join_adv((1, 0)));
    stmt_space(ctx, "any rows of three columns", &[(1, w3[1..].to_vec()), (1, w3[1..].to_vec()), (1, vec![vec![2, 3, 1], vec![3, 1, 2], vec![2, 1, 2], vec![3, 3, 3]])], PLAIN, join_adv((0, 1)));
    stmt_space(ctx, "derived columns", &[(1, vec![vec![1, 5, 1], vec![2, 6, 1]]), (1, b3.clone())], DERIVED, join((0, 0)));
    stmt_space(ctx, "any rows, derived columns", &[(1, vec![vec![1, 5, 1], vec![2, 6, 1]]), (1, vec![vec![1, 1], vec![2, 1]]), (1, x4[..2].to_vec())], DERIVED, join_adv((0, 0)));
    stmt_space(ctx, "dishonest prover", &[(1, vec![vec![1, 5, 1], vec![2, 6, 0], vec![2, 6, 1]]), (1, b3.clone())], ATTACK, join((0, 0)));
    stmt_space(ctx, "any rows, dishonest prover", &[(1, vec![vec![1, 5, 1], vec![2, 6, 1], vec![2, 6, 0]]), (1, b3.clone()), (1, x4.clone())], ATTACK, join_adv((0, 0)));
}

// ---- G15 ---------------------------------------------------------------------

/// input table, output table (columns, selector)
pub fn index(t: &[Tab], cfg: &Cfg) -> CaseRes {
    let mut ins = Ins::new(&cfg.modes);
    let (a, b) = (ins.table(&t[0]), ins.table(&t[1]));
    let (na, nb) = (nv(&t[0]), nv(&t[1]));
    let s = a.len() - 1;
    let right = t[1].iter().all(|r| r[s] == 0 || t[0].iter().any(|q| q[s] != 0 && q[..s] == r[..s]));
    judge(
        cfg,
        &ins,
        |pt, p| es2(IndexTransformIOP::<E, Mock>::prove(pt, &ptab(p, &a), &ptab(p, &b))),
        |vt, c| es3(IndexTransformIOP::<E, Mock>::verify(vt, &vtab(c, &a, na), &vtab(c, &b, nb))),
        Want::iff(right),
    )
}
/// all rows of n columns over vs, with selectors ss
fn rows_n(vs: &[i64], n: usize, ss: &[i64]) -> Vec<Vec<i64>> {
    let mut o = vec![];
    for i in 0..ipow(vs.len(), n) { for s in ss {
        let mut r = Idx(i).word(vs, n);
        r.push(*s);
        o.push(r);
    } }
    o
}
pub fn g15(ctx: &Ctx) {
    let one = rows_n(&[0, 1, 2], 1, &[0, 1]);
    let two = rows_n(&[1, 2], 2, &[0, 1]);
    let two5 = vec![vec![1, 1, 1], vec![1, 2, 1], vec![2, 1, 1], vec![2, 2, 0], vec![0, 0, 1]];
    stmt_space(ctx, "1 column, nv1 to nv1", &[(1, one.clone()), (1, one.clone())], PLAIN, index);
    stmt_space(ctx, "1 column, nv2 to nv1", &[(2, one.clone()), (1, one[..ctx.q(4, 6)].to_vec())], PLAIN, index);
    stmt_space(ctx, "2 columns, nv1 to nv1", &[(1, two.clone()), (1, two.clone())], PLAIN, index);
    stmt_space(ctx, "2 columns with zeros, nv1 to nv1", &[(1, rows_n(&[0, 3], 2, &[0, 1])), (1, rows_n(&[0, 3], 2, &[0, 1]))], PLAIN, index);
    stmt_space(ctx, "2 columns, values whose products agree", &[(1, vec![vec![1, 6, 1], vec![2, 3, 1], vec![3, 2, 1], vec![6, 1, 1], vec![6, 1, 0]]), (1, vec![vec![1, 6, 1], vec![2, 3, 1], vec![3, 2, 1], vec![6, 1, 1]])], PLAIN, index);
    stmt_space(ctx, "2 columns, values beyond 64 bits", &[(1, vec![vec![1, BIG, 1], vec![BIG, 1, 1], vec![BIG + 1, 0, 1], vec![1, 0, 1]]), (1, vec![vec![1, BIG, 1], vec![BIG, 1, 1], vec![BIG + 1, 0, 1], vec![1, 0, 1]])], PLAIN, index);
    stmt_space(ctx, "2 columns, nv2 to nv1", &[(2, two5.clone()), (1, two5.clone())], PLAIN, index);
    stmt_space(ctx, "2 columns, nv1 to nv2", &[(1, two5.clone()), (2, two5.clone())], PLAIN, index);
    stmt_space(ctx, "2 columns, nv2 to nv2", &[(2, two5[..ctx.q(3, 4)].to_vec()), (2, two5[..ctx.q(4, 5)].to_vec())], Opt { real_every: 7, ..PLAIN }, index);
    stmt_space(ctx, "2 columns, nv1 to nv3", &[(1, two5[1..4].to_vec()), (3, two5[1..ctx.q(3, 4)].to_vec())], Opt { real_every: 7, ..PLAIN }, index);
    let three = rows_n(&[0, 1], 3, &[1]);
    stmt_space(ctx, "3 columns, nv1 to nv1", &[(1, three.clone()), (1, three.clone())], PLAIN, index);
    stmt_space(ctx, "4 columns, nv1 to nv1", &[(1, rows_n(&[0, 1], 4, &[1])), (1, rows_n(&[0, 1], 4, &[1])[..ctx.q(4, 16)].to_vec())], PLAIN, index);
    // one row against one or two rows: no fixed combination of the columns may stand for the row
    stmt_space(ctx, "2 columns, one row of -2..4 each", &[(0, rows_n(&[-2, -1, 0, 1, 2, 3, 4], 2, &[1])), (0, rows_n(&[-2, -1, 0, 1, 2, 3, 4], 2, &[1]))], NOREAL, index);
    stmt_space(ctx, "3 columns, one row of -1..3 each", &[(0, rows_n(&[-1, 0, 1, 2, 3], 3, &[1])), (0, rows_n(&[-1, 0, 1, 2, 3], 3, &[1]))], NOREAL, index);
    stmt_space(ctx, "4 columns, one row of 0..2 each", &[(0, rows_n(&[0, 1, 2], 4, &[1])), (0, rows_n(&[0, 1, 2], 4, &[1]))], NOREAL, index);
    stmt_space(ctx, "5 columns, one row each", &[(0, rows_n(&[0, 1, 2], 5, &[1])[..ctx.q(81, 243)].to_vec()), (0, rows_n(&[0, 1, 2], 5, &[1]))], NOREAL, index);
    stmt_space(ctx, "3 columns, one row among two", &[(1, rows_n(&[0, 1, 2], 3, &[1])), (0, rows_n(&[0, 1, 2], 3, &[1]))], Opt { real_every: 7, ..PLAIN }, index);
    stmt_space(ctx, "2 columns, derived columns", &[(1, vec![vec![1, 2, 1], vec![2, 1, 1], vec![2, 2, 0]]), (1, vec![vec![1, 2, 1], vec![1, 1, 1], vec![2, 1, 1]])], DERIVED, index);
    stmt_space(ctx, "2 columns, dishonest prover", &[(1, two5[..4].to_vec()), (1, two5.clone())], ATTACK, index);
}

// ---- G16 ---------------------------------------------------------------------

/// A, B (columns, selector): the product is formed and a sum over it claimed (the true one or one more)
pub fn cross(wrong: bool) -> impl Fn(&[Tab], &Cfg) -> CaseRes + Sync {
    move |t, cfg| {
        let mut ins = Ins::new(&cfg.modes);
        let (a, b) = (ins.table(&t[0]), ins.table(&t[1]));
        let (na, nb) = (nv(&t[0]), nv(&t[1]));
        let (ca, cb) = (a.len() - 1, b.len() - 1);
        let mut want_rows: Vec<Vec<F>> = vec![];
        let mut total = f(0);
        for ra in &t[0] { for rb in &t[1] {
            let mut r: Vec<F> = ra[..ca].iter().chain(&rb[..cb]).map(|x| f(*x)).collect();
            let w: F = r.iter().enumerate().map(|(k, x)| *x * f(10i64.pow(k as u32))).sum();
            r.push(f(ra[ca] * rb[cb]));
            total += w * r.last().unwrap();
            want_rows.push(r);
        } }
        if wrong { total += f(1); }
        judge_outs(
            cfg,
            &ins,
            |_pt, p| {
                let r = es(CrossProductIOP::<E, Mock>::prover_cross_product(&ptab(p, &a), &ptab(p, &b)))?;
                let mut w = r.col_vals[0].mul_scalar(f(1));
                for (k, c) in r.col_vals.iter().enumerate().skip(1) { w = w.add_poly(&c.mul_scalar(f(10i64.pow(k as u32)))); }
                w = w.mul_poly(&r.selector);
                p[0].tracker.borrow_mut().add_sumcheck_claim(w.id, total);
                Ok(pout(r))
            },
            |_vt, c| {
                let r = es(CrossProductIOP::<E, Mock>::verifier_cross_product(&vtab(c, &a, na), &vtab(c, &b, nb)))?;
                if r.num_vars() != na + nb { return Err(format!("the verifier takes the product to have {} variables", r.num_vars())); }
                let mut w = r.col_vals[0].mul_scalar(f(1));
                for (k, c) in r.col_vals.iter().enumerate().skip(1) { w = w.add_comms(&c.mul_scalar(f(10i64.pow(k as u32)))); }
                w = w.mul_comms(&r.selector);
                c[0].tracker.borrow_mut().add_sumcheck_claim(w.id, total);
                Ok(vout(r))
            },
            if wrong { Want::Reject } else { Want::Accept },
            |outs| {
                if outs.len() != ca + cb + 1 { return Err(format!("{} columns", outs.len())); }
                if outs.iter().any(|o| o.len() != want_rows.len()) { return Err("wrong number of rows".into()); }
                let mut got: Vec<Vec<F>> = (0..want_rows.len()).map(|i| outs.iter().map(|c| c[i]).collect()).collect();
                let mut want = want_rows.clone();
                got.sort();
                want.sort();
                if got != want { return Err("the rows are not all the pairs".into()); }
                Ok(())
            },
        )
    }
}
pub fn g16(ctx: &Ctx) {
    let one = rows_n(&[3, 4, 5], 1, &[0, 1]);
    let two = vec![vec![3, 4, 1], vec![5, 6, 1], vec![3, 6, 0]];
    let three = vec![vec![1, 2, 3, 1], vec![4, 5, 6, 1], vec![7, 8, 9, 0]];
    for wrong in [false, true] {
        let n = |s: &str| format!("{}{}", s, if wrong { ", wrong sum" } else { "" });
        stmt_space(ctx, &n("1 x 1 columns, nv1 x nv1"), &[(1, one.clone()), (1, one.clone())], PLAIN, cross(wrong));
        stmt_space(ctx, &n("1 x 1 columns, nv1 x nv2"), &[(1, one[..4].to_vec()), (2, one[1..4].to_vec())], PLAIN, cross(wrong));
        stmt_space(ctx, &n("1 x 1 columns, nv2 x nv1"), &[(2, one[1..5].to_vec()), (1, one[..4].to_vec())], PLAIN, cross(wrong));
        stmt_space(ctx, &n("1 x 1 columns, nv0 x nv1"), &[(0, one.clone()), (1, one.clone())], PLAIN, cross(wrong));
        stmt_space(ctx, &n("1 x 1 columns, nv1 x nv0"), &[(1, one.clone()), (0, one.clone())], PLAIN, cross(wrong));
        stmt_space(ctx, &n("2 x 1 columns, nv1 x nv2"), &[(1, two.clone()), (2, one[1..4].to_vec())], PLAIN, cross(wrong));
        stmt_space(ctx, &n("1 x 2 columns, nv2 x nv1"), &[(2, one[1..4].to_vec()), (1, two.clone())], PLAIN, cross(wrong));
        stmt_space(ctx, &n("3 x 2 columns, nv1 x nv1"), &[(1, three.clone()), (1, two.clone())], PLAIN, cross(wrong));
        stmt_space(ctx, &n("2 x 3 columns, nv2 x nv2"), &[(2, two[1..].to_vec()), (2, three.clone())], PLAIN, cross(wrong));
        stmt_space(ctx, &n("2 x 2 columns, nv3 x nv1"), &[(3, two[1..].to_vec()), (1, two.clone())], PLAIN, cross(wrong));
        stmt_space(ctx, &n("1 x 2 columns, nv1 x nv3"), &[(1, one[3..].to_vec()), (3, two[1..].to_vec())], PLAIN, cross(wrong));
        stmt_space(ctx, &n("derived columns nv1 x nv1"), &[(1, two.clone()), (1, two.clone())], DERIVED, cross(wrong));
        stmt_space(ctx, &n("derived columns nv2 x nv1"), &[(2, two[1..].to_vec()), (1, two.clone())], DERIVED, cross(wrong));
        stmt_space(ctx, &n("derived columns nv1 x nv2"), &[(1, one[2..].to_vec()), (2, two[..2].to_vec())], DERIVED, cross(wrong));
    }
}

// ---- G17 ---------------------------------------------------------------------

#[derive(Clone, Copy)]
pub struct Gb {
    pub group: usize,
    /// aggregations: (column, is_sum)
    pub aggs: &'static [(usize, bool)],
}
/// input table (columns, selector); support (value, selector, multiplicity, aggregate columns...); range
pub fn group_by(g: Gb) -> impl Fn(&[Tab], &Cfg) -> CaseRes + Sync {
    move |t, cfg| {
        let mut ins = Ins::new(&cfg.modes);
        let (a, s, r) = (ins.table(&t[0]), ins.table(&t[1]), ins.bag(&t[2]));
        let (na, ns) = (nv(&t[0]), nv(&t[1]));
        let sel = a.len() - 1;
        let range: Vec<i64> = t[2].iter().map(|x| x[0]).collect();
        let bag: Tab = t[0].iter().map(|x| vec![x[g.group], x[sel]]).collect();
        let cnt = counts(&sel_vals(&bag));
        let mut right = supp_ok(&bag, &t[1], &range) && t[1].iter().all(|x| x[1] == 0 || x[2] == *cnt.get(&x[0]).unwrap_or(&0));
        for (k, (c, is_sum)) in g.aggs.iter().enumerate() {
            if !is_sum { continue; }
            right &= t[1].iter().all(|x| x[1] == 0 || x[3 + k] == t[0].iter().filter(|y| y[g.group] == x[0]).map(|y| y[*c] * y[sel]).sum::<i64>());
        }
        let want = if !right { Want::Reject } else if na == ns { Want::Accept } else { Want::Any };
        judge_outs(
            cfg,
            &ins,
            |pt, p| es(GroupByIOP::<E, Mock>::prove_with_advice(pt, &ptab(p, &a), &GroupByInstructionWithProvingAdvice {
                grouping_cols: vec![g.group], support_cols: vec![p[s[0]].clone()], support_sel: p[s[1]].clone(), support_multiplicity: p[s[2]].clone(),
                agg_instr: g.aggs.iter().enumerate().map(|(k, (c, is_sum))| (*c, if *is_sum { AggregationType::Sum } else { AggregationType::Count }, p[s[3 + k]].clone())).collect(),
            }, &pb(p, r))).map(pout),
            |vt, c| es(GroupByIOP::<E, Mock>::verify_with_advice(vt, &vtab(c, &a, na), &GroupByInstructionWithVerifyingAdvice {
                grouping_cols: vec![g.group], support_cols: vec![c[s[0]].clone()], support_sel: c[s[1]].clone(), support_multiplicity: c[s[2]].clone(),
                agg_instr: g.aggs.iter().enumerate().map(|(k, (x, is_sum))| (*x, if *is_sum { AggregationType::Sum } else { AggregationType::Count }, c[s[3 + k]].clone())).collect(),
            }, &vb(c, r, nv(&t[2])))).map(vout),
            want,
            |outs| {
                let mut exp = vec![col(&t[1], 0)];
                for (k, (_, is_sum)) in g.aggs.iter().enumerate() { exp.push(col(&t[1], if *is_sum { 3 + k } else { 2 })); }
                exp.push(col(&t[1], 1));
                if outs != &exp[..] { return Err("the result is not the groups, the aggregates in order, and the group selector".into()); }
                Ok(())
            },
        )
    }
}
/// supports of two rows: up to two groups over 1..=k with multiplicities and one aggregate
fn rows_gb(vals: &[i64], ms: &[i64], aggs: &[i64], width: usize) -> Vec<Vec<i64>> {
    let mut o = vec![];
    for v in vals { for m in ms { for i in 0..ipow(aggs.len(), width) {
        let mut r = vec![*v, if *v == 0 { 0 } else { 1 }, *m];
        r.extend(Idx(i).word(aggs, width));
        o.push(r);
    } } }
    o
}
pub fn g17(ctx: &Ctx) {
    let r03 = [0i64, 1, 2, 3];
    // (group, summed, selector)
    let t6 = vec![vec![1, 4, 1], vec![1, 5, 1], vec![2, 4, 1], vec![2, 3, 0], vec![1, 0, 1], vec![2, -4, 1]];
    const S1: &[(usize, bool)] = &[(1, true)];
    const C1: &[(usize, bool)] = &[(1, false)];
    const SC: &[(usize, bool)] = &[(1, true), (0, false)];
    const CS: &[(usize, bool)] = &[(0, false), (1, true)];
    const SS: &[(usize, bool)] = &[(1, true), (0, true)];
    const NONE: &[(usize, bool)] = &[];
    let mut sup = rows_gb(&[1, 2], &[1, 2], &[0, 4, 5, 9], 1);
    sup.push(vec![0, 0, 0, 0]);
    sup.push(vec![0, 0, 3, 7]);
    with_range(ctx, "sum nv1/nv1", &[(1, t6.clone()), (1, sup.clone())], &r03, PLAIN, group_by(Gb { group: 0, aggs: S1 }));
    with_range(ctx, "count nv1/nv1", &[(1, t6.clone()), (1, rows_gb(&[0, 1, 2], &[0, 1, 2, -1], &[7], 1))], &r03, PLAIN, group_by(Gb { group: 0, aggs: C1 }));
    with_range(ctx, "no aggregation nv1/nv1", &[(1, t6.clone()), (1, rows_gb(&[0, 1, 2, 3], &[0, 1, 2], &[7], 0))], &r03, PLAIN, group_by(Gb { group: 0, aggs: NONE }));
    let sup2 = { let mut v: Vec<Vec<i64>> = vec![]; for (x, m, g, h) in [(1i64, 1i64, 4i64, 1i64), (1, 2, 9, 2), (2, 1, 4, 2), (2, 1, 4, 1), (1, 2, 9, 1), (0, 0, 0, 0), (2, 2, 4, 2), (1, 1, 5, 1)] { v.push(vec![x, if x == 0 { 0 } else { 1 }, m, g, h]); } v };
    with_range(ctx, "sum and count nv1/nv1", &[(1, t6.clone()), (1, sup2.clone())], &r03, PLAIN, group_by(Gb { group: 0, aggs: SC }));
    with_range(ctx, "two sums nv1/nv1", &[(1, t6.clone()), (1, sup2.clone())], &r03, PLAIN, group_by(Gb { group: 0, aggs: SS }));
    let sup3: Vec<Vec<i64>> = sup2.iter().map(|r| vec![r[0], r[1], r[2], r[4], r[3]]).collect();
    with_range(ctx, "count and sum nv1/nv1", &[(1, t6.clone()), (1, sup3)], &r03, PLAIN, group_by(Gb { group: 0, aggs: CS }));
    // grouping by the last of two columns
    let t5r: Vec<Vec<i64>> = t6.iter().map(|r| vec![r[1], r[0], r[2]]).collect();
    const S0: &[(usize, bool)] = &[(0, true)];
    with_range(ctx, "sum of column 0 by column 1", &[(1, t5r), (1, sup.clone())], &r03, PLAIN, group_by(Gb { group: 1, aggs: S0 }));
    const SG: &[(usize, bool)] = &[(0, true)];
    with_range(ctx, "sum of the grouping column itself", &[(1, t6.clone()), (1, rows_gb(&[0, 1, 2], &[1, 2], &[1, 2, 4], 1))], &r03, PLAIN, group_by(Gb { group: 0, aggs: SG }));
    let s4 = vec![vec![0, 0, 0, 0], vec![1, 1, 2, 8], vec![1, 1, 1, 4], vec![2, 1, 2, 6], vec![2, 1, 1, 3], vec![1, 1, 3, 12], vec![2, 1, 3, 9]];
    with_range(ctx, "sum nv2/nv2", &[(2, vec![vec![1, 4, 1], vec![2, 3, 1], vec![1, 4, 0]]), (2, s4[..ctx.q(5, 7)].to_vec())], &r03, Opt { real_every: 7, ..PLAIN }, group_by(Gb { group: 0, aggs: S1 }));
    with_range(ctx, "sum nv2/nv1", &[(2, vec![vec![1, 4, 1], vec![2, 3, 1], vec![1, 4, 0]]), (1, s4.clone())], &r03, PLAIN, group_by(Gb { group: 0, aggs: S1 }));
    with_range(ctx, "sum nv1/nv2", &[(1, vec![vec![1, 4, 1], vec![2, 3, 1], vec![1, 4, 0]]), (2, s4[..4].to_vec())], &r03, PLAIN, group_by(Gb { group: 0, aggs: S1 }));
    let two_rows: Vec<Tab> = vec![vec![vec![1, 4, 1], vec![2, 3, 1]], vec![vec![1, 4, 1], vec![1, 5, 1]], vec![vec![1, 4, 0], vec![2, 3, 1]]];
    let sups: Vec<Tab> = vec![
        vec![vec![1, 1, 1, 4], vec![2, 1, 1, 3]], vec![vec![0, 0, 0, 0], vec![1, 1, 2, 9]], vec![vec![0, 0, 0, 0], vec![2, 1, 1, 3]],
        vec![vec![1, 1, 1, 3], vec![2, 1, 1, 4]], vec![vec![0, 0, 0, 0], vec![1, 1, 2, 8]], vec![vec![1, 1, 2, 9], vec![2, 1, 1, 3]],
    ];
    combo_space(ctx, "derived columns", &[two_rows.clone(), sups.clone(), vec![range_tab(&[0, 1, 2, 3])]], DERIVED, group_by(Gb { group: 0, aggs: S1 }));
    combo_space(ctx, "dishonest prover", &[two_rows, sups, vec![range_tab(&[0, 1])]], ATTACK, group_by(Gb { group: 0, aggs: S1 }));
    ctx.assume("value differences do not wrap around the field (the range table holds small numbers)");

    // column choices that are not supported are refused by both sides
    let name = "unsupported column choices";
    let groups: [&[usize]; 5] = [&[0, 1], &[2], &[9], &[1, 0, 1], &[0]];
    let kinds = [AggregationType::Count, AggregationType::Sum, AggregationType::Avg, AggregationType::Min, AggregationType::Max];
    ctx.space(name, 5 * 5 * 3 * 2, |i| {
        let mut ix = Idx(i);
        let (grp, kind, c, agg_last) = (ix.pick(&groups).to_vec(), *ix.pick(&kinds), *ix.pick(&[0usize, 2, 7]), ix.take(2));
        let bad = grp.len() != 1 || grp[0] > 1 || c > 1 || !matches!(kind, AggregationType::Count | AggregationType::Sum);
        let t = [vec![vec![1i64, 1, 1], vec![2, 2, 1]], vec![vec![1, 1, 1, 1], vec![2, 1, 1, 2]], range_tab(&[0, 1, 2, 3])];
        let mut ins = Ins::new(&[]);
        let (a, s, r) = (ins.table(&t[0]), ins.table(&t[1]), ins.bag(&t[2]));
        let aggs = |good: usize| if agg_last == 1 { vec![(good, AggregationType::Sum), (c, kind)] } else { vec![(c, kind)] };
        let cfg = Cfg { key: name.into(), modes: vec![], real: true, attack: false, debug: false };
        judge(&cfg, &ins,
            |pt, p| es2(GroupByIOP::<E, Mock>::prove_with_advice(pt, &ptab(p, &a), &GroupByInstructionWithProvingAdvice {
                grouping_cols: grp.clone(), support_cols: grp.iter().map(|_| p[s[0]].clone()).collect(), support_sel: p[s[1]].clone(), support_multiplicity: p[s[2]].clone(),
                agg_instr: aggs(0).into_iter().map(|(c, k)| (c, k, p[s[3]].clone())).collect(),
            }, &pb(p, r))),
            |vt, c| es3(GroupByIOP::<E, Mock>::verify_with_advice(vt, &vtab(c, &a, 1), &GroupByInstructionWithVerifyingAdvice {
                grouping_cols: grp.clone(), support_cols: grp.iter().map(|_| c[s[0]].clone()).collect(), support_sel: c[s[1]].clone(), support_multiplicity: c[s[2]].clone(),
                agg_instr: aggs(0).into_iter().map(|(x, k)| (x, k, c[s[3]].clone())).collect(),
            }, &vb(c, r, 2))),
            if bad { Want::Reject } else { Want::Accept })
    }, |i| format!("choice {}", i));
}
