//! G18: the helpers that prepare advice
use super::common::*;
use super::sets::combo_space;

/// inputs tracked by a prover, without a run
fn tracked(ins: &Ins) -> (PT, Vec<TP>) {
    let mut pt = PT::new_from_pcs_params(());
    let mut v: Vec<TP> = vec![];
    for op in &ins.ops {
        let p = p_apply(&mut pt, &v, op);
        v.push(p);
    }
    let q = ins.at.iter().map(|k| v[*k].clone()).collect();
    (pt, q)
}
fn fcounts(t: &Tab) -> BTreeMap<F, i64> {
    let mut m = BTreeMap::new();
    for v in sel_vals(t) { *m.entry(f(v)).or_insert(0) += 1; }
    m
}
/// selected values of result columns; None unless the selector is boolean
fn chosen(v: &[F], s: &[F]) -> Result<Vec<F>, String> {
    if v.len() != s.len() { return Err(format!("{} values but {} selectors", v.len(), s.len())); }
    let mut o = vec![];
    for (x, y) in v.iter().zip(s) {
        if y.is_one() { o.push(*x); } else if !y.is_zero() { return Err(format!("selector {}", show(y))); }
    }
    Ok(o)
}
fn mset(v: &[F]) -> BTreeMap<F, i64> {
    let mut m = BTreeMap::new();
    for x in v { *m.entry(*x).or_insert(0) += 1; }
    m
}
fn ascending(v: &[F]) -> bool { v.windows(2).all(|w| w[0] <= w[1]) }
fn same(what: &str, got: &BTreeMap<F, i64>, want: &BTreeMap<F, i64>) -> Result<(), String> {
    if got == want { return Ok(()); }
    let s = |m: &BTreeMap<F, i64>| m.iter().map(|(k, n)| format!("{}x{}", n, show(k))).collect::<Vec<_>>().join(" ");
    Err(format!("{}: got {{{}}}, expected {{{}}}", what, s(got), s(want)))
}
/// Σ weight·[selected] per value equals the counts
fn weights(what: &str, v: &[F], s: &[F], m: &[F], want: &BTreeMap<F, i64>) -> Result<(), String> {
    if v.len() != s.len() || v.len() != m.len() { return Err(format!("{}: columns of lengths {}, {}, {}", what, v.len(), s.len(), m.len())); }
    let mut w: BTreeMap<F, F> = BTreeMap::new();
    for ((x, y), z) in v.iter().zip(s).zip(m) { *w.entry(*x).or_insert(f(0)) += *y * z; }
    for (k, n) in want { *w.entry(*k).or_insert(f(0)) -= f(*n); }
    match w.iter().find(|(_, d)| !d.is_zero()) {
        None => Ok(()),
        Some((k, d)) => Err(format!("{}: value {} is counted {} too often ({})", what, show(k), show(d), shows(m))),
    }
}
fn case(cfg: &Cfg, steps: u64, g: impl FnOnce() -> Result<(), String>) -> CaseRes {
    match guard(g) {
        Ok(()) => Ok(obs("as promised", steps, true)),
        Err(e) => viol(&cfg.key, e),
    }
}

/// everything that is promised about one bag
fn one_bag(t: &[Tab], cfg: &Cfg) -> CaseRes {
    case(cfg, 4, || {
        let mut ins = Ins::new(&cfg.modes);
        let a = ins.bag(&t[0]);
        let (_pt, p) = tracked(&ins);
        let bag = pb(&p, a);
        let want = fcounts(&t[0]);
        let asmap = |m: std::collections::HashMap<F, u64>| -> BTreeMap<F, i64> { m.into_iter().map(|(k, v)| (k, v as i64)).collect() };
        let (v, s) = (col(&t[0], 0), col(&t[0], 1));
        same("bag_multiplicity_count", &asmap(bag_multiplicity_count(&bag)), &want)?;
        same("vec_multiplicity_count", &asmap(vec_multiplicity_count::<E>(&v, &s)), &want)?;
        let m = |x: &Vec<F>| Mle::from_evaluations_vec(nv(&t[0]), x.clone());
        same("mle_multiplicity_count", &asmap(mle_multiplicity_count::<E>(&m(&v), &m(&s))), &want)?;
        let (sv, ss, sm) = es(calc_bag_supp_advice(&bag))?;
        let ch = chosen(&sv.evaluations, &ss.evaluations)?;
        same("support", &mset(&ch), &want.keys().map(|k| (*k, 1)).collect())?;
        weights("support multiplicities", &sv.evaluations, &ss.evaluations, &sm.evaluations, &want)?;
        if !ascending(&sv.evaluations) { return Err(format!("the support column is not sorted: {}", shows(&sv.evaluations))); }
        if sv.num_vars != ss.num_vars || sv.num_vars != sm.num_vars || sv.evaluations.len() != 1 << sv.num_vars { return Err("support columns of different sizes".into()); }
        Ok(())
    })
}
/// everything that is promised about two bags
fn two_bags(t: &[Tab], cfg: &Cfg) -> CaseRes {
    case(cfg, 5, || {
        let mut ins = Ins::new(&cfg.modes);
        let (a, b) = (ins.bag(&t[0]), ins.bag(&t[1]));
        let (mut pt, p) = tracked(&ins);
        let (ba, bb) = (pb(&p, a), pb(&p, b));
        let (ca, cb) = (fcounts(&t[0]), fcounts(&t[1]));
        // inclusion of a in b: the multiplicity of every value of b sums to its count in a
        let m = calc_bag_inclusion_advice_from_bag(&ba, &bb);
        let mle = |t: &Tab, k: usize| Mle::from_evaluations_vec(nv(t), col(t, k));
        let m2 = calc_bag_inclusion_advice_from_mle::<E>(&mle(&t[0], 0), &mle(&t[0], 1), &mle(&t[1], 0), &mle(&t[1], 1));
        let within: BTreeMap<F, i64> = ca.iter().filter(|(k, _)| cb.contains_key(k)).map(|(k, n)| (*k, *n)).collect();
        for (what, m) in [("inclusion multiplicities", &m), ("inclusion multiplicities from tables", &m2)] {
            weights(what, &col(&t[1], 0), &col(&t[1], 1), &m.evaluations, &within)?;
        }
        // disjointness
        let (sv, ss, ma, mb) = es(calc_bag_disjoint_advice(&ba, &bb))?;
        let all: BTreeMap<F, i64> = ca.keys().chain(cb.keys()).map(|k| (*k, 1)).collect();
        same("merged support", &mset(&chosen(&sv.evaluations, &ss.evaluations)?), &all)?;
        weights("merged multiplicities of a", &sv.evaluations, &ss.evaluations, &ma.evaluations, &ca)?;
        weights("merged multiplicities of b", &sv.evaluations, &ss.evaluations, &mb.evaluations, &cb)?;
        if !ascending(&sv.evaluations) { return Err("the merged column is not sorted".into()); }
        // splits
        let (l, xa, xb, r) = es(bag_lmr_split(&mut pt, &ba, &bb))?;
        let out = |b: &PBag| -> Result<BTreeMap<F, i64>, String> { Ok(mset(&chosen(&b.poly.evaluations(), &b.selector.evaluations())?)) };
        let only = |x: &BTreeMap<F, i64>, y: &BTreeMap<F, i64>, both: bool| -> BTreeMap<F, i64> { x.iter().filter(|(k, _)| y.contains_key(k) == both).map(|(k, n)| (*k, *n)).collect() };
        same("left part", &out(&l)?, &only(&ca, &cb, false))?;
        same("common part of a", &out(&xa)?, &only(&ca, &cb, true))?;
        same("common part of b", &out(&xb)?, &only(&cb, &ca, true))?;
        same("right part", &out(&r)?, &only(&cb, &ca, false))?;
        if ca.values().chain(cb.values()).all(|n| *n == 1) {
            let (l, m, r) = es(set_lmr_split(&mut pt, &ba, &bb))?;
            same("left set", &out(&l)?, &only(&ca, &cb, false))?;
            same("common set", &out(&m)?, &only(&ca, &cb, true))?;
            same("right set", &out(&r)?, &only(&cb, &ca, false))?;
        }
        // join markers
        let (ml, mr) = calc_join_reduction_lr_sel_advice::<E>(&mle(&t[0], 0), &mle(&t[0], 1), &mle(&t[1], 0), &mle(&t[1], 1));
        for (what, t, m, other) in [("left", &t[0], &ml, &cb), ("right", &t[1], &mr, &ca)] {
            if m.evaluations.len() != t.len() { return Err(format!("{} marker of wrong length", what)); }
            for (row, x) in t.iter().zip(&m.evaluations) {
                if !x.is_zero() && !x.is_one() { return Err(format!("{} marker {}", what, show(x))); }
                if row[1] != 0 && x.is_one() == other.contains_key(&f(row[0])) { return Err(format!("{} marker of value {} is {}", what, row[0], show(x))); }
            }
        }
        Ok(())
    })
}
/// A (key, payload, selector), B (foreign key, selector)
fn transform(t: &[Tab], cfg: &Cfg) -> CaseRes {
    case(cfg, 2, || {
        let mut ins = Ins::new(&cfg.modes);
        let (a, b) = (ins.table(&t[0]), ins.table(&t[1]));
        let (_pt, p) = tracked(&ins);
        let (ta, tb) = (ptab(&p, &a), ptab(&p, &b));
        let partner = |r: &Vec<i64>| t[0].iter().any(|q| q[2] == 1 && q[0] == r[0]);
        let total = t[1].iter().all(|r| r[1] == 0 || partner(r));
        let ix = match calc_final_join_one_to_many_index_transform(&ta, &tb, 0, 0) {
            Err(e) => return if total { Err(format!("refused: {:?}", e)) } else { Ok(()) },
            Ok(_) if !total => return Err("a row without partner is not refused".into()),
            Ok(ix) => ix,
        };
        if ix.len() != t[1].len() || ix.iter().any(|k| *k >= t[0].len()) { return Err(format!("row map {:?}", ix)); }
        for (r, k) in t[1].iter().zip(&ix) {
            if r[1] == 1 && (t[0][*k][0] != r[0] || t[0][*k][2] != 1) { return Err(format!("row map {:?} sends a row to one that is not its partner", ix)); }
        }
        for c in 0..2 {
            let m = es(calc_index_transformed_bag(&ix, &p[a[c]], &p[*b.last().unwrap()]))?;
            if m.evaluations.len() != t[1].len() { return Err("transformed column of wrong length".into()); }
            for (i, r) in t[1].iter().enumerate() {
                if r[1] == 1 && m.evaluations[i] != f(t[0][ix[i]][c]) { return Err(format!("transformed column {}", shows(&m.evaluations))); }
            }
        }
        Ok(())
    })
}
/// all arrangements of the rows
fn perms(rows: &[Vec<i64>]) -> Vec<Tab> {
    fn go(rest: &mut Vec<Vec<i64>>, cur: &mut Tab, out: &mut BTreeSet<Tab>) {
        if rest.is_empty() { out.insert(cur.clone()); return; }
        for i in 0..rest.len() {
            let r = rest.remove(i);
            cur.push(r.clone());
            go(rest, cur, out);
            cur.pop();
            rest.insert(i, r);
        }
    }
    let mut out = BTreeSet::new();
    go(&mut rows.to_vec(), &mut vec![], &mut out);
    out.into_iter().collect()
}
pub fn g18(ctx: &Ctx) {
    let r8 = rows2(&[0, 1, 2, 3], &[0, 1]);
    let r6 = rows2(&[0, 1, 2], &[0, 1]);
    let r5 = vec![vec![0, 1], vec![1, 1], vec![2, 1], vec![2, 0], vec![-1, 1]];
    stmt_space(ctx, "one bag, nv0", &[(0, r8.clone())], NOREAL, one_bag);
    stmt_space(ctx, "one bag, nv1", &[(1, r8.clone())], NOREAL, one_bag);
    stmt_space(ctx, "one bag, nv2", &[(2, r8.clone())], NOREAL, one_bag);
    stmt_space(ctx, "one bag, nv2, negative values", &[(2, r5.clone())], NOREAL, one_bag);
    let big = vec![vec![1, 1], vec![BIG + 1, 1], vec![BIG, 1], vec![0, 1], vec![BIG + 1, 0]];
    stmt_space(ctx, "one bag, nv2, values beyond 64 bits", &[(2, big.clone())], NOREAL, one_bag);
    stmt_space(ctx, "two bags, nv1/nv2, values beyond 64 bits", &[(1, big.clone()), (2, big.clone())], NOREAL, two_bags);
    stmt_space(ctx, "one bag, nv3", &[(3, ctx.q(&r6[1..4], &r6[1..6]).to_vec())], NOREAL, one_bag);
    let ps = perms(&[vec![0, 0], vec![1, 1], vec![2, 1], vec![3, 1], vec![3, 1], vec![5, 0], vec![7, 1], vec![0, 1]]);
    combo_space(ctx, "one bag, nv3, all arrangements", &[ps], NOREAL, one_bag);
    stmt_space(ctx, "one bag, derived columns", &[(1, r6.clone())], DERIVED, one_bag);
    for (na, nb) in [(0usize, 0usize), (0, 1), (1, 0), (1, 1), (2, 0), (0, 2)] {
        let name = format!("two bags, nv{}/nv{}", na, nb);
        stmt_space(ctx, &name, &[(na, r8.clone()), (nb, r8.clone())], NOREAL, two_bags);
    }
    stmt_space(ctx, "two bags, nv2/nv1", &[(2, r5.clone()), (1, r8.clone())], NOREAL, two_bags);
    stmt_space(ctx, "two bags, nv1/nv2", &[(1, r8.clone()), (2, r5.clone())], NOREAL, two_bags);
    stmt_space(ctx, "two bags, nv2/nv2", &[(2, r5[..4].to_vec()), (2, vec![vec![1, 1], vec![2, 1], vec![3, 1], vec![1, 0]])], NOREAL, two_bags);
    stmt_space(ctx, "two bags, nv3/nv1", &[(3, vec![vec![1, 1], vec![2, 1], vec![3, 0]]), (1, vec![vec![1, 1], vec![3, 1], vec![2, 0]])], NOREAL, two_bags);
    stmt_space(ctx, "two bags, nv1/nv3", &[(1, vec![vec![1, 1], vec![3, 1], vec![2, 0]]), (3, vec![vec![1, 1], vec![2, 1], vec![3, 0]])], NOREAL, two_bags);
    let pa = perms(&[vec![1, 1], vec![2, 1], vec![3, 1], vec![5, 0]]);
    let pb_ = perms(&[vec![2, 1], vec![3, 1], vec![4, 1], vec![1, 0]]);
    let pc = perms(&[vec![5, 1], vec![6, 1], vec![7, 1], vec![8, 1]]);
    let pd = perms(&[vec![1, 1], vec![8, 1], vec![6, 1], vec![0, 0]]);
    combo_space(ctx, "two sets, nv2/nv2, all arrangements", &[pa.iter().chain(&pc).cloned().collect(), pb_.iter().chain(&pd).cloned().collect()], NOREAL, two_bags);
    let pe = perms(&[vec![1, 1], vec![1, 1], vec![3, 1], vec![5, 1]]);
    let pf = perms(&[vec![1, 1], vec![3, 1], vec![3, 1], vec![0, 1]]);
    combo_space(ctx, "two bags with repetitions, nv2/nv2, all arrangements", &[pe, pf], NOREAL, two_bags);
    stmt_space(ctx, "two bags, nv2/nv2, wide", &[(2, ctx.q(&r6[1..], &r6).to_vec()), (2, ctx.q(&r6, &r8).clone())], NOREAL, two_bags);
    {
        let pg = perms(&[vec![1, 1], vec![2, 1], vec![3, 1], vec![4, 1], vec![5, 1], vec![0, 0], vec![6, 0], vec![9, 1]]);
        combo_space(ctx, "two sets, nv3/nv2, all arrangements", &[pg, pb_.clone()], NOREAL, two_bags);
    }
    stmt_space(ctx, "two bags, derived columns", &[(1, r6[1..5].to_vec()), (1, r6[..4].to_vec())], DERIVED, two_bags);
    let a6 = vec![vec![1, 5, 1], vec![2, 6, 1], vec![2, 5, 1], vec![3, 7, 1], vec![1, 5, 0], vec![2, 9, 0]];
    let b6 = rows2(&[1, 2, 3], &[0, 1]);
    stmt_space(ctx, "row map, nv1 to nv1", &[(1, a6.clone()), (1, b6.clone())], NOREAL, transform);
    stmt_space(ctx, "row map, nv2 to nv1", &[(2, a6.clone()), (1, b6.clone())], NOREAL, transform);
    stmt_space(ctx, "row map, nv1 to nv2", &[(1, a6.clone()), (2, b6.clone())], NOREAL, transform);
    stmt_space(ctx, "row map, nv0 to nv2", &[(0, a6.clone()), (2, b6.clone())], NOREAL, transform);
    stmt_space(ctx, "row map, keys beyond 64 bits", &[(1, vec![vec![1, 5, 1], vec![BIG + 1, BIG, 1], vec![BIG, 5, 1]]), (2, vec![vec![1, 1], vec![BIG + 1, 1], vec![BIG, 1]])], NOREAL, transform);
    let arr = perms(&[vec![1, 5, 1], vec![2, 6, 1], vec![3, 7, 1], vec![4, 8, 1]]);
    stmt_space(ctx, "row map, nv2 to nv2", &[(2, a6[..4].to_vec()), (2, vec![vec![1, 1], vec![2, 1], vec![3, 1], vec![3, 0]])], NOREAL, transform);
    let fk: Vec<Tab> = (0..256u64).map(|i| Idx(i).word(&[vec![1i64, 1], vec![2, 1], vec![3, 1], vec![4, 1]], 4)).collect();
    combo_space(ctx, "row map, all arrangements of the keys", &[arr, fk], NOREAL, transform);
}
