//! Larger tables: for each gadget a few true statements over tables of 8 to 64
//! rows, and every statement that differs from one of them in one place (one
//! cell, one pair of cells, one row, one pair of rows) - or in two places.
use super::common::*;
use super::{bags::*, sets::*, sorts::*, tables::*};

type Stmt<'a> = &'a (dyn Fn(&[Tab], &Cfg) -> CaseRes + Sync);

/// every single change of a list of tables; `fixed` trailing tables are left alone
/// (columns of zeros and ones stay such unless `any`)
pub fn changes(t: &[Tab], fixed: usize, any: bool) -> Vec<(String, Vec<Tab>)> {
    let mut out: Vec<(String, Vec<Tab>)> = vec![];
    for k in 0..t.len() - fixed {
        let n = t[k].len();
        let mut seen: BTreeSet<Tab> = BTreeSet::new();
        seen.insert(t[k].clone());
        let bits: Vec<bool> = (0..t[k][0].len()).map(|c| !any && t[k].iter().all(|r| r[c] == 0 || r[c] == 1)).collect();
        let mut put = |what: String, x: Tab| if x.iter().all(|r| r.iter().zip(&bits).all(|(v, b)| !b || *v == 0 || *v == 1)) && seen.insert(x.clone()) {
            let mut all = t.to_vec();
            all[k] = x;
            out.push((format!("table {} {}", k, what), all));
        };
        for r in 0..n {
            // of tables with more than 64 rows only the rows around the ends, the middle and the powers of two
            if n > 64 && !(r.is_power_of_two() || (r + 1).is_power_of_two() || r == 0 || r + 2 >= n) { continue; }
            let (nx, mi) = ((r + 1) % n, r ^ (n / 2));
            for c in 0..t[k][0].len() {
                let v = t[k][r][c];
                for w in [v + 1, v - 1, 0, 1, t[k][nx][c], t[k][mi][c], -v] {
                    let mut x = t[k].clone();
                    x[r][c] = w;
                    put(format!("row {} column {} becomes {}", r, c, w), x);
                }
                for q in [nx, mi] {
                    let mut x = t[k].clone();
                    let y = x[q][c];
                    x[q][c] = v;
                    x[r][c] = y;
                    put(format!("rows {} and {} exchange column {}", r, q, c), x);
                }
            }
            for q in [nx, mi] {
                let mut x = t[k].clone();
                x.swap(r, q);
                put(format!("rows {} and {} exchanged", r, q), x);
                let mut x = t[k].clone();
                x[r] = x[q].clone();
                put(format!("row {} becomes row {}", r, q), x);
            }
        }
        let mut x = t[k].clone();
        x.reverse();
        put("reversed".into(), x);
        let mut x = t[k].clone();
        x.rotate_left(1);
        put("rotated".into(), x);
    }
    out
}
/// the statement itself, every single change of it and, with `two`, every pair of changes
fn near(ctx: &Ctx, name: &str, base: Vec<Tab>, fixed: usize, two: bool, real_every: u64, stmt: Stmt) {
    let one = changes(&base, fixed, ["G01", "G04", "G05", "G06"].contains(&ctx.id.as_str()));
    let name = &format!("near {}", name);
    // how the columns came about: mostly committed one by one; every seventh statement derived from others, every
    // seventh with equal columns being the very same polynomial
    let modes = |i: u64| match i % 7 { 2 => vec![6], 4 => vec![(i / 7 % 5 + 1) as u8, 0, 6], 6 => vec![7, 6, 2], _ => vec![] };
    // a prover who lies about one commitment: on every fifth statement, where the tables are small enough
    let rows: usize = base.iter().map(|t| t.len()).sum();
    let attacked = ctx.variant != "debug" && ctx.id != "G13" && rows <= if ctx.thorough { 64 } else { 32 };
    let cfg = |i: u64| Cfg { key: name.clone(), modes: modes(i), real: i == 0 || i % real_every == 0, attack: attacked && i % 5 == 3, debug: ctx.variant == "debug" };
    ctx.space(name, one.len() as u64 + 1, |i| {
        if i == 0 {
            let o = stmt(&base, &cfg(0))?;
            if ctx.variant != "debug" && !o.outcome.starts_with("Accept") && !name.contains("wrong sum") { return viol(format!("{}:base", name), format!("the statement itself is not a true one: {}", o.outcome)); }
            return Ok(o);
        }
        stmt(&one[i as usize - 1].1, &cfg(i))
    }, |i| if i == 0 { format!("tables {:?}", base) } else { format!("tables {:?} ({})", one[i as usize - 1].1, one[i as usize - 1].0) });
    if !two && !ctx.thorough { return; }
    // two changes: the second one applied to what the first one made
    let width = one.len() as u64;
    if width * width > ctx.q(120_000, 4_000_000) { return; }
    let name = &format!("{}, two changes", name);
    if skip_in_debug(ctx, width * width) { return; }
    let cfg = |i: u64| Cfg { key: name.clone(), modes: modes(i), real: i % (real_every * 31) == 0, attack: false, debug: ctx.variant == "debug" };
    let get = |i: u64| -> Option<(String, Vec<Tab>)> {
        let mut ix = Idx(i);
        let (a, b) = (ix.pick(&one), ix.take(width));
        // the same change on the changed tables, where it still is one
        let mut t = a.1.clone();
        let (d, o) = (&one[b as usize].1, &base);
        let mut any = false;
        for k in 0..t.len() { for r in 0..t[k].len() { for c in 0..t[k][r].len() { if d[k][r][c] != o[k][r][c] && t[k][r][c] != d[k][r][c] { t[k][r][c] = d[k][r][c]; any = true; } } } }
        if any && a.1 != *d { Some((format!("{} and {}", a.0, one[b as usize].0), t)) } else { None }
    };
    ctx.space(name, width * width, |i| match get(i) {
        None => Ok(obs("the same change", 0, false)),
        Some((_, t)) => stmt(&t, &cfg(i)),
    }, |i| format!("{:?}", get(i)));
}
fn tab(n: usize, g: impl Fn(i64) -> Vec<i64>) -> Tab {
    (0..1i64 << n).map(g).collect()
}
/// rows, padded with `pad` to 2^n rows, put into an order: row i goes to (i * a + b)
fn mix(n: usize, rows: &[Vec<i64>], pad: &[i64], a: usize, b: usize) -> Tab {
    let len = 1usize << n;
    let mut t = vec![pad.to_vec(); len];
    for (i, r) in rows.iter().enumerate() { t[(i * a + b) % len] = r.clone(); }
    t
}
fn rng(n: usize) -> Tab {
    tab(n, |i| vec![i, 1])
}
fn vals(v: impl IntoIterator<Item = i64>) -> Vec<Vec<i64>> {
    v.into_iter().map(|x| vec![x, 1]).collect()
}

pub fn run(ctx: &Ctx) {
    match ctx.id.as_str() {
        "G01" => {
            let l4 = tab(4, |i| vec![i * 7 % 11, (i % 5 != 2) as i64, 1 + i % 3]);
            near(ctx, "1x1 bags nv4", vec![l4.clone(), mix(4, &l4, &[], 5, 3)], 0, false, 7, &|t, c| multitool(t, 1, c));
            let parts = [tab(3, |i| vec![i % 5, 1, 2]), tab(3, |i| vec![3 + i % 3, (i != 4) as i64, 1]), tab(2, |i| vec![9, i % 2, 5])];
            let all: Vec<Vec<i64>> = parts.iter().flatten().cloned().collect();
            let mut t = parts.to_vec();
            t.push(mix(5, &all, &[4, 0, 9], 11, 6));
            near(ctx, "3x1 bags nv3,3,2/nv5", t, 0, false, 11, &|t, c| multitool(t, 3, c));
            let mut t: Vec<Tab> = vec![mix(4, &all[..12], &[1, 1, 0], 3, 1), mix(3, &all[12..], &[2, 0, 1], 3, 2)];
            t.extend(parts.to_vec());
            near(ctx, "2x3 bags", t, 0, false, 11, &|t, c| multitool(t, 2, c));
            let small: Vec<Tab> = (0..6i64).map(|k| vec![vec![k, 1, 1], vec![k / 2, 1, 2]]).collect();
            let all: Vec<Vec<i64>> = small.iter().flatten().cloned().collect();
            let mut t = small.clone();
            t.push(mix(4, &all, &[0, 0, 0], 5, 1));
            near(ctx, "6x1 bags", t.clone(), 0, false, 7, &|t, c| multitool(t, 6, c));
            t.rotate_right(1);
            near(ctx, "1x6 bags", t, 0, false, 7, &|t, c| multitool(t, 1, c));
            near(ctx, "1x1 bags nv3/nv5", vec![tab(3, |i| vec![i, 1, 4]), tab(5, |i| vec![i * 3 % 8, 1, 1])], 0, false, 7, &|t, c| multitool(t, 1, c));
            near(ctx, "1x1 bags nv5/nv2", vec![tab(5, |i| vec![i * 5 % 4 - 1, 1, 1 - 2 * (i / 16)]), tab(2, |i| vec![i, i % 2, 0])], 0, false, 7, &|t, c| multitool(t, 1, c));
            near(ctx, "1x1 bags nv3", vec![tab(3, |i| vec![i, (i > 1) as i64, 1]), mix(3, &tab(3, |i| vec![i, (i > 1) as i64, 1]), &[], 3, 1)], 0, true, 7, &|t, c| multitool(t, 1, c));
            let l9 = tab(9, |i| vec![i * 7 % 301, (i % 5 != 2) as i64, 1 + i % 3]);
            near(ctx, "tall, 1x1 bags nv9", vec![l9.clone(), mix(9, &l9, &[], 5, 3)], 0, false, 37, &|t, c| multitool(t, 1, c));
            near(ctx, "tall, 2x1 bags nv8,1/nv9", vec![tab(8, |i| vec![i, 1, 1]), tab(1, |i| vec![i, 1, 5]), mix(9, &tab(8, |i| vec![i, 1, 1 + 5 * (i < 2) as i64]), &[0, 0, 0], 3, 1)], 0, false, 37, &|t, c| multitool(t, 2, c));
        }
        "G02" => {
            let l = |n: usize| tab(n, |i| vec![i * 7 % 11, (i % 5 != 2) as i64]);
            near(ctx, "eq nv3", vec![l(3), mix(3, &l(3), &[], 3, 1)], 0, true, 7, &bag_eq);
            near(ctx, "eq nv4", vec![l(4), mix(4, &l(4), &[], 5, 3)], 0, false, 7, &bag_eq);
            near(ctx, "eq nv5", vec![l(5), mix(5, &l(5), &[], 13, 9)], 0, false, 7, &bag_eq);
            near(ctx, "eq nv6", vec![l(6), mix(6, &l(6), &[], 23, 9)], 0, false, 17, &bag_eq);
            for (a, b, n) in [(3usize, 4usize, 5usize), (4, 4, 5), (4, 2, 5), (2, 2, 4), (5, 3, 6)] {
                let all: Vec<Vec<i64>> = l(a).into_iter().chain(l(b)).collect();
                near(ctx, &format!("sum {}+{}={}", a, b, n), vec![l(a), l(b), mix(n, &all, &[3, 0], 11, 5)], 0, n == 4, 11, &bag_sum);
            }
            near(ctx, "tall, eq nv9", vec![l(9), mix(9, &l(9), &[], 23, 9)], 0, false, 37, &bag_eq);
            let all: Vec<Vec<i64>> = l(8).into_iter().chain(l(7)).collect();
            near(ctx, "tall, sum 8+7=9", vec![l(8), l(7), mix(9, &all, &[3, 0], 11, 5)], 0, false, 37, &bag_sum);
        }
        "G03" => {
            let l = |n: usize, m: i64| tab(n, |i| vec![i * 7 % m, (i % 5 != 2) as i64]);
            near(ctx, "nv5 in nv3", vec![l(5, 7), tab(3, |i| vec![i, (i != 7) as i64])], 0, false, 7, &inclusion);
            near(ctx, "nv3 in nv5", vec![l(3, 11), mix(5, &tab(4, |i| vec![i, 1]), &[0, 1], 7, 4)], 0, false, 7, &inclusion);
            near(ctx, "nv4 in nv4", vec![l(4, 13), mix(4, &vals(0..13), &[5, 0], 7, 4)], 0, false, 7, &inclusion);
            near(ctx, "nv2 in nv6", vec![l(2, 5), mix(6, &tab(5, |i| vec![i, 1]), &[33, 0], 7, 4)], 0, false, 17, &inclusion);
            near(ctx, "nv3 in nv3", vec![l(3, 5), mix(3, &vals(0..5), &[5, 0], 5, 4)], 0, true, 7, &inclusion);
            near(ctx, "with advice nv4 in nv3", vec![tab(4, |i| vec![i % 5, (i != 4) as i64]), tab(3, |i| vec![i, 1, [4, 3, 3, 3, 2, 0, 0, 0][i as usize]])], 0, false, 7, &inclusion_adv);
            near(ctx, "tall, nv9 in nv8", vec![l(9, 200), tab(8, |i| vec![i, (i != 255) as i64])], 0, false, 37, &inclusion);
            near(ctx, "tall, nv9 in nv1", vec![l(9, 2), tab(1, |i| vec![i, 1])], 0, false, 37, &inclusion);
        }
        "G04" => {
            let mk = |n: usize, p: &dyn Fn(i64) -> i64| tab(n, |k| vec![10 + k * k % 7, 10 + p(k) * p(k) % 7, p(k), 1, 1]);
            near(ctx, "nv3", vec![mk(3, &|k| (k * 3 + 1) % 8)], 0, true, 7, &presc_perm);
            near(ctx, "nv4", vec![mk(4, &|k| (k * 5 + 3) % 16)], 0, false, 7, &presc_perm);
            near(ctx, "nv5", vec![mk(5, &|k| 31 - k)], 0, false, 7, &presc_perm);
            near(ctx, "nv6", vec![mk(6, &|k| (k + 1) % 64)], 0, false, 17, &presc_perm);
            near(ctx, "tall, nv9", vec![mk(9, &|k| (k * 5 + 3) % 512)], 0, false, 37, &presc_perm);
            near(ctx, "tall, nv10", vec![mk(10, &|k| (k * 5 + 3) % 1024)], 0, false, 97, &presc_perm);
        }
        "G05" => {
            near(ctx, "nv3", vec![tab(3, |i| vec![i * (i + 1) / 2, 1]), rng(3)], 1, true, 7, &sort);
            near(ctx, "nv4", vec![tab(4, |i| vec![2 * i - (i % 2), (i % 3 != 1) as i64]), rng(3)], 1, false, 7, &sort);
            near(ctx, "nv5, equal neighbours", vec![tab(5, |i| vec![i / 2 * 2, i % 2]), rng(2)], 1, false, 7, &sort);
            near(ctx, "nv6", vec![tab(6, |i| vec![i - 20, 1]), rng(1)], 1, false, 17, &sort);
            near(ctx, "nv3, range nv5", vec![tab(3, |i| vec![i * i, 1]), rng(5)], 1, false, 7, &sort);
            near(ctx, "tall, nv9", vec![tab(9, |i| vec![2 * i - (i % 2), (i % 3 != 1) as i64]), rng(2)], 1, false, 37, &sort);
            near(ctx, "tall, nv8, range nv9", vec![tab(8, |i| vec![if i < 255 { 2 * i } else { 1000 }, 1]), rng(9)], 1, false, 37, &sort);
        }
        "G06" => {
            near(ctx, "no zeros nv4", vec![tab(4, |i| vec![i, (i != 0) as i64])], 0, true, 7, &nozeros);
            near(ctx, "no zeros nv6", vec![tab(6, |i| vec![i % 7, (i % 7 != 0) as i64])], 0, false, 7, &nozeros);
            near(ctx, "selector nv5", vec![tab(5, |i| vec![(i * i / 3) % 2])], 0, true, 7, &selvalid);
            near(ctx, "selector nv6", vec![tab(6, |i| vec![(i * i / 3) % 2])], 0, false, 7, &selvalid);
            near(ctx, "tall, no zeros nv10", vec![tab(10, |i| vec![i % 7, (i % 7 != 0) as i64])], 0, false, 7, &nozeros);
            near(ctx, "tall, selector nv10", vec![tab(10, |i| vec![(i * i / 3) % 2])], 0, false, 7, &selvalid);
        }
        "G07" => {
            let s = |n: usize, k: i64, m: &dyn Fn(i64) -> Vec<i64>| -> Tab { let len = 1i64 << n; tab(n, |i| if i < len - k { let mut r = vec![0, 0]; r.extend(m(-1)); r } else { let v = i - (len - k) + 1; let mut r = vec![v, 1]; r.extend(m(v)); r }) };
            near(ctx, "bag nv4, support nv3", vec![tab(4, |i| vec![1 + i % 6, (i < 12) as i64]), s(3, 6, &|_| vec![]), rng(3)], 1, false, 7, &supp);
            near(ctx, "bag nv3, support nv3", vec![tab(3, |i| vec![1 + i * 3 % 8, 1]), s(3, 8, &|_| vec![]), rng(3)], 1, true, 7, &supp);
            near(ctx, "bag nv5, support nv2", vec![tab(5, |i| vec![1 + i * 3 % 4, 1]), s(2, 4, &|_| vec![]), rng(2)], 1, false, 7, &supp);
            near(ctx, "bag nv3, support nv5", vec![tab(3, |i| vec![1 + i, 1]), s(5, 8, &|_| vec![]), rng(3)], 1, false, 7, &supp);
            near(ctx, "with advice, bag nv4, support nv3", vec![tab(4, |i| vec![1 + i % 6, (i < 12) as i64]), s(3, 6, &|v| vec![if v < 0 { 0 } else { 2 }]), rng(3)], 1, false, 7, &supp_adv);
            near(ctx, "with advice, bag nv3, support nv2", vec![tab(3, |i| vec![1 + i % 4, (i != 5) as i64]), s(2, 4, &|v| vec![if v == 2 { 1 } else { 2 }]), rng(2)], 1, true, 7, &supp_adv);
            near(ctx, "tall, bag nv8, support nv7", vec![tab(8, |i| vec![1 + i % 100, 1]), s(7, 100, &|_| vec![]), rng(3)], 1, false, 37, &supp);
        }
        "G08" => {
            near(ctx, "nv3/nv3", vec![tab(3, |i| vec![2 * (i * 3 % 8), (i != 3) as i64]), tab(3, |i| vec![2 * (i * 5 % 8) + 1, (i != 6) as i64]), rng(4)], 1, false, 7, &bag_disjoint);
            near(ctx, "nv4/nv2", vec![tab(4, |i| vec![i % 6, 1]), tab(2, |i| vec![6 + i % 3, (i != 1) as i64]), rng(3)], 1, false, 7, &bag_disjoint);
            near(ctx, "nv2/nv4", vec![tab(2, |i| vec![4 * i, 1]), tab(4, |i| vec![4 * (i % 5) + 1, 1]), rng(3)], 1, false, 7, &bag_disjoint);
            near(ctx, "nv5/nv4", vec![tab(5, |i| vec![i * 2, (i % 7 != 0) as i64]), tab(4, |i| vec![i * 4 + 1, (i % 3 != 0) as i64]), rng(4)], 1, false, 17, &bag_disjoint);
            // (value, selector, multiplicities): sorted, in front unselected zeros
            let m = tab(4, |i| if i < 4 { vec![0, 0, 0, 0] } else { let v = i - 3; vec![v, 1, if v <= 6 { if v <= 2 { 2 } else { 1 } } else { 0 }, if v > 6 { if v <= 8 { 2 } else { 1 } } else { 0 }] });
            near(ctx, "any advice nv3/nv3, merged nv4", vec![tab(3, |i| vec![1 + i % 6, 1]), tab(3, |i| vec![7 + i % 6, 1]), m, rng(3)], 1, false, 7, &bag_disjoint_adv);
            near(ctx, "tall, nv7/nv8", vec![tab(7, |i| vec![2 * i, (i % 7 != 0) as i64]), tab(8, |i| vec![2 * i + 1, (i % 3 != 0) as i64]), rng(3)], 1, false, 37, &bag_disjoint);
        }
        "G09" => {
            near(ctx, "nv3/nv3", vec![tab(3, |i| vec![2 * (i * 3 % 8), (i != 3) as i64]), tab(3, |i| vec![2 * (i * 5 % 8) + 1, (i != 6) as i64]), rng(4)], 1, false, 7, &set_disjoint);
            near(ctx, "nv4/nv2", vec![tab(4, |i| vec![i * 7 % 16, (i * 7 % 16 < 12) as i64]), tab(2, |i| vec![12 + i, (i != 1) as i64]), rng(4)], 1, false, 7, &set_disjoint);
            near(ctx, "nv2/nv4", vec![tab(2, |i| vec![4 * i, 1]), tab(4, |i| vec![i * 5 % 16, ((i * 5 % 16) % 4 != 0) as i64]), rng(3)], 1, false, 7, &set_disjoint);
            near(ctx, "nv5/nv4", vec![tab(5, |i| vec![i * 2, (i % 7 != 0) as i64]), tab(4, |i| vec![i * 4 + 1, (i % 3 != 0) as i64]), rng(4)], 1, false, 17, &set_disjoint);
            near(ctx, "tall, nv8/nv7", vec![tab(8, |i| vec![2 * i, (i % 7 != 0) as i64]), tab(7, |i| vec![2 * i + 1, (i % 3 != 0) as i64]), rng(3)], 1, false, 37, &set_disjoint);
        }
        "G10" => {
            let u = |n: usize, k: i64| -> Tab { let len = 1i64 << n; tab(n, |i| if i < len - k { vec![0, 0] } else { vec![i - (len - k) + 1, 1] }) };
            near(ctx, "3 u 3 = 4", vec![tab(3, |i| vec![1 + i, 1]), tab(3, |i| vec![5 + i * 3 % 8, (i != 2) as i64]), tab(4, |i| if i < 5 { vec![0, 0] } else { vec![[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12][i as usize - 5], 1] }), rng(4)], 1, false, 7, &union);
            near(ctx, "4 u 2 = 4", vec![tab(4, |i| vec![1 + i % 9, 1]), tab(2, |i| vec![8 + i, 1]), u(4, 11), rng(3)], 1, false, 7, &union);
            near(ctx, "2 u 4 = 5", vec![tab(2, |i| vec![1 + 4 * i, 1]), tab(4, |i| vec![1 + i, 1]), u(5, 16), rng(3)], 1, false, 7, &union);
            near(ctx, "3 u 3 = 3", vec![tab(3, |i| vec![1 + i % 4, 1]), tab(3, |i| vec![3 + i % 4, 1]), u(3, 6), rng(3)], 1, false, 7, &union);
            near(ctx, "tall, 7 u 7 = 8", vec![tab(7, |i| vec![1 + i, 1]), tab(7, |i| vec![65 + i, 1]), u(8, 192), rng(2)], 1, false, 37, &union);
        }
        "G11" => {
            let l = mix(3, &vals(1..=4), &[9, 0], 3, 1);
            let m = mix(2, &vals(5..=8), &[], 3, 2);
            let b = |n: usize| -> Tab { mix(n, &(5..=10i64).map(|v| vec![v, 1, (v <= 8) as i64]).collect::<Vec<_>>(), &[3, 0, 2], 3, 5) };
            near(ctx, "A nv3, B nv3, L nv3, M nv2", vec![tab(3, |i| vec![1 + i * 5 % 8, 1]), b(3), l.clone(), m.clone(), rng(4)], 1, false, 7, &diff);
            near(ctx, "A nv4, B nv4, L nv3, M nv3", vec![tab(4, |i| vec![1 + i * 5 % 16, (i * 5 % 16 < 8) as i64]), b(4), l, mix(3, &m, &[1, 0], 3, 0), rng(4)], 1, false, 11, &diff);
            near(ctx, "tall, A nv7", vec![tab(7, |i| vec![1 + i, 1]), tab(7, |i| { let v = 65 + i; vec![v, 1, (v <= 128) as i64] }), tab(6, |i| vec![1 + i, 1]), tab(6, |i| vec![65 + i, 1]), rng(4)], 1, false, 37, &diff);
        }
        "G12" => {
            let l = mix(3, &vals(1..=4), &[9, 0], 3, 1);
            let m = mix(2, &vals(5..=8), &[], 3, 2);
            let r = mix(3, &vals(9..=10), &[4, 0], 5, 2);
            near(ctx, "A nv3, B nv3", vec![tab(3, |i| vec![1 + i * 5 % 8, 1]), mix(3, &vals(5..=10), &[3, 0], 3, 5), l.clone(), m.clone(), r.clone(), rng(4)], 1, false, 7, &intersect);
            near(ctx, "A nv4, B nv3, M nv3", vec![tab(4, |i| vec![1 + i * 5 % 16, (i * 5 % 16 < 8) as i64]), mix(3, &vals(5..=10), &[3, 0], 3, 5), l.clone(), mix(3, &m, &[1, 0], 3, 0), r.clone(), rng(4)], 1, false, 11, &intersect);
            near(ctx, "A nv3, B nv4", vec![tab(3, |i| vec![1 + i * 5 % 8, 1]), mix(4, &vals(5..=10), &[3, 0], 3, 5), l, mix(4, &m, &[1, 0], 3, 0), mix(1, &r.iter().filter(|x| x[1] == 1).cloned().collect::<Vec<_>>(), &[], 1, 0), rng(4)], 1, false, 11, &intersect);
            near(ctx, "tall, A nv7", vec![tab(7, |i| vec![1 + i, 1]), tab(7, |i| vec![65 + i, 1]), tab(6, |i| vec![1 + i, 1]), tab(6, |i| vec![65 + i, 1]), tab(6, |i| vec![129 + i, 1]), rng(7)], 1, false, 37, &intersect);
        }
        "G13" => {
            let a = |n: usize| tab(n, |i| { let v = 1 + i % 6; let s = (i != 3) as i64; vec![v, s, (v <= 2 || v == 6 || s == 0) as i64] });
            near(ctx, "nv3/nv3", vec![tab(3, |i| { let v = 1 + i % 6; vec![v, 1, (v <= 2) as i64] }), tab(3, |i| { let v = 3 + i % 6; vec![v, 1, (v > 6) as i64] }), rng(4)], 1, false, 7, &join_red);
            near(ctx, "nv3/nv2", vec![a(3), tab(2, |i| { let v = 3 + 2 * i; vec![v, 1, (v > 6) as i64] }), rng(4)], 1, false, 7, &join_red);
            near(ctx, "nv2/nv4", vec![tab(2, |i| { let v = 1 + i * 2; vec![v, 1, (v <= 2) as i64] }), tab(4, |i| { let v = 3 + i % 6; vec![v, 1, (v != 3 && v != 5 && v != 7) as i64] }), rng(4)], 1, false, 7, &join_red);
            near(ctx, "helper nv4/nv3", vec![tab(4, |i| vec![1 + i % 6, (i % 5 != 3) as i64]), tab(3, |i| vec![3 + i % 6, (i != 1) as i64]), rng(4)], 1, false, 11, &join_red_helper);
            near(ctx, "helper nv3/nv4", vec![tab(3, |i| vec![3 + i % 6, (i != 1) as i64]), tab(4, |i| vec![1 + i % 6, (i % 5 != 3) as i64]), rng(4)], 1, false, 11, &join_red_helper);
            near(ctx, "tall, helper nv7/nv6", vec![tab(7, |i| vec![1 + i % 60, (i % 5 != 3) as i64]), tab(6, |i| vec![30 + i % 60, (i != 1) as i64]), rng(6)], 1, false, 37, &join_red_helper);
        }
        "G14" => {
            let a = |n: usize| tab(n, |i| vec![i * 3 % 8 + 1, 20 + i, (i != 5) as i64]);
            let b = |n: usize| tab(n, |i| { let k = [1, 4, 7, 2, 5, 3, 6, 4][i as usize % 8]; vec![50 + i, k, (i % 5 != 1) as i64] });
            near(ctx, "honest nv3/nv3", vec![a(3), b(3)], 0, false, 7, &join((0, 1)));
            near(ctx, "honest nv3/nv4", vec![a(3), b(4)], 0, false, 7, &join((0, 1)));
            let x = |n: usize| -> Tab { let (a, b) = (a(3), b(n)); b.iter().map(|r| a.iter().find(|q| q[0] == r[1] && q[2] == 1).map(|q| q[..2].to_vec()).unwrap_or(vec![0, 0])).collect() };
            near(ctx, "any rows nv3/nv3", vec![a(3), b(3), x(3)], 0, false, 7, &join_adv((0, 1)));
            near(ctx, "any rows nv3/nv4", vec![a(3), b(4), x(4)], 0, false, 7, &join_adv((0, 1)));
            let (a5, b5) = (tab(2, |i| vec![9 - i, i, 3 * i, i + 1, 7 * i, 1]), tab(3, |i| vec![i, 2 * i, 1 + i % 4, 9, 1]));
            let x5: Tab = b5.iter().map(|r| a5.iter().find(|q| q[3] == r[2]).unwrap()[..5].to_vec()).collect();
            near(ctx, "any rows, five and four columns", vec![a5, b5, x5], 0, false, 7, &join_adv((3, 2)));
            let a7 = tab(7, |i| vec![i * 3 % 128 + 1, 200 + i, (i != 5) as i64]);
            let b7 = tab(7, |i| vec![50 + i, i * 5 % 60 + 1, (i % 5 != 1 && i * 5 % 60 != 15) as i64]);
            near(ctx, "tall, honest nv7/nv7", vec![a7, b7], 0, false, 37, &join((0, 1)));
        }
        "G15" => {
            let a = |n: usize, w: i64| tab(n, |i| { let mut r: Vec<i64> = (0..w).map(|k| (i * (k + 2) + k) % 5).collect(); r.push((i % 6 != 4) as i64); r });
            let out = |n: usize, a: &Tab| -> Tab { let act: Vec<_> = a.iter().filter(|r| r[r.len() - 1] == 1).collect(); tab(n, |i| { let mut r = act[(i * 3 % act.len() as i64) as usize].clone(); if i % 4 == 1 { *r.last_mut().unwrap() = 0; r[0] += 1; } r }) };
            for (n, m, w) in [(3usize, 4usize, 2i64), (4, 3, 3), (3, 3, 5), (5, 2, 2), (2, 5, 3)] {
                let x = a(n, w);
                near(ctx, &format!("{} columns, nv{} to nv{}", w, n, m), vec![x.clone(), out(m, &x)], 0, n == 3 && w == 2, 7, &index);
            }
            let x = a(8, 3);
            near(ctx, "tall, 3 columns, nv8 to nv9", vec![x.clone(), out(9, &x)], 0, false, 37, &index);
        }
        "G16" => {
            let t = |n: usize, w: i64, d: i64| tab(n, |i| { let mut r: Vec<i64> = (0..w).map(|k| d + i * (k + 1)).collect(); r.push((i % 5 != 2) as i64); r });
            for (n, m, w, x) in [(3usize, 3usize, 2i64, 2i64), (4, 2, 1, 3), (2, 4, 3, 1), (1, 5, 1, 1), (5, 1, 1, 1), (2, 2, 5, 4)] {
                near(ctx, &format!("{} x {} columns, nv{} x nv{}", w, x, n, m), vec![t(n, w, 3), t(m, x, 40)], 0, false, 7, &cross(false));
                near(ctx, &format!("{} x {} columns, nv{} x nv{}, wrong sum", w, x, n, m), vec![t(n, w, 3), t(m, x, 40)], 0, false, 7, &cross(true));
            }
            near(ctx, "tall, 2 x 1 columns, nv5 x nv4", vec![t(5, 2, 3), t(4, 1, 40)], 0, false, 17, &cross(false));
            near(ctx, "tall, 1 x 1 columns, nv1 x nv8", vec![t(1, 1, 3), t(8, 1, 40)], 0, false, 17, &cross(false));
            near(ctx, "tall, 1 x 1 columns, nv8 x nv1", vec![t(8, 1, 3), t(1, 1, 40)], 0, false, 17, &cross(false));
        }
        "G17" => {
            let t = |n: usize| tab(n, |i| vec![1 + i % 5, 3 * i - 7, i * i % 11, (i % 7 != 3) as i64]);
            let sup = |n: usize, t: &Tab, aggs: &[(usize, bool)]| -> Tab {
                let mut rows: Vec<Vec<i64>> = vec![];
                for v in 1..=5i64 {
                    let g: Vec<&Vec<i64>> = t.iter().filter(|r| r[0] == v && r[3] == 1).collect();
                    if g.is_empty() { continue; }
                    let mut r = vec![v, 1, g.len() as i64];
                    for (c, s) in aggs { r.push(if *s { g.iter().map(|x| x[*c]).sum() } else { 0 }); }
                    rows.push(r);
                }
                let mut pad = vec![vec![0; 3 + aggs.len()]; (1 << n) - rows.len()];
                pad.extend(rows);
                pad
            };
            const A: &[(usize, bool)] = &[(1, true)];
            const B: &[(usize, bool)] = &[(1, true), (0, false), (2, true)];
            const C: &[(usize, bool)] = &[(2, false), (2, true), (1, true), (1, true)];
            near(ctx, "sum nv3", vec![t(3), sup(3, &t(3), A), rng(3)], 1, false, 7, &group_by(Gb { group: 0, aggs: A }));
            near(ctx, "sum nv4", vec![t(4), sup(4, &t(4), A), rng(3)], 1, false, 7, &group_by(Gb { group: 0, aggs: A }));
            near(ctx, "sum, count, sum nv3", vec![t(3), sup(3, &t(3), B), rng(3)], 1, false, 7, &group_by(Gb { group: 0, aggs: B }));
            near(ctx, "count and three sums nv4", vec![t(4), sup(4, &t(4), C), rng(3)], 1, false, 11, &group_by(Gb { group: 0, aggs: C }));
            near(ctx, "tall, sum, count, sum nv7", vec![t(7), sup(7, &t(7), B), rng(3)], 1, false, 37, &group_by(Gb { group: 0, aggs: B }));
        }
        _ => {}
    }
}
