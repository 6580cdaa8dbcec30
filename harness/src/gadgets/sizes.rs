//! Every combination of table sizes for statements with a few rows: true ones, ones with a value added to or removed
//! from any subset of the tables, and ones with a row replaced. Several arguments branch on how the sizes compare.
use super::bags::*;
use super::common::*;
use super::sets::*;
use super::sorts::*;
use super::tables::*;

/// a table: its rows, the rows that may come in, what it is padded with, its sizes (in variables)
#[derive(Clone)]
struct Slot {
    rows: Vec<Vec<i64>>,
    alts: Vec<Vec<i64>>,
    pad: Vec<i64>,
    nvs: Vec<usize>,
    kind: Kind,
}
#[derive(Clone, Copy, PartialEq)]
enum Kind {
    /// rows in any order
    Bag,
    /// rows in order, padding before them
    Sorted,
    /// 0, 1, 2, ..
    Range,
}
fn slot(rows: Vec<Vec<i64>>, alts: Vec<Vec<i64>>, pad: &[i64], nvs: &[usize], kind: Kind) -> Slot {
    Slot { rows, alts, pad: pad.to_vec(), nvs: nvs.to_vec(), kind }
}
/// selected values, padded with an unselected stray value
fn bag(vs: &[i64], alts: &[i64], nvs: &[usize]) -> Slot {
    slot(vs.iter().map(|v| vec![*v, 1]).collect(), alts.iter().map(|v| vec![*v, 1]).collect(), &[2, 0], nvs, Kind::Bag)
}
fn sorted(vs: &[i64], alts: &[i64], nvs: &[usize]) -> Slot {
    slot(vs.iter().map(|v| vec![*v, 1]).collect(), alts.iter().map(|v| vec![*v, 1]).collect(), &[0, 0], nvs, Kind::Sorted)
}
fn range(nvs: &[usize]) -> Slot {
    slot(vec![], vec![], &[], nvs, Kind::Range)
}
impl Slot {
    fn table(&self, nv: usize, how: u64) -> Option<Tab> {
        let len = 1usize << nv;
        if self.kind == Kind::Range { return Some((0..len as i64).map(|i| vec![i, 1]).collect()); }
        let mut r = self.rows.clone();
        if r.len() > len { return None; }
        let pad = vec![self.pad.clone(); len - r.len()];
        match (self.kind, how) {
            (Kind::Sorted, _) => { r.sort(); r = pad.into_iter().chain(r).collect(); }
            (_, 0) => r.extend(pad),
            (_, _) => { r.reverse(); r = pad.into_iter().chain(r).collect(); }
        }
        Some(r)
    }
}
type Stmt<'a> = &'a (dyn Fn(&[Tab], &Cfg) -> CaseRes + Sync);
fn sizes(ctx: &Ctx, name: &str, base: Vec<Slot>, real_every: u64, stmt: Stmt) {
    let name = &format!("sizes {}", name);
    // the statements, by how they differ from the base
    let mut stmts: Vec<(String, Vec<Slot>)> = vec![("as it is".into(), base.clone())];
    let keys: BTreeSet<i64> = base.iter().flat_map(|s| s.rows.iter().chain(&s.alts).map(|r| r[0])).collect();
    for v in keys {
        // the value comes into or leaves every table of a subset
        let can: Vec<usize> = (0..base.len()).filter(|k| base[*k].rows.iter().chain(&base[*k].alts).any(|r| r[0] == v)).collect();
        for sub in 1..1u64 << can.len() {
            let mut s = base.clone();
            for (b, k) in can.iter().enumerate() {
                if sub >> b & 1 == 0 { continue; }
                match s[*k].rows.iter().position(|r| r[0] == v) {
                    Some(p) => { s[*k].rows.remove(p); }
                    None => { let a = s[*k].alts.iter().find(|r| r[0] == v).unwrap().clone(); s[*k].rows.push(a); }
                }
            }
            stmts.push((format!("value {} toggled in tables {:?}", v, (0..can.len()).filter(|b| sub >> b & 1 == 1).map(|b| can[b]).collect::<Vec<_>>()), s));
        }
    }
    for k in 0..base.len() {
        for p in 0..base[k].rows.len() {
            let mut s = base.clone();
            let again = s[k].rows[p].clone();
            s[k].rows.push(again);
            stmts.push((format!("row {} of table {} twice", p, k), s));
            for a in &base[k].alts {
                let mut s = base.clone();
                s[k].rows[p] = a.clone();
                stmts.push((format!("row {} of table {} replaced by {:?}", p, k, a), s));
            }
        }
    }
    let combos: u64 = base.iter().map(|s| s.nvs.len() as u64).product();
    let n = combos * stmts.len() as u64 * 2;
    if skip_in_debug(ctx, n) { return; }
    let dec = |i: u64| -> Option<(String, Vec<Tab>)> {
        let mut ix = Idx(i);
        let st = ix.pick(&stmts);
        let nvs: Vec<usize> = base.iter().map(|s| *ix.pick(&s.nvs)).collect();
        let how = ix.take(2);
        let t: Option<Vec<Tab>> = st.1.iter().zip(&nvs).map(|(s, n)| s.table(*n, how)).collect();
        t.filter(|t| t.iter().any(|x| x.len() > 1)).map(|t| (format!("{}, sizes {:?}", st.0, nvs), t))
    };
    ctx.space(name, n, |i| match dec(i) {
        None => Ok(obs("rows do not fit", 0, false)),
        Some((_, t)) => {
            // the sumcheck needs a table of two rows or more
            let cfg = Cfg { key: name.clone(), modes: match i % 9 { 4 => vec![6], 7 => vec![0, 3, 6], _ => vec![] }, real: i % real_every == 0, attack: false, debug: ctx.variant == "debug" };
            stmt(&t, &cfg)
        }
    }, |i| format!("{:?}", dec(i)));
}

pub fn run(ctx: &Ctx) {
    use Kind::*;
    let n03: &[usize] = &[0, 1, 2, 3];
    let n13: &[usize] = &[1, 2, 3];
    let n04: &[usize] = &[0, 1, 2, 3, 4];
    let rg: &[usize] = ctx.q(&[2, 3], &[1, 2, 3, 4]);
    let w = |v: &[i64], k: i64| -> Vec<Vec<i64>> { v.iter().map(|x| vec![*x, 1, k]).collect() };
    match ctx.id.as_str() {
        "G01" => {
            let s = |v: &[i64], k: i64, a: &[i64], n: &[usize]| slot(w(v, k), w(a, 1), &[3, 0, 1], n, Bag);
            sizes(ctx, "1x1 bags", vec![s(&[1, 2], 3, &[1, 2, 0], n04), s(&[1, 2], 3, &[1, 2, 0], n04)], 7, &|t, c| multitool(t, 1, c));
            sizes(ctx, "2x1 bags", vec![s(&[1], 2, &[1, 2, 0], n04), s(&[2], 2, &[1, 2, 0], n04), s(&[1, 2], 2, &[1, 2, 0], n04)], 7, &|t, c| multitool(t, 2, c));
            sizes(ctx, "2x2 bags", vec![s(&[1, 2], 1, &[1, 2, 0], n03), s(&[2], 2, &[1, 2], n03), s(&[1], 1, &[1, 2], n03), s(&[2], 3, &[1, 2, 0], n03)], 13, &|t, c| multitool(t, 2, c));
            sizes(ctx, "1x3 bags", vec![s(&[1, 2], 1, &[1, 2], n03), s(&[2], 1, &[1, 2], n03), s(&[1], 1, &[1, 2], n03), s(&[], 1, &[1, 2], n03)], 13, &|t, c| multitool(t, 1, c));
        }
        "G02" => {
            sizes(ctx, "eq", vec![bag(&[1, 3, 3], &[0, 1, 2, 3], n04), bag(&[1, 3, 3], &[0, 1, 2, 3], n04)], 5, &bag_eq);
            sizes(ctx, "sum", vec![bag(&[1, 3], &[0, 1, 2, 3], n04), bag(&[3], &[0, 1, 2, 3], n04), bag(&[1, 3, 3], &[0, 1, 2, 3], n04)], 7, &bag_sum);
        }
        "G03" => {
            sizes(ctx, "inclusion", vec![bag(&[1, 3, 3], &[0, 1, 2, 3, 4], n04), bag(&[1, 3, 4], &[0, 1, 2, 3, 4], n04)], 5, &inclusion);
            let adv = |x: &[(i64, i64)]| -> Vec<Vec<i64>> { x.iter().map(|r| vec![r.0, 1, r.1]).collect() };
            sizes(ctx, "inclusion with advice", vec![bag(&[1, 3, 3], &[0, 1, 2, 3, 4], n04), slot(adv(&[(1, 1), (3, 2), (4, 0)]), adv(&[(0, 1), (2, 1), (3, 1), (1, 2), (4, 1)]), &[2, 0, 3], n04, Bag)], 5, &inclusion_adv);
        }
        "G05" => sizes(ctx, "sort", vec![sorted(&[1, 2, 4], &[0, 1, 3, 5, 7, 9], n04), range(&[0, 1, 2, 3, 4, 5])], 3, &sort),
        "G07" => {
            sizes(ctx, "support", vec![bag(&[1, 3, 3], &[0, 1, 2, 3], n04), sorted(&[1, 3], &[0, 1, 2, 3, 4], n04), range(&[0, 1, 2, 3, 4])], 7, &supp);
            let adv = |x: &[(i64, i64)]| -> Vec<Vec<i64>> { x.iter().map(|r| vec![r.0, 1, r.1]).collect() };
            sizes(ctx, "support with advice", vec![bag(&[1, 3, 3], &[0, 1, 2, 3], n04), slot(adv(&[(1, 1), (3, 2)]), adv(&[(0, 1), (2, 1), (3, 1), (1, 2), (4, 0)]), &[0, 0, 0], n04, Sorted), range(&[0, 1, 2, 3])], 7, &supp_adv);
        }
        "G08" => sizes(ctx, "bag disjointness", vec![bag(&[1, 3, 3], &[0, 1, 2, 3, 4], n04), bag(&[2, 4], &[0, 1, 2, 3, 4, 9], n04), range(&[0, 1, 2, 3, 4])], 17, &bag_disjoint),
        "G09" => sizes(ctx, "set disjointness", vec![bag(&[1, 3], &[0, 1, 2, 3, 4], n04), bag(&[2, 4], &[0, 1, 2, 3, 4, 9], n04), range(&[0, 1, 2, 3, 4])], 7, &set_disjoint),
        "G10" => sizes(ctx, "union", vec![bag(&[1, 3], &[0, 1, 2, 3, 4], n13), bag(&[2, 3], &[0, 1, 2, 3, 4], n13), sorted(&[1, 2, 3], &[0, 4], n13), range(&[1, 2, 3])], 11, &union),
        "G11" => {
            let b = |x: &[(i64, i64)]| -> Vec<Vec<i64>> { x.iter().map(|r| vec![r.0, 1, r.1]).collect() };
            sizes(ctx, "difference", vec![bag(&[1, 3], &[0, 1, 2, 3], n13), slot(b(&[(3, 1), (4, 0)]), b(&[(3, 0), (1, 1), (2, 0), (4, 1)]), &[2, 0, 1], n13, Bag), bag(&[1], &[0, 1, 2, 3], n13), bag(&[3], &[0, 1, 2, 3], n13), range(rg)], 17, &diff);
            sizes(ctx, "difference, disjoint sets", vec![bag(&[1, 2], &[3], n13), slot(b(&[(3, 0)]), b(&[(3, 1), (1, 1)]), &[2, 0, 1], n13, Bag), bag(&[1, 2], &[3], n13), bag(&[], &[1, 3], n13), range(&[2])], 17, &diff);
        }
        "G12" => {
            sizes(ctx, "intersection", vec![bag(&[1, 3], &[0, 2], n13), bag(&[3, 4], &[0, 2], n13), bag(&[1], &[3, 2], n13), bag(&[3], &[1, 2], n13), bag(&[4], &[3, 2], n13), range(rg)], 29, &intersect);
            sizes(ctx, "intersection, everything", vec![bag(&[1, 3], &[2], n13), bag(&[3, 1], &[2], n13), bag(&[], &[1, 3, 2], n13), bag(&[1, 3], &[2], n13), bag(&[], &[1, 3, 2], n13), range(&[2])], 29, &intersect);
        }
        "G13" => {
            sizes(ctx, "helper", vec![bag(&[1, 3, 3], &[0, 1, 2, 3, 4], n03), bag(&[3, 4], &[0, 1, 2, 3, 5], n03), range(&[1, 2, 3])], 17, &join_red_helper);
            let m = |x: &[(i64, i64)]| -> Vec<Vec<i64>> { x.iter().map(|r| vec![r.0, 1, r.1]).collect() };
            sizes(ctx, "markers", vec![slot(m(&[(1, 1), (3, 0), (3, 0)]), m(&[(1, 0), (3, 1), (4, 0), (2, 1)]), &[2, 0, 0], n03, Bag), slot(m(&[(3, 0), (4, 1)]), m(&[(3, 1), (4, 0), (1, 0), (2, 1)]), &[2, 0, 1], n03, Bag), range(&[1, 2, 3])], 17, &join_red);
        }
        "G14" => {
            let a = |x: &[(i64, i64)]| -> Vec<Vec<i64>> { x.iter().map(|r| vec![r.0, r.1, 1]).collect() };
            sizes(ctx, "join", vec![slot(a(&[(1, 5), (3, 6)]), a(&[(1, 6), (2, 5), (4, 7)]), &[2, 9, 0], n03, Bag), bag(&[1, 3, 3], &[0, 2, 4], n04)], 5, &join((0, 0)));
        }
        "G15" => {
            let a = |x: &[(i64, i64)]| -> Vec<Vec<i64>> { x.iter().map(|r| vec![r.0, r.1, 1]).collect() };
            sizes(ctx, "index transform", vec![slot(a(&[(1, 5), (3, 6), (4, 1)]), a(&[(1, 6), (2, 5), (5, 1)]), &[2, 9, 0], n04, Bag), slot(a(&[(3, 6), (3, 6), (1, 5)]), a(&[(1, 6), (2, 5), (5, 1), (4, 1)]), &[2, 8, 0], n04, Bag)], 5, &index);
        }
        "G16" => for wrong in [false, true] {
            let a = |x: &[(i64, i64)]| -> Vec<Vec<i64>> { x.iter().map(|r| vec![r.0, r.1, 1]).collect() };
            sizes(ctx, if wrong { "cross product, wrong sum" } else { "cross product" }, vec![slot(a(&[(1, 5)]), a(&[(2, 5), (1, 6)]), &[2, 9, 0], n04, Bag), bag(&[3], &[4, 1], n04)], 3, &cross(wrong));
        },
        _ => {}
    }
}
