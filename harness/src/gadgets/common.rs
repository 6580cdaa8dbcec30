//! Statement spaces for gadgets: tables of small integers, every word over a
//! row alphabet, and the ways an input column can come about in a session.
pub use crate::mock::Mock;
pub use crate::run::*;
pub use ark_ff::{Field, One, Zero};
pub use std::collections::{BTreeMap, BTreeSet};
pub use vpmc::*;
pub use zk_sql::tracker::prelude::*;
pub use zk_sql::zksql_poly_iop::vp_hooks::*;

/// a table: rows of small integers
pub type Tab = Vec<Vec<i64>>;
pub fn nv(t: &Tab) -> usize {
    t.len().trailing_zeros() as usize
}
pub fn col(t: &Tab, k: usize) -> Vec<F> {
    t.iter().map(|r| f(r[k])).collect()
}
/// selected values of column v of a table with selector column s
pub fn act(t: &Tab, v: usize, s: usize) -> Vec<i64> {
    t.iter().filter(|r| r[s] != 0).map(|r| r[v]).collect()
}
/// values of a (value, selector) table
pub fn sel_vals(t: &Tab) -> Vec<i64> {
    act(t, 0, 1)
}
pub fn set(v: &[i64]) -> BTreeSet<i64> {
    v.iter().cloned().collect()
}
pub fn counts(v: &[i64]) -> BTreeMap<i64, i64> {
    let mut m = BTreeMap::new();
    for x in v {
        *m.entry(*x).or_insert(0) += 1;
    }
    m
}
pub fn dup_free(v: &[i64]) -> bool {
    set(v).len() == v.len()
}
/// row alphabets
pub fn rows2(vs: &[i64], ss: &[i64]) -> Vec<Vec<i64>> {
    let mut o = vec![];
    for v in vs {
        for s in ss {
            o.push(vec![*v, *s]);
        }
    }
    o
}
pub fn rows1(vs: &[i64]) -> Vec<Vec<i64>> {
    vs.iter().map(|v| vec![*v]).collect()
}

pub const MODES: usize = 8;
/// the inputs of a gadget: tables and how each came about
#[derive(Default, Clone)]
pub struct Ins {
    pub ops: Vec<Op>,
    pub at: Vec<usize>,
    pub modes: Vec<u8>,
}
impl Ins {
    pub fn new(modes: &[u8]) -> Ins {
        Ins { ops: vec![], at: vec![], modes: modes.to_vec() }
    }
    fn c(&mut self, t: Vec<F>) -> usize {
        self.ops.push(Op::C(t));
        self.ops.len() - 1
    }
    fn op(&mut self, o: Op) -> usize {
        self.ops.push(o);
        self.ops.len() - 1
    }
    /// add an input column; it comes about as its mode says, the table is the same
    pub fn add(&mut self, t: Vec<F>) -> usize {
        let m = if self.modes.is_empty() { 0 } else { self.modes[self.at.len() % self.modes.len()] };
        let ramp: Vec<F> = (0..t.len()).map(|i| f(3 + 2 * i as i64)).collect();
        let zip = |g: &dyn Fn(F, F) -> F| -> Vec<F> { t.iter().zip(&ramp).map(|(x, y)| g(*x, *y)).collect() };
        let k = match m {
            1 => { let a = self.c(t.iter().map(|x| *x - f(1)).collect()); self.op(Op::AddS(a, f(1))) }
            2 => { let a = self.c(zip(&|x, y| x - y)); let b = self.c(ramp.clone()); self.op(Op::Add(a, b)) }
            3 => { let a = self.c(zip(&|x, y| x + y)); let b = self.c(ramp.clone()); self.op(Op::Sub(a, b)) }
            4 => { let a = self.c(zip(&|x, y| x / y)); let b = self.c(ramp.clone()); self.op(Op::Mul(a, b)) }
            5 => { let h = f(2).inverse().unwrap(); let a = self.c(t.iter().map(|x| *x * h).collect()); self.op(Op::MulS(a, f(2))) }
            // the very same committed polynomial as an equal earlier input
            6 => match self.ops.iter().position(|o| matches!(o, Op::C(x) if *x == t)) {
                Some(p) => p,
                None => self.c(t),
            },
            // derived twice, through an extension by a variable
            7 if t.len() >= 2 => {
                let small = vec![f(5), f(9)];
                let ext: Vec<F> = (0..t.len()).map(|i| small[i / (t.len() / 2)]).collect();
                let a = self.c(t.iter().zip(&ext).map(|(x, y)| (*x - y) * f(-1)).collect());
                let b = self.c(small);
                let e = self.op(Op::Front(b, t.len().trailing_zeros() as usize - 1));
                let n = self.op(Op::MulS(a, f(-1)));
                self.op(Op::Add(n, e))
            }
            _ => self.c(t),
        };
        self.at.push(k);
        self.at.len() - 1
    }
    /// value and selector column
    pub fn bag(&mut self, t: &Tab) -> (usize, usize) {
        (self.add(col(t, 0)), self.add(col(t, 1)))
    }
    /// all columns of a table, the last one its selector
    pub fn table(&mut self, t: &Tab) -> Vec<usize> {
        (0..t[0].len()).map(|k| self.add(col(t, k))).collect()
    }
}

pub fn pb(p: &[TP], b: (usize, usize)) -> PBag {
    Bag::new(p[b.0].clone(), p[b.1].clone())
}
pub fn vb(c: &[TC], b: (usize, usize), nv: usize) -> VBag {
    BagComm::new(c[b.0].clone(), c[b.1].clone(), nv)
}
pub fn ptab(p: &[TP], t: &[usize]) -> Table<E, Mock> {
    let (s, cols) = t.split_last().unwrap();
    Table::new(cols.iter().map(|k| p[*k].clone()).collect(), p[*s].clone())
}
pub fn vtab(c: &[TC], t: &[usize], nv: usize) -> TableComm<E, Mock> {
    let (s, cols) = t.split_last().unwrap();
    TableComm::new(cols.iter().map(|k| c[*k].clone()).collect(), c[*s].clone(), nv)
}
pub fn pout(t: Table<E, Mock>) -> Vec<TP> {
    let mut v = t.col_vals;
    v.push(t.selector);
    v
}
pub fn vout(t: TableComm<E, Mock>) -> Vec<TC> {
    let mut v = t.col_vals;
    v.push(t.selector);
    v
}

/// how a statement is run
#[derive(Clone, Debug)]
pub struct Cfg {
    pub key: String,
    pub modes: Vec<u8>,
    pub real: bool,
    pub attack: bool,
    pub debug: bool,
}

/// decide a statement given through Ins (closures see the mapped inputs)
pub fn judge(
    cfg: &Cfg,
    ins: &Ins,
    prove: impl Fn(&mut PT, &[TP]) -> Result<Vec<TP>, String>,
    verify: impl Fn(&mut VT, &[TC]) -> Result<Vec<TC>, String>,
    want: Want,
) -> CaseRes {
    decide(
        &cfg.key,
        &ins.ops,
        |t, p| { let q: Vec<TP> = ins.at.iter().map(|k| p[*k].clone()).collect(); prove(t, &q) },
        |t, c| { let q: Vec<TC> = ins.at.iter().map(|k| c[*k].clone()).collect(); verify(t, &q) },
        want,
        cfg.real,
        cfg.attack && !cfg.debug,
    )
}
/// as judge, and the output columns are compared with the expected ones when the statement is true
pub fn judge_outs(
    cfg: &Cfg,
    ins: &Ins,
    prove: impl Fn(&mut PT, &[TP]) -> Result<Vec<TP>, String>,
    verify: impl Fn(&mut VT, &[TC]) -> Result<Vec<TC>, String>,
    want: Want,
    check_outs: impl Fn(&[Vec<F>]) -> Result<(), String>,
) -> CaseRes {
    let p = |t: &mut PT, p: &[TP]| { let q: Vec<TP> = ins.at.iter().map(|k| p[*k].clone()).collect(); prove(t, &q) };
    let v = |t: &mut VT, c: &[TC]| { let q: Vec<TC> = ins.at.iter().map(|k| c[*k].clone()).collect(); verify(t, &q) };
    let o = decide(&cfg.key, &ins.ops, p, v, want, cfg.real, cfg.attack && !cfg.debug)?;
    if want == Want::Accept {
        let r = run_gadget(&ins.ops, p, v, false);
        if let Err(e) = check_outs(&r.outs) {
            return viol(format!("{}:output", cfg.key), format!("wrong output: {} (columns {})", e, r.outs.iter().map(|x| shows(x)).collect::<Vec<_>>().join(" ")));
        }
    }
    Ok(o)
}

/// options of a statement space
#[derive(Clone, Copy)]
pub struct Opt {
    /// run compile_proof / verify_claims on every n-th statement (1 = all, 0 = none)
    pub real_every: u64,
    /// let the dishonest prover loose on false statements
    pub attack: bool,
    /// also vary how the inputs came about: every column alone in every mode, and all columns in one mode
    pub derived: bool,
}
pub const PLAIN: Opt = Opt { real_every: 3, attack: false, derived: false };
/// sessions whose largest table has one row: the sumcheck does not support them, only the claims are judged
pub const NOREAL: Opt = Opt { real_every: 0, attack: false, derived: false };
pub const ATTACK: Opt = Opt { real_every: 1, attack: true, derived: false };
pub const DERIVED: Opt = Opt { real_every: 1, attack: false, derived: true };

/// in the quick tier the debug-assertions build explores the small spaces only
pub fn skip_in_debug(ctx: &Ctx, n: u64) -> bool {
    ctx.variant == "debug" && !ctx.thorough && n > 12000
}
/// every choice of tables: one word of 2^nv rows over its alphabet per entry of `shape`
pub fn stmt_space(
    ctx: &Ctx,
    name: &str,
    shape: &[(usize, Vec<Vec<i64>>)],
    opt: Opt,
    stmt: impl Fn(&[Tab], &Cfg) -> CaseRes + Sync,
) {
    if opt.attack && ctx.variant == "debug" {
        // the debug build refuses many dishonest moves in the prover itself; the release build decides these spaces
        return;
    }
    let ncols: usize = shape.iter().map(|s| s.1[0].len()).sum();
    let patterns: Vec<Vec<u8>> = if opt.derived {
        let mut v = vec![];
        for m in 1..MODES as u8 {
            v.push(vec![m; ncols]);
            if m < 6 {
                for k in 0..ncols {
                    let mut p = vec![0; ncols];
                    p[k] = m;
                    v.push(p);
                }
            }
        }
        v.push((0..ncols).map(|k| (k % MODES) as u8).collect());
        v.push((0..ncols).map(|k| ((k + 1) * 3 % MODES) as u8).collect());
        v
    } else {
        vec![vec![]]
    };
    let n: u64 = shape.iter().map(|(nv, a)| ipow(a.len(), 1 << nv)).product::<u64>() * patterns.len() as u64;
    if skip_in_debug(ctx, n) { return; }
    let dec = |i: u64| -> (Vec<Tab>, Vec<u8>) {
        let mut ix = Idx(i);
        let tabs = shape.iter().map(|(nv, a)| ix.word(a, 1 << nv)).collect();
        (tabs, ix.pick(&patterns).clone())
    };
    ctx.space(
        name,
        n,
        |i| {
            let (tabs, modes) = dec(i);
            let cfg = Cfg { key: name.to_string(), modes, real: opt.real_every != 0 && i % opt.real_every == 0, attack: opt.attack, debug: ctx.variant == "debug" };
            stmt(&tabs, &cfg)
        },
        |i| {
            let (tabs, modes) = dec(i);
            format!("tables {:?}{}", tabs, if modes.is_empty() { String::new() } else { format!(", columns derived in modes {:?}", modes) })
        },
    );
}

/// strict-sort predicate: consecutive differences in the range, and non-zero after selected rows
pub fn strict_sorted(t: &Tab, range: &[i64]) -> bool {
    (0..t.len() - 1).all(|i| {
        let d = t[i + 1][0] - t[i][0];
        range.contains(&d) && (t[i][1] == 0 || d != 0)
    })
}
pub fn range_tab(vals: &[i64]) -> Tab {
    vals.iter().map(|v| vec![*v, 1]).collect()
}
/// consecutive differences of a column lie in the range
pub fn diffs_in(vals: &[i64], range: &[i64]) -> bool {
    vals.windows(2).all(|w| range.contains(&(w[1] - w[0])))
}
/// the merged column of BagDisjoint's honest prover: distinct values, padded in front with zeros
pub fn padded_support(a: &[i64], b: &[i64], len: usize) -> Vec<i64> {
    let s: BTreeSet<i64> = a.iter().chain(b).cloned().collect();
    let mut v = vec![0; len - s.len()];
    v.extend(s);
    field_sort(&mut v);
    v
}
/// the order of the field's canonical representatives: -1 is the largest value
pub fn field_sort(v: &mut [i64]) {
    v.sort_by_key(|x| (*x < 0, *x));
}
pub fn es2<T, E2: std::fmt::Debug>(r: Result<T, E2>) -> Result<Vec<TP>, String> {
    es(r).map(|_| vec![])
}
pub fn es3<T, E2: std::fmt::Debug>(r: Result<T, E2>) -> Result<Vec<TC>, String> {
    es(r).map(|_| vec![])
}
