//! T01, T02: every sequence of session operations up to a depth, against a
//! model that knows tables and arithmetic expressions only
use vpmc::*;
use crate::mock::*;
use crate::run::*;
use ark_ff::{One, Zero};
use zk_sql::tracker::prelude::*;

/// one step of a session
#[derive(Clone, Debug)]
pub enum S {
    Op(Op),
    /// track a table without committing to it (prover only)
    Track(Vec<F>),
    /// read a table row by row; the same polynomial goes on under a second handle
    Read(usize),
    Chal(&'static [u8]),
    App(&'static [u8], u64),
    Zero(usize),
    Sum(usize),
}
impl S {
    pub fn adds(&self) -> usize {
        match self { S::Op(_) | S::Track(_) | S::Read(_) => 1, _ => 0 }
    }
    pub fn show(&self) -> String {
        match self {
            S::Op(o) => o.show(),
            S::Track(v) => format!("track{}", shows(v)),
            S::Read(a) => format!("read(p{})", a),
            S::Chal(l) => format!("challenge({})", String::from_utf8_lossy(l)),
            S::App(l, x) => format!("append({},{})", String::from_utf8_lossy(l), x),
            S::Zero(a) => format!("zero-claim(p{})", a),
            S::Sum(a) => format!("sum-claim(p{})", a),
        }
    }
}
pub fn show_seq(s: &[S]) -> String {
    s.iter().map(|x| x.show()).collect::<Vec<_>>().join("; ")
}

/// number of sequences of d steps from n polynomials
pub fn count(menu: &dyn Fn(usize) -> Vec<S>, n: usize, d: usize) -> u64 {
    if d == 0 { return 1; }
    // counts depend on n' only
    let m = menu(n);
    let a = m.iter().filter(|s| s.adds() == 1).count() as u64;
    let b = m.len() as u64 - a;
    (if a > 0 { a * count(menu, n + 1, d - 1) } else { 0 }) + (if b > 0 { b * count(menu, n, d - 1) } else { 0 })
}
pub fn unrank(menu: &dyn Fn(usize) -> Vec<S>, n: usize, d: usize, mut i: u64) -> Vec<S> {
    let mut out = vec![];
    let mut n = n;
    for left in (0..d).rev() {
        let (ca, cb) = (count(menu, n + 1, left), count(menu, n, left));
        for s in menu(n) {
            let c = if s.adds() == 1 { ca } else { cb };
            if i < c {
                n += s.adds();
                out.push(s);
                break;
            }
            i -= c;
        }
    }
    out
}

/// the model of one polynomial
#[derive(Clone)]
pub struct M {
    pub nv: usize,
    pub rows: Vec<F>,
    /// degree of the expression in the tables
    pub deg: usize,
    /// its value off the grid is that of the expression, not of a table read back
    pub pure_: bool,
    pub expr: S,
}
/// None: the step is not legal
pub fn step(ms: &[M], s: &S) -> Option<Vec<M>> {
    let mut out = ms.to_vec();
    let mk = |nv, rows, deg, pure_| M { nv, rows, deg, pure_, expr: s.clone() };
    let zip = |a: &M, b: &M, g: &dyn Fn(F, F) -> F| a.rows.iter().zip(&b.rows).map(|(x, y)| g(*x, *y)).collect::<Vec<F>>();
    match s {
        S::Op(Op::C(v)) | S::Track(v) => out.push(mk(v.len().trailing_zeros() as usize, v.clone(), 1, true)),
        S::Op(o @ (Op::Add(a, b) | Op::Sub(a, b) | Op::Mul(a, b))) => {
            let (x, y) = (&ms[*a], &ms[*b]);
            if x.nv != y.nv { return None; }
            let p = x.pure_ && y.pure_;
            out.push(match o {
                Op::Add(..) => mk(x.nv, zip(x, y, &|u, w| u + w), x.deg.max(y.deg), p),
                Op::Sub(..) => mk(x.nv, zip(x, y, &|u, w| u - w), x.deg.max(y.deg), p),
                _ => mk(x.nv, zip(x, y, &|u, w| u * w), x.deg + y.deg, p),
            });
        }
        S::Op(Op::AddS(a, c)) => { let x = &ms[*a]; out.push(mk(x.nv, x.rows.iter().map(|u| *u + c).collect(), x.deg, x.pure_)) }
        S::Op(Op::MulS(a, c)) => { let x = &ms[*a]; out.push(mk(x.nv, x.rows.iter().map(|u| *u * c).collect(), x.deg, x.pure_)) }
        S::Op(o @ (Op::Front(a, k) | Op::Back(a, k))) => {
            let x = ms[*a].clone();
            let l = x.rows.len();
            let rows = (0..l << k).map(|i| if let Op::Front(..) = o { x.rows[i >> k] } else { x.rows[i % l] }).collect();
            let p = x.pure_ && x.deg <= 1;
            out[*a].pure_ = p;
            out.push(mk(x.nv + k, rows, x.deg, p));
        }
        S::Read(a) => {
            let p = ms[*a].pure_ && ms[*a].deg <= 1;
            out[*a].pure_ = p;
            let mut m = out[*a].clone();
            m.expr = s.clone();
            out.push(m);
        }
        _ => {}
    }
    // a second handle denotes the same polynomial
    for i in 0..out.len() {
        if let S::Read(a) = out[i].expr {
            let p = out[i].pure_ && out[a].pure_;
            out[i].pure_ = p;
            out[a].pure_ = p;
        }
    }
    Some(out)
}
/// value of the expression at a point
pub fn value(ms: &[M], i: usize, pt: &[F]) -> F {
    match &ms[i].expr {
        S::Op(Op::C(v)) | S::Track(v) => ext(v, pt),
        S::Op(Op::Add(a, b)) => value(ms, *a, pt) + value(ms, *b, pt),
        S::Op(Op::Sub(a, b)) => value(ms, *a, pt) - value(ms, *b, pt),
        S::Op(Op::Mul(a, b)) => value(ms, *a, pt) * value(ms, *b, pt),
        S::Op(Op::AddS(a, c)) => value(ms, *a, pt) + c,
        S::Op(Op::MulS(a, c)) => value(ms, *a, pt) * c,
        S::Op(Op::Front(a, k)) => value(ms, *a, &pt[*k..]),
        S::Op(Op::Back(a, k)) => value(ms, *a, &pt[..pt.len() - k]),
        S::Read(a) => value(ms, *a, pt),
        _ => unreachable!(),
    }
}
/// multilinear extension from its definition
pub fn ext(rows: &[F], pt: &[F]) -> F {
    (0..rows.len()).map(|i| {
        let w: F = pt.iter().enumerate().map(|(k, x)| if (i >> k) & 1 == 1 { *x } else { F::one() - x }).product();
        w * rows[i]
    }).sum()
}
pub fn gpoint(nv: usize) -> Vec<F> {
    [7, -3, 11, 5, -13, 17, 19, 23, -29, 31, 37, -41].iter().take(nv).map(|x| f(*x)).collect()
}

fn basic_menu(n: usize, commits: &[Vec<F>]) -> Vec<S> {
    let mut m: Vec<S> = commits.iter().map(|v| S::Op(Op::C(v.clone()))).collect();
    for a in 0..n {
        for b in 0..n {
            m.push(S::Op(Op::Add(a, b)));
            m.push(S::Op(Op::Sub(a, b)));
            m.push(S::Op(Op::Mul(a, b)));
        }
        for c in [0, -3] {
            m.push(S::Op(Op::AddS(a, f(c))));
            m.push(S::Op(Op::MulS(a, f(c))));
        }
        for k in [1, 2] {
            m.push(S::Op(Op::Front(a, k)));
            m.push(S::Op(Op::Back(a, k)));
        }
        m.push(S::Read(a));
    }
    m
}
fn fs(xs: &[i64]) -> Vec<F> { xs.iter().map(|x| f(*x)).collect() }

fn p_step(t: &mut PT, ps: &[TP], s: &S) -> Option<TP> {
    match s {
        S::Op(o) => Some(p_apply(t, ps, o)),
        S::Track(v) => Some(t.track_mat_poly(mle(v))),
        S::Read(a) => { ps[*a].evaluations(); Some(ps[*a].clone()) }
        S::Chal(l) => { t.get_and_append_challenge(l).unwrap(); None }
        S::App(l, x) => { t.append_serializable_element(l, &f(*x as i64)).unwrap(); None }
        S::Zero(a) => { t.add_zerocheck_claim(ps[*a].id); None }
        S::Sum(a) => { t.add_sumcheck_claim(ps[*a].id, f(0)); None }
    }
}

/// Long sequences: every word of two kinds of steps, for every two kinds
const KINDS: u64 = 9;
fn chain_words() -> u64 { KINDS * (KINDS - 1) / 2 }
fn two_kinds(i: u64, len: u32) -> Vec<S> {
    let mut ix = Idx(i);
    let w = ix.take(1 << len);
    let mut p = ix.0;
    let mut a = 0;
    while p >= KINDS - 1 - a { p -= KINDS - 1 - a; a += 1; }
    let b = a + 1 + p;
    let mut s = vec![S::Op(Op::C(fs(&[3, 5]))), S::Op(Op::C(fs(&[-7, 11])))];
    // the newest polynomial and its partner, always of one size
    let (mut x, mut y, mut n, mut ext) = (0usize, 1usize, 2usize, 0usize);
    for k in 0..len {
        match if (w >> k) & 1 == 0 { a } else { b } {
            0 => s.push(S::Op(Op::Add(x, y))),
            1 => s.push(S::Op(Op::Sub(y, x))),
            2 => s.push(S::Op(Op::Mul(x, y))),
            3 => { std::mem::swap(&mut x, &mut y); continue; }
            4 => s.push(S::Op(Op::AddS(x, f(2 + k as i64)))),
            5 => s.push(S::Op(Op::MulS(x, f(-3)))),
            q @ (6 | 7) => {
                if ext == 4 { continue; }
                ext += 1;
                let e = |a: usize| S::Op(if q == 6 { Op::Front(a, 1) } else { Op::Back(a, 1) });
                s.push(e(y));
                y = n;
                n += 1;
                s.push(e(x));
            }
            _ => s.push(S::Read(x)),
        }
        x = n;
        n += 1;
    }
    s
}

pub fn t01(ctx: &Ctx) {
    let bases: Vec<(&str, Vec<S>)> = vec![
        ("committed-1-1", vec![S::Op(Op::C(fs(&[3, 5]))), S::Op(Op::C(fs(&[-7, 11])))]),
        ("committed-1-2", vec![S::Op(Op::C(fs(&[3, 5]))), S::Op(Op::C(fs(&[-7, 11, 2, 23])))]),
        ("committed-0-1", vec![S::Op(Op::C(fs(&[9]))), S::Op(Op::C(fs(&[4, -6])))]),
        ("tracked-2-2", vec![S::Track(fs(&[3, 5, -2, 8])), S::Track(fs(&[-7, 11, 2, 23]))]),
    ];
    for (name, base) in bases {
        let d = ctx.q(3, if name == "committed-1-1" { 4 } else { 3 });
        let menu = |n: usize| basic_menu(n, &[]);
        let n = count(&menu, base.len(), d);
        let mk = |i: u64| { let mut s = base.clone(); s.extend(unrank(&menu, base.len(), d, i)); s };
        ctx.space(&format!("sequences-{}", name), n, |i| algebra(&mk(i)), |i| show_seq(&mk(i)));
    }
    // one step deeper, over the operations without duplicates by symmetry
    let base = vec![S::Op(Op::C(fs(&[3, 5]))), S::Op(Op::C(fs(&[-7, 11])))];
    let menu = |n: usize| {
        let mut m = vec![];
        for a in 0..n {
            for b in 0..n { m.push(S::Op(Op::Sub(a, b))); }
            for b in a..n { m.push(S::Op(Op::Mul(a, b))); }
            m.push(S::Op(Op::AddS(a, f(2))));
            m.push(S::Op(Op::Back(a, 1)));
            m.push(S::Read(a));
        }
        m
    };
    let mk = |i: u64| { let mut s = base.clone(); s.extend(unrank(&menu, 2, 4, i)); s };
    ctx.space("sequences-core-depth4", count(&menu, 2, 4), |i| algebra(&mk(i)), |i| show_seq(&mk(i)));
    // long chains: the same two operations alternated, operand choice always the newest
    let kinds = 9u64;
    let nd = ctx.q(5, 7);
    let mk = |mut i: u64| {
        let mut s = vec![S::Op(Op::C(fs(&[3, 5]))), S::Op(Op::C(fs(&[-7, 11])))];
        let mut w = vec![];
        for _ in 0..nd { w.push(i % kinds); i /= kinds; }
        let (mut n, mut ext) = (2usize, 0usize);
        for k in w {
            let l = n - 1;
            // binary operations need a partner of the same size: extend the second table alongside
            s.push(match k {
                0 => S::Op(Op::Add(l, if ext == 0 { 1 } else { l })),
                1 => S::Op(Op::Sub(if ext == 0 { 0 } else { l }, l)),
                2 => S::Op(Op::Mul(l, if ext == 0 { 0 } else { l })),
                3 => S::Op(Op::Mul(l, l)),
                4 => S::Op(Op::AddS(l, f(2))),
                5 => S::Op(Op::MulS(l, f(-3))),
                6 => { ext += 1; S::Op(Op::Front(l, 1)) }
                7 => { ext += 1; S::Op(Op::Back(l, 1)) }
                _ => S::Read(l),
            });
            n += 1;
        }
        s
    };
    ctx.space("chains", kinds.pow(nd), |i| algebra(&mk(i)), |i| show_seq(&mk(i)));
    let (n, len) = (chain_words(), ctx.q(9u32, 12));
    ctx.space("two-kinds", n * 2u64.pow(len), |i| algebra(&two_kinds(i, len)), |i| show_seq(&two_kinds(i, len)));
    // operands of different sessions are refused
    ctx.space("foreign-operands", 6, |i| {
        let mut t = PT::new_from_pcs_params(());
        let mut u = PT::new_from_pcs_params(());
        let a = p_apply(&mut t, &[], &Op::C(fs(&[1, 2])));
        let b = p_apply(&mut u, &[], &Op::C(fs(&[1, 2])));
        let (x, y) = if i < 3 { (a, b) } else { (b, a) };
        match guard(|| { match i % 3 { 0 => x.add_poly(&y), 1 => x.sub_poly(&y), _ => x.mul_poly(&y) }; Ok(()) }) {
            Err(_) => Ok(obs("refused", 1, true)),
            Ok(()) => viol("foreign-operands", "operands of different sessions were combined"),
        }
    }, |i| format!("{}", i));
}

fn algebra(seq: &[S]) -> CaseRes {
    let mut t = PT::new_from_pcs_params(());
    let mut ps: Vec<TP> = vec![];
    let mut ms: Vec<M> = vec![];
    let mut out = "all legal";
    for s in seq {
        match step(&ms, s) {
            None => {
                // must be refused; what was there before stays as it is
                if guard(|| Ok(p_step(&mut t, &ps, s))).is_ok() {
                    return viol("mismatched-sizes", format!("{} of different sizes was not refused", s.show()));
                }
                out = "ends with a refused step";
                break;
            }
            Some(n) => {
                ms = n;
                match guard(|| Ok(p_step(&mut t, &ps, s))) {
                    Ok(p) => ps.extend(p),
                    Err(e) => return viol("legal-step-refused", format!("{}: {}", s.show(), e)),
                }
            }
        }
    }
    let mut steps = seq.len() as u64;
    // off the grid first: this must not read any table
    let res = guard(|| {
        for round in 0..2 {
            for (i, m) in ms.iter().enumerate() {
                if ps[i].num_vars() != m.nv { return Err(format!("p{} has {} variables, expected {}", i, ps[i].num_vars(), m.nv)); }
                let gp = gpoint(m.nv);
                if m.pure_ && round == 0 {
                    let want = value(&ms, i, &gp);
                    let got = ps[i].evaluate(&gp);
                    if got != Some(want) { return Err(format!("p{} at {}: {:?}, expected {}", i, shows(&gp), got.map(|x| show(&x)), show(&want))); }
                    let av = ps[i].to_arithmatic_virtual_poly();
                    if av.aux_info.num_variables != m.nv { return Err(format!("p{} as a virtual polynomial has {} variables", i, av.aux_info.num_variables)); }
                    let got = av.evaluate(&gp).map_err(|e| format!("{:?}", e))?;
                    if got != want { return Err(format!("p{} as a virtual polynomial at {}: {}, expected {}", i, shows(&gp), show(&got), show(&want))); }
                }
                for r in 0..m.rows.len() {
                    let got = ps[i].evaluate(&bpoint(r, m.nv));
                    if got != Some(m.rows[r]) { return Err(format!("p{} at row {} (pass {}): {:?}, expected {}", i, r, round, got.map(|x| show(&x)), show(&m.rows[r]))); }
                    let av = ps[i].to_arithmatic_virtual_poly().evaluate(&bpoint(r, m.nv)).map_err(|e| format!("{:?}", e))?;
                    if av != m.rows[r] { return Err(format!("p{} as a virtual polynomial at row {} (pass {}): {}, expected {}", i, r, round, show(&av), show(&m.rows[r]))); }
                    steps += 2;
                }
            }
            if round == 0 {
                // read all tables, oldest first on a copy, newest first on the session itself
                let mut c = t.clone_underlying_tracker();
                for (i, m) in ms.iter().enumerate() {
                    if *c.evaluations(ps[i].id) != m.rows { return Err(format!("rows of p{} read on a copy: {}, expected {}", i, shows(c.evaluations(ps[i].id)), shows(&m.rows))); }
                }
                for (i, m) in ms.iter().enumerate().rev() {
                    if ps[i].evaluations() != m.rows { return Err(format!("rows of p{}: {}, expected {}", i, shows(&ps[i].evaluations()), shows(&m.rows))); }
                }
                for (i, m) in ms.iter().enumerate() {
                    if ps[i].evaluations() != m.rows { return Err(format!("rows of p{} read again: {}, expected {}", i, shows(&ps[i].evaluations()), shows(&m.rows))); }
                    steps += 3;
                }
            }
        }
        Ok(())
    });
    match res {
        Ok(()) => Ok(obs(out, steps, true)),
        Err(e) => viol("algebra", e),
    }
}

pub fn t02(ctx: &Ctx) {
    let commits = vec![fs(&[3, 5]), fs(&[-7, 11, 2, 23])];
    let full = |n: usize| {
        let mut m = basic_menu(n, &commits);
        m.push(S::Chal(b"alpha"));
        m.push(S::App(b"msg", 4));
        for a in 0..n { m.push(S::Zero(a)); m.push(S::Sum(a)); }
        m
    };
    for (name, base) in [("1", vec![S::Op(Op::C(fs(&[6, -4])))]), ("1-2", vec![S::Op(Op::C(fs(&[6, -4]))), S::Op(Op::C(fs(&[1, 2, -5, 13])))])] {
        let d = if base.len() == 1 { ctx.q(3, 4) } else { 3 };
        let n = count(&full, base.len(), d);
        let mk = |i: u64| { let mut s = base.clone(); s.extend(unrank(&full, base.len(), d, i)); s };
        ctx.space(&format!("lockstep-{}", name), n, |i| lockstep(&mk(i)), |i| show_seq(&mk(i)));
    }
    // one step deeper with fewer operations
    let base = vec![S::Op(Op::C(fs(&[6, -4])))];
    let core = |n: usize| {
        let mut m = vec![S::Op(Op::C(fs(&[3, 5]))), S::Chal(b"alpha")];
        for a in 0..n {
            for b in 0..n { m.push(S::Op(Op::Sub(a, b))); }
            m.push(S::Op(Op::Mul(n - 1, a)));
            m.push(S::Op(Op::AddS(a, f(2))));
            m.push(S::Op(Op::MulS(a, f(-3))));
            m.push(S::Op(Op::Front(a, 1)));
            m.push(S::Op(Op::Back(a, 1)));
            m.push(S::Read(a));
        }
        m
    };
    let mk = |i: u64| { let mut s = base.clone(); s.extend(unrank(&core, 1, 4, i)); s };
    ctx.space("lockstep-core-depth4", count(&core, 1, 4), |i| lockstep(&mk(i)), |i| show_seq(&mk(i)));
    let (n, len) = (chain_words(), ctx.q(9u32, 11));
    ctx.space("two-kinds", n * 2u64.pow(len), |i| lockstep(&two_kinds(i, len)), |i| show_seq(&two_kinds(i, len)));
    // operands of different sessions are refused on the verifier's side, handles differ
    ctx.space("foreign-operands", 6, |i| {
        let mut p = PT::new_from_pcs_params(());
        let a = p_apply(&mut p, &[], &Op::C(fs(&[1, 2])));
        let proof = bare_proof(&p.clone_underlying_tracker());
        let mut t = VT::new_from_pcs_params(());
        let mut u = VT::new_from_pcs_params(());
        t.set_compiled_proof(proof.clone());
        u.set_compiled_proof(proof);
        let (x, y) = (t.transfer_prover_comm(a.id), u.transfer_prover_comm(a.id));
        let (x, y) = if i < 3 { (x, y) } else { (y, x) };
        if x == y { return viol("foreign-equal", "handles of different sessions compare equal"); }
        if x != x.clone() { return viol("handle-unequal", "a handle is not equal to its own copy"); }
        match guard(|| { match i % 3 { 0 => x.add_comms(&y), 1 => x.sub_comms(&y), _ => x.mul_comms(&y) }; Ok(()) }) {
            Err(_) => Ok(obs("refused", 1, true)),
            Ok(()) => viol("foreign-operands", "operands of different sessions were combined"),
        }
    }, |i| format!("{}", i));
}

fn lockstep(seq: &[S]) -> CaseRes {
    let mut ms: Vec<M> = vec![];
    for s in seq {
        match step(&ms, s) {
            Some(n) => ms = n,
            None => return Ok(obs("not a legal sequence", 0, false)),
        }
    }
    let r = guard(|| {
        let mut t = PT::new_from_pcs_params(());
        let mut ps: Vec<TP> = vec![];
        let mut chals: Vec<F> = vec![];
        let mut next: Vec<TrackerID> = vec![];
        for s in seq {
            match s {
                S::Chal(l) => chals.push(t.get_and_append_challenge(l).unwrap()),
                _ => ps.extend(p_step(&mut t, &ps, s)),
            }
            next.push(t.get_next_id());
        }
        let base = t.clone_underlying_tracker();
        let proof = bare_proof(&base);
        let mut ends = vec![];
        // commitments taken over from the proof, or received directly
        for direct in [false, true] {
            let mut vt = VT::new_from_pcs_params(());
            vt.set_compiled_proof(proof.clone());
            let mut cs: Vec<TC> = vec![];
            let mut k = 0;
            for (j, s) in seq.iter().enumerate() {
                match s {
                    S::Op(Op::C(_)) if direct => {
                        let c = vt.track_mat_comm(proof.comms[&ps[cs.len()].id].clone()).map_err(|e| format!("{:?}", e))?;
                        cs.push(c);
                    }
                    S::Op(o) => { let c = v_apply(&mut vt, &cs, o, ps[cs.len()].id); cs.push(c); }
                    S::Read(a) => { let c = cs[*a].clone(); cs.push(c); }
                    S::Chal(l) => {
                        let c = vt.get_and_append_challenge(l).unwrap();
                        if c != chals[k] { return Err(format!("challenge {} differs", k)); }
                        k += 1;
                    }
                    S::App(l, x) => vt.append_serializable_element(l, &f(*x as i64)).unwrap(),
                    S::Zero(a) => vt.add_zerocheck_claim(cs[*a].id),
                    S::Sum(a) => vt.add_sumcheck_claim(cs[*a].id, f(0)),
                    S::Track(_) => unreachable!(),
                }
                let n = vt.get_next_id();
                if n != next[j] { return Err(format!("after {} the prover's next id is {}, the verifier's {}", s.show(), next[j], n)); }
            }
            for (i, m) in ms.iter().enumerate() {
                if cs[i].id != ps[i].id { return Err(format!("p{}: prover id {}, verifier id {}", i, ps[i].id, cs[i].id)); }
                for (j, _) in ms.iter().enumerate() {
                    let same = ps[i].id == ps[j].id;
                    if (cs[i] == cs[j]) != same { return Err(format!("commitments {} and {} compare {}", cs[i].id, cs[j].id, cs[i] == cs[j])); }
                    if (ps[i] == ps[j]) != same { return Err(format!("polynomials {} and {} compare {}", ps[i].id, ps[j].id, ps[i] == ps[j])); }
                }
                if let S::Op(Op::C(v)) = &m.expr {
                    if vt.get_mat_comm(cs[i].id) != (MockComm { nv: m.nv as u64, evals: v.clone() }) { return Err(format!("commitment {} was not taken over", cs[i].id)); }
                }
            }
            // answers for every committed table at every window of every point in use
            let ul = vt.clone_underlying_tracker();
            {
                let mut q = ul.query_map.borrow_mut();
                let mut pts: Vec<Vec<F>> = vec![];
                for nv in ms.iter().map(|m| m.nv).collect::<std::collections::BTreeSet<_>>() {
                    pts.push(gpoint(nv));
                    for r in 0..1usize << nv { pts.push(bpoint(r, nv)); }
                }
                for (i, m) in ms.iter().enumerate() {
                    if let S::Op(Op::C(v)) = &m.expr {
                        for p in &pts {
                            if p.len() < m.nv { continue; }
                            for a in 0..=p.len() - m.nv {
                                let w = p[a..a + m.nv].to_vec();
                                let e = ext(v, &w);
                                q.insert((cs[i].id, w), e);
                            }
                        }
                    }
                }
            }
            for (i, m) in ms.iter().enumerate() {
                let gp = gpoint(m.nv);
                let (got, want) = (cs[i].eval_virtual_comm(&gp).map_err(|e| format!("{:?}", e))?, value(&ms, i, &gp));
                if got != want { return Err(format!("verifier evaluates p{} at {} to {}, expected {}", i, shows(&gp), show(&got), show(&want))); }
                for r in 0..m.rows.len() {
                    let got = cs[i].eval_virtual_comm(&bpoint(r, m.nv)).map_err(|e| format!("{:?}", e))?;
                    if got != m.rows[r] { return Err(format!("verifier evaluates p{} at row {} to {}, expected {}", i, r, show(&got), show(&m.rows[r]))); }
                }
            }
            let (pc, vc) = (t.clone_underlying_tracker(), vt.clone_underlying_tracker());
            if pc.zero_check_claims != vc.zero_check_claims { return Err("zero claims differ".into()); }
            if pc.sum_check_claims != vc.sum_check_claims { return Err("sum claims differ".into()); }
            ends.push(vt.get_and_append_challenge(b"end").unwrap());
        }
        let e = t.get_and_append_challenge(b"end").unwrap();
        if ends.iter().any(|x| *x != e) { return Err("transcripts differ at the end".into()); }
        Ok(())
    });
    match r {
        Ok(()) => Ok(obs("in lockstep", 3 * seq.len() as u64, true)),
        Err(e) => viol("lockstep", e),
    }
}
