//! S04: transcripts
use crate::num::*;
use std::collections::HashMap;
use std::sync::Mutex;
use vpmc::*;
use zk_sql::transcript::IOPTranscript;

type Tr = IOPTranscript<F>;
#[derive(Clone, Debug, PartialEq)]
enum O { Msg(&'static str, &'static str), Field(&'static str, i64), Ser(&'static str, &'static [i64]), Draw(&'static str), Draws(&'static str, usize) }

fn apply(t: &mut Tr, o: &O) -> Vec<F> {
    match o {
        O::Msg(l, m) => { t.append_message(l.as_bytes(), m.as_bytes()).unwrap(); vec![] }
        O::Field(l, x) => { t.append_field_element(l.as_bytes(), &f(*x)).unwrap(); vec![] }
        O::Ser(l, x) => { t.append_serializable_element(l.as_bytes(), &fs(x)).unwrap(); vec![] }
        O::Draw(l) => t.get_and_append_challenge(l.as_bytes()).map(|x| vec![x]).unwrap_or_default(),
        O::Draws(l, n) => t.get_and_append_challenge_vectors(l.as_bytes(), *n).unwrap_or_default(),
    }
}
/// what a history says; two histories that say the same may draw the same
fn canon(init: &str, w: &[O]) -> Vec<String> {
    let mut out = vec![];
    let bytes = |x: &[i64], len: bool| {
        let mut b = vec![];
        if len { b.extend((x.len() as u64).to_le_bytes()); }
        for y in x { use ark_serialize::CanonicalSerialize; f(*y).serialize_compressed(&mut b).unwrap(); }
        b
    };
    for o in w {
        match o {
            O::Msg(l, m) => out.push(format!("say {:?} {:?}", l, m.as_bytes())),
            O::Field(l, x) => out.push(format!("say {:?} {:?}", l, bytes(&[*x], false))),
            O::Ser(l, x) => out.push(format!("say {:?} {:?}", l, bytes(x, true))),
            // drawing before anything was said is refused
            O::Draw(_) | O::Draws(..) if out.is_empty() => {}
            O::Draw(l) => out.push(format!("draw {:?}", l)),
            O::Draws(l, n) => for _ in 0..*n { out.push(format!("draw {:?}", l)) },
        }
    }
    out.insert(0, format!("init {:?}", init));
    out
}
const INITS: [&str; 3] = ["one", "two", ""];
fn start(i: usize) -> Tr { Tr::new(INITS[i].as_bytes()) }

pub fn s04(ctx: &Ctx) {
    let alpha: Vec<O> = vec![
        O::Msg("a", "x"), O::Msg("b", "x"), O::Msg("a", "y"), O::Msg("ab", ""), O::Msg("a", "bx"), O::Msg("a", "xx"),
        O::Field("a", 7), O::Field("a", 8), O::Field("b", 7), O::Ser("a", &[7]), O::Ser("a", &[7, 8]), O::Ser("a", &[8, 7]), O::Ser("a", &[]),
        O::Draw("a"), O::Draw("b"), O::Draws("a", 2), O::Draws("a", 0), O::Draws("b", 1),
    ];
    let lmax = ctx.q(4, 5);
    // next challenge -> what was said, over all histories
    let seen: Vec<Mutex<HashMap<F, u64>>> = (0..64).map(|_| Mutex::new(HashMap::new())).collect();
    for l in 0..=lmax {
        let n = ipow(alpha.len(), l) * INITS.len() as u64;
        let get = |i: u64| { let mut ix = Idx(i); let init = ix.take(INITS.len() as u64) as usize; (init, ix.word(&alpha, l)) };
        let show_case = |i: u64| { let (a, w) = get(i); format!("init {:?} {:?}", INITS[a], w) };
        ctx.space(&format!("histories-{}", l), n, |i| {
            let (init, w) = get(i);
            let run = || { let mut t = start(init); let mut d = vec![]; for o in &w { d.extend(apply(&mut t, o)); } (t, d) };
            let ((mut t, d), (mut u, d2)) = (run(), run());
            if d != d2 { return viol("deterministic", "the same history drew different challenges"); }
            for a in 0..d.len() { for b in a + 1..d.len() { if d[a] == d[b] { return viol("repeated", "two draws of one history are equal"); } } }
            let c = canon(INITS[init], &w);
            let said = c.len() > 1;
            let draws = c.iter().filter(|x| x.starts_with("draw")).count();
            if d.len() != draws { return viol("empty", format!("{} challenges were drawn, expected {}", d.len(), draws)); }
            let mut cl = t.clone();
            let next = t.get_and_append_challenge(b"next").ok();
            if next.is_some() != said { return viol("empty", if said { "a draw is refused although something was said" } else { "a challenge was drawn although nothing was said" }); }
            if cl.get_and_append_challenge(b"next").ok() != next { return viol("copy", "a copy of the transcript draws another challenge"); }
            if u.get_and_append_challenge_vectors(b"next", 1).ok().map(|v| v[0]) != next { return viol("deterministic", "the same history draws different next challenges"); }
            if !said {
                // a refused draw leaves the transcript unchanged
                for tt in [&mut t, &mut u] { tt.append_message(b"m", b"m").unwrap(); }
                let mut fresh = start(init);
                fresh.append_message(b"m", b"m").unwrap();
                let want = fresh.get_and_append_challenge(b"z").unwrap();
                if t.get_and_append_challenge(b"z").unwrap() != want || u.get_and_append_challenge(b"z").unwrap() != want { return viol("empty", "a refused draw changed the transcript"); }
                return Ok(obs("nothing said: refused", l as u64, true));
            }
            // asking for the challenge changes the transcript, and so does its label
            let x = next.unwrap();
            if d.contains(&x) { return viol("repeated", "the next challenge was drawn before"); }
            let mut v = run().0;
            if v.get_and_append_challenge(b"other").unwrap() == x { return viol("label", "the label of a draw does not matter"); }
            if t.get_and_append_challenge(b"next").unwrap() == x { return viol("repeated", "two draws in a row are equal"); }
            let shard = { use ark_ff::PrimeField; (x.into_bigint().0[0] % 64) as usize };
            let mut g = seen[shard].lock().unwrap();
            let h = { use std::hash::{Hash, Hasher}; let mut h = std::collections::hash_map::DefaultHasher::new(); c.hash(&mut h); h.finish() };
            match g.get(&x) {
                Some(h2) if *h2 != h => viol("binding", format!("a history that says something else draws the same next challenge as {:?}", c)),
                _ => { g.insert(x, h); Ok(obs("next challenge", l as u64, true)) }
            }
        }, show_case);
    }
    // long messages: every byte and the length count, however long the message is
    let lens: Vec<usize> = vec![1, 7, 8, 16, 31, 32, 33, 47, 48, 63, 64, 65, 96, 97, 128, 150, 165, 166, 167, 168, 200, 255, 256, 257, 300, 333, 512, 600];
    let mut long: Vec<(usize, usize)> = vec![];
    for l in &lens { for p in 0..*l { if *l <= 300 || p % ctx.q(7, 1) == 0 || p + 3 > *l { long.push((*l, p)); } } }
    if ctx.thorough { for p in 0..4096 { long.push((4096, p)); } }
    let long = &long;
    ctx.space("long-messages", long.len() as u64, |i| {
        let (l, p) = long[i as usize];
        let m: Vec<u8> = (0..l).map(|j| (j * 37 + 5) as u8).collect();
        let end = |m: &[u8], split: Option<usize>| {
            let mut t = start(0);
            match split {
                None => t.append_message(b"m", m).unwrap(),
                Some(k) => { t.append_message(b"m", &m[..k]).unwrap(); t.append_message(b"m", &m[k..]).unwrap(); }
            }
            t.get_and_append_challenge(b"c").unwrap()
        };
        let x = end(&m, None);
        if end(&m, None) != x { return viol("deterministic", "the same long message draws different challenges"); }
        for bit in [1u8, 128] { let mut n = m.clone(); n[p] ^= bit; if end(&n, None) == x { return viol("long-messages", format!("byte {} of a message of {} bytes does not matter", p, l)); } }
        if end(&m[..p], None) == x { return viol("long-messages", format!("a message of {} bytes and its first {} bytes draw the same challenge", l, p)); }
        if end(&m, Some(p)) == x { return viol("long-messages", format!("a message of {} bytes may be cut at byte {}", l, p)); }
        Ok(obs("counts", 5, true))
    }, |i| format!("{:?}", long[i as usize]));
    // long lists of field elements, and field elements that differ in one bit
    let lists: Vec<(usize, usize)> = (1..=ctx.q(20usize, 64)).flat_map(|l| (0..l).map(move |p| (l, p))).collect();
    ctx.space("long-lists", lists.len() as u64, |i| {
        let (l, p) = lists[i as usize];
        let m: Vec<F> = (0..l).map(|j| f(j as i64 * 3 - 7)).collect();
        let end = |m: &[F]| { let mut t = start(0); t.append_serializable_element(b"m", &m.to_vec()).unwrap(); t.get_and_append_challenge(b"c").unwrap() };
        let x = end(&m);
        for d in [1i64, -1, 256] { let mut n = m.clone(); n[p] += f(d); if end(&n) == x { return viol("long-lists", format!("element {} of {} does not matter", p, l)); } }
        for q in p + 1..l { let mut n = m.clone(); n.swap(p, q); if end(&n) == x { return viol("long-lists", format!("elements {} and {} of {} may be swapped", p, q, l)); } }
        if end(&m[..p]) == x { return viol("long-lists", format!("a list of {} and its first {} elements draw the same challenge", l, p)); }
        Ok(obs("counts", (l - p) as u64 + 4, true))
    }, |i| format!("{:?}", lists[i as usize]));
    ctx.space("field-bits", 255, |i| {
        use ark_ff::Field;
        let d = f(2).pow([i]);
        let end = |x: F| { let mut t = start(0); t.append_field_element(b"m", &x).unwrap(); t.get_and_append_challenge(b"c").unwrap() };
        for x in [f(0), f(-1), f(12345)] { if end(x) == end(x + d) || end(x) == end(x - d) { return viol("field-bits", format!("adding two to the {} to a field element does not matter", i)); } }
        Ok(obs("counts", 6, true))
    }, |i| format!("2^{}", i));
    let n = ipow(3, 3);
    ctx.space("draws-one-by-one", n, |i| {
        let w = Idx(i).word(&[0usize, 1, 2], 3);
        let (mut a, mut b) = (start(0), start(0));
        for t in [&mut a, &mut b] { t.append_message(b"m", b"m").unwrap(); }
        let mut xs = vec![];
        let mut ys = vec![];
        for k in &w {
            xs.extend(a.get_and_append_challenge_vectors(b"c", *k).unwrap());
            for _ in 0..*k { ys.push(b.get_and_append_challenge(b"c").unwrap()); }
        }
        if xs != ys || a.get_and_append_challenge(b"e").unwrap() != b.get_and_append_challenge(b"e").unwrap() { return viol("vectors", "drawing several challenges at once differs from drawing them one by one"); }
        Ok(obs("same", 3, true))
    }, |i| format!("{:?}", Idx(i).word(&[0usize, 1, 2], 3)));
}
