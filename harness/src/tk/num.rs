//! Numbers and reference arithmetic shared by the checks that need no session
use ark_bls12_381::{Bls12_381, Fr};
use ark_ff::{One, PrimeField, Zero};
use ark_poly::DenseMultilinearExtension;

pub type E = Bls12_381;
pub type F = Fr;
pub type Mle = DenseMultilinearExtension<F>;

pub fn f(x: i64) -> F { if x < 0 { -F::from((-x) as u64) } else { F::from(x as u64) } }
pub fn fs(x: &[i64]) -> Vec<F> { x.iter().map(|y| f(*y)).collect() }
pub fn show(x: &F) -> String {
    let n = -*x;
    let small = |y: &F| { let b = y.into_bigint(); b.0[1] == 0 && b.0[2] == 0 && b.0[3] == 0 && b.0[0] < 1 << 40 };
    if small(x) { format!("{}", x.into_bigint().0[0]) } else if small(&n) { format!("-{}", n.into_bigint().0[0]) } else { format!("{}", x) }
}
pub fn shows(xs: &[F]) -> String { format!("[{}]", xs.iter().map(show).collect::<Vec<_>>().join(",")) }
pub fn nv_of(t: &[F]) -> usize { let n = t.len().trailing_zeros() as usize; assert_eq!(1 << n, t.len()); n }
pub fn mle(t: &[F]) -> Mle { DenseMultilinearExtension::from_evaluations_slice(nv_of(t), t) }
pub fn bpoint(i: usize, nv: usize) -> Vec<F> { (0..nv).map(|k| if (i >> k) & 1 == 1 { F::one() } else { F::zero() }).collect() }
/// a table of field elements of full size
pub fn wild(nv: usize, k: usize) -> Vec<F> {
    use ark_ff::Field;
    (0..1u64 << nv).map(|i| F::from((i + 3) * (i + 5) + 17 * k as u64).inverse().unwrap() + F::from(k as u64)).collect()
}
/// a fixed point with no coordinates in common with any table
pub fn gpoint(nv: usize, k: usize) -> Vec<F> { (0..nv).map(|i| F::from(1_000_003u64 + 7919 * (i as u64 + 1) + 104729 * k as u64)).collect() }
pub fn eq_ref(x: &[F], y: &[F]) -> F { x.iter().zip(y).map(|(a, b)| *a * b + (F::one() - a) * (F::one() - b)).product() }
/// the multilinear extension by its definition: sum over the rows of row * eq(row index, point)
pub fn ext(t: &[F], pt: &[F]) -> F {
    assert_eq!(t.len(), 1 << pt.len());
    (0..t.len()).map(|i| t[i] * eq_ref(&bpoint(i, pt.len()), pt)).sum()
}
