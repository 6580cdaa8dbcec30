//! A01, A02: multilinear tables and virtual polynomials
mod mle;
mod vp;
use vpmc::*;

pub fn dispatch(ctx: &Ctx) -> bool {
    match ctx.id.as_str() {
        "A01" => mle::a01(ctx),
        "A02" => vp::a02(ctx),
        _ => return false,
    }
    true
}
/// run a case: an error or a panic is a violation
pub fn case(key: &str, f: impl FnOnce() -> Result<Obs, String>) -> CaseRes {
    match guard(f) { Ok(o) => Ok(o), Err(e) => viol(key, e) }
}
/// must be refused, by an error or a panic
pub fn refused<T>(what: &str, f: impl FnOnce() -> Result<T, String>) -> Result<(), String> {
    match guard(f) { Ok(_) => Err(format!("{} was not refused", what)), Err(_) => Ok(()) }
}
/// a source of randomness that says what it is told to, then zeros
pub struct Script { pub words: Vec<u64>, pub at: usize }
impl Script { pub fn new(words: Vec<u64>) -> Self { Script { words, at: 0 } } }
impl ark_std::rand::RngCore for Script {
    fn next_u32(&mut self) -> u32 { self.next_u64() as u32 }
    fn next_u64(&mut self) -> u64 { let w = self.words.get(self.at).copied().unwrap_or(0); self.at += 1; w }
    fn fill_bytes(&mut self, dest: &mut [u8]) { for c in dest.chunks_mut(8) { let w = self.next_u64().to_le_bytes(); let n = c.len(); c.copy_from_slice(&w[..n]); } }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), ark_std::rand::Error> { self.fill_bytes(dest); Ok(()) }
}
