#[path = "../tk/num.rs"]
mod num;
#[path = "../arith/mod.rs"]
mod arith;
fn main() {
    vpmc::drive(arith::dispatch);
}
