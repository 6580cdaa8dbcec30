#[path = "../tk/num.rs"]
mod num;
#[path = "../iop/mod.rs"]
mod iop;
fn main() {
    vpmc::drive(iop::dispatch);
}
