#[path = "../tk/num.rs"]
mod num;
#[path = "../kzg/mod.rs"]
mod kzg;
fn main() {
    vpmc::drive(kzg::dispatch);
}
