#[path = "../tk/mock.rs"]
mod mock;
#[path = "../tk/run.rs"]
mod run;
#[path = "../gadgets/mod.rs"]
mod gadgets;
fn main() {
    vpmc::drive(gadgets::dispatch);
}
