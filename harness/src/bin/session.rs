#[path = "../tk/mock.rs"]
mod mock;
#[path = "../tk/run.rs"]
mod run;
#[path = "../session/mod.rs"]
mod session;
fn main() {
    vpmc::drive(session::dispatch);
}
