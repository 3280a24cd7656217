#[path = "../../derived/src/explore.rs"]
#[allow(dead_code)]
mod explore;
mod types;
use mc_model::report::*;

#[global_allocator]
static A: Counting = Counting;

fn main() {
    let id = std::env::args().nth(1).expect("usage: mc-e2e <property>");
    let c: &'static Check = Box::leak(Box::new(Check::new(&id)));
    install(c);
    explore::k13(c);
    std::process::exit(c.finish());
}
