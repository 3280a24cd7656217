

use mc_codec::prim;
use mc_model::report::*;

#[global_allocator]
static A: Counting = Counting;

fn main() {
    let id = std::env::args().nth(1).expect("usage: mc-codec <property>");
    let c: &'static Check = Box::leak(Box::new(Check::new(&id)));
    install(c);
    // logging is on for these, off for C02, C04, C06 and K13: the arguments of log statements are evaluated only when it is on
    if !["C02", "C04", "C06"].contains(&id.as_str()) { mc_model::logsink::on(); }
    match id.as_str() {
        "C01" => prim::c01(c),
        "C02" => prim::c02(c),
        "C03" => prim::c03_c04(c, false),
        "C04" => prim::c03_c04(c, true),
        "C05" => prim::c05(c),
        "C06" => prim::c06(c),
        "C07" => prim::c07(c),
        "C13" => mc_codec::buffer::c13(c),
        _ => { eprintln!("unknown property {}", id); std::process::exit(2) }
    }
    std::process::exit(c.finish());
}
