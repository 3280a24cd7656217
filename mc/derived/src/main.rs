mod explore;
mod types;
use mc_codec::prim;
use mc_model::family::Group;
use mc_model::report::*;

#[global_allocator]
static A: Counting = Counting;

fn main() {
    let id = std::env::args().nth(1).expect("usage: mc-derived <property>");
    let c: &'static Check = Box::leak(Box::new(Check::new(&id)));
    install(c);
    // logging is on for these, off for C02, C04, C06 and K13: the arguments of log statements are evaluated only when it is on
    if !["C02", "C04", "C06"].contains(&id.as_str()) { mc_model::logsink::on(); }
    match id.as_str() {
        "C03" => { explore::decode_all(c, false); prim::c03_c04(c, false) }
        "C04" => { explore::decode_all(c, true); prim::c03_c04(c, true) }
        "C05" => { explore::c05(c); prim::c05(c) }
        "C06" => { explore::c06(c); prim::c06(c) }
        "C08" => explore::group(c, Group::Seq),
        "C09" => { explore::group(c, Group::Choice); prim::indices(c) }
        "C10" => explore::group(c, Group::SeqOf),
        "C11" => explore::group(c, Group::Open),
        "C12" => explore::c12(c),
        _ => { eprintln!("unknown property {}", id); std::process::exit(2) }
    }
    std::process::exit(c.finish());
}
