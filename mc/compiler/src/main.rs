mod api;
mod errors;
mod asn;
mod cases;
mod constructed;
mod e2e;
mod ints;
mod lex;
mod names;
mod params;
mod run;
mod shape;
mod term;
use mc_model::report::*;

#[global_allocator]
static A: Counting = Counting;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("--serve") => run::serve(),
        Some("--api") => api::serve(),
        Some("--sweep") => {
            let th = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
            run::sweep_child(term::groups(th), &a[3], a[4].parse().unwrap(), a[5].parse().unwrap(), a[6].parse().unwrap())
        }
        Some("--compile") => {
            let files: Vec<String> = a[2..].iter().map(|f| std::fs::read_to_string(f).unwrap()).collect();
            match run::Service::new().compile(&files) { run::Out::Code(s) => println!("{}", s), o => println!("{}", o.brief()) }
            return
        }
        _ => {}
    }
    let id = a.get(1).cloned().expect("usage: mc-compiler <property>");
    let c: &'static Check = Box::leak(Box::new(Check::new(&id)));
    install(c);
    match id.as_str() {
        "K01" => lex::k01(c),
        "K02" => term::k02(c),
        "K03" => ints::ints(c, shape::What::Structure),
        "K04" => ints::ints(c, shape::What::Widths),
        "K05" => ints::sizes(c),
        "K06" => constructed::sequences(c),
        "K08" => params::params(c),
        "K09" => params::object_sets(c),
        "K07" => constructed::choices(c),
        "K11" => names::definitions(c),
        "K15" => api::api(c),
        "K16" => errors::errors(c),
        "K12" => names::references(c),
        // K13 DIR: write the crate; K13 DIR LOG: read the errors of the Rust compiler
        "K13" => {
            let dir = std::path::PathBuf::from(&a[2]);
            if let Some(l) = a.get(3) {
                e2e::errors(c, &dir, &std::fs::read_to_string(l).unwrap_or_default());
                if c.violations_so_far() == 0 { std::process::exit(2) }
            } else {
                e2e::write(c, &dir);
                // on to the generated crate, which reports
                if c.violations_so_far() == 0 { std::process::exit(0) }
            }
        }
        _ => { eprintln!("unknown property {}", id); std::process::exit(2) }
    }
    std::process::exit(c.finish());
}
