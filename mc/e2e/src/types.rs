//! The code the compiler generated for the specifications of `mc_model::e2e`, behind two function pointers per type.
pub use mc_e2e_conv::{Dec, Enc};
use mc_model::{family::Group, ty::Ty};

pub fn listed() -> Vec<(Group, Ty)> {
    let dir = std::path::PathBuf::from(std::env::var("MC_E2E_DIR").expect("MC_E2E_DIR"));
    let x = mc_model::e2e::Extra::read(&std::fs::read_to_string(dir.join("extra.txt")).expect("extra.txt"));
    mc_model::e2e::list(&x).into_iter().map(|e| (e.g, e.ty)).collect()
}
/// (number of the specification, encoder, decoder)
pub fn table() -> Vec<(usize, Enc, Dec)> {
    [mc_e2e_p0::CASES, mc_e2e_p1::CASES, mc_e2e_p2::CASES, mc_e2e_p3::CASES, mc_e2e_p4::CASES, mc_e2e_p5::CASES, mc_e2e_p6::CASES, mc_e2e_p7::CASES].concat()
}
