//! The generated types (see build.rs) behind two function pointers per type.
#![allow(unused_variables, non_camel_case_types)]
use asn1_codecs::aper::{AperCodec, AperCodecData};
use mc_model::ty::Val;

pub trait Conv: Sized { fn to(&self) -> Val; fn from(v: &Val) -> Option<Self>; }
/// None: the value has no representation in the Rust type.
pub type Enc = fn(&Val, &mut AperCodecData) -> Option<Result<(), String>>;
pub type Dec = fn(&mut AperCodecData) -> Result<Val, String>;

fn enc<T: Conv + AperCodec>(v: &Val, d: &mut AperCodecData) -> Option<Result<(), String>> {
    Some(T::from(v)?.encode(d).map_err(|e| e.to_string()))
}
fn dec<T: Conv + AperCodec<Output = T>>(d: &mut AperCodecData) -> Result<Val, String> {
    let r = T::decode(d);
    mc_model::report::unlimit();
    r.map(|x| x.to()).map_err(|e| e.to_string())
}
pub fn listed() -> Vec<(mc_model::family::Group, mc_model::ty::Ty)> { mc_model::family::family() }
/// (number in the list, encoder, decoder)
pub fn table() -> Vec<(usize, Enc, Dec)> { CASES.iter().enumerate().map(|(i, (e, d))| (i, *e, *d)).collect() }
include!(concat!(env!("OUT_DIR"), "/types.rs"));
