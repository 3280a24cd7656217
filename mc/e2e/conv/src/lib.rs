//! How generated types stand for model values.
use asn1_codecs::aper::{AperCodec, AperCodecData};
pub use mc_model::ty::Val;

pub trait Conv: Sized { fn to(&self) -> Val; fn from(v: &Val) -> Option<Self>; }
/// None: the value has no representation in the Rust type.
pub type Enc = fn(&Val, &mut AperCodecData) -> Option<Result<(), String>>;
pub type Dec = fn(&mut AperCodecData) -> Result<Val, String>;

pub fn enc<T: Conv + AperCodec>(v: &Val, d: &mut AperCodecData) -> Option<Result<(), String>> {
    Some(T::from(v)?.encode(d).map_err(|e| e.to_string()))
}
pub fn dec<T: Conv + AperCodec<Output = T>>(d: &mut AperCodecData) -> Result<Val, String> {
    let r = T::decode(d);
    mc_model::report::unlimit();
    r.map(|x| x.to()).map_err(|e| e.to_string())
}
