//! The code under test, driven through its public primitive API with model types and values.
use asn1_codecs::aper::{decode as d, encode as e, AperCodecData};
use bitvec::prelude::*;
use mc_model::ty::*;

pub fn to_bv(b: &[bool]) -> BitVec<u8, Msb0> { let mut v = BitVec::with_capacity(b.len()); for x in b { v.push(*x) } v }
pub fn from_bv(b: &BitSlice<u8, Msb0>) -> Vec<bool> { b.iter().map(|x| *x).collect() }

pub fn encode(c: &mut AperCodecData, ty: &Ty, v: &Val) -> Result<(), String> {
    let s = |e: asn1_codecs::aper::AperCodecError| e.to_string();
    match (ty, v) {
        (Ty::Bool, Val::Bool(b)) => e::encode_bool(c, *b).map_err(s),
        (Ty::Int(r), Val::Int(i)) => e::encode_integer(c, r.lb, r.ub, r.ext, *i, false).map_err(s),
        (Ty::Enum(n, x), Val::Enum(i)) => e::encode_enumerated(c, Some(0), Some(*n as i128 - 1), *x, *i, false).map_err(s),
        (Ty::ChoiceIdx(r), Val::Int(i)) => e::encode_choice_idx(c, r.lb.unwrap(), r.ub.unwrap(), r.ext, *i, false).map_err(s),
        (Ty::SeqHdr(_, x), Val::Bits(p)) => e::encode_sequence_header(c, *x, &to_bv(p), false).map_err(s),
        (Ty::Bits(r), Val::Bits(b)) => e::encode_bitstring(c, r.lb, r.ub, r.ext, &to_bv(b), false).map_err(s),
        (Ty::Octets(r), Val::Octets(b)) => e::encode_octetstring(c, r.lb, r.ub, r.ext, b, false).map_err(s),
        (Ty::Str(k, r), Val::Str(b)) => {
            let st = String::from_utf8(b.clone()).unwrap();
            match k {
                StrKind::Visible => e::encode_visible_string(c, r.lb, r.ub, r.ext, &st, false),
                StrKind::Printable => e::encode_printable_string(c, r.lb, r.ub, r.ext, &st, false),
                StrKind::Utf8 => e::encode_utf8_string(c, r.lb, r.ub, r.ext, &st, false),
            }.map_err(s)
        }
        (Ty::Len(r), Val::Int(n)) => e::encode_length_determinent(c, r.lb, r.ub, false, *n as usize).map_err(s),
        (Ty::SmallLen, Val::Int(n)) => e::encode_length_determinent(c, None, None, true, *n as usize).map_err(s),
        _ => panic!("harness: not a primitive: {:?}", ty),
    }
}

/// Value and, for extensible integers, whether the decoder flagged it as an extension value.
pub fn decode(c: &mut AperCodecData, ty: &Ty) -> Result<(Val, Option<bool>), String> {
    let s = |e: asn1_codecs::aper::AperCodecError| e.to_string();
    Ok((match ty {
        Ty::Bool => Val::Bool(d::decode_bool(c).map_err(s)?),
        Ty::Int(r) => { let (v, x) = d::decode_integer(c, r.lb, r.ub, r.ext).map_err(s)?; return Ok((Val::Int(v), Some(x))) }
        Ty::Enum(n, x) => { let (v, x) = d::decode_enumerated(c, Some(0), Some(*n as i128 - 1), *x).map_err(s)?; if x { Val::EnumExt(v) } else { Val::Enum(v) } }
        Ty::ChoiceIdx(r) => { let (v, x) = d::decode_choice_idx(c, r.lb.unwrap(), r.ub.unwrap(), r.ext).map_err(s)?; if x { Val::ChoiceExt(v) } else { Val::Int(v) } }
        Ty::SeqHdr(n, x) => { let (b, x) = d::decode_sequence_header(c, *x, *n as usize).map_err(s)?; let mut v = vec![x]; v.extend(from_bv(&b)); Val::Bits(v) }
        Ty::Bits(r) => Val::Bits(from_bv(&d::decode_bitstring(c, r.lb, r.ub, r.ext).map_err(s)?)),
        Ty::Octets(r) => Val::Octets(d::decode_octetstring(c, r.lb, r.ub, r.ext).map_err(s)?),
        Ty::Str(k, r) => Val::Str(match k {
            StrKind::Visible => d::decode_visible_string(c, r.lb, r.ub, r.ext),
            StrKind::Printable => d::decode_printable_string(c, r.lb, r.ub, r.ext),
            StrKind::Utf8 => d::decode_utf8_string(c, r.lb, r.ub, r.ext),
        }.map_err(s)?.into_bytes()),
        Ty::Len(r) => Val::Int(d::decode_length_determinent(c, r.lb, r.ub, false).map_err(s)? as i128),
        Ty::SmallLen => Val::Int(d::decode_length_determinent(c, None, None, true).map_err(s)? as i128),
        _ => panic!("harness: not a primitive: {:?}", ty),
    }, None))
}

/// What a decode of a header-like type is expected to return (the model encodes `SeqHdr` without its flag).
pub fn expected_decoded(ty: &Ty, v: &Val) -> Val {
    match (ty, v) { (Ty::SeqHdr(..), Val::Bits(b)) => { let mut x = vec![false]; x.extend(b); Val::Bits(x) } _ => v.clone() }
}

/// Codec data holding exactly these bits (not padded to octets).
pub fn data_of_bits(b: &[bool]) -> AperCodecData {
    let mut c = AperCodecData::new();
    for x in b { e::encode_bool(&mut c, *x).unwrap(); }
    c
}
pub fn skip(c: &mut AperCodecData, n: usize) { for _ in 0..n { d::decode_bool(c).expect("harness: skip"); } }
/// Bits left to read (destructive).
pub fn remaining(c: &mut AperCodecData) -> usize { let mut n = 0; while d::decode_bool(c).is_ok() { n += 1 } n }

/// Marker appended after the operation under test; has no border, so its position is unambiguous.
pub const MARK: [bool; 9] = [true, false, false, false, false, false, false, false, false];
pub fn put_mark(c: &mut AperCodecData) { for x in MARK { e::encode_bool(c, x).unwrap(); } }

/// Does the buffer hold exactly `want` followed by the marker?
pub fn holds(c: &AperCodecData, want: &[bool]) -> bool {
    let got = c.get_inner().unwrap();
    let mut w = want.to_vec();
    w.extend(MARK);
    if got.len() != (w.len() + 7) / 8 { return false }
    w.iter().enumerate().all(|(i, x)| (got[i / 8] >> (7 - i % 8)) & 1 == *x as u8)
}
pub fn show(b: &[bool]) -> String {
    let s: String = b.iter().take(400).enumerate().map(|(i, x)| format!("{}{}", if i > 0 && i % 8 == 0 { " " } else { "" }, *x as u8)).collect();
    if b.len() > 400 { format!("{}.. ({} bits)", s, b.len()) } else { s }
}
pub fn show_data(c: &AperCodecData) -> String {
    let v = c.get_inner().unwrap();
    let b = mc_model::refaper::from_bytes(&v);
    // strip marker: last 1 bit starts it
    match b.iter().rposition(|x| *x) { Some(p) => show(&b[..p]), None => show(&b) }
}
