//! Emits one Rust type with `#[derive(AperCodec)]` per distinct type of the family, with conversions
//! from and to model values.
use mc_model::{family::family, ty::*};
use std::collections::HashMap;
use std::fmt::Write;

struct Gen { names: HashMap<Ty, String>, out: Vec<String> }

fn rust_int(r: &Rng) -> &'static str {
    if r.ext { return "i128" }
    match (r.lb, r.ub) {
        (Some(l), Some(u)) if l >= 0 => if u <= u8::MAX as i128 { "u8" } else if u <= u16::MAX as i128 { "u16" } else if u <= u32::MAX as i128 { "u32" } else if u <= u64::MAX as i128 { "u64" } else { "i128" },
        (Some(l), Some(u)) => if l >= -128 && u < 128 { "i8" } else if l >= -32768 && u < 32768 { "i16" } else if l >= i32::MIN as i128 && u <= i32::MAX as i128 { "i32" } else if l >= i64::MIN as i128 && u <= i64::MAX as i128 { "i64" } else { "i128" },
        _ => "i128",
    }
}
fn bounds(r: &Rng, p: &str) -> String {
    let mut s = String::new();
    if let Some(l) = r.lb { write!(s, ", {}lb = \"{}\"", p, l).unwrap(); }
    if let Some(u) = r.ub { write!(s, ", {}ub = \"{}\"", p, u).unwrap(); }
    if r.ext { write!(s, ", {}extensible = true", p).unwrap(); }
    s
}

impl Gen {
    fn ty(&mut self, t: &Ty) -> String {
        if let Some(n) = self.names.get(t) { return n.clone() }
        let mut o = String::new();
        let n;
        macro_rules! newtype { ($kind:expr, $attr:expr, $rt:expr, $to:expr, $from:expr) => {{
            n = format!("T{}", self.names.len());
            write!(o, "#[derive(asn1_codecs_derive::AperCodec)]\n#[asn(type = \"{}\"{})]\npub struct {}(pub {});\nimpl Conv for {} {{ fn to(&self) -> Val {{ {} }} fn from(v: &Val) -> Option<Self> {{ {} }} }}\n", $kind, $attr, n, $rt, n, $to, $from).unwrap();
        }} }
        match t {
            Ty::Bool => newtype!("BOOLEAN", "", "bool", "Val::Bool(self.0)", "if let Val::Bool(b) = v { Some(Self(*b)) } else { None }"),
            Ty::Null => {
                n = format!("T{}", self.names.len());
                write!(o, "#[derive(asn1_codecs_derive::AperCodec)]\n#[asn(type = \"NULL\")]\npub struct {}; impl Conv for {} {{ fn to(&self) -> Val {{ Val::Null }} fn from(_: &Val) -> Option<Self> {{ Some(Self {{}}) }} }}\n", n, n).unwrap();
            }
            Ty::Int(r) => newtype!("INTEGER", bounds(r, ""), rust_int(r), "Val::Int(self.0 as i128)", "if let Val::Int(i) = v { std::convert::TryFrom::try_from(*i).ok().map(Self) } else { None }"),
            Ty::Enum(k, x) => newtype!("ENUMERATED", bounds(&Rng { lb: Some(0), ub: Some(*k as i128 - 1), ext: *x }, ""), if *k <= 256 { "u8" } else { "u32" }, "Val::Enum(self.0 as i128)", "if let Val::Enum(i) = v { std::convert::TryFrom::try_from(*i).ok().map(Self) } else { None }"),
            Ty::Bits(r) => newtype!("BITSTRING", bounds(r, "sz_"), "bitvec::vec::BitVec<u8, bitvec::order::Msb0>", "Val::Bits(self.0.iter().map(|b| *b).collect())", "if let Val::Bits(b) = v { Some(Self(b.iter().copied().collect())) } else { None }"),
            Ty::Octets(r) => newtype!("OCTET-STRING", bounds(r, "sz_"), "Vec<u8>", "Val::Octets(self.0.clone())", "if let Val::Octets(b) = v { Some(Self(b.clone())) } else { None }"),
            Ty::Str(k, r) => newtype!(match k { StrKind::Visible => "VisibleString", StrKind::Printable => "PrintableString", StrKind::Utf8 => "UTF8String" }, bounds(r, "sz_"), "String", "Val::Str(self.0.clone().into_bytes())", "if let Val::Str(b) = v { String::from_utf8(b.clone()).ok().map(Self) } else { None }"),
            Ty::SeqOf(r, el) => {
                let e = self.ty(el);
                newtype!("SEQUENCE-OF", bounds(r, "sz_"), format!("Vec<{}>", e), "Val::List(self.0.iter().map(|x| x.to()).collect())", format!("if let Val::List(l) = v {{ Some(Self(l.iter().map(|x| <{} as Conv>::from(x)).collect::<Option<Vec<_>>>()?)) }} else {{ None }}", e))
            }
            Ty::Seq(comps, x) => {
                let cs: Vec<String> = comps.iter().map(|c| self.ty(&c.ty)).collect();
                n = format!("T{}", self.names.len());
                let opt = comps.iter().filter(|c| c.optional).count();
                write!(o, "#[derive(asn1_codecs_derive::AperCodec)]\n#[asn(type = \"SEQUENCE\", extensible = {}{})]\npub struct {} {{", x, if opt > 0 { format!(", optional_fields = {}", opt) } else { String::new() }, n).unwrap();
                let (mut to, mut from, mut oi) = (String::new(), String::new(), 0);
                for (j, (c, cn)) in comps.iter().zip(&cs).enumerate() {
                    if c.optional {
                        write!(o, " #[asn(optional_idx = {}{})] pub c{}: Option<{}>,", oi, if c.key { ", key_field = true" } else { "" }, j, cn).unwrap(); oi += 1;
                        write!(to, "self.c{}.as_ref().map(|x| x.to()),", j).unwrap();
                        write!(from, "c{}: match &s[{}] {{ Some(x) => Some(<{} as Conv>::from(x)?), None => None }},", j, j, cn).unwrap();
                    } else {
                        write!(o, " {}pub c{}: {},", if c.key { "#[asn(key_field = true)] " } else { "" }, j, cn).unwrap();
                        write!(to, "Some(self.c{}.to()),", j).unwrap();
                        write!(from, "c{}: <{} as Conv>::from(s[{}].as_ref()?)?,", j, cn, j).unwrap();
                    }
                }
                write!(o, " }}\nimpl Conv for {} {{ fn to(&self) -> Val {{ Val::Seq(vec![{}]) }} fn from(v: &Val) -> Option<Self> {{ if let Val::Seq(_s) = v {{ let s = _s; if s.len() != {} {{ return None }} Some(Self {{ {} }}) }} else {{ None }} }} }}\n", n, to, comps.len(), from).unwrap();
            }
            Ty::Choice(alts, x, adds) => {
                let cs: Vec<String> = alts.iter().map(|c| self.ty(c)).collect();
                let ad: Vec<String> = adds.iter().map(|c| self.ty(c)).collect();
                n = format!("T{}", self.names.len());
                write!(o, "#[derive(asn1_codecs_derive::AperCodec)]\n#[asn(type = \"CHOICE\", lb = \"0\", ub = \"{}\", extensible = {})]\npub enum {} {{", alts.len() - 1, x, n).unwrap();
                let (mut to, mut from) = (String::new(), String::new());
                for (j, cn) in cs.iter().enumerate() {
                    write!(o, " #[asn(key = {}, extended = false)] V{}({}),", j, j, cn).unwrap();
                    write!(to, "Self::V{}(x) => Val::Choice({}, Box::new(x.to())),", j, j).unwrap();
                    write!(from, "Val::Choice({}, x) => Self::V{}(<{} as Conv>::from(x)?),", j, j, cn).unwrap();
                }
                for (j, cn) in ad.iter().enumerate() {
                    write!(o, " #[asn(key = {}, extended = true)] X{}({}),", j, j, cn).unwrap();
                    write!(to, "Self::X{}(x) => Val::Choice({}, Box::new(x.to())),", j, alts.len() + j).unwrap();
                    write!(from, "Val::Choice({}, x) => Self::X{}(<{} as Conv>::from(x)?),", alts.len() + j, j, cn).unwrap();
                }
                write!(o, " }}\nimpl Conv for {} {{ fn to(&self) -> Val {{ match self {{ {} }} }} fn from(v: &Val) -> Option<Self> {{ Some(match v {{ {} _ => return None }}) }} }}\n", n, to, from).unwrap();
            }
            Ty::Open(table) => {
                let cs: Vec<(i128, String)> = table.iter().map(|(k, c)| (*k, self.ty(c))).collect();
                n = format!("T{}", self.names.len());
                write!(o, "#[derive(asn1_codecs_derive::AperCodec)]\n#[asn(type = \"OPEN\")]\npub enum {} {{", n).unwrap();
                let (mut to, mut from) = (String::new(), String::new());
                for (k, cn) in &cs {
                    let n = k.to_string().replace('-', "m");
                    write!(o, " #[asn(key = {})] V{}({}),", k, n, cn).unwrap();
                    write!(to, "Self::V{}(ref x) => Val::Open({}, Box::new(x.to())),", n, k).unwrap();
                    write!(from, "Val::Open({}, x) => Self::V{}(<{} as Conv>::from(x)?),", k, n, cn).unwrap();
                }
                write!(o, " }}\nimpl Conv for {} {{ fn to(&self) -> Val {{ match *self {{ {} }} }} fn from(v: &Val) -> Option<Self> {{ Some(match v {{ {} _ => return None }}) }} }}\n", n, to, from).unwrap();
            }
            _ => panic!("no derived form of {:?}", t),
        }
        // found again by tools/derive_errors.py when the type does not compile
        let kind = match t { Ty::Seq(..) => "SEQUENCE", Ty::SeqOf(..) => "SEQUENCE OF", Ty::Choice(..) | Ty::Enum(..) => "CHOICE", Ty::Open(..) => "OPEN", _ => "other" };
        self.out.push(format!("// @{}@ {:?}\n{}", kind, t, o));
        self.names.insert(t.clone(), n.clone());
        n
    }
}

fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    let mut g = Gen { names: HashMap::new(), out: vec![] };
    let mut table = String::from("// @table@ -\npub static CASES: &[(Enc, Dec)] = &[\n");
    for (_, t) in family() {
        let n = g.ty(&t);
        write!(table, "(enc::<{}>, dec::<{}>),\n", n, n).unwrap();
    }
    // several modules, so that they are compiled in parallel
    let mut parts = String::new();
    let n = (g.out.len() + 15) / 16;
    for (k, c) in g.out.chunks(n).enumerate() {
        write!(parts, "mod m{} {{ use super::*;\n{} }}\npub use m{}::*;\n", k, c.concat(), k).unwrap();
    }
    table.push_str("];\n");
    let dir = std::path::PathBuf::from(std::env::var("OUT_DIR").unwrap());
    std::fs::write(dir.join("types.rs"), parts + &table).unwrap();
}
