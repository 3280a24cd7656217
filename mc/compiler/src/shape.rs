//! What generated code says: every generated type as a tree, references expanded, names of helper types gone.
use std::collections::BTreeMap;
use syn::*;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Size { pub lb: Option<i128>, pub ub: Option<i128>, pub ext: bool }
pub const ANY: Size = Size { lb: None, ub: None, ext: false };
impl Size { fn new(lb: Option<i128>, ub: Option<i128>, ext: bool) -> Size { Size { lb: if lb == Some(0) && ub.is_none() { None } else { lb }, ub, ext } } }

/// The Rust integer behind a type: signed, bits.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Width { pub signed: bool, pub bits: u32 }
impl Width {
    pub fn holds(&self, v: i128) -> bool {
        if self.bits >= 128 { return self.signed || v >= 0 }
        if self.signed { -(1i128 << (self.bits - 1)) <= v && v < 1i128 << (self.bits - 1) } else { 0 <= v && v < 1i128 << self.bits }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Field { pub name: String, pub optional: bool, pub key: bool, pub ty: Shape }
#[derive(Clone, Debug, PartialEq)]
pub struct Alt { pub name: String, pub index: i128, pub addition: bool, pub ty: Shape }
#[derive(Clone, Debug, PartialEq)]
pub enum Shape {
    /// whatever it is
    Any,
    Int { lb: Option<i128>, ub: Option<i128>, ext: bool, width: Option<Width>, hold: (i128, i128) },
    Enum { lb: Option<i128>, ub: Option<i128>, ext: bool, consts: Vec<(String, i128)>, width: Option<Width> },
    Bits(Size), Octets(Size), Str(String, Size), Bool, Null, Oid,
    List(Size, Box<Shape>),
    Seq { ext: bool, fields: Vec<Field> },
    Choice { lb: Option<i128>, ub: Option<i128>, ext: bool, alts: Vec<Alt> },
    Open(Vec<(String, i128, Shape)>),
}

pub fn norm(name: &str) -> String {
    let n: String = name.trim_start_matches("r#").chars().filter(|c| *c != '_' && *c != '-').flat_map(|c| c.to_lowercase()).collect();
    n
}

pub struct Code { pub items: BTreeMap<String, Item>, pub consts: BTreeMap<String, Vec<(String, i128, Option<Width>)>>, pub order: Vec<String> }

#[derive(Default, Debug)]
struct Asn { kv: BTreeMap<String, String> }
impl Asn {
    fn of(attrs: &[Attribute]) -> std::result::Result<Asn, String> {
        let mut a = Asn::default();
        for at in attrs {
            if !at.path.is_ident("asn") { continue }
            let m = match at.parse_meta() { Ok(Meta::List(l)) => l, _ => return Err("unreadable asn attribute".into()) };
            for n in m.nested {
                match n {
                    NestedMeta::Meta(Meta::NameValue(nv)) => {
                        let v = match nv.lit { Lit::Str(s) => s.value(), Lit::Int(i) => i.base10_digits().to_string(), Lit::Bool(b) => b.value.to_string(), _ => return Err("literal in asn attribute".into()) };
                        let k = nv.path.get_ident().map(|i| i.to_string()).unwrap_or_default();
                        if a.kv.insert(k.clone(), v).is_some() { return Err(format!("attribute {} twice", k)) }
                    }
                    _ => return Err("unreadable asn attribute".into()),
                }
            }
        }
        Ok(a)
    }
    fn num(&self, k: &str) -> std::result::Result<Option<i128>, String> { self.kv.get(k).map(|v| v.parse().map_err(|_| format!("{} = {:?} is no number", k, v))).transpose() }
    fn flag(&self, k: &str) -> bool { self.kv.get(k).map_or(false, |v| v == "true") }
    fn size(&self) -> std::result::Result<Size, String> { Ok(Size::new(self.num("sz_lb")?, self.num("sz_ub")?, self.flag("sz_extensible"))) }
}

fn width(name: &str) -> Option<Width> {
    let bits = match &name[1..] { "8" => 8, "16" => 16, "32" => 32, "64" => 64, "128" => 128, _ => return None };
    match &name[..1] { "u" => Some(Width { signed: false, bits }), "i" => Some(Width { signed: true, bits }), _ => None }
}
fn path_of(t: &Type) -> Option<(String, Vec<Type>)> {
    if let Type::Path(p) = t {
        let s = p.path.segments.last()?;
        let args = match &s.arguments { PathArguments::AngleBracketed(a) => a.args.iter().filter_map(|g| if let GenericArgument::Type(t) = g { Some(t.clone()) } else { None }).collect(), _ => vec![] };
        Some((s.ident.to_string(), args))
    } else { None }
}

type R<T> = std::result::Result<T, String>;
impl Code {
    pub fn parse(text: &str) -> R<Code> {
        let f = parse_file(text).map_err(|e| format!("the generated code is no Rust: {}", e))?;
        let mut c = Code { items: BTreeMap::new(), consts: BTreeMap::new(), order: vec![] };
        for i in f.items {
            let name = match &i {
                Item::Struct(s) => s.ident.to_string(), Item::Enum(e) => e.ident.to_string(), Item::Type(t) => t.ident.to_string(),
                Item::Impl(im) => {
                    let (n, _) = path_of(&im.self_ty).ok_or("impl for what?")?;
                    for x in &im.items { if let ImplItem::Const(k) = x {
                        let v = match &k.expr { Expr::Lit(l) => lit(&l.lit), Expr::Unary(u) => match &*u.expr { Expr::Lit(l) => lit(&l.lit).map(|x| -x), _ => None }, _ => None }.ok_or("constant that is no number")?;
                        c.consts.entry(n.clone()).or_default().push((k.ident.to_string(), v, path_of(&k.ty).and_then(|(n, _)| width(&n))));
                    } }
                    continue
                }
                _ => continue,
            };
            if c.items.insert(name.clone(), i).is_some() { return Err(format!("the generated code defines {} twice", name)) }
            c.order.push(name);
        }
        Ok(c)
    }
    /// The generated types of a definition, whatever way its name is written.
    pub fn find(&self, asn_name: &str) -> Vec<&String> { let n = norm(asn_name); self.items.keys().filter(|k| norm(k) == n).collect() }
    pub fn shape_of_def(&self, asn_name: &str) -> R<Shape> {
        let v = self.find(asn_name);
        match v.len() { 1 => self.named(v[0], 0), 0 => Err(format!("no type is generated for {}", asn_name)), _ => {
            // names that differ only in hyphens or case: the exact one
            let exact: Vec<_> = v.iter().filter(|k| k.replace('_', "-") == asn_name).collect();
            if exact.len() == 1 { self.named(exact[0], 0) } else { Err(format!("{} types are generated for {}", v.len(), asn_name)) }
        } }
    }
    fn ty(&self, t: &Type, d: usize) -> R<Shape> { let (n, _) = path_of(t).ok_or("a type that is no path")?; self.named(&n, d) }
    pub fn named(&self, name: &str, d: usize) -> R<Shape> {
        if d > 400 { return Err("types nested without end".into()) }
        let item = self.items.get(name).ok_or_else(|| format!("type {} is used but not generated", name))?;
        match item {
            Item::Type(t) => self.ty(&t.ty, d + 1),
            Item::Struct(s) => {
                let a = Asn::of(&s.attrs).map_err(|e| format!("{}: {}", name, e))?;
                let inner = match &s.fields { Fields::Unnamed(u) if u.unnamed.len() == 1 => path_of(&u.unnamed[0].ty), _ => None };
                let int = inner.as_ref().and_then(|(n, _)| width(n));
                let is = |w: &str| inner.as_ref().map_or(false, |(n, _)| n == w);
                let need = |ok: bool| if ok { Ok(()) } else { Err(format!("{}: wrong Rust type {:?}", name, inner.as_ref().map(|x| x.0.clone()))) };
                let k = a.kv.get("type").cloned().unwrap_or_default();
                Ok(match k.as_str() {
                    "INTEGER" => { need(int.is_some())?; Shape::Int { lb: a.num("lb")?, ub: a.num("ub")?, ext: a.flag("extensible"), width: int, hold: (0, 0) } }
                    "ENUMERATED" => {
                        need(int.is_some())?;
                        let cs = self.consts.get(name).cloned().unwrap_or_default();
                        for (n, _, w) in &cs { if *w != int { return Err(format!("{}::{}: type of the constant is not that of the field", name, n)) } }
                        Shape::Enum { lb: a.num("lb")?, ub: a.num("ub")?, ext: a.flag("extensible"), consts: cs.into_iter().map(|(n, v, _)| (norm(&n), v)).collect(), width: int }
                    }
                    "BITSTRING" => { need(is("BitVec"))?; Shape::Bits(a.size()?) }
                    "OCTET-STRING" => { need(is("Vec"))?; Shape::Octets(a.size()?) }
                    "BOOLEAN" => { need(is("bool"))?; Shape::Bool }
                    "NULL" => Shape::Null,
                    "OBJECT-IDENTIFIER" => Shape::Oid,
                    "SEQUENCE-OF" => { need(is("Vec"))?; let el = inner.unwrap().1; Shape::List(a.size()?, Box::new(self.ty(el.first().ok_or("Vec of what?")?, d + 1)?)) }
                    "SEQUENCE" => {
                        let mut fields = vec![];
                        let mut idx = 0;
                        let fs: Vec<_> = match &s.fields { Fields::Named(n) => n.named.iter().collect(), Fields::Unit => vec![], _ => return Err(format!("{}: no named fields", name)) };
                        for f in fs {
                            let fa = Asn::of(&f.attrs).map_err(|e| format!("{}: {}", name, e))?;
                            let fname = f.ident.as_ref().unwrap().to_string();
                            let (n, args) = path_of(&f.ty).ok_or("field type")?;
                            let optional = n == "Option";
                            let oi = fa.num("optional_idx")?;
                            if optional != oi.is_some() || (optional && oi != Some(idx)) { return Err(format!("{}.{}: presence index {:?}, optional: {}, {} optional fields before it", name, fname, oi, optional, idx)) }
                            if optional { idx += 1 }
                            let t = if optional { self.ty(args.first().ok_or("Option of what?")?, d + 1)? } else { self.named(&n, d + 1)? };
                            fields.push(Field { name: norm(&fname), optional, key: fa.flag("key_field"), ty: t });
                        }
                        if a.num("optional_fields")?.unwrap_or(0) != idx { return Err(format!("{}: {:?} presence bits for {} optional fields", name, a.num("optional_fields")?, idx)) }
                        Shape::Seq { ext: a.flag("extensible"), fields }
                    }
                    "UTF8String" | "IA5String" | "VisibleString" | "PrintableString" | "CHARACTER-STRING" => { need(is("String"))?; Shape::Str(k.clone(), a.size()?) }
                    _ => return Err(format!("{}: unknown type {:?}", name, k)),
                })
            }
            Item::Enum(e) => {
                let a = Asn::of(&e.attrs).map_err(|x| format!("{}: {}", name, x))?;
                let k = a.kv.get("type").cloned().unwrap_or_default();
                let mut alts = vec![];
                for v in &e.variants {
                    let va = Asn::of(&v.attrs).map_err(|x| format!("{}: {}", name, x))?;
                    let t = match &v.fields { Fields::Unnamed(u) if u.unnamed.len() == 1 => self.ty(&u.unnamed[0].ty, d + 1)?, _ => return Err(format!("{}::{}: not one field", name, v.ident)) };
                    alts.push(Alt { name: norm(&v.ident.to_string()), index: va.num("key")?.ok_or_else(|| format!("{}::{} has no key", name, v.ident))?, addition: va.flag("extended"), ty: t });
                }
                match k.as_str() {
                    "CHOICE" => Ok(Shape::Choice { lb: a.num("lb")?, ub: a.num("ub")?, ext: a.flag("extensible"), alts }),
                    "OPEN" | "" => Ok(Shape::Open(alts.into_iter().map(|a| (a.name, a.index, a.ty)).collect())),
                    _ => Err(format!("{}: unknown type {:?}", name, k)),
                }
            }
            _ => Err(format!("{} is no type", name)),
        }
    }
}
fn lit(l: &Lit) -> Option<i128> { if let Lit::Int(i) = l { i.base10_digits().parse().ok() } else { None } }

/// What is compared: the bounds and structure, or only whether the Rust integers are wide enough.
#[derive(Clone, Copy, PartialEq)]
pub enum What { Structure, Widths }

/// First difference between the expected and the generated shape.
pub fn differ(what: What, want: &Shape, got: &Shape, at: &str) -> Option<String> {
    use Shape::*;
    let st = what == What::Structure;
    let kind = |s: &Shape| format!("{:?}", s).split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string();
    match (want, got) {
        (Any, _) => None,
        (Int { lb, ub, ext, hold, .. }, Int { lb: l, ub: u, ext: e, width, .. }) => {
            if st && (lb, ub, ext) != (l, u, e) { return Some(format!("{}: INTEGER bounds {:?}..{:?}{}, expected {:?}..{:?}{}", at, l, u, x(*e), lb, ub, x(*ext))) }
            let w = width.unwrap();
            if !st && !(w.holds(hold.0) && w.holds(hold.1)) { return Some(format!("{}: {}{} does not hold {}..{}", at, if w.signed { "i" } else { "u" }, w.bits, hold.0, hold.1)) }
            None
        }
        (Enum { lb, ub, ext, consts, .. }, Enum { lb: l, ub: u, ext: e, consts: c, width }) => {
            if st && (lb, ub, ext) != (l, u, e) { return Some(format!("{}: ENUMERATED bounds {:?}..{:?}{}, expected {:?}..{:?}{}", at, l, u, x(*e), lb, ub, x(*ext))) }
            let (mut a, mut b) = (consts.clone(), c.clone()); a.sort(); b.sort();
            if st && a != b { return Some(format!("{}: constants {:?}, expected {:?}", at, b, a)) }
            if let (Some(w), Some(u)) = (width, ub) { if !w.holds(*u) || !w.holds(0) { return Some(format!("{}: {} bits do not hold {} items", at, w.bits, u + 1)) } }
            None
        }
        (Bits(a), Bits(b)) | (Octets(a), Octets(b)) => size(st, a, b, at),
        (Str(k, a), Str(l, b)) => if st && k != l { Some(format!("{}: {}, expected {}", at, l, k)) } else { size(st, a, b, at) },
        (Bool, Bool) | (Null, Null) | (Oid, Oid) => None,
        (List(a, t), List(b, u)) => size(st, a, b, at).or_else(|| differ(what, t, u, &format!("{}[]", at))),
        (Seq { ext, fields }, Seq { ext: e, fields: f }) => {
            if st && ext != e { return Some(format!("{}: extensible {}, expected {}", at, e, ext)) }
            let n = |v: &Vec<Field>| v.iter().map(|f| format!("{}{}{}", f.name, if f.optional { "?" } else { "" }, if f.key { " (key)" } else { "" })).collect::<Vec<_>>();
            if n(fields) != n(f) { return if st { Some(format!("{}: fields {:?}, expected {:?}", at, n(f), n(fields))) } else { None } }
            fields.iter().zip(f).find_map(|(a, b)| differ(what, &a.ty, &b.ty, &format!("{}.{}", at, a.name)))
        }
        (Choice { lb, ub, ext, alts }, Choice { lb: l, ub: u, ext: e, alts: b }) => {
            if st && (lb, ub, ext) != (l, u, e) { return Some(format!("{}: CHOICE indices {:?}..{:?}{}, expected {:?}..{:?}{}", at, l, u, x(*e), lb, ub, x(*ext))) }
            let n = |v: &Vec<Alt>| { let mut r = v.iter().map(|f| format!("{}{}={}", f.name, if f.addition { "+" } else { "" }, f.index)).collect::<Vec<_>>(); r.sort(); r };
            if n(alts) != n(b) { return if st { Some(format!("{}: alternatives {:?}, expected {:?}", at, n(b), n(alts))) } else { None } }
            alts.iter().find_map(|a| differ(what, &a.ty, &b.iter().find(|z| z.name == a.name).unwrap().ty, &format!("{}.{}", at, a.name)))
        }
        (Open(a), Open(b)) => {
            // the names of the alternatives are the compiler's business
            let n = |v: &Vec<(String, i128, Shape)>| { let mut r = v.iter().map(|f| f.1).collect::<Vec<_>>(); r.sort(); r };
            if n(a) != n(b) { return if st { Some(format!("{}: keys {:?}, expected {:?}", at, n(b), n(a))) } else { None } }
            a.iter().find_map(|(_, k, t)| differ(what, t, &b.iter().find(|z| z.1 == *k).unwrap().2, &format!("{}[key {}]", at, k)))
        }
        _ => if st { Some(format!("{}: {}, expected {}", at, kind(got), kind(want))) } else { None },
    }
}
fn x(e: bool) -> &'static str { if e { ", ..." } else { "" } }
fn size(st: bool, a: &Size, b: &Size, at: &str) -> Option<String> {
    if st && a != b { Some(format!("{}: size {:?}..{:?}{}, expected {:?}..{:?}{}", at, b.lb, b.ub, x(b.ext), a.lb, a.ub, x(a.ext))) } else { None }
}
