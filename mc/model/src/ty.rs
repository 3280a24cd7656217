//! Abstract ASN.1 types and values as PER sees them.
use std::fmt;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, Default)]
pub struct Rng {
    pub lb: Option<i128>,
    pub ub: Option<i128>,
    pub ext: bool,
}
impl Rng {
    pub fn new(lb: i128, ub: i128) -> Self { Rng { lb: Some(lb), ub: Some(ub), ext: false } }
    pub fn ext(lb: i128, ub: i128) -> Self { Rng { lb: Some(lb), ub: Some(ub), ext: true } }
    pub fn none() -> Self { Rng::default() }
    pub fn contains(&self, v: i128) -> bool {
        self.lb.map_or(true, |l| v >= l) && self.ub.map_or(true, |u| v <= u)
    }
    pub fn unbounded(&self) -> bool { self.lb.is_none() && self.ub.is_none() }
}
impl fmt::Display for Rng {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let s = |o: Option<i128>, d: &str| o.map(|v| v.to_string()).unwrap_or(d.to_string());
        write!(f, "({}..{}{})", s(self.lb, "MIN"), s(self.ub, "MAX"), if self.ext { ",..." } else { "" })
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum StrKind { Visible, Printable, Utf8 }

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Comp {
    pub ty: Ty,
    pub optional: bool,
    /// This component is the key for `Ty::Open` components that follow it in the same sequence.
    pub key: bool,
    /// The component that is the key of this `Ty::Open` component (otherwise the last one before it).
    pub key_at: Option<usize>,
}
impl Comp {
    pub fn m(ty: Ty) -> Comp { Comp { ty, optional: false, key: false, key_at: None } }
    pub fn o(ty: Ty) -> Comp { Comp { ty, optional: true, key: false, key_at: None } }
    pub fn k(ty: Ty) -> Comp { Comp { ty, optional: false, key: true, key_at: None } }
    pub fn at(ty: Ty, optional: bool, i: usize) -> Comp { Comp { ty, optional, key: false, key_at: Some(i) } }
    pub fn ok(ty: Ty) -> Comp { Comp { ty, optional: true, key: true, key_at: None } }
}

/// The index of the component that is the key of component `i`.
pub fn key_index(comps: &[Comp], i: usize) -> Option<usize> { comps[i].key_at.or_else(|| (0..i).rev().find(|j| comps[*j].key)) }

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Ty {
    Bool,
    Null,
    Int(Rng),
    /// number of root items, extensible
    Enum(u32, bool),
    Bits(Rng),
    Octets(Rng),
    Str(StrKind, Rng),
    /// components, extensible
    Seq(Vec<Comp>, bool),
    SeqOf(Rng, Box<Ty>),
    /// root alternatives, extensible, number of known extension alternatives' types
    Choice(Vec<Ty>, bool, Vec<Ty>),
    /// table (key, type)
    Open(Vec<(i128, Ty)>),
    /// Only at the primitive API: a bare length determinant, a choice index, a sequence header
    Len(Rng),
    SmallLen,
    ChoiceIdx(Rng),
    SeqHdr(u32, bool),
}

#[derive(Clone, PartialEq, Eq, Hash)]
pub enum Val {
    Bool(bool),
    Null,
    Int(i128),
    /// root index
    Enum(i128),
    /// extension index (0-based)
    EnumExt(i128),
    Bits(Vec<bool>),
    Octets(Vec<u8>),
    Str(Vec<u8>),
    Seq(Vec<Option<Val>>),
    /// root components; extension additions unknown to the decoder, with the octets of those present
    SeqX(Vec<Option<Val>>, Vec<Option<Vec<u8>>>),
    List(Vec<Val>),
    Choice(usize, Box<Val>),
    ChoiceExt(i128),
    /// key, content
    Open(i128, Box<Val>),
}

impl fmt::Debug for Val {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Val::Bool(b) => write!(f, "{}", if *b { "TRUE" } else { "FALSE" }),
            Val::Null => write!(f, "NULL"),
            Val::Int(i) => write!(f, "{}", i),
            Val::Enum(i) => write!(f, "#{}", i),
            Val::EnumExt(i) => write!(f, "#ext{}", i),
            Val::Bits(b) => {
                if b.len() <= 64 {
                    let s: String = b.iter().map(|x| if *x { '1' } else { '0' }).collect();
                    write!(f, "'{}'B", s)
                } else { write!(f, "<{} bits h={:x}>", b.len(), crate::report::hash_of(b)) }
            }
            Val::Octets(o) => {
                if o.len() <= 32 {
                    let s: String = o.iter().map(|x| format!("{:02X}", x)).collect();
                    write!(f, "'{}'H", s)
                } else { write!(f, "<{} octets h={:x}>", o.len(), crate::report::hash_of(o)) }
            }
            Val::Str(o) => {
                if o.len() <= 40 { write!(f, "{:?}", String::from_utf8_lossy(o)) }
                else { write!(f, "<string of {} bytes h={:x}>", o.len(), crate::report::hash_of(o)) }
            }
            Val::Seq(c) => {
                write!(f, "{{")?;
                for (i, x) in c.iter().enumerate() {
                    if i > 0 { write!(f, ", ")?; }
                    match x { Some(v) => write!(f, "{:?}", v)?, None => write!(f, "-")? }
                }
                write!(f, "}}")
            }
            Val::SeqX(c, a) => {
                write!(f, "{:?}+additions", Val::Seq(c.clone()))?;
                if a.len() > 12 { write!(f, "<{} of which {} present h={:x}>", a.len(), a.iter().flatten().count(), crate::report::hash_of(a)) }
                else { write!(f, "[{}]", a.iter().map(|x| match x { None => "-".to_string(), Some(o) => format!("{:?}", Val::Octets(o.clone())) }).collect::<Vec<_>>().join(",")) }
            }
            Val::List(l) => {
                if l.len() <= 12 { write!(f, "{:?}", &l[..]) }
                else { write!(f, "<list of {} [{:?},{:?},..] h={:x}>", l.len(), l[0], l[1], crate::report::hash_of(l)) }
            }
            Val::Choice(i, v) => write!(f, "alt{}:{:?}", i, v),
            Val::ChoiceExt(i) => write!(f, "extalt{}", i),
            Val::Open(k, v) => write!(f, "open[{}]:{:?}", k, v),
        }
    }
}
