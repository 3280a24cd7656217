//! The model: ASN.1 constraints as sets, ASN.1 types as pairs of text and meaning.
use crate::shape::*;

/// A number and how it is written.
#[derive(Clone, Debug, PartialEq)]
pub struct V { pub n: i128, pub text: String }
pub fn v(n: i128) -> V { V { n, text: n.to_string() } }

#[derive(Clone, Debug)]
pub enum End { Min, Max, V(V) }
#[derive(Clone, Debug)]
pub enum El {
    Val(V),
    Range(End, bool, bool, End),
    /// contained subtype: name, its constraints
    Sub(String, Vec<Cons>),
    Paren(Vec<Vec<El>>),
    Size(Box<Cons>),
}
/// union of intersections
pub type Set = Vec<Vec<El>>;
#[derive(Clone, Debug)]
pub struct Cons { pub root: Set, pub ext: Option<Option<Set>> }

pub fn one(e: El) -> Set { vec![vec![e]] }
pub fn cons(e: El) -> Cons { Cons { root: one(e), ext: None } }
pub fn range(a: i128, b: i128) -> El { El::Range(End::V(v(a)), false, false, End::V(v(b))) }

fn end(e: &End) -> String { match e { End::Min => "MIN".into(), End::Max => "MAX".into(), End::V(v) => v.text.clone() } }
pub fn el_text(e: &El) -> String {
    match e {
        El::Val(v) => v.text.clone(),
        El::Range(a, x, y, b) => format!("{}{}..{}{}", end(a), if *x { "<" } else { "" }, if *y { "<" } else { "" }, end(b)),
        El::Sub(n, _) => n.clone(),
        El::Paren(s) => format!("({})", set_text(s)),
        El::Size(c) => format!("SIZE {}", c.text()),
    }
}
pub fn set_text(s: &Set) -> String { s.iter().map(|i| i.iter().map(el_text).collect::<Vec<_>>().join(" ^ ")).collect::<Vec<_>>().join(" | ") }
impl Cons {
    pub fn text(&self) -> String {
        match &self.ext { None => format!("({})", set_text(&self.root)), Some(None) => format!("({}, ...)", set_text(&self.root)), Some(Some(a)) => format!("({}, ..., {})", set_text(&self.root), set_text(a)) }
    }
}
pub fn texts(cs: &[Cons]) -> String { cs.iter().map(|c| c.text()).collect::<Vec<_>>().join(" ") }

/// Further out than every number that is written in a specification.
pub const FAR: i128 = 1 << 100;

#[derive(Clone, Debug, PartialEq)]
pub struct Eff { pub min: Option<i128>, pub max: Option<i128>, pub ext: bool, pub hold: Option<(i128, i128)>, pub may: bool }
#[derive(Clone, Debug, PartialEq)]
pub enum Sem { Ok(Eff), /// not valid ASN.1
    Bad }

fn lits(s: &Set, out: &mut Vec<i128>) {
    let e = |e: &End, out: &mut Vec<i128>| if let End::V(v) = e { out.push(v.n) };
    for i in s { for x in i { match x {
        El::Val(v) => out.push(v.n),
        El::Range(a, _, _, b) => { e(a, out); e(b, out) }
        El::Paren(s) => lits(s, out),
        El::Sub(_, cs) => for c in cs { lits_c(c, out) },
        El::Size(c) => lits_c(c, out),
    } } }
}
fn lits_c(c: &Cons, out: &mut Vec<i128>) { lits(&c.root, out); if let Some(Some(a)) = &c.ext { lits(a, out) } }

struct Parent { min: i128, max: i128 }
struct Ev<'a> { p: Parent, bad: bool, may: bool, cands: &'a [i128], floor: i128 }
impl<'a> Ev<'a> {
    fn val(&mut self, v: &V) -> i128 { if v.n < self.p.min || v.n > self.p.max { if v.n < self.floor { self.bad = true } else { self.may = true } } v.n }
    fn end(&mut self, e: &End) -> i128 { match e { End::Min => self.p.min, End::Max => self.p.max, End::V(v) => self.val(v) } }
    /// which candidates are in the set
    fn set(&mut self, s: &Set) -> Vec<bool> {
        let mut r = vec![false; self.cands.len()];
        for i in s {
            let mut all = vec![true; self.cands.len()];
            for x in i { let m = self.el(x); for (a, b) in all.iter_mut().zip(m) { *a &= b } }
            for (a, b) in r.iter_mut().zip(all) { *a |= b }
        }
        r
    }
    fn el(&mut self, x: &El) -> Vec<bool> {
        match x {
            El::Val(v) => { let n = self.val(v); self.cands.iter().map(|c| *c == n).collect() }
            El::Range(a, lx, ux, b) => {
                let (lo, hi) = (self.end(a), self.end(b));
                let lo = if *lx && lo > -FAR { lo + 1 } else { lo };
                let hi = if *ux && hi < FAR { hi - 1 } else { hi };
                if lo > hi || lo == FAR || hi == -FAR { self.bad = true }
                self.cands.iter().map(|c| lo <= *c && *c <= hi).collect()
            }
            El::Paren(s) => self.set(s),
            El::Sub(_, cs) => match members(cs, self.cands, self.floor, -FAR, None) { Some((m, _, may)) => { self.may |= may; m } None => { self.bad = true; vec![false; self.cands.len()] } },
            El::Size(_) => { self.bad = true; vec![false; self.cands.len()] }
        }
    }
}
type Mem = (Vec<bool>, Option<Vec<bool>>, bool);
/// The values the constraints, applied one after the other, permit; those added after the extension marker.
fn members(cs: &[Cons], cands: &[i128], floor: i128, start: i128, _x: Option<()>) -> Option<Mem> {
    let mut cur: Vec<bool> = cands.iter().map(|c| *c >= start).collect();
    let (mut adds, mut may) = (None, false);
    for c in cs {
        let on: Vec<i128> = cands.iter().zip(&cur).filter(|(_, b)| **b).map(|(c, _)| *c).collect();
        let mut ev = Ev { p: Parent { min: *on.iter().min()?, max: *on.iter().max()? }, bad: false, may: false, cands, floor };
        let r = ev.set(&c.root);
        adds = match &c.ext { None => None, Some(None) => Some(vec![false; cands.len()]), Some(Some(a)) => Some(ev.set(a)) };
        if ev.bad { return None }
        may |= ev.may;
        for (a, b) in cur.iter_mut().zip(r) { *a &= b }
        if !cur.iter().any(|b| *b) { return None }
    }
    Some((cur, adds, may))
}
fn candidates(cs: &[Cons]) -> Vec<i128> {
    let mut l = vec![];
    for c in cs { lits_c(c, &mut l) }
    let mut v: Vec<i128> = l.iter().flat_map(|n| (-6..=6).map(move |d| n + d)).chain([-FAR, FAR]).chain(-6..=6).collect();
    v.sort(); v.dedup();
    v
}
fn effective(cs: &[Cons], size: bool) -> Sem {
    let cands = candidates(cs);
    let floor = if size { 0 } else { -FAR };
    match members(cs, &cands, floor, floor, None) {
        None => Sem::Bad,
        Some((m, adds, may)) => {
            let on = |m: &Vec<bool>| cands.iter().zip(m).filter(|(_, b)| **b).map(|(c, _)| *c).collect::<Vec<_>>();
            let r = on(&m);
            let (lo, hi) = (*r.first().unwrap(), *r.last().unwrap());
            let mut all = r.clone();
            if let Some(a) = &adds { all.extend(on(a)) }
            let (hlo, hhi) = (*all.iter().min().unwrap(), *all.iter().max().unwrap());
            // Unbounded ends: as far as 64 bits go.
            let lowest = if hlo == -FAR { (i64::MIN as i128).min(hhi) } else { hlo };
            let hold = (lowest, if hhi == FAR { (i64::MAX as i128).max(lowest) } else { hhi });
            Sem::Ok(Eff { min: Some(lo).filter(|x| *x != -FAR), max: Some(hi).filter(|x| *x != FAR), ext: adds.is_some(), hold: Some(hold), may })
        }
    }
}
pub fn int_sem(cs: &[Cons]) -> Sem { effective(cs, false) }
pub fn size_sem(cs: &[Cons]) -> Sem { effective(cs, true) }

/// INTEGER with these constraints. None: not valid.
pub fn int_shape(cs: &[Cons]) -> Option<(Shape, bool)> {
    match int_sem(cs) {
        Sem::Bad => None,
        Sem::Ok(e) => {
            let h = e.hold.unwrap();
            // more than 64 bits: an error, or a wider type
            let fits = (h.0 >= i64::MIN as i128 && h.1 <= i64::MAX as i128) || (h.0 >= 0 && h.1 <= u64::MAX as i128);
            Some((Shape::Int { lb: e.min, ub: e.max, ext: e.ext, width: None, hold: h }, e.may || !fits))
        }
    }
}
pub fn unconstrained_int() -> Shape { Shape::Int { lb: None, ub: None, ext: false, width: None, hold: (i64::MIN as i128, i64::MAX as i128) } }

/// A type: how it is written, what it means.
#[derive(Clone, Debug)]
pub struct T { pub text: String, pub shape: Shape }
impl T { pub fn new(text: impl Into<String>, shape: Shape) -> T { T { text: text.into(), shape } } }
pub fn int(lo: i128, hi: i128) -> T { T::new(format!("INTEGER ({}..{})", lo, hi), int_of(lo, hi)) }
pub fn int_of(lo: i128, hi: i128) -> Shape { Shape::Int { lb: Some(lo), ub: Some(hi), ext: false, width: None, hold: (lo, hi) } }
