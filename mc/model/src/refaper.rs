//! Reference X.691 BASIC-PER ALIGNED encoder/decoder over `Vec<bool>`.
//!
//! Written from X.691 alone, deliberately plain: one function per clause, no arithmetic tricks.
use crate::ty::*;

pub type Bits = Vec<bool>;

/// Why a value has no encoding (in this model).
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum EncErr {
    /// The value is not a value of the (PER-constrained) type.
    NotAllowed,
    /// Allowed, but only as an extension value (outside the root of an extensible constraint).
    OutsideRoot,
    /// Shape mismatch between type and value; a bug in the harness.
    Shape,
}

// ---------------------------------------------------------------- writing

pub fn align(b: &mut Bits) { while b.len() % 8 != 0 { b.push(false) } }

/// `n` low bits of `v`, most significant first.
pub fn put(b: &mut Bits, v: u128, n: u32) {
    for i in (0..n).rev() { b.push(i < 128 && (v >> i) & 1 == 1) }
}

/// Octets needed for a non-negative number (at least one).
pub fn octets_nonneg(v: u128) -> u32 { let mut n = 1; while n < 16 && (v >> (8 * n)) != 0 { n += 1 } n }
/// Octets needed for a 2's complement number (at least one).
pub fn octets_signed(v: i128) -> u32 {
    for n in 1..16u32 {
        let lo = -(1i128 << (8 * n - 1)); let hi = (1i128 << (8 * n - 1)) - 1;
        if v >= lo && v <= hi { return n }
    }
    16
}
/// ub - lb as a non-negative number.
fn span(lb: i128, ub: i128) -> u128 { (ub as u128).wrapping_sub(lb as u128) }

/// 10.5 (2002) constrained whole number, ALIGNED.  Precondition lb <= v <= ub.
pub fn put_constrained(b: &mut Bits, lb: i128, ub: i128, v: i128) {
    let span = span(lb, ub);
    let off = self::span(lb, v);
    if span == 0 { return }                                    // 10.5.4
    if span < 255 {                                            // 10.5.7.1 range <= 255
        let mut n = 0; while (span >> n) != 0 { n += 1 }
        put(b, off, n);
    } else if span == 255 { align(b); put(b, off, 8) }          // 10.5.7.2
    else if span <= 65535 { align(b); put(b, off, 16) }         // 10.5.7.3
    else {                                                     // 10.5.7.4
        let max = octets_nonneg(span);
        let n = octets_nonneg(off);
        put_constrained(b, 1, max as i128, n as i128);
        align(b);
        put(b, off, 8 * n);
    }
}
/// 10.9.3.6-8: general length determinant below 16K.
fn put_len_general(b: &mut Bits, n: usize) {
    assert!(n < 16384);
    align(b);
    if n < 128 { put(b, n as u128, 8) } else { put(b, 0x8000 | n as u128, 16) }
}
/// 10.7 semi-constrained
pub fn put_semi(b: &mut Bits, lb: i128, v: i128) {
    let off = span(lb, v);
    let n = octets_nonneg(off);
    put_len_general(b, n as usize);
    put(b, off, 8 * n);
}
/// 10.8 unconstrained
pub fn put_unconstrained(b: &mut Bits, v: i128) {
    let n = octets_signed(v);
    put_len_general(b, n as usize);
    put(b, v as u128, 8 * n);
}
/// 10.6 normally small non-negative
pub fn put_normally_small(b: &mut Bits, v: i128) {
    if v <= 63 { b.push(false); put(b, v as u128, 6) } else { b.push(true); put_semi(b, 0, v) }
}
/// 10.9.3.4 normally small length (n >= 1)
pub fn put_normally_small_len(b: &mut Bits, n: usize) {
    if n <= 64 { b.push(false); put(b, (n - 1) as u128, 6) } else { b.push(true); put_len_general(b, n) }
}

/// 10.9: length determinant + content in units.  `lb..ub` is the effective size constraint (already
/// `0..MAX` when outside the root).  `unit(b, i, j)` appends units i..j.  `al` says whether the content
/// is octet-aligned when it is not of fixed size / what X.691 says per type is decided by the caller.
fn put_sized(b: &mut Bits, lb: u128, ub: Option<u128>, n: usize, al: bool, unit: &mut dyn FnMut(&mut Bits, usize, usize)) {
    match ub {
        Some(u) if u < 65536 => {
            if lb != u { put_constrained(b, lb as i128, u as i128, n as i128); }
            if n > 0 { if al { align(b) } unit(b, 0, n) }
        }
        _ => {
            let mut at = 0;
            loop {
                let left = n - at;
                if left < 16384 {
                    put_len_general(b, left);
                    if left > 0 { unit(b, at, n) }
                    return;
                }
                let k = std::cmp::min(left / 16384, 4);
                align(b);
                put(b, 0xC0 | k as u128, 8);
                unit(b, at, at + k * 16384);
                at += k * 16384;
            }
        }
    }
}

/// Effective size bounds for a value of `n` units; pushes the extension bit.
fn size_root(b: &mut Bits, r: &Rng, n: usize) -> Result<(u128, Option<u128>), EncErr> {
    let inroot = r.contains(n as i128);
    if r.ext {
        b.push(!inroot);
        if !inroot { return Err(EncErr::OutsideRoot) }
    } else if !inroot { return Err(EncErr::NotAllowed) }
    Ok((r.lb.unwrap_or(0) as u128, r.ub.map(|u| u as u128)))
}

/// Is the content of a string octet-aligned?  15.9-15.11, 16.6-16.8, 27.5.6-27.5.7
fn str_aligned(lb: u128, ub: Option<u128>, unit_bits: u128, known_multiplier: bool) -> bool {
    match ub {
        Some(u) if u < 65536 => {
            if lb == u { u * unit_bits > 16 }
            else if known_multiplier { u * unit_bits >= 16 }
            else { true }
        }
        _ => true,
    }
}

pub fn encode(b: &mut Bits, ty: &Ty, v: &Val) -> Result<(), EncErr> {
    match (ty, v) {
        (Ty::Bool, Val::Bool(x)) => { b.push(*x); Ok(()) }
        (Ty::Null, Val::Null) => Ok(()),
        (Ty::Int(r), Val::Int(v)) => {
            let inroot = r.contains(*v);
            if r.ext { b.push(!inroot); if !inroot { return Err(EncErr::OutsideRoot) } }
            else if !inroot { return Err(EncErr::NotAllowed) }
            match (r.lb, r.ub) {
                (Some(l), Some(u)) => put_constrained(b, l, u, *v),
                (Some(l), None) => put_semi(b, l, *v),
                (None, _) => put_unconstrained(b, *v),
            }
            Ok(())
        }
        (Ty::Enum(n, ext), Val::Enum(i)) => {
            if *i < 0 || *i >= *n as i128 { return Err(EncErr::NotAllowed) }
            if *ext { b.push(false) }
            put_constrained(b, 0, *n as i128 - 1, *i);
            Ok(())
        }
        (Ty::Enum(_, true), Val::EnumExt(i)) => { b.push(true); put_normally_small(b, *i); Ok(()) }
        (Ty::ChoiceIdx(r), Val::Int(i)) => {
            if !r.contains(*i) { return Err(EncErr::NotAllowed) }
            if r.ext { b.push(false) }
            put_constrained(b, r.lb.unwrap(), r.ub.unwrap(), *i);
            Ok(())
        }
        (Ty::ChoiceIdx(Rng { ext: true, .. }), Val::ChoiceExt(i)) => { b.push(true); put_normally_small(b, *i); Ok(()) }
        (Ty::SeqHdr(n, ext), Val::Bits(p)) => {
            if p.len() != *n as usize { return Err(EncErr::Shape) }
            if *ext { b.push(false) }
            b.extend(p);
            Ok(())
        }
        (Ty::Len(r), Val::Int(n)) => {
            if !r.contains(*n) || *n < 0 { return Err(EncErr::NotAllowed) }
            match r.ub {
                Some(u) if u < 65536 => put_constrained(b, r.lb.unwrap_or(0), u, *n),
                _ => { if *n >= 16384 { return Err(EncErr::OutsideRoot) } put_len_general(b, *n as usize) }
            }
            Ok(())
        }
        (Ty::SmallLen, Val::Int(n)) => {
            if *n < 1 { return Err(EncErr::NotAllowed) }
            if *n >= 16384 { return Err(EncErr::OutsideRoot) }
            put_normally_small_len(b, *n as usize);
            Ok(())
        }
        (Ty::Bits(r), Val::Bits(s)) => {
            let (lb, ub) = size_root(b, r, s.len())?;
            put_sized(b, lb, ub, s.len(), str_aligned(lb, ub, 1, false), &mut |b, i, j| b.extend_from_slice(&s[i..j]));
            Ok(())
        }
        (Ty::Octets(r), Val::Octets(s)) => {
            let (lb, ub) = size_root(b, r, s.len())?;
            put_sized(b, lb, ub, s.len(), str_aligned(lb, ub, 8, false), &mut |b, i, j| for o in &s[i..j] { put(b, *o as u128, 8) });
            Ok(())
        }
        (Ty::Str(StrKind::Utf8, r), Val::Str(s)) => {
            // 27.6: SIZE is not PER-visible for UTF8String; it counts characters
            if !r.ext && !r.contains(chars(s) as i128) { return Err(EncErr::NotAllowed) }
            put_sized(b, 0, None, s.len(), true, &mut |b, i, j| for o in &s[i..j] { put(b, *o as u128, 8) });
            Ok(())
        }
        (Ty::Str(_, r), Val::Str(s)) => {
            if !s.is_ascii() { return Err(EncErr::NotAllowed) } // no such characters in the type
            let (lb, ub) = size_root(b, r, s.len())?;
            put_sized(b, lb, ub, s.len(), str_aligned(lb, ub, 8, true), &mut |b, i, j| for o in &s[i..j] { put(b, *o as u128, 8) });
            Ok(())
        }
        (Ty::Seq(comps, ext), Val::Seq(vs)) => {
            if comps.len() != vs.len() { return Err(EncErr::Shape) }
            if *ext { b.push(false) }
            for (c, v) in comps.iter().zip(vs) { if c.optional { b.push(v.is_some()) } else if v.is_none() { return Err(EncErr::Shape) } }
            for (i, (c, v)) in comps.iter().zip(vs).enumerate() {
                if let Some(v) = v {
                    let key = key_index(comps, i).and_then(|k| vs[k].as_ref()).and_then(key_of);
                    enc_comp(b, &c.ty, v, key)?;
                }
            }
            Ok(())
        }
        (Ty::Seq(comps, true), Val::SeqX(vs, adds)) => {
            // 19.7-19.9
            let at = b.len();
            encode(b, ty, &Val::Seq(vs.clone()))?;
            b[at] = true;
            let _ = comps;
            put_normally_small_len(b, adds.len());
            for a in adds { b.push(a.is_some()) }
            for a in adds.iter().flatten() { put_sized(b, 0, None, a.len(), true, &mut |b, i, j| for o in &a[i..j] { put(b, *o as u128, 8) }); }
            Ok(())
        }
        (Ty::SeqOf(r, el), Val::List(l)) => {
            let (lb, ub) = size_root(b, r, l.len())?;
            let mut err = None;
            put_sized(b, lb, ub, l.len(), false, &mut |b, i, j| for x in &l[i..j] { if let Err(e) = encode(b, el, x) { err.get_or_insert(e); } });
            match err { Some(e) => Err(e), None => Ok(()) }
        }
        (Ty::Choice(alts, ext, _), Val::Choice(i, v)) => {
            if *i >= alts.len() { return Err(EncErr::OutsideRoot) }
            if *ext { b.push(false) }
            put_constrained(b, 0, alts.len() as i128 - 1, *i as i128);
            encode(b, &alts[*i], v)
        }
        (Ty::Open(_), Val::Open(k, _)) => enc_comp(b, ty, v, Some(*k)),
        _ => Err(EncErr::Shape),
    }
}

pub fn key_of(v: &Val) -> Option<i128> {
    match v { Val::Int(i) | Val::Enum(i) => Some(*i), _ => None }
}

fn enc_comp(b: &mut Bits, ty: &Ty, v: &Val, key: Option<i128>) -> Result<(), EncErr> {
    if let (Ty::Open(table), Val::Open(k, inner)) = (ty, v) {
        if key != Some(*k) { return Err(EncErr::Shape) }
        let t = table.iter().find(|(kk, _)| kk == k).ok_or(EncErr::NotAllowed)?;
        let content = complete(&t.1, inner)?;
        put_sized(b, 0, None, content.len(), true, &mut |b, i, j| for o in &content[i..j] { put(b, *o as u128, 8) });
        Ok(())
    } else { encode(b, ty, v) }
}

/// 10.1 complete encoding: padded to octets, at least one octet.
pub fn complete(ty: &Ty, v: &Val) -> Result<Vec<u8>, EncErr> {
    let mut c = Bits::new();
    encode(&mut c, ty, v)?;
    if c.is_empty() { put(&mut c, 0, 8) }
    align(&mut c);
    Ok(to_bytes(&c))
}

pub fn to_bytes(b: &[bool]) -> Vec<u8> {
    b.chunks(8).map(|c| { let mut x = 0u8; for (i, v) in c.iter().enumerate() { if *v { x |= 0x80 >> i } } x }).collect()
}
pub fn from_bytes(b: &[u8]) -> Bits { let mut v = Bits::with_capacity(b.len() * 8); for o in b { put(&mut v, *o as u128, 8) } v }

// ---------------------------------------------------------------- reading

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum DecErr { Eof, Invalid, Unsupported }

pub struct Rd<'a> {
    pub bits: &'a [bool],
    pub pos: usize,
    /// false once something was read that no conforming encoder of BASIC-PER writes
    pub canon: bool,
    /// false once something was read that the code under test may refuse as unsupported
    pub must: bool,
}

impl<'a> Rd<'a> {
    pub fn new(bits: &'a [bool], pos: usize) -> Self { Rd { bits, pos, canon: true, must: true } }
    fn bit(&mut self) -> Result<bool, DecErr> {
        if self.pos >= self.bits.len() { return Err(DecErr::Eof) }
        self.pos += 1; Ok(self.bits[self.pos - 1])
    }
    fn align(&mut self) -> Result<(), DecErr> { while self.pos % 8 != 0 { if self.bit()? { self.canon = false } } Ok(()) }
    fn num(&mut self, n: usize) -> Result<u128, DecErr> {
        if self.pos + n > self.bits.len() { return Err(DecErr::Eof) }
        let mut v: u128 = 0; let mut over = false;
        for _ in 0..n { if v >> 127 != 0 { over = true } v = (v << 1) | self.bit()? as u128; }
        if over { Err(DecErr::Unsupported) } else { Ok(v) }
    }
    fn octet(&mut self) -> Result<u8, DecErr> { Ok(self.num(8)? as u8) }

    fn constrained(&mut self, lb: i128, ub: i128) -> Result<i128, DecErr> {
        let sp = span(lb, ub);
        let off = if sp == 0 { 0 }
        else if sp < 255 { let mut n = 0; while (sp >> n) != 0 { n += 1 } self.num(n)? }
        else if sp == 255 { self.align()?; self.num(8)? }
        else if sp <= 65535 { self.align()?; self.num(16)? }
        else {
            let n = self.constrained(1, octets_nonneg(sp) as i128)? as usize;
            self.align()?;
            let v = self.num(8 * n)?;
            if octets_nonneg(v) as usize != n { self.canon = false }
            v
        };
        if off > sp { return Err(DecErr::Invalid) }
        Ok((lb as u128).wrapping_add(off) as i128)
    }
    /// general length: (n, more fragments follow)
    fn len_general(&mut self) -> Result<(usize, bool), DecErr> {
        self.align()?;
        if !self.bit()? { return Ok((self.num(7)? as usize, false)) }
        if !self.bit()? { let n = self.num(14)? as usize; if n < 128 { self.canon = false } return Ok((n, false)) }
        let k = self.num(6)? as usize;
        if !(1..=4).contains(&k) { return Err(DecErr::Invalid) }
        Ok((k * 16384, true))
    }
    /// A length that cannot sensibly be a fragment.
    fn len_unfragmented(&mut self) -> Result<usize, DecErr> {
        let (n, more) = self.len_general()?;
        if more { return Err(DecErr::Unsupported) }
        Ok(n)
    }
    fn semi(&mut self, lb: i128) -> Result<i128, DecErr> {
        let n = self.len_unfragmented()?;
        if n == 0 { self.canon = false; }
        if self.pos + 8 * n > self.bits.len() { return Err(DecErr::Eof) }
        let v = self.num(8 * n)?;
        if octets_nonneg(v) as usize != n { self.canon = false }
        if n > 16 { self.must = false }
        // lb + v must fit i128
        let max = span(lb, i128::MAX);
        if v > max { return Err(DecErr::Unsupported) }
        Ok((lb as u128).wrapping_add(v) as i128)
    }
    fn unconstrained(&mut self) -> Result<i128, DecErr> {
        let n = self.len_unfragmented()?;
        if n == 0 { return Err(DecErr::Invalid) }
        if self.pos + 8 * n > self.bits.len() { return Err(DecErr::Eof) }
        let neg = self.bits[self.pos];
        let mut v: i128 = if neg { -1 } else { 0 };
        for i in 0..n {
            let o = self.octet()?;
            if i + 16 < n && o != if neg { 0xff } else { 0 } { return Err(DecErr::Unsupported) }
            v = (v << 8) | o as i128;
        }
        if (v < 0) != neg { return Err(DecErr::Unsupported) }
        if octets_signed(v) as usize != n { self.canon = false }
        Ok(v)
    }
    fn normally_small(&mut self) -> Result<i128, DecErr> {
        if !self.bit()? { Ok(self.num(6)? as i128) } else { let v = self.semi(0)?; if v < 64 { self.canon = false } Ok(v) }
    }
    fn normally_small_len(&mut self, bare: bool) -> Result<usize, DecErr> {
        if !self.bit()? { Ok(self.num(6)? as usize + 1) }
        else { let (n, more) = self.len_general()?; if more && !bare { return Err(DecErr::Unsupported) } if n <= 64 { self.canon = false } if n == 0 { return Err(DecErr::Invalid) } Ok(n) }
    }
    fn sized(&mut self, r: &Rng, outside: bool, unit_bits: u128, kind: u8, unit: &mut dyn FnMut(&mut Self, usize) -> Result<(), DecErr>) -> Result<(), DecErr> {
        // kind 0: strings, 1: known-multiplier strings, 2: lists (never aligned)
        let (lb, ub) = if outside { (0, None) } else { (r.lb.unwrap_or(0) as u128, r.ub.map(|u| u as u128)) };
        let mut total = 0usize;
        match ub {
            Some(u) if u < 65536 => {
                let n = if lb == u { u as i128 } else { self.constrained(lb as i128, u as i128)? } as usize;
                let al = kind != 2 && str_aligned(lb, ub, unit_bits, kind == 1);
                if n > 0 && al { self.align()? }
                unit(self, n)?;
                total = n;
            }
            _ => {
                let mut first = true; let mut last_k = 4;
                loop {
                    let (n, more) = self.len_general()?;
                    if !more && !first && n == 0 { /* legal terminator after exact multiple */ }
                    if !first && more && last_k < 4 { self.canon = false }
                    unit(self, n)?;
                    total += n;
                    if !more { break }
                    last_k = n / 16384; first = false;
                }
            }
        }
        if outside { if r.contains(total as i128) { self.canon = false } }
        else if !r.contains(total as i128) { return Err(DecErr::Invalid) }
        Ok(())
    }
    fn ext_bit(&mut self, ext: bool) -> Result<bool, DecErr> { if ext { self.bit() } else { Ok(false) } }
}

/// `max_items` bounds the lists the model is willing to build.
pub fn decode(rd: &mut Rd, ty: &Ty) -> Result<Val, DecErr> { dec(rd, ty, None) }

fn dec(rd: &mut Rd, ty: &Ty, key: Option<i128>) -> Result<Val, DecErr> {
    Ok(match ty {
        Ty::Bool => Val::Bool(rd.bit()?),
        Ty::Null => Val::Null,
        Ty::Int(r) => {
            if rd.ext_bit(r.ext)? {
                let v = rd.unconstrained()?;
                if r.contains(v) { rd.canon = false }
                return Ok(Val::Int(v));
            }
            Val::Int(match (r.lb, r.ub) {
                (Some(l), Some(u)) => rd.constrained(l, u)?,
                (Some(l), None) => rd.semi(l)?,
                (None, _) => { let v = rd.unconstrained()?; if !r.contains(v) { return Err(DecErr::Invalid) } v }
            })
        }
        Ty::Enum(n, ext) => if rd.ext_bit(*ext)? { rd.must = false; Val::EnumExt(rd.normally_small()?) }
            else { Val::Enum(rd.constrained(0, *n as i128 - 1)?) },
        Ty::ChoiceIdx(r) => if rd.ext_bit(r.ext)? { Val::ChoiceExt(rd.normally_small()?) }
            else { Val::Int(rd.constrained(r.lb.unwrap(), r.ub.unwrap())?) },
        Ty::SeqHdr(n, ext) => {
            let x = rd.ext_bit(*ext)?;
            let mut p = vec![x];
            for _ in 0..*n { p.push(rd.bit()?) }
            Val::Bits(p)
        }
        Ty::Len(r) => match r.ub {
            Some(u) if u < 65536 => Val::Int(rd.constrained(r.lb.unwrap_or(0), u)?),
            // a bare determinant may be that of a fragment: bounds are the caller's business
            _ => Val::Int(rd.len_general()?.0 as i128),
        },
        Ty::SmallLen => Val::Int(rd.normally_small_len(true)? as i128),
        Ty::Bits(r) => {
            let out = rd.ext_bit(r.ext)?;
            let mut s = vec![];
            rd.sized(r, out, 1, 0, &mut |rd, n| {
                if rd.pos + n > rd.bits.len() { return Err(DecErr::Eof) }
                s.extend_from_slice(&rd.bits[rd.pos..rd.pos + n]); rd.pos += n; Ok(())
            })?;
            Val::Bits(s)
        }
        Ty::Octets(r) => { let out = rd.ext_bit(r.ext)?; Val::Octets(octs(rd, r, out, 0)?) }
        Ty::Str(StrKind::Utf8, r) => {
            let o = octs(rd, &Rng::none(), false, 0)?;
            if std::str::from_utf8(&o).is_err() { return Err(DecErr::Invalid) }
            if !r.ext && !r.contains(chars(&o) as i128) { return Err(DecErr::Invalid) }
            Val::Str(o)
        }
        Ty::Str(k, r) => {
            let out = rd.ext_bit(r.ext)?;
            let o = octs(rd, r, out, 1)?;
            let ok = o.iter().all(|c| match k { StrKind::Visible => (32..127).contains(c), _ => printable(*c) });
            if !ok {
                // Not characters of the type: octets that are no ASCII character must be refused (each unit
                // is one character); other ASCII characters may be refused or passed through.
                if !o.is_ascii() { return Err(DecErr::Invalid) }
                rd.canon = false;
            }
            Val::Str(o)
        }
        Ty::Seq(comps, ext) => {
            let extended = rd.ext_bit(*ext)?;
            let mut pres = vec![];
            for c in comps { pres.push(if c.optional { rd.bit()? } else { true }) }
            let mut vs: Vec<Option<Val>> = vec![];
            let mut later = vec![];
            for (i, (c, p)) in comps.iter().zip(pres).enumerate() {
                if !p { vs.push(None); continue }
                let at = key_index(comps, i);
                if let (Ty::Open(_), true) = (&c.ty, at.map_or(false, |k| k > i)) {
                    later.push((i, octs(rd, &Rng::none(), false, 0)?));
                    vs.push(None);
                    continue;
                }
                let key = at.and_then(|k| vs[k].as_ref()).and_then(key_of);
                let v = dec(rd, &c.ty, key)?;
                vs.push(Some(v));
            }
            for (i, o) in later {
                let Ty::Open(table) = &comps[i].ty else { unreachable!() };
                let key = key_index(comps, i).and_then(|k| vs[k].as_ref()).and_then(key_of);
                vs[i] = Some(contents(rd, table, key, &o)?);
            }
            if extended {
                let n = rd.normally_small_len(false)?;
                let mut m = vec![];
                for _ in 0..n { m.push(rd.bit()?) }
                if !m.iter().any(|x| *x) { rd.canon = false }
                for x in m { if x { octs(rd, &Rng::none(), false, 0)?; } }
            }
            Val::Seq(vs)
        }
        Ty::SeqOf(r, el) => {
            let out = rd.ext_bit(r.ext)?;
            let mut l = vec![];
            rd.sized(r, out, 0, 2, &mut |rd, n| { for _ in 0..n { l.push(decode(rd, el)?) } Ok(()) })?;
            // fragmented or very long lists are refused by the implementation
            if l.len() >= 16384 { rd.must = false }
            Val::List(l)
        }
        Ty::Choice(alts, ext, _) => {
            if rd.ext_bit(*ext)? {
                rd.must = false;
                let i = rd.normally_small()?;
                octs(rd, &Rng::none(), false, 0)?;
                return Ok(Val::ChoiceExt(i));
            }
            let i = rd.constrained(0, alts.len() as i128 - 1)? as usize;
            Val::Choice(i, Box::new(dec(rd, &alts[i], key)?))
        }
        Ty::Open(table) => {
            key.ok_or(DecErr::Invalid)?;
            let o = octs(rd, &Rng::none(), false, 0)?;
            contents(rd, table, key, &o)?
        }
    })
}

/// The contents of an open type.
fn contents(rd: &mut Rd, table: &[(i128, Ty)], key: Option<i128>, o: &[u8]) -> Result<Val, DecErr> {
    let k = key.ok_or(DecErr::Invalid)?;
    let t = table.iter().find(|(kk, _)| *kk == k).ok_or(DecErr::Invalid)?;
    let bits = from_bytes(o);
    let mut r2 = Rd::new(&bits, 0);
    let v = dec(&mut r2, &t.1, None)?;
    if !r2.canon || o.len() != std::cmp::max(1, (r2.pos + 7) / 8) || bits[r2.pos..].iter().any(|x| *x) { rd.canon = false }
    if !r2.must { rd.must = false }
    Ok(Val::Open(k, Box::new(v)))
}

fn octs(rd: &mut Rd, r: &Rng, out: bool, kind: u8) -> Result<Vec<u8>, DecErr> {
    let mut s = vec![];
    rd.sized(r, out, 8, kind, &mut |rd, n| {
        if rd.pos + 8 * n > rd.bits.len() { return Err(DecErr::Eof) }
        for _ in 0..n { s.push(rd.octet()?) } Ok(())
    })?;
    Ok(s)
}

/// Characters of a UTF-8 string.
pub fn chars(o: &[u8]) -> usize { o.iter().filter(|c| **c & 0xC0 != 0x80).count() }
fn printable(c: u8) -> bool { c.is_ascii_alphanumeric() || b" '()+,-./:=?".contains(&c) }
