//! C03-C06 and C08-C12 on derived types.
use crate::types::{listed, table, Dec, Enc};
use asn1_codecs::aper::AperCodecData;
use mc_codec::{prim::{limit_for, long_strings, name, prefix, start}, real};
use mc_model::family::Group;
use mc_model::par;
use mc_model::refaper::{self, Bits, EncErr, Rd};
use mc_model::report::*;
use mc_model::ty::*;
use mc_model::vals;
use std::collections::HashSet;

pub struct Case { pub g: Group, pub ty: Ty, pub enc: Enc, pub dec: Dec }

pub fn cases(groups: &[Group]) -> Vec<Case> {
    let f = listed();
    table().into_iter().map(|(i, enc, dec)| { let (g, ty) = f[i].clone(); Case { g, ty, enc, dec } }).filter(|k| groups.contains(&k.g)).collect()
}
pub const ALL: [Group; 6] = [Group::Prim, Group::Seq, Group::Choice, Group::SeqOf, Group::Open, Group::Ext];

/// The value without extension additions the decoder does not know.
fn strip(v: &Val) -> Val {
    match v {
        Val::SeqX(c, _) | Val::Seq(c) => Val::Seq(c.iter().map(|x| x.as_ref().map(strip)).collect()),
        Val::List(l) => Val::List(l.iter().map(strip).collect()),
        Val::Choice(i, x) => Val::Choice(*i, Box::new(strip(x))),
        Val::Open(k, x) => Val::Open(*k, Box::new(strip(x))),
        x => x.clone(),
    }
}

/// 16K and more in a form that needs fragments: the codec may refuse.
fn may_refuse(ty: &Ty, v: &Val) -> bool {
    let frag = |r: &Rng, n: usize| n >= 16384 && r.ub.map_or(true, |u| u >= 65536);
    match (ty, v) {
        (Ty::Bits(r), Val::Bits(b)) => frag(r, b.len()),
        (Ty::Octets(r), Val::Octets(b)) => frag(r, b.len()),
        (Ty::Str(_, r), Val::Str(b)) => b.len() >= 16384 && frag(r, 16384),
        (Ty::SeqOf(r, e), Val::List(l)) => frag(r, l.len()) || l.iter().any(|x| may_refuse(e, x)),
        (Ty::Seq(cs, _), Val::Seq(vs)) | (Ty::Seq(cs, _), Val::SeqX(vs, _)) => cs.iter().zip(vs).any(|(c, v)| v.as_ref().map_or(false, |v| may_refuse(&c.ty, v))),
        (Ty::Choice(a, _, _), Val::Choice(i, v)) => may_refuse(&a[*i], v),
        (Ty::Open(t), Val::Open(k, v)) => t.iter().find(|x| x.0 == *k).map_or(false, |x| may_refuse(&x.1, v) || refaper::complete(&x.1, v).map_or(false, |o| o.len() >= 16384)),
        _ => false,
    }
}

/// Bits of a value that the type's own codec cannot produce (extension additions) are written by the model.
fn has_additions(v: &Val) -> bool {
    match v {
        Val::SeqX(..) => true,
        Val::Seq(c) => c.iter().flatten().any(has_additions),
        Val::List(l) => l.iter().any(has_additions),
        Val::Choice(_, x) | Val::Open(_, x) => has_additions(x),
        _ => false,
    }
}

fn weight(v: &Val) -> usize {
    match v {
        Val::SeqX(c, a) => c.iter().flatten().map(weight).sum::<usize>() + a.iter().flatten().map(|x| x.len()).sum::<usize>(),
        Val::Seq(c) => 1 + c.iter().flatten().map(weight).sum::<usize>(),
        Val::List(l) => 1 + l.iter().map(weight).sum::<usize>(),
        Val::Choice(_, x) | Val::Open(_, x) => 1 + weight(x),
        Val::Bits(b) => 1 + b.len() / 8, Val::Octets(o) | Val::Str(o) => 1 + o.len(),
        _ => 1,
    }
}

type Loc = HashSet<u64>;

/// Encode on the real code at a bit position and compare; decode the model's bits and compare.
fn both(c: &Check, k: &Case, v: &Val, off: usize, loc: &mut Loc) -> u64 {
    let strict = STRICT.load(std::sync::atomic::Ordering::Relaxed);
    if strict && !in_64_bits(v) { return 0 }
    let mut want = prefix(off, 0);
    match refaper::encode(&mut want, &k.ty, v) {
        Ok(()) => {}
        Err(EncErr::OutsideRoot) => return 0,
        Err(e) => panic!("harness: {} {:?} {:?}", name(&k.ty), v, e),
    }
    let key = |w: &str| format!("{} {} {:?} @{}", w, name(&k.ty), v, off);
    loc.insert(hash_of(&(&k.ty, &want)));
    let refuse = may_refuse(&k.ty, v);
    let mut n = 1;
    if !has_additions(v) {
        n += 1;
        match guarded(256 << 20, || key("encode"), || { let mut d = start(&want[..off]); let r = (k.enc)(v, &mut d); real::put_mark(&mut d); (r, d) }) {
            Outcome::Done((None, _)) => { if strict { c.violation(key("encode"), "the generated type cannot hold the value") } return 0 } // otherwise: not representable in the Rust type the family chose
            Outcome::Done((Some(Ok(())), d)) => if !real::holds(&d, &want) { c.violation(key("encode"), format!("expected {}\n     got {}", real::show(&want[off..]), real::show_data(&d))) },
            Outcome::Done((Some(Err(e)), _)) => if !refuse { c.violation(key("encode"), format!("allowed value refused: {}", e)) },
            Outcome::Panicked(m) => c.violation(key("encode"), m),
        }
    }
    let exp = strip(v);
    let mut bits = want.clone(); bits.extend(real::MARK);
    let bytes = refaper::to_bytes(&bits);
    match guarded(u64::MAX, || key("decode"), || { let mut d = AperCodecData::from_slice(&bytes); real::skip(&mut d, off); let r = (k.dec)(&mut d); let rem = if r.is_ok() { real::remaining(&mut d) } else { 0 }; (r, rem) }) {
        Outcome::Done((Ok(g), rem)) => {
            if g != exp { c.violation(key("decode"), format!("from {}\ndecoded as {:?}", real::show(&want[off..]), g)) }
            else if rem != bytes.len() * 8 - want.len() { c.violation(key("decode"), format!("from {}\n{} bits left unread, expected {}", real::show(&want[off..]), rem, bytes.len() * 8 - want.len())) }
        }
        Outcome::Done((Err(e), _)) => if !refuse { c.violation(key("decode"), format!("from {}\nrefused: {}", real::show(&want[off..]), e)) },
        Outcome::Panicked(m) => c.violation(key("decode"), m),
    }
    n
}

/// Decode arbitrary octets at a bit position; optionally compare with the reference decoder.
fn hostile(c: &Check, k: &Case, bytes: &[u8], off: usize, compare: bool, bits: &mut Bits, loc: &mut Loc) -> bool {
    if off > bytes.len() * 8 { return false }
    let key = || format!("decode {} {:02x?} @{}", name(&k.ty), bytes, off);
    let r = guarded(if compare { u64::MAX } else { limit_for(bytes.len()) + big_ok(&k.ty) }, key, || {
        let mut d = AperCodecData::from_slice(bytes);
        real::skip(&mut d, off);
        let r = (k.dec)(&mut d);
        let rem = if compare && r.is_ok() { real::remaining(&mut d) } else { 0 };
        (r, rem)
    });
    let (r, rem) = match r { Outcome::Done(x) => x, Outcome::Panicked(m) => { if !compare { c.violation(key(), m) } return false } };
    if !compare { loc.insert(hash_of(&(&k.ty, &r))); return r.is_ok() }
    bits.clear();
    for o in bytes { refaper::put(bits, *o as u128, 8) }
    let mut rd = Rd::new(bits, off);
    let want = refaper::decode(&mut rd, &k.ty);
    match (&r, &want) {
        (Ok(v), Ok(w)) => {
            if v != w { c.violation(key(), format!("decoded {:?}, X.691 says {:?}", v, w)) }
            else if rem != bits.len() - rd.pos { c.violation(key(), format!("decoded {:?} but {} bits left instead of {}", v, rem, bits.len() - rd.pos)) }
            loc.insert(hash_of(&(&k.ty, v)));
        }
        (Ok(v), Err(e)) => c.violation(key(), format!("decoded {:?}, but X.691 says {:?}", v, e)),
        (Err(e), Ok(w)) => if rd.canon && rd.must && (!STRICT.load(std::sync::atomic::Ordering::Relaxed) || (in_64_bits(&w) && refaper::encode(&mut vec![], &k.ty, &w).is_ok())) { c.violation(key(), format!("canonical encoding of {:?} refused: {}", w, e)) },
        (Err(_), Err(_)) => {}
    }
    r.is_ok()
}
/// A list may grow in step with its elements: doubling of the vector, element size.
fn big_ok(ty: &Ty) -> u64 {
    match ty { Ty::Seq(c, _) => c.iter().map(|c| big_ok(&c.ty)).sum::<u64>() + 16 * c.len() as u64, Ty::Choice(a, _, _) => a.iter().map(big_ok).max().unwrap_or(0), Ty::SeqOf(_, e) => 4096 + 64 * big_ok(e).min(4096), _ => 128 }
}

/// Lists whose elements may take no bits: cost is bounded by the constraint, not by the input.
fn heavy(ty: &Ty) -> bool {
    match ty {
        Ty::SeqOf(r, e) => heavy(e) || r.ub.or(r.lb).unwrap_or(16384) >= 1000 && zero_bits(e) || r.lb.unwrap_or(0) >= 1000,
        Ty::Seq(c, _) => c.iter().any(|c| heavy(&c.ty)),
        Ty::Choice(a, _, _) => a.iter().any(heavy),
        Ty::Open(t) => t.iter().any(|x| heavy(&x.1)),
        _ => false,
    }
}
fn zero_bits(ty: &Ty) -> bool { match ty { Ty::Null => true, Ty::Seq(c, false) => c.iter().all(|c| !c.optional && zero_bits(&c.ty)), _ => false } }

/// Every single-bit flip, octet replacement, insertion, removal and cut of an encoding.
fn mutations(b: &[u8], f: &mut dyn FnMut(&[u8])) {
    let n = b.len().min(48);
    let mut w = b.to_vec();
    for i in 0..n * 8 { w[i / 8] ^= 0x80 >> (i % 8); f(&w); w[i / 8] ^= 0x80 >> (i % 8); }
    for i in 0..n {
        let o = w[i];
        for x in [0u8, 1, 2, 0x3f, 0x40, 0x41, 0x7f, 0x80, 0x81, 0xbf, 0xc0, 0xc1, 0xc4, 0xff, o.wrapping_add(1), o.wrapping_sub(1)] { w[i] = x; f(&w); }
        w[i] = o;
    }
    for i in 0..n { let mut x = b.to_vec(); x.remove(i); f(&x); for y in [0u8, 0xff] { let mut x = b.to_vec(); x.insert(i, y); f(&x); } }
    for i in 0..n { f(&b[..i]); }
}

fn offsets(v: &Val, all: bool) -> Vec<usize> {
    let w = weight(v);
    if w > 3000 { vec![0, 5] } else if w > 600 && !all { vec![0, 1, 7] } else { (0..8).collect() }
}

/// C08-C11: values of one group of types, forwards and backwards, then hostile headers.
pub fn group(c: &'static Check, g: Group) {
    let cs = cases(&[g]);
    let states = StateSet::new();
    par::for_each(&cs, |_, k| {
        if c.stopped() { return }
        mark(format!("derived {}", name(&k.ty)));
        let mut loc = HashSet::new();
        let mut tr = 0;
        let mut vs = vals::vals(&k.ty, if c.thorough { 3 } else { 2 });
        if g == Group::SeqOf { vs.extend(long_lists(&k.ty)); }
        for v in &vs {
            for off in offsets(v, c.thorough) { tr += both(c, k, v, off, &mut loc); }
            if c.stopped() { return }
        }
        c.add_traces(vs.len() as u64);
        let mut bits = Bits::new();
        // contents behind keys at every power of two from those of the table: of that key or not at all
        if g == Group::Open {
            for v in &vs { for j in 0..63 { for d in [1i128 << j, -(1i128 << j)] {
                let (t2, v2) = rekey(&k.ty, v, d);
                let mut b = Bits::new();
                if refaper::encode(&mut b, &t2, &v2).is_ok() { hostile(c, k, &refaper::to_bytes(&b), 0, true, &mut bits, &mut loc); tr += 1; }
            } } }
        }
        let h = heavy(&k.ty);
        // all leading 16 bits, with enough octets behind them to complete the value
        let tails: &[&[u8]] = &[&[], &[0; 24], &[1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1], &[0x01, 0x80, 0x01, 0xff, 0x02, 0x55, 0x01, 0x00, 0x03, 0x07, 0x0a]];
        for t in tails { for a in 0..=255u8 {
            for b in 0..=255u8 {
                if (h || !c.thorough) && b % 17 != 0 && !(b < 4 && !h) { continue }
                let mut s = vec![a, b]; s.extend_from_slice(t);
                hostile(c, k, &s, 0, true, &mut bits, &mut loc); tr += 1;
                if h { break }
                if !h && b % 51 == 0 { hostile(c, k, &s, 3, true, &mut bits, &mut loc); tr += 1; }
            }
        } }
        c.add_transitions(tr);
        states.merge(loc);
    });
    c.add_states(states.len());
    c.count("derived_types", cs.len() as u64);
    for k in cs.iter().step_by((cs.len() / 8).max(1)) { c.sample(name(&k.ty)); }
    c.assume("derived types: mc/model/src/family.rs; values: vals.rs at 8 bit positions; every leading 8 bits and a grid of leading 16 bits before 4 tails on the decode side");
}

/// The type with every key moved by `d`, and the value with its keys moved along.
fn rekey(ty: &Ty, v: &Val, d: i128) -> (Ty, Val) {
    match (ty, v) {
        (Ty::Seq(cs, x), Val::Seq(vs)) => {
            let (mut cs, mut vs) = (cs.clone(), vs.clone());
            for (c, v) in cs.iter_mut().zip(vs.iter_mut()) {
                if c.key { match v { Some(Val::Int(k)) | Some(Val::Enum(k)) => *k += d, _ => {} } }
                else if let Some(w) = v { let (a, b) = rekey(&c.ty, w, d); c.ty = a; *v = Some(b) }
                else if let Ty::Open(t) = &mut c.ty { for e in t { e.0 += d } }
            }
            (Ty::Seq(cs, *x), Val::Seq(vs))
        }
        (Ty::Open(t), Val::Open(k, w)) => (Ty::Open(t.iter().map(|e| (e.0 + d, e.1.clone())).collect()), Val::Open(*k + d, w.clone())),
        _ => (ty.clone(), v.clone()),
    }
}

/// Lists at 16K and beyond: correct or refused.
fn long_lists(ty: &Ty) -> Vec<Val> {
    let mut out = vec![];
    if let Ty::SeqOf(r, e) = ty {
        let mut el = vals::vals(e, 1);
        el.retain(|v| weight(v) <= 8);
        if el.is_empty() { return out }
        for n in [16384usize, 16385, 32768, 65534, 65535, 65536, 65537, 70000] {
            if r.contains(n as i128) { out.push(Val::List((0..n).map(|i| el[i % el.len()].clone()).collect())) }
        }
    }
    out
}

/// C12: every pattern of unknown additions.
fn additions(thorough: bool) -> Vec<Vec<Option<Vec<u8>>>> {
    let mut v: Vec<Vec<Option<Vec<u8>>>> = vec![];
    let o = |n: usize, p: usize| -> Vec<u8> { (0..n).map(|i| (i * 37 + p * 91 + 0x80) as u8).collect() };
    // all bitmaps up to a width, contents of 1, 2, 3 octets
    for n in 1..=(if thorough { 8usize } else { 6 }) { for m in 0..1usize << n { v.push((0..n).map(|i| if m >> i & 1 == 1 { Some(o(1 + (i + n) % 3, i)) } else { None }).collect()) } }
    // two additions, all pairs of interesting lengths
    for a in [0usize, 1, 2, 64, 127, 128, 129, 255, 256, 300] { for b in [1usize, 127, 128] { v.push(vec![Some(o(a, 1)), Some(o(b, 2))]) } }
    // wide bitmaps
    for n in [7usize, 8, 9, 15, 16, 17, 31, 32, 33, 62, 63, 64, 65, 66, 67, 100, 127, 128, 129, 130, 200, 300] {
        for p in 0..5 { v.push((0..n).map(|i| if match p { 0 => i == 0, 1 => i == n - 1, 2 => true, 3 => i % 2 == 0, _ => i + 2 > n || i == 3 } { Some(o(1 + i % 2, i)) } else { None }).collect()) }
    }
    // long contents
    for n in [400usize, 1000, 16382, 16383, 16384, 16385, 32767, 32768, 49152, 65535, 65536, 65537, 81920, 100000] { v.push(vec![Some(o(n, 3))]); v.push(vec![Some(o(1, 0)), Some(o(n, 3)), Some(o(2, 7))]) }
    v
}

/// Replace extensible sequence nodes number `which` (None: all) by versions with additions.
fn add(ty: &Ty, v: &Val, at: &mut usize, which: Option<usize>, adds: &mut dyn FnMut() -> Vec<Option<Vec<u8>>>) -> Val {
    match (ty, v) {
        (Ty::Seq(cs, x), Val::Seq(vs)) => {
            let me = *at;
            if *x { *at += 1 }
            let vs: Vec<Option<Val>> = cs.iter().zip(vs).map(|(c, v)| v.as_ref().map(|v| add(&c.ty, v, at, which, adds))).collect();
            if *x && which.map_or(true, |w| w == me) { Val::SeqX(vs, adds()) } else { Val::Seq(vs) }
        }
        (Ty::SeqOf(_, e), Val::List(l)) => Val::List(l.iter().map(|v| add(e, v, at, which, adds)).collect()),
        (Ty::Choice(a, _, _), Val::Choice(i, v)) => Val::Choice(*i, Box::new(add(&a[*i], v, at, which, adds))),
        (Ty::Open(t), Val::Open(k, v)) => Val::Open(*k, Box::new(add(&t.iter().find(|x| x.0 == *k).unwrap().1, v, at, which, adds))),
        _ => v.clone(),
    }
}

fn ext_vals(ty: &Ty, thorough: bool) -> Vec<Val> {
    let adds = additions(thorough);
    let mut out = vec![];
    for (vi, v) in vals::thin(vals::vals(ty, if thorough { 2 } else { 1 }), if thorough { 24 } else { 10 }).iter().enumerate() {
        let mut n = 0;
        add(ty, v, &mut n, None, &mut || vec![None]);
        for w in 0..n.min(6) {
            for (ai, a) in adds.iter().enumerate() {
                if a.iter().flatten().any(|x| x.len() > 300) && (vi + w + ai) % 4 != 0 { continue }
                out.push(add(ty, v, &mut 0, Some(w), &mut || a.clone()));
            }
        }
        if n > 1 {
            for s in 0..adds.len() {
                let mut j = s;
                let x = add(ty, v, &mut 0, None, &mut || { j = (j * 7 + 3) % adds.len(); if adds[j].iter().flatten().any(|x| x.len() > 300) { vec![None, Some(vec![j as u8])] } else { adds[j].clone() } });
                out.push(x);
            }
        }
    }
    out.retain(has_additions);
    out
}

pub fn c12(c: &'static Check) {
    let mut cs = cases(&[Group::Ext]);
    cs.extend(cases(&[Group::Seq, Group::Open]).into_iter().filter(|k| has_ext(&k.ty)));
    let states = StateSet::new();
    par::for_each(&cs, |_, k| {
        if c.stopped() { return }
        mark(format!("additions {}", name(&k.ty)));
        let mut loc = HashSet::new();
        let mut tr = 0;
        let mut vs = ext_vals(&k.ty, c.thorough);
        if k.g != Group::Ext && !c.thorough { vs = vals::thin(vs, 150) }
        for v in &vs {
            let w = weight(v);
            // an addition of no octets or an empty bitmap is not what a conforming peer sends
            let odd = odd_additions(v);
            for off in if w > 600 { vec![0, 3] } else if c.thorough || k.g == Group::Ext { (0..8).collect() } else { vec![0, 1, 6] } {
                if !odd { tr += both(c, k, v, off, &mut loc); }
                else {
                    let mut want = prefix(off, 0);
                    refaper::encode(&mut want, &k.ty, v).unwrap();
                    hostile(c, k, &refaper::to_bytes(&want), off, true, &mut Bits::new(), &mut loc); tr += 1;
                }
            }
            if c.stopped() { return }
        }
        c.add_traces(vs.len() as u64);
        // damaged additions against the reference decoder
        let mut bits = Bits::new();
        for v in vals::thin(vs, if c.thorough { 300 } else { 40 }) {
            let mut want = prefix(2, 0);
            if refaper::encode(&mut want, &k.ty, &v).is_err() || want.len() > 4000 { continue }
            mutations(&refaper::to_bytes(&want), &mut |b| { hostile(c, k, b, 2, true, &mut bits, &mut loc); tr += 1; });
        }
        c.add_transitions(tr);
        states.merge(loc);
    });
    c.add_states(states.len());
    c.count("derived_types", cs.len() as u64);
    c.count("addition_patterns", additions(c.thorough).len() as u64);
    for k in cs.iter().step_by((cs.len() / 8).max(1)) { c.sample(name(&k.ty)); }
    c.assume("additions are written by the reference encoder (the peer); contents up to 100000 octets, up to 300 additions, all bitmaps up to 6 (thorough 8) additions");
}
fn has_ext(ty: &Ty) -> bool {
    match ty { Ty::Seq(c, x) => *x || c.iter().any(|c| has_ext(&c.ty)), Ty::SeqOf(_, e) => has_ext(e), Ty::Choice(a, _, _) => a.iter().any(has_ext), Ty::Open(t) => t.iter().any(|x| has_ext(&x.1)), _ => false }
}
fn odd_additions(v: &Val) -> bool {
    match v {
        Val::SeqX(c, a) => c.iter().flatten().any(odd_additions) || a.iter().all(|x| x.is_none()) || a.iter().flatten().any(|x| x.is_empty()),
        Val::Seq(c) => c.iter().flatten().any(odd_additions),
        Val::List(l) => l.iter().any(odd_additions),
        Val::Choice(_, x) | Val::Open(_, x) => odd_additions(x),
        _ => false,
    }
}

fn some_vals(k: &Case, n: usize) -> Vec<Val> {
    let mut v = vals::thin(vals::vals(&k.ty, if k.g == Group::Prim || matches!(k.ty, Ty::SeqOf(..)) { 2 } else { 1 }), n);
    if k.g == Group::Ext { v.extend(vals::thin(ext_vals(&k.ty, false), n)) }
    v.retain(|v| weight(v) < 5000);
    v
}

/// C03 / C04 on derived types.
pub fn decode_all(c: &'static Check, compare: bool) {
    let cs = cases(&ALL);
    let longs = long_strings();
    let states = StateSet::new();
    par::for_each(&cs, |_, k| {
        if c.stopped() { return }
        mark(format!("derived decode {}", name(&k.ty)));
        let mut loc = HashSet::new();
        let mut bits = Bits::new();
        let (mut n, mut tr) = (0u64, 0u64);
        let h = heavy(&k.ty);
        hostile(c, k, &[], 0, compare, &mut bits, &mut loc);
        for a in 0..=255u8 { for off in 0..8 { hostile(c, k, &[a], off, compare, &mut bits, &mut loc); n += 1; } }
        for a in 0..=255u8 { for b in 0..=255u8 {
            if h && (a % 16 != 0 || b % 51 != 0) { continue }
            if !c.thorough && a % 3 != 0 && b % 3 != 0 && a > 8 { continue }
            hostile(c, k, &[a, b], 0, compare, &mut bits, &mut loc); n += 1;
        } }
        for s in longs.iter().step_by(if c.thorough && !h { 1 } else if h { 97 } else { 11 }) { for off in [0, 5] { hostile(c, k, s, off, compare, &mut bits, &mut loc); n += 1; } }
        if c.stopped() { return }
        for v in some_vals(k, if c.thorough { 60 } else { 10 }) {
            for off in [0usize, 3] {
                let mut want = prefix(off, 0);
                if refaper::encode(&mut want, &k.ty, &v).is_err() { continue }
                want.extend(real::MARK);
                let by = refaper::to_bytes(&want);
                if h && by.len() > 40 { continue }
                tr += 1;
                mutations(&by, &mut |b| { hostile(c, k, b, off, compare, &mut bits, &mut loc); n += 1; });
            }
        }
        c.add_transitions(n);
        c.add_traces(tr);
        states.merge(loc);
    });
    c.add_states(states.len());
    c.count("derived_types", cs.len() as u64);
    c.assume("derived types: short octet strings, structured longer ones, and all single-bit, octet, insertion, removal and truncation mutants of valid encodings");
}

/// Values with exactly one leaf that its constraint does not allow.
fn bad_vals(ty: &Ty, depth: usize) -> Vec<Val> {
    let lim = if depth == 0 { 60 } else { 6 };
    let good = |t: &Ty| vals::thin(vals::vals(t, 1), 2);
    match ty {
        Ty::Int(r) => vals::thin(vals::int_bad(r), lim).into_iter().map(Val::Int).collect(),
        Ty::Enum(n, _) => vals::thin(vals::int_bad(&Rng::new(0, *n as i128 - 1)), lim).into_iter().map(Val::Enum).collect(),
        Ty::Bits(r) => vals::thin(vals::sizes_bad(r), lim).into_iter().map(|n| Val::Bits(vals::bits_pat(n, 1))).collect(),
        Ty::Octets(r) => vals::thin(vals::sizes_bad(r), lim).into_iter().map(|n| Val::Octets(vals::octets_pat(n, 1))).collect(),
        Ty::Str(StrKind::Utf8, r) if r.ext => vec![],
        Ty::Str(k, r) => {
            let mut v: Vec<Val> = vals::thin(vals::sizes_bad(r), lim).into_iter().map(|n| Val::Str(vals::str_pat(*k, n))).collect();
            if *k != StrKind::Utf8 { for n in vals::thin(vals::sizes(r, 200), 3) { if n > 1 { let mut s = vals::str_pat(*k, n - 2); s.extend("é".as_bytes()); v.push(Val::Str(s)) } } }
            v
        }
        Ty::SeqOf(r, e) => {
            let mut g = vals::vals(e, 1);
            if g.is_empty() { return vec![] }
            let small = g.iter().map(weight).min().unwrap();
            g.retain(|v| weight(v) <= small + 8);
            g.truncate(3);
            let mut v: Vec<Val> = vals::thin(vals::sizes_bad(r), if depth == 0 { 20 } else { 3 }).into_iter().filter(|n| depth == 0 || *n < 2000).map(|n| Val::List((0..n).map(|i| g[i % g.len()].clone()).collect())).collect();
            for b in vals::thin(bad_vals(e, depth + 1), 6) {
                for n in vals::thin(vals::sizes(r, 20), 4) { if n > 0 { for at in [0, n / 2, n - 1] { let mut l: Vec<Val> = (0..n).map(|i| g[i % g.len()].clone()).collect(); l[at] = b.clone(); v.push(Val::List(l)) } } }
            }
            v
        }
        Ty::Seq(cs, _) => {
            let mut out = vec![];
            let base: Vec<Val> = vals::vals(ty, 1);
            for b in vals::thin(base, 6) {
                let Val::Seq(vs) = &b else { unreachable!() };
                for (i, cm) in cs.iter().enumerate() {
                    let key = key_index(cs, i).and_then(|k| vs[k].as_ref()).and_then(refaper::key_of);
                    if vs[i].is_none() || cm.key { continue }
                    for x in vals::thin(bad_vals(&cm.ty, depth + 1), 6) {
                        if let (Val::Open(k, _), Some(kk)) = (&x, key) { if *k != kk { continue } }
                        let mut w = vs.clone(); w[i] = Some(x); out.push(Val::Seq(w));
                    }
                }
            }
            out
        }
        Ty::Choice(a, _, adds) => {
            let mut v: Vec<Val> = a.iter().enumerate().flat_map(|(i, t)| vals::thin(bad_vals(t, depth + 1), 4).into_iter().map(move |x| Val::Choice(i, Box::new(x)))).collect();
            // alternatives added after the marker: not encodable by this codec, must not be written as a root alternative
            for (j, t) in adds.iter().enumerate() { for x in good(t) { v.push(Val::Choice(a.len() + j, Box::new(x))) } }
            v
        }
        Ty::Open(t) => t.iter().flat_map(|(k, t)| vals::thin(bad_vals(t, depth + 1), 4).into_iter().map(move |x| Val::Open(*k, Box::new(x)))).collect(),
        _ => vec![],
    }
}

pub fn c05(c: &'static Check) {
    let cs = cases(&ALL);
    let states = StateSet::new();
    par::for_each(&cs, |_, k| {
        if c.stopped() { return }
        mark(format!("derived refuse {}", name(&k.ty)));
        let mut loc = HashSet::new();
        let mut tr = 0;
        let bad = bad_vals(&k.ty, 0);
        for v in &bad {
            for off in [0usize, 6] {
                let root = { let mut b = prefix(off, 0); refaper::encode(&mut b, &k.ty, v) };
                if root.is_ok() { panic!("harness: {} {:?} is allowed", name(&k.ty), v) }
                let key = || format!("encode {} {:?} @{}", name(&k.ty), v, off);
                match guarded(256 << 20, key, || { let mut d = start(&prefix(off, 0)); let r = (k.enc)(v, &mut d); (r, d) }) {
                    Outcome::Done((None, _)) => { break }
                    Outcome::Done((Some(Err(_)), _)) => { tr += 1; loc.insert(hash_of(&(&k.ty, v, off))); }
                    Outcome::Done((Some(Ok(())), d)) => {
                        let got = refaper::from_bytes(&d.get_inner().unwrap());
                        let mut rd = Rd::new(&got, off);
                        // an extension value correctly encoded as one would be right too
                        let ok = root == Err(EncErr::OutsideRoot) && refaper::decode(&mut rd, &k.ty).map_or(false, |w| w == *v && got.len() == (rd.pos + 7) / 8 * 8);
                        if !ok { c.violation(key(), format!("reported success; wrote {}", real::show(&got))) }
                    }
                    Outcome::Panicked(m) => c.violation(key(), m),
                }
            }
        }
        c.add_transitions(tr); c.add_traces(bad.len() as u64);
        states.merge(loc);
    });
    c.add_states(states.len());
    c.count("derived_types", cs.len() as u64);
}

pub fn c06(c: &'static Check) {
    let cs = cases(&ALL);
    let states = StateSet::new();
    par::for_each(&cs, |_, k| {
        if c.stopped() { return }
        mark(format!("derived truncate {}", name(&k.ty)));
        let mut loc = HashSet::new();
        let mut tr = 0;
        let vs = some_vals(k, if c.thorough { 200 } else { 24 });
        for v in &vs {
            for off in [0usize, 3] {
                let mut want = prefix(off, 0);
                if refaper::encode(&mut want, &k.ty, v).is_err() { continue }
                let cuts: Vec<usize> = if want.len() <= 400 && !heavy(&k.ty) { (off..want.len()).collect() } else { (off..want.len().min(off + 24)).chain(want.len().saturating_sub(24).max(off + 24)..want.len()).collect() };
                for cut in cuts {
                    let mut rd = Rd::new(&want[..cut], off);
                    if refaper::decode(&mut rd, &k.ty).is_ok() { continue }
                    tr += 1;
                    loc.insert(hash_of(&(&k.ty, &want, cut)));
                    let key = || format!("decode {} {:?} @{} cut {}", name(&k.ty), v, off, cut);
                    match guarded(64 << 20, key, || {
                        if cut % 8 == 0 { let mut d = AperCodecData::from_slice(&refaper::to_bytes(&want[..cut])); real::skip(&mut d, off); (k.dec)(&mut d) }
                        else { let mut d = real::data_of_bits(&want[..cut]); real::skip(&mut d, off); (k.dec)(&mut d) }
                    }) {
                        Outcome::Done(Err(_)) => {}
                        Outcome::Done(Ok(x)) => c.violation(key(), format!("{} of {} bits decoded as {:?}", cut, want.len(), x)),
                        Outcome::Panicked(m) => c.violation(key(), m),
                    }
                }
            }
            if c.stopped() { return }
        }
        c.add_transitions(tr); c.add_traces(vs.len() as u64);
        states.merge(loc);
    });
    c.add_states(states.len());
    c.count("derived_types", cs.len() as u64);
}

/// Every number in it fits the widest integer the compiler uses for a type without both bounds.
fn in_64_bits(v: &Val) -> bool {
    match v {
        Val::Int(i) => i64::try_from(*i).is_ok(),
        Val::SeqX(c, _) | Val::Seq(c) => c.iter().flatten().all(in_64_bits),
        Val::List(l) => l.iter().all(in_64_bits),
        Val::Choice(_, x) | Val::Open(_, x) => in_64_bits(x),
        _ => true,
    }
}
pub static STRICT: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// K13: the code the compiler generates.  Values forwards and backwards, then hostile headers.
pub fn k13(c: &'static Check) {
    STRICT.store(true, std::sync::atomic::Ordering::SeqCst);
    let cs = cases(&ALL);
    let states = StateSet::new();
    par::for_each(&cs, |_, k| {
        if c.stopped() { return }
        mark(format!("generated {}", name(&k.ty)));
        let mut loc = HashSet::new();
        let mut tr = 0;
        let mut vs = vals::vals(&k.ty, if c.thorough { 3 } else { 2 });
        if has_ext(&k.ty) { vs.extend(vals::thin(ext_vals(&k.ty, false), if k.g == Group::Ext || c.thorough { 400 } else { 40 })) }
        for (n, v) in vs.iter().enumerate() {
            let offs = if c.thorough { offsets(v, false) } else { vec![0, 1 + n % 7] };
            for off in offs { tr += both(c, k, v, off, &mut loc); }
            if c.stopped() { return }
        }
        c.add_traces(vs.len() as u64);
        let mut bits = Bits::new();
        let h = heavy(&k.ty);
        let tails: &[&[u8]] = &[&[], &[0; 24], &[1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1], &[0x01, 0x80, 0x01, 0xff, 0x02, 0x55, 0x01, 0x00, 0x03, 0x07, 0x0a]];
        for t in tails { for a in 0..=255u8 {
            if h && a % 5 != 0 { continue }
            for b in if c.thorough && !h { &[0u8, 1, 0x40, 0x80, 0xff][..] } else { &[1u8][..] } {
                let mut s = vec![a, *b]; s.extend_from_slice(t);
                hostile(c, k, &s, 0, true, &mut bits, &mut loc); tr += 1;
            }
        } }
        c.add_transitions(tr);
        states.merge(loc);
    });
    c.add_states(states.len());
    c.count("generated_specifications", cs.len() as u64);
    for k in cs.iter().step_by((cs.len() / 8).max(1)) { c.sample(name(&k.ty)); }
    c.assume("specifications: mc/model/src/e2e.rs (the type family of the codec checks in ASN.1, inline and with a definition per component; every Rust keyword, prelude name and identifier of the codec's sources in every place a name can stand; spellings that fold together); the code is compiled by the installed rustc and run against the reference encoder");
}
