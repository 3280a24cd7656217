//! Systematic value sets: complete for small domains, every threshold for large ones.
use crate::ty::*;
use std::collections::BTreeSet;

/// All interesting integers inside [lo, hi] relative to the encoding thresholds.
pub fn int_vals(r: &Rng) -> Vec<i128> {
    let mut s = BTreeSet::new();
    let mut add = |v: Option<i128>| { if let Some(v) = v { if r.contains(v) { s.insert(v); } } };
    let (lo, hi) = (r.lb, r.ub);
    if let (Some(l), Some(h)) = (lo, hi) {
        if (h as u128).wrapping_sub(l as u128) <= 300 { return (l..=h).collect() }
    }
    for base in [lo, Some(0)] { if let Some(b) = base {
        for k in 0..127 {
            let p = 1i128 << k;
            for d in -1..=1 { add(p.checked_add(d).and_then(|x| b.checked_add(x))); add(p.checked_add(d).and_then(|x| b.checked_sub(x))); }
        }
        for d in 0..=20 { add(b.checked_add(d)); add(b.checked_sub(d)); }
    } }
    if let Some(h) = hi { for d in 0..=3 { add(h.checked_sub(d)); } if let Some(l) = lo { add(Some(l + ((h as u128).wrapping_sub(l as u128) / 2) as i128)); } }
    s.into_iter().collect()
}

/// Integers outside the bounds.
pub fn int_bad(r: &Rng) -> Vec<i128> {
    let mut s = BTreeSet::new();
    if let Some(l) = r.lb { for d in [1i128, 2, 3, 127, 128, 255, 256, 257, 65535, 65536, 65537, 1 << 24, 1 << 32, 1 << 40, 1 << 63, 1 << 64] { if let Some(v) = l.checked_sub(d) { s.insert(v); } } }
    if let Some(h) = r.ub { for d in [1i128, 2, 3, 127, 128, 255, 256, 257, 65535, 65536, 65537, 1 << 24, 1 << 32, 1 << 40, 1 << 63, 1 << 64] { if let Some(v) = h.checked_add(d) { s.insert(v); } } }
    for v in [0i128, -1, 1, i64::MAX as i128, i64::MIN as i128] { s.insert(v); }
    s.into_iter().filter(|v| !r.contains(*v)).collect()
}

pub fn sizes(r: &Rng, max: usize) -> Vec<usize> {
    let mut s = BTreeSet::new();
    let mut add = |v: i128| { if v >= 0 && v <= max as i128 && r.contains(v) { s.insert(v as usize); } };
    for v in 0..=20 { add(v) }
    for v in [31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 16383] { add(v) }
    for b in [r.lb, r.ub] { if let Some(b) = b { for d in -2..=2 { add(b + d) } } }
    s.into_iter().collect()
}
pub fn sizes_bad(r: &Rng) -> Vec<usize> {
    let mut s = BTreeSet::new();
    let mut add = |v: i128| { if v >= 0 && v < 70000 && !r.contains(v) { s.insert(v as usize); } };
    for b in [r.lb, r.ub] { if let Some(b) = b { for d in [-300, -256, -128, -3, -2, -1, 1, 2, 3, 127, 128, 255, 256, 257, 65535, 65536] { add(b + d) } } }
    for v in [0, 1, 127, 128, 255, 256] { add(v) }
    s.into_iter().collect()
}

pub fn bits_pat(n: usize, p: u32) -> Vec<bool> { (0..n).map(|i| match p { 0 => true, 1 => (i * 7 + i / 5) % 3 == 0, _ => i == 0 }).collect() }
pub fn octets_pat(n: usize, p: u32) -> Vec<u8> { (0..n).map(|i| match p { 0 => 0xff, 1 => (i as u32).wrapping_mul(167).wrapping_add(0x81) as u8, _ => 0 }).collect() }
/// A string of n characters; UTF-8 strings contain characters of 1 to 4 octets.
pub fn str_pat(k: StrKind, n: usize) -> Vec<u8> {
    let mut v = vec![];
    for i in 0..n {
        if k == StrKind::Utf8 && i % 5 == 1 { v.extend(["é", "€", "𝄞"][i / 5 % 3].as_bytes()) }
        else { v.push(b"Az09 bQ"[i % 7]) }
    }
    v
}

/// Values of a type's root.  `w` bounds the width of products; leaves keep all thresholds when `w` > 1.
pub fn vals(ty: &Ty, w: usize) -> Vec<Val> {
    match ty {
        Ty::Bool => vec![Val::Bool(true), Val::Bool(false)],
        Ty::Null => vec![Val::Null],
        Ty::Int(r) => thin(int_vals(r), if w > 1 { 400 } else { 5 }).into_iter().map(Val::Int).collect(),
        Ty::Enum(n, _) => thin((0..*n as i128).collect(), if w > 1 { 400 } else { 4 }).into_iter().map(Val::Enum).collect(),
        Ty::Bits(r) => thin(sizes(r, 16383), if w > 1 { 40 } else { 4 }).into_iter().flat_map(|n| (0..(if w > 1 { 2 } else { 1 })).map(move |p| Val::Bits(bits_pat(n, p + 1 - (w <= 1) as u32 * 0)))).collect(),
        Ty::Octets(r) => thin(sizes(r, 16383), if w > 1 { 40 } else { 4 }).into_iter().map(|n| Val::Octets(octets_pat(n, 1))).collect(),
        Ty::Str(k, r) => thin(sizes(r, if *k == StrKind::Utf8 { 10000 } else { 16383 }), if w > 1 { 30 } else { 4 }).into_iter().map(|n| Val::Str(str_pat(*k, n))).collect(),
        Ty::Seq(comps, _) => seq_vals(comps, w),
        Ty::SeqOf(r, el) => {
            let ev = vals(el, if w > 1 { w - 1 } else { 1 });
            let mut out: Vec<Val> = vec![];
            for n in thin(sizes(r, if w > 1 { 16383 } else { 300 }), if w > 1 { 40 } else { 3 }) {
                if n > 0 && ev.is_empty() { continue }
                for rot in 0..(if n == 1 { ev.len().min(if w > 1 { 400 } else { 3 }) } else { 1 }) {
                    out.push(Val::List((0..n).map(|i| ev[(i + rot) % ev.len()].clone()).collect()));
                }
            }
            out
        }
        Ty::Choice(alts, _, _) => alts.iter().enumerate().flat_map(|(i, a)| {
            vals(a, if w > 1 { w - 1 } else { 1 }).into_iter().map(move |v| Val::Choice(i, Box::new(v)))
        }).collect(),
        Ty::Open(t) => t.iter().flat_map(|(k, a)| vals(a, if w > 1 { w - 1 } else { 1 }).into_iter().map(move |v| Val::Open(*k, Box::new(v)))).collect(),
        Ty::Len(r) => sizes(r, 70000).into_iter().map(|n| Val::Int(n as i128)).collect(),
        Ty::SmallLen => (1..=200).chain([16383]).map(Val::Int).collect(),
        Ty::ChoiceIdx(r) => int_vals(r).into_iter().map(Val::Int).collect(),
        Ty::SeqHdr(n, _) => if *n <= 8 { (0..1u32 << n).map(|m| Val::Bits((0..*n).map(|i| m >> i & 1 == 1).collect())).collect() }
            else { (0..3).map(|p| Val::Bits(bits_pat(*n as usize, p))).collect() },
    }
}

/// Keep at most n, always first, last and evenly spread ones.
pub fn thin<T: Clone>(v: Vec<T>, n: usize) -> Vec<T> {
    if v.len() <= n { return v }
    (0..n).map(|i| v[i * (v.len() - 1) / (n - 1)].clone()).collect()
}

fn seq_vals(comps: &[Comp], w: usize) -> Vec<Val> {
    let opt: Vec<usize> = comps.iter().enumerate().filter(|(_, c)| c.optional).map(|(i, _)| i).collect();
    let cv: Vec<Vec<Val>> = comps.iter().map(|c| vals(&c.ty, if w > 1 { w - 1 } else { 1 })).collect();
    let subsets: Vec<Vec<bool>> = if opt.len() <= 8 {
        (0..1usize << opt.len()).map(|m| (0..opt.len()).map(|i| m >> i & 1 == 1).collect()).collect()
    } else {
        // none, all, every single one, every single one missing, alternating
        let n = opt.len();
        let mut s = vec![vec![false; n], vec![true; n], (0..n).map(|i| i % 2 == 0).collect(), (0..n).map(|i| i % 2 == 1).collect()];
        for i in 0..n { let mut a = vec![false; n]; a[i] = true; s.push(a); let mut a = vec![true; n]; a[i] = false; s.push(a); }
        s
    };
    let mut out = vec![];
    for sub in subsets {
        let pres: Vec<bool> = (0..comps.len()).map(|i| opt.iter().position(|o| *o == i).map_or(true, |k| sub[k])).collect();
        // vary one component at a time through all its values; the others rotate
        let steps = if w > 1 { comps.iter().enumerate().filter(|(i, _)| pres[*i]).map(|(i, _)| cv[i].len()).max().unwrap_or(1) } else { 1 };
        for s in 0..steps.max(1) {
            for shift in 0..(if w > 2 { 2 } else { 1 }) {
                let mut vs: Vec<Option<Val>> = vec![];
                let mut keyless = false; // an open type without its key: not a value
                let mut keys: Vec<Option<i128>> = vec![None; comps.len()];
                for (i, c) in comps.iter().enumerate() {
                    if !c.key || !pres[i] { continue }
                    // restrict keys to those in the tables of their open types
                    let t = (0..comps.len()).find_map(|j| match &comps[j].ty { Ty::Open(t) if key_index(comps, j) == Some(i) && !t.is_empty() => Some(t), _ => None });
                    keys[i] = match t { Some(t) => Some(t[(s + i * shift) % t.len()].0), None => crate::refaper::key_of(&cv[i][(s + shift * i) % cv[i].len()]) };
                }
                for (i, c) in comps.iter().enumerate() {
                    if !pres[i] { vs.push(None); continue }
                    if cv[i].is_empty() { keyless = true; break } // no values at all
                    let mut v = cv[i][(s + shift * i) % cv[i].len()].clone();
                    if let Ty::Open(t) = &c.ty {
                        let Some(k) = key_index(comps, i).and_then(|j| keys[j]) else { keyless = true; break };
                        let tt = &t.iter().find(|x| x.0 == k).expect("key without entry").1;
                        let iv = vals(tt, if w > 1 { w - 1 } else { 1 });
                        v = Val::Open(k, Box::new(iv[(s / t.len() + shift) % iv.len()].clone()));
                    }
                    if let Some(k) = keys[i] { v = match v { Val::Enum(_) => Val::Enum(k), _ => Val::Int(k) } }
                    vs.push(Some(v));
                }
                if !keyless { out.push(Val::Seq(vs)); }
            }
        }
    }
    out.dedup();
    out
}
