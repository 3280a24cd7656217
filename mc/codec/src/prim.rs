//! C01-C07 on the primitive API.
use crate::lattice;
use crate::real;
use asn1_codecs::aper::AperCodecData;
use mc_model::par;
use mc_model::refaper::{self, Bits, DecErr, EncErr, Rd};
use mc_model::report::*;
use mc_model::ty::*;
use mc_model::vals;

pub fn prefix(off: usize, p: usize) -> Bits { (0..off).map(|i| p == 0 || (i + p) % 3 == 0).collect() }

pub fn start(pre: &[bool]) -> AperCodecData { real::data_of_bits(pre) }

fn types(c: &Check) -> Vec<Ty> {
    let mut t = lattice::all_types(c.thorough);
    t.extend(lattice::forms());
    let mut seen = std::collections::HashSet::new();
    t.retain(|x| seen.insert(x.clone()));
    t
}

pub fn name(ty: &Ty) -> String { format!("{:?}", ty).replace("Rng { lb: ", "").replace("Some", "").replace("ub: ", "").replace(" }", "") }

/// Values used for the encode-side enumeration of a type.
fn enc_vals(ty: &Ty, thorough: bool) -> Vec<Val> {
    match ty {
        Ty::Bits(_) | Ty::Octets(_) | Ty::Str(..) => {
            let full = matches!(ty, Ty::Bits(r) | Ty::Octets(r) | Ty::Str(_, r) if r.unbounded() || (*r == Rng::ext(1, 150)));
            if full {
                // every length up to 600
                (0..=600usize).chain([1000, 4095, 4096, 8191, 8192, 16382, 16383]).filter(|n| !(matches!(ty, Ty::Str(StrKind::Utf8, _)) && *n > 9000)).filter(|n| match ty { Ty::Bits(r) | Ty::Octets(r) | Ty::Str(_, r) => r.contains(*n as i128), _ => true })
                    .map(|n| match ty { Ty::Bits(_) => Val::Bits(vals::bits_pat(n, 1)), Ty::Octets(_) => Val::Octets(vals::octets_pat(n, 1)), Ty::Str(k, _) => Val::Str(vals::str_pat(*k, n)), _ => unreachable!() }).collect()
            } else {
                let _ = thorough;
                vals::vals(ty, 2)
            }
        }
        _ => vals::vals(ty, 2),
    }
}

/// Strings whose size in characters, UTF-16 units and octets all differ, of every size up to 12.
fn odd_strings(ty: &Ty) -> Vec<Val> {
    match ty {
        Ty::Str(StrKind::Utf8, r) => (0..=12usize).flat_map(|n| ["\u{e9}", "\u{20ac}", "\u{1d11e}", "e\u{301}"].iter().map(move |u| { let mut s: String = u.repeat(n); s = s.chars().take(n).collect(); s })).filter(|s| r.contains(s.chars().count() as i128)).map(|s| Val::Str(s.into_bytes())).collect(),
        _ => vec![],
    }
}

fn octets_of(b: &[bool]) -> Vec<u8> { b.chunks(8).map(|c| c.iter().enumerate().fold(0u8, |a, (i, x)| a | (*x as u8) << (7 - i))).collect() }

/// C01: encoded bits equal the reference at every bit position.
pub fn c01(c: &'static Check) {
    let tys = types(c);
    let states = StateSet::new();
    par::for_each(&tys, |_, ty| {
        if c.stopped() { return }
        mark(format!("encode {}", name(ty)));
        let mut tr = 0;
        let mut loc = std::collections::HashSet::new();
        for v in enc_vals(ty, c.thorough) {
            c.add_traces(1);
            let big = match &v { Val::Bits(b) => b.len() > 2000, Val::Octets(o) | Val::Str(o) => o.len() > 300, _ => false };
            for off in 0..8usize {
                if big && ![0, 1, 5].contains(&off) && !c.thorough { continue }
                for p in 0..(if off > 0 && !big { 2 } else { 1 }) {
                    let mut want = prefix(off, p);
                    let r = refaper::encode(&mut want, ty, &v);
                    if r == Err(EncErr::OutsideRoot) { continue }
                    r.unwrap_or_else(|e| panic!("harness: {:?} {:?} {:?}", ty, v, e));
                    let (ty2, v2) = (ty.clone(), v.clone());
                    let res = guarded(64 << 20, move || format!("encode {} {:?} at bit {}", name(&ty2), v2, off), || {
                        let mut d = start(&prefix(off, p));
                        let r = real::encode(&mut d, ty, &v);
                        real::put_mark(&mut d);
                        (r, d)
                    });
                    tr += 1;
                    loc.insert(hash_of(&want));
                    let key = || format!("{} {:?} @{}", name(ty), v, off);
                    match res {
                        Outcome::Panicked(m) => c.violation(key(), format!("encoding panics: {}", m)),
                        Outcome::Done((Err(e), _)) => c.violation(key(), format!("allowed value refused: {}\nexpected {}", e, real::show(&want))),
                        Outcome::Done((Ok(()), d)) => if !real::holds(&d, &want) {
                            c.violation(key(), format!("prefix of {} bits, then expected\n{}\ngot\n{}", off, real::show(&want), real::show_data(&d)))
                        },
                    }
                }
            }
        }
        c.add_transitions(tr); states.merge(loc);
    });
    c.add_states(states.len());
    c.count("types", tys.len() as u64);
    for t in tys.iter().step_by(tys.len() / 12) { c.sample(name(t)); }
    c.assume("types: every threshold of X.691 10.5-10.9, 15, 16, 27 with neighbours (lattice.rs); values: complete up to 300 per range, thresholds beyond; 8 bit positions, 2 prefix patterns");
}

/// C02: all operation sequences up to a depth.
pub fn c02(c: &'static Check) {
    use StrKind::*;
    let i = |l, u| Ty::Int(Rng::new(l, u));
    let letters: Vec<(Ty, Val)> = vec![
        (Ty::Bool, Val::Bool(true)), (Ty::Bool, Val::Bool(false)), (i(5, 5), Val::Int(5)), (i(0, 2), Val::Int(1)), (i(-3, 4), Val::Int(4)), (i(1, 100), Val::Int(77)), (i(0, 253), Val::Int(200)),
        (i(0, 255), Val::Int(0xA5)), (i(0, 65535), Val::Int(0x8001)), (i(0, 65536), Val::Int(0)), (i(0, 65536), Val::Int(65536)), (i(0, u32::MAX as i128), Val::Int(0x12345)), (i(0, 1 << 40), Val::Int(1 << 40)), (i(i64::MIN as i128, i64::MAX as i128), Val::Int(-1)),
        (Ty::Int(Rng::ext(0, 7)), Val::Int(7)), (Ty::Int(Rng::ext(0, 100000)), Val::Int(99)), (Ty::Int(Rng { lb: Some(-1), ub: None, ext: false }), Val::Int(199)), (Ty::Int(Rng::none()), Val::Int(-129)), (Ty::Int(Rng::none()), Val::Int(1 << 47)),
        (Ty::Enum(3, false), Val::Enum(2)), (Ty::Enum(3, true), Val::Enum(1)), (Ty::Enum(256, true), Val::Enum(255)),
        (Ty::ChoiceIdx(Rng::new(0, 4)), Val::Int(3)), (Ty::ChoiceIdx(Rng::ext(0, 2)), Val::Int(2)),
        (Ty::SeqHdr(0, true), Val::Bits(vec![])), (Ty::SeqHdr(3, false), Val::Bits(vec![true, false, true])), (Ty::SeqHdr(9, true), Val::Bits(vals::bits_pat(9, 1))),
        (Ty::Bits(Rng::new(3, 3)), Val::Bits(vec![true, false, true])), (Ty::Bits(Rng::new(16, 16)), Val::Bits(vals::bits_pat(16, 1))), (Ty::Bits(Rng::new(17, 17)), Val::Bits(vals::bits_pat(17, 1))), (Ty::Bits(Rng::new(1, 160)), Val::Bits(vals::bits_pat(9, 0))), (Ty::Bits(Rng::ext(1, 32)), Val::Bits(vals::bits_pat(32, 1))), (Ty::Bits(Rng::none()), Val::Bits(vec![true])), (Ty::Bits(Rng::none()), Val::Bits(vec![])),
        (Ty::Octets(Rng::new(0, 0)), Val::Octets(vec![])), (Ty::Octets(Rng::new(2, 2)), Val::Octets(vec![0x80, 1])), (Ty::Octets(Rng::new(3, 3)), Val::Octets(vec![1, 2, 0xfe])), (Ty::Octets(Rng::new(0, 2)), Val::Octets(vec![0xff])), (Ty::Octets(Rng::new(1, 8)), Val::Octets(vec![7; 5])), (Ty::Octets(Rng::ext(2, 2)), Val::Octets(vec![9, 0x81])), (Ty::Octets(Rng::none()), Val::Octets(vec![])), (Ty::Octets(Rng::none()), Val::Octets(vals::octets_pat(130, 1))),
        (Ty::Str(Visible, Rng::new(2, 2)), Val::Str(b"ab".to_vec())), (Ty::Str(Visible, Rng::new(0, 1)), Val::Str(b"z".to_vec())), (Ty::Str(Printable, Rng::ext(1, 150)), Val::Str(b"Q".to_vec())), (Ty::Str(Printable, Rng::none()), Val::Str(b"hello".to_vec())), (Ty::Str(Utf8, Rng::ext(1, 150)), Val::Str("hé".as_bytes().to_vec())), (Ty::Str(Utf8, Rng::none()), Val::Str(vec![])),
        (Ty::Len(Rng::new(0, 10)), Val::Int(3)), (Ty::Len(Rng::none()), Val::Int(200)), (Ty::SmallLen, Val::Int(1)), (Ty::SmallLen, Val::Int(64)), (Ty::SmallLen, Val::Int(65)),
    ];
    let depth = if c.thorough { 4 } else { 3 };
    let states = StateSet::new();
    let n = letters.len();
    // first two letters index the work list; shorter sequences are checked on the way
    let work: Vec<(usize, usize)> = (0..n).flat_map(|a| (0..n).map(move |b| (a, b))).collect();
    par::for_each(&work, |_, &(a, b)| {
        if c.stopped() { return }
        let mut seqs: Vec<Vec<usize>> = vec![vec![a, b]];
        if b == 0 { seqs.push(vec![a]) }
        let mut frontier = vec![vec![a, b]];
        for _ in 2..depth {
            let mut nf = vec![];
            for s in &frontier { for l in 0..n { let mut t = s.clone(); t.push(l); nf.push(t) } }
            seqs.extend(nf.iter().cloned());
            frontier = nf;
        }
        mark(format!("sequences starting {:?} {:?}", letters[a].0, letters[b].0));
        let mut tr = 0;
        let mut loc = std::collections::HashSet::new();
        for s in &seqs {
            if c.stopped() { return }
            let mut want = Bits::new();
            for l in s { refaper::encode(&mut want, &letters[*l].0, &letters[*l].1).expect("harness"); loc.insert(hash_of(&want)); }
            tr += s.len() as u64 * 3;
            let key = || s.iter().map(|l| format!("{} {:?}", name(&letters[*l].0), letters[*l].1)).collect::<Vec<_>>().join("; ");
            let (s2, l2): (Vec<usize>, Vec<(Ty, Val)>) = (s.clone(), s.iter().map(|l| letters[*l].clone()).collect());
            let _ = s2;
            let r = guarded(16 << 20, move || format!("sequence {:?}", l2), || -> Result<(), String> {
                let mut d = AperCodecData::new();
                for l in s { real::encode(&mut d, &letters[*l].0, &letters[*l].1).map_err(|e| format!("encode refused: {}", e))?; }
                // from the encoder's own buffer
                let mut own = AperCodecData::new();
                for l in s { real::encode(&mut own, &letters[*l].0, &letters[*l].1).map_err(|e| format!("second encode refused: {}", e))?; }
                let bytes = d.into_bytes();
                for (which, mut r) in [("own buffer", own), ("bytes", AperCodecData::from_slice(&bytes))] {
                    for (k, l) in s.iter().enumerate() {
                        let (ty, v) = &letters[*l];
                        match real::decode(&mut r, ty) {
                            Ok((got, _)) => if got != real::expected_decoded(ty, v) { return Err(format!("{}: item {} decoded as {:?}", which, k, got)) },
                            Err(e) => return Err(format!("{}: item {} not decoded: {}", which, k, e)),
                        }
                    }
                    let rem = real::remaining(&mut r);
                    let exp = if which == "bytes" { (8 - want.len() % 8) % 8 } else { 0 };
                    if rem != exp { return Err(format!("{}: {} bits left, expected {}", which, rem, exp)) }
                }
                Ok(())
            });
            match r {
                Outcome::Done(Ok(())) => {}
                Outcome::Done(Err(e)) => c.violation(key(), e),
                Outcome::Panicked(m) => c.violation(key(), m),
            }
        }
        c.add_transitions(tr); states.merge(loc); c.add_traces(seqs.len() as u64);
    });
    c.add_states(states.len());
    c.count("alphabet", n as u64);
    c.count("depth", depth as u64);
    c.sample(work.iter().step_by(97).take(4).map(|(a, b)| format!("{} {:?}; {} {:?}", name(&letters[*a].0), letters[*a].1, name(&letters[*b].0), letters[*b].1)).collect::<Vec<_>>().join(" | "));
    // round trip of every single value of the lattice, at every position
    let tys = types(c);
    par::for_each(&tys, |_, ty| {
        if c.stopped() { return }
        mark(format!("round trip {}", name(ty)));
        let mut tr = 0;
        for v in enc_vals(ty, c.thorough) {
            let big = match &v { Val::Bits(b) => b.len() > 2000, Val::Octets(o) | Val::Str(o) => o.len() > 300, _ => false };
            for off in 0..8usize {
                if big && ![0, 3].contains(&off) { continue }
                let (ty2, v2) = (ty.clone(), v.clone());
                tr += 2;
                let r = guarded(64 << 20, move || format!("round trip {} {:?} @{}", name(&ty2), v2, off), || -> Result<(), String> {
                    let mut d = start(&prefix(off, 0));
                    if real::encode(&mut d, ty, &v).is_err() { return Ok(()) } // refusal is C01/C05/C07's business
                    real::put_mark(&mut d);
                    real::skip(&mut d, off);
                    let (got, fl) = real::decode(&mut d, ty).map_err(|e| format!("not decoded: {}", e))?;
                    if got != real::expected_decoded(ty, &v) { return Err(format!("decoded as {:?}", got)) }
                    if fl == Some(true) { return Err("flagged as extension value".into()) }
                    let rem = real::remaining(&mut d);
                    if rem != 9 { return Err(format!("{} bits left unread, expected 9", rem)) }
                    Ok(())
                });
                let key = || format!("{} {:?} @{}", name(ty), v, off);
                match r {
                    Outcome::Done(Ok(())) => {}
                    Outcome::Done(Err(e)) => c.violation(key(), e),
                    Outcome::Panicked(m) => c.violation(key(), m),
                }
            }
        }
        c.add_transitions(tr); c.add_traces(tr / 2);
    });
}

pub fn byte_strings(c: &Check) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![vec![]];
    for a in 0..=255u8 { v.push(vec![a]) }
    for a in 0..=255u8 { for b in 0..=255u8 { v.push(vec![a, b]) } }
    let _ = c;
    v
}
/// Structured longer inputs: every pair of leading octets that matters followed by typical tails.
pub fn long_strings() -> Vec<Vec<u8>> {
    let heads: Vec<Vec<u8>> = {
        let mut h = vec![];
        for a in [0u8, 1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 18, 31, 32, 33, 63, 64, 65, 66, 67, 68, 69, 127, 128, 129, 130, 131, 144, 160, 191, 192, 193, 194, 195, 196, 197, 224, 255] {
            h.push(vec![a]);
            for b in [0u8, 1, 2, 3, 4, 5, 8, 9, 16, 17, 18, 64, 127, 128, 129, 130, 144, 192, 193, 196, 255] {
                h.push(vec![a, b]);
                for d in [0u8, 1, 16, 128, 193, 255] { h.push(vec![a, b, d]) }
            }
        }
        h
    };
    let tails: Vec<Vec<u8>> = vec![vec![], vec![0; 3], vec![0xff; 9], vec![0x80; 17], vec![0x41; 40], vec![0xff; 200]];
    heads.iter().flat_map(|h| tails.iter().map(move |t| { let mut v = h.clone(); v.extend(t); v })).collect()
}

pub fn limit_for(len: usize) -> u64 { 128 * 1024 + 512 * len as u64 }

/// C03: no panic, hang or disproportionate allocation on any input.  C04: agreement with the reference decoder.
pub fn c03_c04(c: &'static Check, compare: bool) {
    let tys: Vec<Ty> = lattice::forms();
    let strings = byte_strings(c);
    let longs = long_strings();
    let outcomes = StateSet::new();
    let accepted = std::sync::atomic::AtomicU64::new(0);
    let one = |loc: &mut std::collections::HashSet<u64>, bits: &mut Bits, ty: &Ty, bytes: &[u8], off: usize| {
        if off > bytes.len() * 8 { return }
        let r = guarded(limit_for(bytes.len()), || format!("decode {} from {:02x?} at bit {}", name(ty), bytes, off), || {
            let mut d = AperCodecData::from_slice(bytes);
            real::skip(&mut d, off);
            let r = real::decode(&mut d, ty);
            let rem = if r.is_ok() && compare { real::remaining(&mut d) } else { 0 };
            (r, rem)
        });
        let key = || format!("{} {:02x?} @{}", name(ty), bytes, off);
        if !compare {
            match r {
                Outcome::Panicked(m) => c.violation(key(), m),
                Outcome::Done((Ok((v, _)), _)) => { loc.insert(hash_of(&(ty, v))); }
                Outcome::Done((Err(e), _)) => { loc.insert(hash_of(&(ty, e))); }
            }
            return;
        }
        let (r, rem) = match r { Outcome::Done(x) => x, Outcome::Panicked(_) => return };
        bits.clear();
        for o in bytes { refaper::put(bits, *o as u128, 8) }
        let bits: &Bits = bits;
        let mut rd = Rd::new(bits, off);
        let want = refaper::decode(&mut rd, ty);
        match (&r, &want) {
            (Ok((v, fl)), Ok(w)) => {
                accepted.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                let wfl = match ty { Ty::Int(r) => Some(r.ext && bits[off]), _ => None };
                if v != w || (fl.is_some() && *fl != wfl) { c.violation(key(), format!("decoded {:?} (ext {:?}), X.691 says {:?} (ext {:?})", v, fl, w, wfl)) }
                else if rem != bits.len() - rd.pos { c.violation(key(), format!("decoded {:?} but {} bits left instead of {}", v, rem, bits.len() - rd.pos)) }
                loc.insert(hash_of(&(ty, v)));
            }
            (Ok((v, _)), Err(e)) => {
                // A value whose bits do not exist or that breaks the constraint
                c.violation(key(), format!("decoded {:?}, but X.691 says {:?}", v, e))
            }
            (Err(e), Ok(w)) => if rd.canon && rd.must { c.violation(key(), format!("canonical encoding of {:?} refused: {}", w, e)) },
            (Err(_), Err(_)) => {}
        }
    };
    let mut work: Vec<(usize, usize, u8)> = vec![]; // type, offset, family
    for t in 0..tys.len() { for off in 0..8 { work.push((t, off, 0)); work.push((t, off, 1)); } }
    if c.thorough { for t in 0..tys.len() { for off in [0, 1, 7] { work.push((t, off, 2)); } } }
    par::for_each(&work, |_, &(t, off, fam)| {
        if c.stopped() { return }
        mark(format!("decode {} at bit {}", name(&tys[t]), off));
        let mut n = 0u64;
        let mut loc = std::collections::HashSet::new();
        let mut bits = Bits::new();
        match fam {
            0 => for s in &strings { one(&mut loc, &mut bits, &tys[t], s, off); n += 1; },
            1 => for s in &longs { one(&mut loc, &mut bits, &tys[t], s, off); n += 1; if c.stopped() { return } },
            _ => {
                // all 3-octet strings
                let mut b = [0u8; 3];
                for x in 0..1u32 << 24 { b[0] = (x >> 16) as u8; b[1] = (x >> 8) as u8; b[2] = x as u8; one(&mut loc, &mut bits, &tys[t], &b, off); n += 1; if n % 4096 == 0 && c.stopped() { return } }
            }
        }
        c.add_transitions(n);
        outcomes.merge(loc);
    });
    // the whole lattice of types on the short strings at two positions
    let all = types(c);
    let shorts: Vec<&Vec<u8>> = strings.iter().filter(|s| s.len() < 2 || (s[1] % 0x11 == 0 && s[0] % 5 == 0) || s[0] < 4 || s[1] < 3).collect();
    par::for_each(&all, |_, ty| {
        if c.stopped() { return }
        mark(format!("decode {}", name(ty)));
        let mut n = 0;
        let mut loc = std::collections::HashSet::new();
        let mut bits = Bits::new();
        for off in [0usize, 3] { for s in &shorts { one(&mut loc, &mut bits, ty, s, off); n += 1; } for s in longs.iter().step_by(7) { one(&mut loc, &mut bits, ty, s, off); n += 1; } }
        c.add_transitions(n);
        outcomes.merge(loc);
    });
    // the encodings that X.691 prescribes of all the values, and their neighbours: one bit wrong near the start or the end
    if compare {
        par::for_each(&all, |_, ty| {
            if c.stopped() { return }
            mark(format!("decode {} from its encodings", name(ty)));
            let mut n = 0;
            let mut loc = std::collections::HashSet::new();
            let mut bits = Bits::new();
            let mut seen_heads = std::collections::HashSet::new();
            for (v, with_neighbours) in enc_vals(ty, c.thorough).into_iter().map(|v| (v, true)).chain(odd_strings(ty).into_iter().map(|v| (v, true))) {
                for off in [0usize, 5, 7] {
                    let mut b = prefix(off, 1);
                    if refaper::encode(&mut b, ty, &v).is_err() { continue }
                    let end = b.len();
                    refaper::put(&mut b, 0xa5c3, 16);
                    while b.len() % 8 != 0 { b.push(false) }
                    let bytes = octets_of(&b);
                    one(&mut loc, &mut bits, ty, &bytes, off); n += 1;
                    // neighbours of long ones once for each start
                    if !with_neighbours || (bytes.len() > 100 && !seen_heads.insert((off, bytes[..4].to_vec()))) { continue }
                    let mut flips: Vec<usize> = (off..end.min(off + 28)).chain(end.saturating_sub(6).max(off)..end).collect();
                    flips.dedup();
                    for i in flips { let mut x = bytes.clone(); x[i / 8] ^= 0x80 >> (i % 8); one(&mut loc, &mut bits, ty, &x, off); n += 1; if c.stopped() { return } }
                }
            }
            c.add_transitions(n);
            outcomes.merge(loc);
        });
    }
    c.add_states(outcomes.len());
    c.add_traces((strings.len() + longs.len()) as u64);
    c.count("types_exhaustive", tys.len() as u64);
    c.count("types_lattice", all.len() as u64);
    if compare { c.count("accepted", accepted.load(std::sync::atomic::Ordering::Relaxed)); }
    c.sample(format!("{} over all byte strings of length <= {} at 8 bit positions", name(&tys[5]), if c.thorough { 3 } else { 2 }));
    c.sample(format!("{:02x?}", longs[longs.len() / 2]));
    c.assume("inputs: every byte string of up to 2 (thorough 3) octets, plus structured strings up to 203 octets");
}

/// C09: the index of a CHOICE alternative or ENUMERATED item on its own: every count around the thresholds, every
/// index of the root, of the additions and beyond, forwards and backwards.
pub fn indices(c: &'static Check) {
    let counts: Vec<i128> = (1..=if c.thorough { 520 } else { 70i128 }).chain([127, 128, 129, 255, 256, 257, 511, 512, 513, 1024, 4096, 65535, 65536, 65537]).collect();
    let mut tys = vec![];
    for n in counts { for x in [false, true] { tys.push(Ty::ChoiceIdx(Rng { lb: Some(0), ub: Some(n - 1), ext: x })); tys.push(Ty::Enum(n as u32, x)); } }
    let states = StateSet::new();
    par::for_each(&tys, |_, ty| {
        if c.stopped() { return }
        mark(format!("index {}", name(ty)));
        let (n, x, choice) = match ty { Ty::ChoiceIdx(r) => (r.ub.unwrap() + 1, r.ext, true), Ty::Enum(n, x) => (*n as i128, *x, false), _ => unreachable!() };
        let mut vs: Vec<Val> = (0..n.min(600)).chain([n - 2, n - 1, n / 2, 256, 257]).filter(|i| (0..n).contains(i)).map(|i| if choice { Val::Int(i) } else { Val::Enum(i) }).collect();
        if x { vs.extend((0..=300i128).chain([511, 512, 1000, 16383, 16384, 65535, 65536, 65537, 0xff_ffff, 0x100_0000, 0xffff_ffff]).map(|i| if choice { Val::ChoiceExt(i) } else { Val::EnumExt(i) })); }
        let (mut tr, mut loc) = (0, std::collections::HashSet::new());
        for v in &vs {
            let root = matches!(v, Val::Int(_) | Val::Enum(_));
            for off in 0..8usize {
                let mut want = prefix(off, 0);
                refaper::encode(&mut want, ty, v).unwrap_or_else(|e| panic!("harness: {:?} {:?} {:?}", ty, v, e));
                loc.insert(hash_of(&(ty, &want)));
                let key = |w: &str| format!("{} {} {:?} @{}", w, name(ty), v, off);
                if root {
                    tr += 1;
                    match guarded(64 << 20, || key("encode"), || { let mut d = start(&want[..off]); let r = real::encode(&mut d, ty, v); real::put_mark(&mut d); (r, d) }) {
                        Outcome::Done((Ok(()), d)) => if !real::holds(&d, &want) { c.violation(key("encode"), format!("expected {}\n     got {}", real::show(&want[off..]), real::show_data(&d))) },
                        Outcome::Done((Err(e), _)) => c.violation(key("encode"), format!("refused: {}", e)),
                        Outcome::Panicked(m) => c.violation(key("encode"), m),
                    }
                }
                tr += 1;
                let mut bits = want.clone(); bits.extend(real::MARK);
                let bytes = refaper::to_bytes(&bits);
                match guarded(64 << 20, || key("decode"), || { let mut d = AperCodecData::from_slice(&bytes); real::skip(&mut d, off); let r = real::decode(&mut d, ty); let rem = if r.is_ok() { real::remaining(&mut d) } else { 0 }; (r, rem) }) {
                    Outcome::Done((Ok((g, _)), rem)) => if &g != v { c.violation(key("decode"), format!("decoded as {:?}", g)) } else if rem != bytes.len() * 8 - want.len() { c.violation(key("decode"), format!("{} bits left unread, expected {}", rem, bytes.len() * 8 - want.len())) },
                    // an index of an addition may be refused, but is never another one
                    Outcome::Done((Err(e), _)) => if root { c.violation(key("decode"), format!("refused: {}", e)) },
                    Outcome::Panicked(m) => c.violation(key("decode"), m),
                }
            }
        }
        c.add_traces(vs.len() as u64); c.add_transitions(tr); states.merge(loc);
    });
    c.add_states(states.len());
    c.count("index_types", tys.len() as u64);
}

/// C05: out-of-constraint values are refused.
pub fn c05(c: &'static Check) {
    let tys = types(c);
    let states = StateSet::new();
    par::for_each(&tys, |_, ty| {
        if c.stopped() { return }
        mark(format!("refuse {}", name(ty)));
        let bad: Vec<Val> = match ty {
            Ty::Int(r) => vals::int_bad(r).into_iter().map(Val::Int).collect(),
            Ty::Enum(n, _) => vals::int_bad(&Rng::new(0, *n as i128 - 1)).into_iter().map(Val::Enum).collect(),
            Ty::ChoiceIdx(r) => vals::int_bad(r).into_iter().map(Val::Int).collect(),
            Ty::Bits(r) => vals::sizes_bad(r).into_iter().map(|n| Val::Bits(vals::bits_pat(n, 1))).collect(),
            Ty::Octets(r) => vals::sizes_bad(r).into_iter().map(|n| Val::Octets(vals::octets_pat(n, 1))).collect(),
            Ty::Str(StrKind::Utf8, r) if r.ext => vec![],
            Ty::Str(k, r) => {
                let mut v: Vec<Val> = vals::sizes_bad(r).into_iter().map(|n| Val::Str(vals::str_pat(*k, n))).collect();
                let units: &[&str] = if *k == StrKind::Utf8 { &["a", "\u{e9}", "\u{20ac}", "\u{1d11e}"] } else { &["a"] };
                for u in units { v.extend(vals::sizes_bad(r).into_iter().filter(|n| *n < 2000).map(|n| Val::Str(u.repeat(n).into_bytes()))) }
                v
            }
            Ty::Len(r) => vals::sizes_bad(r).into_iter().map(|n| Val::Int(n as i128)).collect(),
            Ty::SmallLen => vec![Val::Int(0)],
            _ => vec![],
        };
        let mut tr = 0;
        let mut loc = std::collections::HashSet::new();
        for v in bad {
            c.add_traces(1);
            let root = { let mut b = Bits::new(); refaper::encode(&mut b, ty, &v) };
            assert!(root == Err(EncErr::NotAllowed) || root == Err(EncErr::OutsideRoot) || matches!(ty, Ty::Enum(..)), "harness {:?} {:?} {:?}", ty, v, root);
            for off in [0usize, 5] {
                tr += 1;
                let (ty2, v2) = (ty.clone(), v.clone());
                let r = guarded(64 << 20, move || format!("encode {} {:?}", name(&ty2), v2), || {
                    let mut d = start(&prefix(off, 0));
                    let r = real::encode(&mut d, ty, &v);
                    real::put_mark(&mut d);
                    (r, d)
                });
                let key = || format!("{} {:?} @{}", name(ty), v, off);
                if let Outcome::Done((_, d)) = &r { loc.insert(hash_of(&(ty, d.get_inner().unwrap()))); }
                match r {
                    Outcome::Done((Err(_), _)) => {}
                    Outcome::Done((Ok(()), d)) => {
                        // An extension value correctly encoded as such would be fine.
                        let got = refaper::from_bytes(&d.get_inner().unwrap());
                        let mut rd = Rd::new(&got, off);
                        let ok = root == Err(EncErr::OutsideRoot) && refaper::decode(&mut rd, ty).map_or(false, |w| w == v && real::holds(&d, &got[..rd.pos]));
                        if !ok { c.violation(key(), format!("reported success; wrote {}", real::show_data(&d))) }
                    }
                    Outcome::Panicked(m) => c.violation(key(), m),
                }
            }
        }
        c.add_transitions(tr); states.merge(loc);
    });
    c.add_states(states.len());
    c.count("types", tys.len() as u64);
    for t in tys.iter().step_by(tys.len() / 8) { c.sample(name(t)); }
    c.assume("the sizes of extensible UTF8Strings are not enforced");
}

/// C06: every strict prefix of every encoding is an error.
pub fn c06(c: &'static Check) {
    let tys = types(c);
    let states = StateSet::new();
    par::for_each(&tys, |_, ty| {
        if c.stopped() { return }
        mark(format!("truncate {}", name(ty)));
        let mut tr = 0;
        let mut loc = std::collections::HashSet::new();
        let mut vs = enc_vals(ty, false);
        if !c.thorough { vs = vals::thin(vs, 60) }
        for v in vs {
            c.add_traces(1);
            let big = match &v { Val::Bits(b) => b.len() > 300, Val::Octets(o) | Val::Str(o) => o.len() > 40, _ => false };
            for off in [0usize, 1, 6, 7] {
                if big && off > 1 { continue }
                let mut want = prefix(off, 0);
                if refaper::encode(&mut want, ty, &v).is_err() { continue }
                let cuts: Vec<usize> = if want.len() <= 420 { (off..want.len()).collect() } else { (off..off + 40).chain(want.len() - 40..want.len()).collect() };
                for cut in cuts {
                    // the model itself must see the end
                    let mut rd = Rd::new(&want[..cut], off);
                    let w = refaper::decode(&mut rd, ty);
                    if w.is_ok() { continue } // cut falls in nothing significant (cannot happen: encodings end on data)
                    debug_assert!(w == Err(DecErr::Eof) || w == Err(DecErr::Invalid));
                    tr += 1;
                    loc.insert(hash_of(&(ty, &want, cut)));
                    let (ty2, v2) = (ty.clone(), v.clone());
                    let r = guarded(64 << 20, move || format!("decode {} {:?} cut at {}", name(&ty2), v2, cut), || {
                        let mut d = real::data_of_bits(&want[..cut]);
                        real::skip(&mut d, off);
                        let r = real::decode(&mut d, ty);
                        if cut % 8 == 0 && off == 0 {
                            let mut d = AperCodecData::from_slice(&refaper::to_bytes(&want[..cut]));
                            if let Ok(x) = real::decode(&mut d, ty) { return Ok(x) }
                        }
                        r
                    });
                    let key = || format!("{} {:?} @{} cut {}", name(ty), v, off, cut);
                    match r {
                        Outcome::Done(Err(_)) => {}
                        Outcome::Done(Ok(x)) => c.violation(key(), format!("{} of {} bits decoded as {:?}", cut, want.len(), x.0)),
                        Outcome::Panicked(m) => c.violation(key(), m),
                    }
                }
            }
        }
        c.add_transitions(tr); states.merge(loc);
    });
    c.add_states(states.len());
    for t in tys.iter().step_by(tys.len() / 8) { c.sample(name(t)); }
}

/// C07: 16K and beyond.
pub fn c07(c: &'static Check) {
    use StrKind::*;
    let mut lens: Vec<usize> = vec![];
    for k in 1..=5usize { for d in -2i64..=2 { lens.push((k as i64 * 16384 + d) as usize) } lens.push(k * 16384 + 127); lens.push(k * 16384 + 128); lens.push(k * 16384 + 8000); }
    lens.extend([65533, 65534, 65535, 65536, 65537, 70000, 20000, 131072, 131073, 147456, 200000]);
    if c.thorough { for k in 6..=9usize { for d in -1i64..=1 { lens.push((k as i64 * 16384 + d) as usize) } } }
    lens.sort(); lens.dedup();
    let rngs = vec![Rng::none(), Rng::ext(1, 150), Rng::new(0, 65535), Rng::new(1, 65536), Rng::new(20000, 65535), Rng::new(0, 300000), Rng { lb: Some(3), ub: None, ext: false }, Rng::ext(1, 70000), Rng::ext(0, 20000)];
    let mut work: Vec<(Ty, usize)> = vec![];
    for n in &lens {
        for r in &rngs { for f in 0..5 { work.push((match f { 0 => Ty::Bits(*r), 1 => Ty::Octets(*r), 2 => Ty::Str(Visible, *r), 3 => Ty::Str(Printable, *r), _ => Ty::Str(Utf8, *r) }, *n)); } }
        let fx = Rng::new(*n as i128, *n as i128);
        for f in 0..4 { work.push((match f { 0 => Ty::Bits(fx), 1 => Ty::Octets(fx), 2 => Ty::Str(Visible, fx), _ => Ty::Str(Printable, fx) }, *n)); }
    }
    let states = StateSet::new();
    par::for_each(&work, |_, (ty, n)| {
        if c.stopped() { return }
        c.add_traces(1);
        mark(format!("long {} {}", name(ty), n));
        let v = match ty { Ty::Bits(_) => Val::Bits(vals::bits_pat(*n, 1)), Ty::Octets(_) => Val::Octets(vals::octets_pat(*n, 1)), Ty::Str(k, _) => Val::Str(vals::str_pat(*k, *n)), _ => unreachable!() };
        let r = match ty { Ty::Bits(r) | Ty::Octets(r) | Ty::Str(_, r) => *r, _ => unreachable!() };
        for off in if c.thorough { vec![0usize, 1, 2, 5, 7] } else { vec![0usize, 5] } {
            let mut want = prefix(off, 0);
            // outside an extensible root: extension bit then unconstrained
            let e = match refaper::encode(&mut want, ty, &v) {
                Err(EncErr::OutsideRoot) => {
                    let un = match ty { Ty::Bits(_) => Ty::Bits(Rng::none()), Ty::Octets(_) => Ty::Octets(Rng::none()), Ty::Str(k, _) => Ty::Str(*k, Rng::none()), _ => unreachable!() };
                    want.truncate(off); want.push(true);
                    refaper::encode(&mut want, &un, &v)
                }
                x => x,
            };
            if e.is_err() { continue }
            let _ = r;
            states.insert(hash_of(&(ty, n, off)));
            c.add_transitions(2);
            let key = |w: &str| format!("{} {} of {} units @{}", w, name(ty), n, off);
            // encode: right or refused
            let (ty2, n2) = (ty.clone(), *n);
            match guarded(256 << 20, move || format!("encode {} {} units", name(&ty2), n2), || { let mut d = start(&prefix(off, 0)); let r = real::encode(&mut d, ty, &v); real::put_mark(&mut d); (r, d) }) {
                Outcome::Done((Err(_), _)) => { c.count("encode_refused", 1) }
                Outcome::Done((Ok(()), d)) => if !real::holds(&d, &want) { c.violation(key("encode"), "reported success but the bits are not the X.691 encoding") } else { c.count("encode_ok", 1) },
                Outcome::Panicked(m) => c.violation(key("encode"), m),
            }
            let mut bits = want.clone(); bits.extend(real::MARK);
            let bytes = refaper::to_bytes(&bits);
            let (ty2, n2) = (ty.clone(), *n);
            match guarded(256 << 20, move || format!("decode {} {} units", name(&ty2), n2), || { let mut d = AperCodecData::from_slice(&bytes); real::skip(&mut d, off); let r = real::decode(&mut d, ty); let rem = if r.is_ok() { real::remaining(&mut d) } else { 0 }; (r, rem) }) {
                Outcome::Done((Ok((got, _)), rem)) => {
                    if got != v { c.violation(key("decode"), format!("decoded a different string: {:?} instead of {:?}", got, v)) }
                    else if rem != bytes.len() * 8 - want.len() { c.violation(key("decode"), format!("{} bits left, expected {}", rem, bytes.len() * 8 - want.len())) }
                    else { c.count("decode_ok", 1) }
                }
                Outcome::Done((Err(e), _)) => c.violation(key("decode"), format!("valid encoding refused: {}", e)),
                Outcome::Panicked(m) => c.violation(key("decode"), m),
            }
        }
    });
    c.add_states(states.len());
    c.sample(format!("lengths {:?}", lens));
}
