//! C13: the codec buffer as a bit string with a read position: every history of operations up to a depth.
use crate::real;
use asn1_codecs::aper::{decode as d, encode as e, AperCodecData};
use bitvec::prelude::*;
use mc_model::{par, refaper::{self, Bits, Rd}, report::*, ty::*};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum At { Abs(usize), End(isize) }

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Bool(bool), Int(i128), Int16(i128), Bits3, Bits20, Octets2, Header,
    /// append another buffer of so many bits
    Append(usize),
    Set(At, bool), Swap(usize, At), Seek(At),
    GetBool, GetInt, GetInt16, GetBits3, GetBits20, GetOctets2, GetOctets0, GetHeader, Align,
    Key(i128), NoKey, Dump,
}
use Op::*;

const U8: Ty = Ty::Int(Rng { lb: Some(0), ub: Some(7), ext: false });
const U16: Ty = Ty::Int(Rng { lb: Some(0), ub: Some(65535), ext: false });
fn fixed(n: i128) -> Rng { Rng { lb: Some(n), ub: Some(n), ext: false } }

/// What a history has led to, by the model.
#[derive(Clone, Default, PartialEq, Eq, Hash)]
pub struct State { bits: Vec<bool>, pos: usize, key: Option<i128> }

fn at(a: At, len: usize) -> Option<usize> { match a { At::Abs(i) => Some(i), At::End(d) => usize::try_from(len as isize + d).ok() } }
fn pat(n: usize) -> Vec<bool> { (0..n).map(|i| i % 3 != 1).collect() }

/// Result of one step as text, "!" for an error; None: the operation has no meaning in this state.
fn model(s: &mut State, op: Op) -> Option<String> {
    fn put(s: &mut State, ty: &Ty, v: &Val) -> Option<String> { refaper::encode(&mut s.bits, ty, v).unwrap(); Some(String::new()) }
    let get = |s: &mut State, ty: &Ty| -> Option<String> {
        if s.pos > s.bits.len() { return Some("!".into()) }
        let b: Bits = s.bits.clone();
        let mut rd = Rd::new(&b, s.pos);
        // padding that is not zero may be refused
        match refaper::decode(&mut rd, ty) { Ok(v) => { s.pos = rd.pos; Some(format!("{}{:?}", if rd.canon { "" } else { "?" }, v)) } Err(_) => Some("!".into()) }
    };
    Some(match op {
        Bool(b) => { s.bits.push(b); String::new() }
        Int(i) => return put(s, &U8, &Val::Int(i)),
        Int16(i) => return put(s, &U16, &Val::Int(i)),
        Bits3 => return put(s, &Ty::Bits(fixed(3)), &Val::Bits(vec![true, false, true])),
        Bits20 => return put(s, &Ty::Bits(fixed(20)), &Val::Bits(pat(20))),
        Octets2 => return put(s, &Ty::Octets(fixed(2)), &Val::Octets(vec![0xa5, 0x3c])),
        Header => { s.bits.extend([false, true, false, true]); String::new() }
        Append(n) => {
            while s.bits.len() % 8 != 0 { s.bits.push(false) }
            s.bits.extend(pat(n));
            while s.bits.len() % 8 != 0 { s.bits.push(false) }
            String::new()
        }
        Set(a, v) => { let i = at(a, s.bits.len())?; if i >= s.bits.len() { return None } s.bits[i] = v; String::new() }
        Swap(n, a) => {
            let i = at(a, s.bits.len())?;
            if i + n > s.bits.len() { return None }
            let old: Vec<bool> = s.bits[i..i + n].to_vec();
            s.bits[i..i + n].copy_from_slice(&pat(n));
            format!("{:?}", old)
        }
        Seek(a) => { s.pos = at(a, s.bits.len())?; String::new() }
        GetBool => return get(s, &Ty::Bool),
        GetInt => return get(s, &U8),
        GetInt16 => return get(s, &U16),
        GetBits3 => return get(s, &Ty::Bits(fixed(3))),
        GetBits20 => return get(s, &Ty::Bits(fixed(20))),
        GetOctets2 => return get(s, &Ty::Octets(fixed(2))),
        // nothing can be read beyond the end
        GetOctets0 => return if s.pos > s.bits.len() { Some(format!("?{:?}", Val::Octets(vec![]))) } else { get(s, &Ty::Octets(fixed(0))) },
        GetHeader => {
            if s.pos > s.bits.len() || s.bits.len() - s.pos < 4 { return Some("!".into()) }
            let b = s.bits[s.pos..s.pos + 4].to_vec();
            s.pos += 4;
            format!("{:?}", (b[0], &b[1..]))
        }
        Align => {
            if s.pos % 8 != 0 && s.pos > s.bits.len() { return Some("!".into()) }
            let to = s.pos.checked_add(7).map_or(s.pos, |p| p / 8 * 8);
            if to == s.pos { return Some(String::new()) }
            if to > s.bits.len() || s.bits[s.pos..to].iter().any(|b| *b) { return Some("!".into()) }
            s.pos = to;
            String::new()
        }
        Key(k) => { s.key = Some(k); String::new() }
        NoKey => { s.key = None; String::new() }
        Dump => String::new(),
    })
}

/// The same on the code; `s` is the state before.
fn step(c: &mut AperCodecData, s: &State, op: Op) -> String {
    let len = s.bits.len();
    fn w(r: Result<(), asn1_codecs::aper::AperCodecError>) -> String { match r { Ok(()) => String::new(), Err(_) => "!".into() } }
    let g = |c: &mut AperCodecData, ty: &Ty| match real::decode(c, ty) { Ok((v, _)) => format!("{:?}", v), Err(_) => "!".into() };
    let p = |c: &mut AperCodecData, ty: &Ty, v: Val| match real::encode(c, ty, &v) { Ok(()) => String::new(), Err(_) => "!".into() };
    match op {
        Bool(b) => w(e::encode_bool(c, b)),
        Int(i) => p(c, &U8, Val::Int(i)),
        Int16(i) => p(c, &U16, Val::Int(i)),
        Bits3 => p(c, &Ty::Bits(fixed(3)), Val::Bits(vec![true, false, true])),
        Bits20 => p(c, &Ty::Bits(fixed(20)), Val::Bits(pat(20))),
        Octets2 => p(c, &Ty::Octets(fixed(2)), Val::Octets(vec![0xa5, 0x3c])),
        Header => w(e::encode_sequence_header(c, true, &real::to_bv(&[true, false, true]), false)),
        Append(n) => { let mut o = real::data_of_bits(&pat(n)); c.append_aligned(&mut o); String::new() }
        Set(a, v) => { c.set_bit(at(a, len).unwrap(), v); String::new() }
        Swap(n, a) => { let mut o: BitVec<u8, Msb0> = real::to_bv(&pat(n)); c.swap_bits(&mut o, at(a, len).unwrap()); format!("{:?}", real::from_bv(&o)) }
        Seek(a) => { c.seek(at(a, len).unwrap()); String::new() }
        GetBool => g(c, &Ty::Bool),
        GetInt => g(c, &U8),
        GetInt16 => g(c, &U16),
        GetBits3 => g(c, &Ty::Bits(fixed(3))),
        GetBits20 => g(c, &Ty::Bits(fixed(20))),
        GetOctets2 => g(c, &Ty::Octets(fixed(2))),
        GetOctets0 => g(c, &Ty::Octets(fixed(0))),
        GetHeader => match d::decode_sequence_header(c, true, 3) { Ok((b, x)) => format!("{:?}", (x, &real::from_bv(&b)[..])), Err(_) => "!".into() },
        Align => w(c.decode_align()),
        Key(k) => { c.set_key(k); String::new() }
        NoKey => { c.clear_key(); String::new() }
        Dump => { c.dump(); c.dump_encode(); String::new() }
    }
}

fn ops(thorough: bool) -> Vec<Op> {
    let mut v = vec![Bool(true), Bool(false), Int(5), Int16(0x80f1), Bits3, Bits20, Octets2, Header, Append(0), Append(3), Append(8), Append(13),
        Set(At::Abs(0), true), Set(At::Abs(9), false), Set(At::End(-1), true), Swap(2, At::Abs(0)), Swap(3, At::End(-3)), Swap(9, At::Abs(1)),
        Seek(At::Abs(0)), Seek(At::Abs(3)), Seek(At::End(0)), Seek(At::End(-1)), Seek(At::End(1)), Seek(At::End(70)), Seek(At::Abs(65_533)), Seek(At::Abs(usize::MAX)), Seek(At::Abs(usize::MAX - 20)),
        GetBool, GetInt, GetInt16, GetBits3, GetBits20, GetOctets2, GetOctets0, GetHeader, Align, Key(5), Key(-1), NoKey, Dump];
    if thorough { v.extend([Append(16), Append(1), Set(At::End(-8), false), Set(At::Abs(1), true), Swap(0, At::End(0)), Seek(At::Abs(8)), Seek(At::End(-9)), Seek(At::Abs(1 << 40))]); }
    v
}

pub fn c13(c: &'static Check) {
    let all = ops(c.thorough);
    let depth = if c.thorough { 5 } else { 4 };
    let long = |n: u32| -> Vec<u8> { (0..n).map(|i| (i * 37 >> 3) as u8).collect() };
    let starts: Vec<Vec<u8>> = vec![vec![], vec![0x80], vec![0x00, 0xb7, 0x01], vec![0xff; 5], long(8197), long(65_541)];
    let mut work = vec![];
    for (si, _) in starts.iter().enumerate() { for a in 0..all.len() { for b in 0..all.len() { work.push((si, a, b)) } } }
    let states = StateSet::new();
    par::for_each(&work, |_, &(si, a, b)| {
        if c.stopped() { return }
        let start = &starts[si];
        let (mut n, mut tr, mut loc) = (0u64, 0u64, std::collections::HashSet::new());
        let depth = match start.len() { 0..=100 => depth, 101..=10_000 => depth - 1, _ => 2 };
        let mut hist = vec![all[a], all[b]];
        // depth-first; the model is carried along, the code replays the history
        fn go(c: &'static Check, start: &[u8], hist: &mut Vec<Op>, all: &[Op], depth: usize, st: &State, steps: &mut u64, traces: &mut u64, loc: &mut std::collections::HashSet<u64>) {
            if !run(c, start, hist, st, steps, loc) { return }
            *traces += 1;
            if hist.len() == depth || c.stopped() { return }
            for op in all {
                let mut s = st.clone();
                if model(&mut s, *op).is_none() { continue }
                hist.push(*op);
                go(c, start, hist, all, depth, &s, steps, traces, loc);
                hist.pop();
            }
        }
        let mut st = first(start);
        mark(format!("history {} {:?}", if start.len() > 100 { format!("{} octets", start.len()) } else { format!("{:02x?}", start) }, hist));
        for op in hist.clone() { if model(&mut st, op).is_none() { return } }
        go(c, start, &mut hist, &all, depth, &st, &mut tr, &mut n, &mut loc);
        // shorter histories once
        if b == 0 { let mut s = first(start); if model(&mut s, all[a]).is_some() { run(c, start, &[all[a]], &s, &mut tr, &mut loc); } }
        c.add_traces(n); c.add_transitions(tr); states.merge(loc);
    });
    c.add_states(states.len());
    c.count("operations", all.len() as u64);
    c.count("depth", depth as u64);
    c.sample(format!("{:02x?} {:?}", starts[2], &all[7..11]));
    c.assume("set_bit and swap_bits within the buffer only (they are indexing, as with slices); reserve is outside the space");
}

fn first(start: &[u8]) -> State { let mut b = vec![]; for o in start { refaper::put(&mut b, *o as u128, 8) } State { bits: b, pos: 0, key: None } }

/// Replay a history; every step and the final state have to be those of the model.
fn run(c: &'static Check, start: &[u8], hist: &[Op], last: &State, steps: &mut u64, loc: &mut std::collections::HashSet<u64>) -> bool {
    *steps += hist.len() as u64;
    let key = || format!("history {} {:?}", if start.len() > 100 { format!("{} octets", start.len()) } else { format!("{:02x?}", start) }, hist);
    let r = guarded(64 << 20, key, || {
        let mut d = AperCodecData::from_slice(start);
        let mut s = first(start);
        for (i, op) in hist.iter().enumerate() {
            let before = s.clone();
            let want = model(&mut s, *op).unwrap();
            let got = step(&mut d, &before, *op);
            if (want == "!" || want.starts_with('?')) && i + 1 < hist.len() { return Ok(false) } // where an error leaves the position is not specified
            if want.strip_prefix('?').map_or(false, |w| got == "!" || got == w) { return Ok(false) }
            if got != want { return Err(format!("step {}: {:?}: '{}', expected '{}'", i, op, got, want)) }
            if want == "!" { return Ok(false) }
        }
        let octets = refaper::to_bytes(&s.bits);
        if d.length_in_bytes() != octets.len() { return Err(format!("{} octets, expected {}", d.length_in_bytes(), octets.len())) }
        if d.get_inner().map_err(|e| e.to_string())? != octets { return Err(format!("holds {:02x?}, expected {:02x?}", d.get_inner(), octets)) }
        if d.get_key() != s.key { return Err(format!("key {:?}, expected {:?}", d.get_key(), s.key)) }
        let b = d.into_bytes();
        if b != octets { return Err(format!("is {:02x?}, expected {:02x?}", b, octets)) }
        Ok(true)
    });
    loc.insert(hash_of(last));
    match r {
        Outcome::Done(Ok(go)) => go,
        Outcome::Done(Err(m)) => { c.violation(key(), m); false }
        Outcome::Panicked(m) => { c.violation(key(), m); false }
    }
}
