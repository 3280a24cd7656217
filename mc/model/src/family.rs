//! The family of composite types for which codecs are derived, grouped by the property they serve.
//! Deterministic: the code generator and the explorer enumerate the same list.
use crate::ty::*;

fn i(l: i128, u: i128) -> Ty { Ty::Int(Rng::new(l, u)) }
fn oct() -> Ty { Ty::Octets(Rng::none()) }
fn seq(c: Vec<Comp>) -> Ty { Ty::Seq(c, false) }
fn seqx(c: Vec<Comp>) -> Ty { Ty::Seq(c, true) }

/// Component types chosen so that every kind of position is reached: 1 bit, 3 bits, aligned octet,
/// self-aligning with length, nothing, nested.
pub fn palette() -> Vec<Ty> {
    vec![
        Ty::Bool, i(0, 6), i(0, 255), oct(), Ty::Null,
        seq(vec![Comp::o(Ty::Bool), Comp::m(i(0, 6))]),
    ]
}

pub fn prims() -> Vec<Ty> {
    use StrKind::*;
    let mut v = vec![Ty::Bool, Ty::Null];
    for (l, u) in [(5, 5), (0, 2), (-3, 4), (0, 6), (1, 100), (0, 253), (0, 254), (0, 255), (-128, 128), (-128, 127), (0, 256), (0, 65535), (-32768, 32767), (0, 65536), (-5, 99_999), (0, u32::MAX as i128), (i32::MIN as i128, i32::MAX as i128), (0, 1 << 32), (i64::MIN as i128, i64::MAX as i128), (0, u64::MAX as i128), (0, 1 << 64), (1, 256)] { v.push(i(l, u)) }
    for r in [Rng::ext(0, 7), Rng::ext(0, 255), Rng::ext(0, 100000), Rng::ext(-1, 1), Rng { lb: Some(0), ub: None, ext: false }, Rng { lb: Some(-200), ub: None, ext: true }, Rng { lb: None, ub: Some(100), ext: false }, Rng::none()] { v.push(Ty::Int(r)) }
    let szs = [Rng::none(), Rng::new(0, 0), Rng::new(1, 1), Rng::new(2, 2), Rng::new(3, 3), Rng::new(16, 16), Rng::new(17, 17), Rng::new(0, 1), Rng::new(0, 2), Rng::new(1, 8), Rng::new(1, 150), Rng::ext(1, 150), Rng::ext(2, 2), Rng::new(0, 255), Rng::new(0, 65535), Rng::new(1, 65536), Rng { lb: Some(1), ub: None, ext: false }, Rng { lb: Some(2), ub: None, ext: true }, Rng { lb: None, ub: Some(5), ext: false }, Rng { lb: None, ub: Some(300), ext: true }];
    for r in szs { for t in [Ty::Bits(r), Ty::Octets(r), Ty::Str(Visible, r), Ty::Str(Printable, r), Ty::Str(Utf8, r)] { v.push(t) } }
    v
}

fn seqs() -> Vec<Ty> {
    let p = palette();
    let mut v = vec![seq(vec![]), seqx(vec![])];
    let c = |t: &Ty, o: bool| if o { Comp::o(t.clone()) } else { Comp::m(t.clone()) };
    for (n, a) in p.iter().enumerate() {
        for o in [false, true] {
            v.push(seq(vec![c(a, o)])); v.push(seqx(vec![c(a, o)]));
            for (m, b) in p.iter().enumerate() { for o2 in [false, true] {
                let x = vec![c(a, o), c(b, o2)];
                v.push(Ty::Seq(x, (n + m) % 2 == 0));
            } }
        }
    }
    // three components: {BOOLEAN, aligned octet, octet string} x mandatory/optional
    let q = [Ty::Bool, i(0, 255), oct()];
    let mut k = 0;
    for a in &q { for b in &q { for d in &q { for o in 0..8 {
        k += 1;
        if a == b && b == d && o % 3 != 0 { continue }
        v.push(Ty::Seq(vec![c(a, o & 1 != 0), c(b, o & 2 != 0), c(d, o & 4 != 0)], k % 2 == 0));
    } } } }
    // four components: all mandatory/optional patterns, rotating types
    for o in 0..16usize { for x in [false, true] {
        v.push(Ty::Seq((0..4).map(|j| c(&p[(o + j * 5) % 6], o >> j & 1 != 0)).collect(), x));
    } }
    // wide preambles
    for n in [5usize, 6, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 63, 64, 65, 66, 70, 127, 128, 129, 130, 255, 256, 257, 300] { for x in [false, true] {
        if n > 9 && x && n % 2 == 0 { continue }
        v.push(Ty::Seq((0..n).map(|j| c(&[Ty::Bool, i(0, 255), i(0, 6)][j % 3], j % 7 != 6 || n < 7)).collect(), x));
    } }
    // nesting
    let l1 = seqx(vec![Comp::o(Ty::Bool), Comp::m(i(0, 255)), Comp::o(oct())]);
    let l2 = seq(vec![Comp::m(l1.clone()), Comp::o(l1.clone()), Comp::m(Ty::Bool)]);
    let l3 = seqx(vec![Comp::o(l2.clone()), Comp::o(Ty::Bool), Comp::m(l1.clone())]);
    v.push(l2.clone()); v.push(l3.clone());
    // deep nesting: sequences in one another, with something to come at every level
    for d in [4usize, 8, 12] {
        let mut t = l1.clone();
        for j in 0..d { t = Ty::Seq(vec![c(&Ty::Bool, j % 3 == 0), c(&t, j % 2 == 1), Comp::m(i(0, [6, 255][j % 2]))], j % 4 == 2); }
        v.push(t);
    }
    v.push(seq(vec![Comp::m(Ty::SeqOf(Rng::new(0, 3), Box::new(l1.clone()))), Comp::o(i(0, 6))]));
    v.push(seq(vec![Comp::o(Ty::Choice(vec![l1.clone(), Ty::Bool, l2.clone()], true, vec![])), Comp::m(i(0, 255))]));
    v.push(seqx(vec![Comp::m(Ty::Bool), Comp::m(Ty::Enum(5, true)), Comp::o(Ty::Str(StrKind::Printable, Rng::ext(1, 150))), Comp::o(Ty::Bits(Rng::new(27, 27))), Comp::m(Ty::Int(Rng::ext(0, 4095)))]));
    // every primitive as mandatory and optional component between two booleans
    for (n, t) in prims().into_iter().enumerate() { v.push(Ty::Seq(vec![Comp::m(Ty::Bool), c(&t, n % 2 == 0), Comp::m(Ty::Bool)], n % 3 == 0)); }
    v
}

fn choices() -> Vec<Ty> {
    let p = palette();
    let mut v = vec![];
    for n in (1..=10usize).chain([15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300]) {
        for x in [false, true] {
            let alts = |n: usize| -> Vec<Ty> { (0..n).map(|j| if n <= 10 { p[(j + n) % 6].clone() } else { [Ty::Bool, Ty::Null, i(0, 255)][j % 3].clone() }).collect() };
            v.push(Ty::Choice(alts(n), x, vec![]));
            if x && n <= 17 { v.push(Ty::Choice(alts(n), true, vec![i(0, 255)])); v.push(Ty::Choice(alts(n), true, vec![Ty::Bool, i(0, 255), Ty::Null])); }
        }
    }
    for n in [8usize, 62, 63, 64, 65, 66, 127, 128, 129, 130, 255, 256, 257, 300] { v.push(Ty::Choice(vec![Ty::Bool, i(0, 255)], true, (0..n).map(|j| [Ty::Bool, i(0, 6), oct()][j % 3].clone()).collect())); }
    // choices in one another
    for d in [4usize, 8, 12] {
        let mut t = Ty::Bool;
        for j in 0..d { t = Ty::Choice([vec![t.clone(), i(0, 255)], vec![Ty::Null, t.clone(), oct()], vec![i(0, 6), Ty::Bool, Ty::Null, t.clone()]][j % 3].clone(), j % 2 == 0, vec![]); }
        v.push(t);
    }
    for a in prims() { v.push(Ty::Choice(vec![Ty::Bool, a.clone(), Ty::Null], true, vec![])); }
    let c3 = Ty::Choice(vec![Ty::Bool, i(0, 255), oct()], false, vec![]);
    v.push(Ty::Choice(vec![c3.clone(), Ty::Choice(vec![c3.clone(), Ty::Null], true, vec![])], true, vec![]));
    v.push(seq(vec![Comp::m(c3.clone()), Comp::o(c3.clone()), Comp::m(Ty::Bool)]));
    v.push(Ty::SeqOf(Rng::new(1, 4), Box::new(c3)));
    for n in (1..=20u32).chain([31, 32, 33, 63, 64, 65, 66, 127, 128, 129, 255, 256, 257, 300, 65535, 65536, 65537]) { for x in [false, true] { v.push(Ty::Enum(n, x)) } }
    v.push(Ty::SeqOf(Rng::none(), Box::new(Ty::Enum(5, true))));
    v.push(seq(vec![Comp::o(Ty::Enum(256, false)), Comp::m(Ty::Enum(3, true)), Comp::m(Ty::Bool)]));
    v
}

fn seqofs() -> Vec<Ty> {
    let mut v = vec![];
    let els = [Ty::Bool, Ty::Null, i(0, 6), i(0, 255), oct(), seq(vec![Comp::o(Ty::Bool), Comp::m(i(0, 6))])];
    let mut rs = vec![Rng::none()];
    for n in [0i128, 1, 2, 3, 16, 17, 255, 256, 300, 16384, 65535, 65536] { rs.push(Rng::new(n, n)); }
    for (l, u) in [(0, 1), (0, 2), (1, 2), (1, 3), (0, 7), (1, 8), (1, 16), (0, 254), (0, 255), (1, 256), (0, 256), (1, 300), (10, 1000), (1, 65535), (0, 65535), (1, 65536), (0, 65536), (2, 100000)] { rs.push(Rng::new(l, u)); }
    for l in [0i128, 1, 2, 100] { rs.push(Rng { lb: Some(l), ub: None, ext: false }); }
    for u in [0i128, 1, 2, 5, 255, 65535, 65536] { rs.push(Rng { lb: None, ub: Some(u), ext: false }); }
    let e: Vec<Rng> = rs.iter().filter(|r| r.lb.is_some() || r.ub.is_some()).map(|r| Rng { ext: true, ..*r }).collect();
    for (n, r) in rs.iter().chain(e.iter()).enumerate() {
        for (m, t) in els.iter().enumerate() {
            // all element types for the common sizes, rotating ones for the rest
            let small = r.ub.map_or(r.lb.is_none(), |u| u <= 8);
            if !small && (n + m) % 3 != 0 { continue }
            // fixed huge lists of larger elements only cost time
            if r.lb.unwrap_or(0) >= 16384 && m > 1 { continue }
            v.push(Ty::SeqOf(*r, Box::new(t.clone())));
        }
    }
    v.push(Ty::SeqOf(Rng::new(0, 3), Box::new(Ty::SeqOf(Rng::new(0, 3), Box::new(i(0, 6))))));
    v.push(Ty::SeqOf(Rng::none(), Box::new(Ty::SeqOf(Rng::new(1, 2), Box::new(oct())))));
    v.push(Ty::SeqOf(Rng::ext(1, 2), Box::new(Ty::Choice(vec![Ty::Bool, i(0, 255), Ty::Null], true, vec![]))));
    v.push(Ty::SeqOf(Rng::new(0, 255), Box::new(Ty::Str(StrKind::Printable, Rng::ext(1, 150)))));
    let mut t = i(0, 6);
    for j in 0..8usize { t = Ty::SeqOf([Rng::new(0, 2), Rng::none(), Rng::ext(1, 2)][j % 3], Box::new(t)); if j % 3 == 2 { v.push(t.clone()) } }
    v.push(seq(vec![Comp::m(Ty::SeqOf(Rng::new(0, 2), Box::new(Ty::Bool))), Comp::o(Ty::SeqOf(Rng::none(), Box::new(i(0, 6)))), Comp::m(Ty::SeqOf(Rng::new(1, 256), Box::new(Ty::Null))), Comp::m(Ty::Bool)]));
    v
}

fn opens() -> Vec<Ty> {
    let contents: Vec<Ty> = vec![
        Ty::Bool, i(0, 255), i(0, 6), oct(), Ty::Null, i(0, 65535), seq(vec![]),
        seqx(vec![Comp::o(Ty::Bool), Comp::m(i(0, 255))]),
        Ty::SeqOf(Rng::none(), Box::new(i(0, 255))), Ty::Str(StrKind::Visible, Rng::new(1, 150)), Ty::Choice(vec![Ty::Bool, i(0, 255)], true, vec![]),
        Ty::Bits(Rng::new(27, 27)), Ty::Int(Rng::none()), Ty::Enum(3, true),
    ];
    let keys = [i(0, 255), i(0, 65535), Ty::Int(Rng::ext(0, 7)), Ty::Enum(8, true), Ty::Enum(8, false), Ty::Int(Rng::none())];
    let mut v = vec![];
    // one table per key type, all contents spread over tables of 1..4 entries
    for (n, k) in keys.iter().enumerate() {
        for sz in 1..=4usize {
            let t: Vec<(i128, Ty)> = (0..sz).map(|j| ([[0, 5, 6, 7], [7, 3, 1, 0], [1, 2, 3, 4]][(n + sz) % 3][j], contents[(n * 3 + sz * 2 + j * 5) % contents.len()].clone())).collect();
            for shape in 0..4 {
                let open = Ty::Open(t.clone());
                let c = match shape {
                    0 => vec![Comp::k(k.clone()), Comp::m(open)],
                    1 => vec![Comp::k(k.clone()), Comp::m(open), Comp::m(i(0, 6))],
                    2 => vec![Comp::m(Ty::Bool), Comp::k(k.clone()), Comp::m(Ty::Enum(3, false)), Comp::o(open), Comp::o(oct())],
                    _ => vec![Comp::k(k.clone()), Comp::m(i(0, 2)), Comp::m(open.clone()), Comp::m(Ty::Open(t.iter().enumerate().map(|(j, e)| (e.0, contents[(n + j * 3 + 1) % contents.len()].clone())).collect())), Comp::m(Ty::Bool)],
                };
                v.push(Ty::Seq(c, (n + sz + shape) % 2 == 0));
            }
        }
    }
    // every content on its own
    for (n, t) in contents.iter().enumerate() {
        v.push(seq(vec![Comp::k(i(0, 255)), Comp::m(Ty::Open(vec![(n as i128, t.clone()), (100, Ty::Bool)])), Comp::m(i(0, 6))]));
    }
    // keys that are negative or need many bits
    for (n, ks) in [[-1, 0, 255, -256], [5, 256 + 5, 65536 + 5, (1 << 32) + 5], [i64::MIN as i128, i64::MAX as i128, -(1 << 31), 1 << 31]].iter().enumerate() {
        let t: Vec<(i128, Ty)> = ks.iter().enumerate().map(|(j, k)| (*k, contents[(n + j * 3) % contents.len()].clone())).collect();
        v.push(Ty::Seq(vec![Comp::k(Ty::Int(Rng::none())), Comp::m(Ty::Open(t)), Comp::m(i(0, 6))], n == 1));
    }
    v.push(seq(vec![Comp::k(i(-10, 10)), Comp::m(Ty::Open(vec![(-10, Ty::Bool), (-1, oct()), (10, i(0, 6))])), Comp::m(i(0, 6))]));
    // 3GPP style: list of (id, criticality, value) with nested lists of the same kind
    let inner_f = seq(vec![Comp::k(i(0, 65535)), Comp::m(Ty::Enum(3, false)), Comp::m(Ty::Open(vec![(1, i(0, 255)), (2, oct()), (300, Ty::Enum(3, true))]))]);
    let inner = seqx(vec![Comp::m(Ty::SeqOf(Rng::new(0, 65535), Box::new(inner_f.clone())))]);
    let outer_f = seq(vec![Comp::k(i(0, 65535)), Comp::m(Ty::Enum(3, false)), Comp::m(Ty::Open(vec![(1, inner.clone()), (2, Ty::Bool), (300, inner_f.clone())]))]);
    v.push(Ty::SeqOf(Rng::new(0, 65535), Box::new(inner_f.clone())));
    v.push(Ty::SeqOf(Rng::new(1, 3), Box::new(outer_f.clone())));
    v.push(outer_f.clone());
    // open types in one another
    let mut t = outer_f.clone();
    for _ in 0..4 { t = seq(vec![Comp::k(i(0, 65535)), Comp::m(Ty::Open(vec![(7, t.clone()), (8, Ty::Null)])), Comp::o(Ty::Bool)]); }
    v.push(t);
    // a component with its own key between the key and the open type that uses it
    v.push(seq(vec![Comp::k(i(0, 255)), Comp::m(inner_f.clone()), Comp::m(Ty::Open(vec![(1, Ty::Bool), (2, i(0, 255))])), Comp::m(i(0, 6))]));
    v.push(seq(vec![Comp::k(i(0, 255)), Comp::m(Ty::SeqOf(Rng::new(0, 2), Box::new(inner_f.clone()))), Comp::o(Ty::Open(vec![(1, Ty::Bool), (2, oct())])), Comp::o(Ty::Open(vec![(1, outer_f.clone()), (2, Ty::Null)])), Comp::m(i(0, 6))]));
    v.push(Ty::Choice(vec![outer_f.clone(), inner_f.clone(), Ty::Bool], true, vec![]));
    // keys that may be absent, and more than one key
    let open = |n: usize| Ty::Open(vec![(1, contents[n % contents.len()].clone()), (2, contents[(n + 5) % contents.len()].clone()), (3, contents[(n + 9) % contents.len()].clone())]);
    let inner_o = seq(vec![Comp::ok(i(0, 255)), Comp::o(open(0))]);
    v.push(inner_o.clone());
    v.push(seqx(vec![Comp::o(Ty::Bool), Comp::ok(i(0, 65535)), Comp::m(Ty::Bool), Comp::o(open(3)), Comp::o(i(0, 6))]));
    v.push(seq(vec![Comp::k(i(0, 255)), Comp::m(inner_o.clone()), Comp::m(open(7)), Comp::o(inner_o.clone()), Comp::o(open(2))]));
    v.push(Ty::SeqOf(Rng::new(0, 3), Box::new(inner_o)));
    v.push(seq(vec![Comp::k(i(0, 255)), Comp::m(open(1)), Comp::k(i(0, 255)), Comp::m(open(4)), Comp::m(i(0, 6))]));
    v.push(seqx(vec![Comp::k(i(0, 255)), Comp::o(open(2)), Comp::ok(i(0, 255)), Comp::o(open(6)), Comp::ok(i(0, 255)), Comp::o(open(11))]));
    v.push(seq(vec![Comp::k(i(0, 255)), Comp::k(i(0, 255)), Comp::m(open(8))]));
    // an open type without alternatives
    v.push(seqx(vec![Comp::k(i(0, 255)), Comp::m(Ty::Enum(3, false)), Comp::o(Ty::Open(vec![])), Comp::m(i(0, 6))]));
    v.push(Ty::SeqOf(Rng::new(0, 3), Box::new(seq(vec![Comp::k(i(0, 255)), Comp::m(Ty::Open(vec![]))]))));
    v
}

/// Extensible sequences in every kind of surrounding; used with extension additions (C12).
fn exts() -> Vec<Ty> {
    let e0 = seqx(vec![]);
    let e1 = seqx(vec![Comp::m(i(0, 6))]);
    let e2 = seqx(vec![Comp::o(Ty::Bool), Comp::m(i(0, 255)), Comp::o(oct())]);
    let mut v = vec![e0.clone(), e1.clone(), e2.clone()];
    for e in [&e0, &e1, &e2] {
        v.push(seq(vec![Comp::m(e.clone()), Comp::m(i(0, 6)), Comp::m(oct())]));
        v.push(Ty::SeqOf(Rng::new(0, 3), Box::new(e.clone())));
        v.push(Ty::Choice(vec![Ty::Bool, e.clone()], true, vec![]));
        v.push(seq(vec![Comp::k(i(0, 255)), Comp::m(Ty::Open(vec![(1, e.clone()), (2, Ty::Bool)])), Comp::m(i(0, 6))]));
        v.push(seqx(vec![Comp::o(e.clone()), Comp::m(Ty::Bool)]));
        v.push(seqx(vec![Comp::m(Ty::Bool), Comp::m(seqx(vec![Comp::m(e.clone())])), Comp::o(Ty::Bool)]));
    }
    v.push(seqx(vec![Comp::k(i(0, 255)), Comp::m(Ty::Open(vec![(1, e2.clone()), (2, Ty::Bool)]))]));
    v.push(Ty::SeqOf(Rng::none(), Box::new(seqx(vec![Comp::m(e1.clone()), Comp::m(e2.clone())]))));
    v
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Group { Prim, Seq, Choice, SeqOf, Open, Ext }

pub fn family() -> Vec<(Group, Ty)> {
    let mut v = vec![];
    for (g, l) in [(Group::Prim, prims()), (Group::Seq, seqs()), (Group::Choice, choices()), (Group::SeqOf, seqofs()), (Group::Open, opens()), (Group::Ext, exts())] {
        let mut seen = std::collections::HashSet::new();
        for t in l { if seen.insert(t.clone()) { v.push((g, t)) } }
    }
    v
}
