//! The constraint lattice: every threshold of X.691, and neighbours.
use mc_model::ty::*;

pub fn int_types(thorough: bool) -> Vec<Ty> {
    let mut v = vec![];
    let mut spans: Vec<u128> = (0..=270).collect();
    spans.extend([511, 512, 999, 1000, 32767, 32768, 65533, 65534, 65535, 65536, 65537, 99_999, 100_000]);
    for k in 17..=126u32 {
        let p = 1u128 << k;
        if k % 8 == 0 || k <= 33 || (62..=66).contains(&k) || (thorough && k < 126) { spans.extend([p - 2, p - 1, p, p + 1]); }
    }
    let lbs: Vec<i128> = vec![0, 1, -1, 5, -128, -129, 255, -32768, 65536, 1 << 31, -(1 << 31), -(1 << 63), i64::MAX as i128];
    for (i, lb) in lbs.iter().enumerate() {
        for s in &spans {
            if i > 2 && *s <= 270 && !thorough && ![0, 1, 2, 3, 4, 7, 8, 127, 128, 129, 253, 254, 255, 256, 257].contains(s) { continue }
            let r = Rng { lb: Some(*lb), ub: Some(lb + *s as i128), ext: false };
            v.push(Ty::Int(r));
            if i < 3 || thorough { v.push(Ty::Int(Rng { ext: true, ..r })) }
        }
    }
    for lb in [0i128, 1, -1, 127, 128, 255, 256, -128, -129, -255, -256, 65535, -65536, 1 << 31, -(1 << 31), 1 << 63, -(1 << 63)] {
        for ext in [false, true] { v.push(Ty::Int(Rng { lb: Some(lb), ub: None, ext })) }
    }
    for ub in [0i128, -1, 127, 128, 255, 65535, 1 << 40] { for ext in [false, true] { v.push(Ty::Int(Rng { lb: None, ub: Some(ub), ext })) } }
    v.push(Ty::Int(Rng::none()));
    v
}

pub fn size_rngs(thorough: bool) -> Vec<Rng> {
    let mut v = vec![Rng::none()];
    let hi: Vec<i128> = if thorough { (0..=70).chain([126, 127, 128, 129, 150, 160, 254, 255, 256, 257, 258, 500, 1000, 16383, 16384, 16385, 32768, 65534, 65535, 65536, 65537, 70000, 1 << 20, 1 << 32]).collect() }
        else { (0..=20).chain([31, 32, 33, 63, 64, 65, 127, 128, 129, 150, 160, 254, 255, 256, 257, 16383, 16384, 16385, 65534, 65535, 65536, 65537, 70000, 1 << 32]).collect() };
    for h in &hi { v.push(Rng::new(*h, *h)); }
    for l in [0i128, 1, 2, 3, 8, 16, 17, 100, 255, 256, 16384] {
        for h in &hi { if *h > l { v.push(Rng::new(l, *h)); } }
        v.push(Rng { lb: Some(l), ub: None, ext: false });
    }
    for h in [5i128, 200, 65535, 65536] { v.push(Rng { lb: None, ub: Some(h), ext: false }); }
    let e: Vec<Rng> = v.iter().map(|r| Rng { ext: true, ..*r }).collect();
    v.extend(e);
    v
}

pub fn all_types(thorough: bool) -> Vec<Ty> {
    let mut v = vec![Ty::Bool];
    v.extend(int_types(thorough));
    for n in (1..=70).chain([127, 128, 129, 254, 255, 256, 257, 258, 300, 65536, 65537]) { for x in [false, true] { v.push(Ty::Enum(n, x)); v.push(Ty::ChoiceIdx(Rng { lb: Some(0), ub: Some(n as i128 - 1), ext: x })); } }
    for n in (0..=9).chain([15, 16, 17, 31, 63, 64, 65, 70]) { for x in [false, true] { v.push(Ty::SeqHdr(n, x)) } }
    for r in size_rngs(thorough) {
        v.push(Ty::Bits(r)); v.push(Ty::Octets(r));
        v.push(Ty::Str(StrKind::Visible, r)); v.push(Ty::Str(StrKind::Printable, r)); v.push(Ty::Str(StrKind::Utf8, r));
        if !r.ext { v.push(Ty::Len(r)) }
    }
    v.push(Ty::SmallLen);
    v
}

/// One representative per encoding form and per resulting bit position: used for sequences and for
/// exhaustive byte strings.
pub fn forms() -> Vec<Ty> {
    use StrKind::*;
    let i = |l, u| Ty::Int(Rng::new(l, u));
    vec![
        Ty::Bool, i(5, 5), i(0, 2), i(-3, 4), i(0, 30), i(1, 100), i(0, 253), i(0, 254), i(0, 255), i(-128, 128), i(0, 65535), i(0, 65536), i(-5, 99_999),
        i(0, (1 << 24) - 1), i(0, 1 << 24), i(0, u32::MAX as i128), i(0, 1 << 32), i(0, 68719476735), i(i64::MIN as i128, i64::MAX as i128), i(0, u64::MAX as i128), i(0, 1 << 64),
        Ty::Int(Rng::ext(0, 7)), Ty::Int(Rng::ext(0, 100000)), Ty::Int(Rng { lb: Some(0), ub: None, ext: false }), Ty::Int(Rng { lb: Some(-200), ub: None, ext: true }), Ty::Int(Rng::none()),
        Ty::Int(Rng { lb: None, ub: Some(100), ext: false }),
        Ty::Enum(1, false), Ty::Enum(3, false), Ty::Enum(3, true), Ty::Enum(70, true), Ty::Enum(256, false), Ty::Enum(257, true),
        Ty::ChoiceIdx(Rng::new(0, 0)), Ty::ChoiceIdx(Rng::new(0, 4)), Ty::ChoiceIdx(Rng::ext(0, 2)), Ty::ChoiceIdx(Rng::new(0, 300)),
        Ty::SeqHdr(0, false), Ty::SeqHdr(0, true), Ty::SeqHdr(3, false), Ty::SeqHdr(2, true), Ty::SeqHdr(9, true),
        Ty::Bits(Rng::new(0, 0)), Ty::Bits(Rng::new(3, 3)), Ty::Bits(Rng::new(16, 16)), Ty::Bits(Rng::new(17, 17)), Ty::Bits(Rng::new(24, 24)), Ty::Bits(Rng::new(0, 5)), Ty::Bits(Rng::new(1, 160)), Ty::Bits(Rng::ext(1, 32)), Ty::Bits(Rng::ext(8, 8)), Ty::Bits(Rng::none()), Ty::Bits(Rng::new(2, 65536)), Ty::Bits(Rng { lb: Some(1), ub: None, ext: false }),
        Ty::Octets(Rng::new(0, 0)), Ty::Octets(Rng::new(1, 1)), Ty::Octets(Rng::new(2, 2)), Ty::Octets(Rng::new(3, 3)), Ty::Octets(Rng::new(0, 2)), Ty::Octets(Rng::new(1, 8)), Ty::Octets(Rng::new(0, 255)), Ty::Octets(Rng::ext(1, 3)), Ty::Octets(Rng::ext(2, 2)), Ty::Octets(Rng::none()), Ty::Octets(Rng::new(1, 70000)), Ty::Octets(Rng { lb: Some(2), ub: None, ext: false }),
        Ty::Str(Visible, Rng::new(1, 1)), Ty::Str(Visible, Rng::new(2, 2)), Ty::Str(Visible, Rng::new(0, 1)), Ty::Str(Visible, Rng::new(0, 2)), Ty::Str(Visible, Rng::new(3, 3)), Ty::Str(Visible, Rng::none()),
        Ty::Str(Printable, Rng::new(1, 150)), Ty::Str(Printable, Rng::ext(1, 150)), Ty::Str(Printable, Rng::ext(1, 1)), Ty::Str(Printable, Rng::none()),
        Ty::Str(Utf8, Rng::none()), Ty::Str(Utf8, Rng::ext(1, 150)), Ty::Str(Utf8, Rng::new(2, 2)), Ty::Str(Utf8, Rng::new(0, 3)),
        Ty::Len(Rng::none()), Ty::Len(Rng::new(0, 10)), Ty::Len(Rng::new(4, 4)), Ty::Len(Rng::new(1, 256)), Ty::Len(Rng::new(0, 65535)), Ty::Len(Rng::new(2, 65536)), Ty::SmallLen,
    ]
}
