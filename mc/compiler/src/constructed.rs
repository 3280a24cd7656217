//! K06: SEQUENCE. K07: CHOICE and ENUMERATED.
use crate::asn::*;
use crate::cases::*;
use crate::shape::*;
use mc_model::report::*;

/// Types to put into components.
pub fn pool() -> Vec<T> {
    let sz = |lb, ub, ext| Size { lb, ub, ext };
    let f = |n: &str, optional, ty| Field { name: n.into(), optional, key: false, ty };
    vec![
        T::new("BOOLEAN", Shape::Bool),
        int(0, 5),
        T::new("Ref§", int_of(-1, 300)),
        T::new("OCTET STRING (SIZE (2))", Shape::Octets(sz(Some(2), Some(2), false))),
        T::new("SEQUENCE { x NULL OPTIONAL, y BOOLEAN }", Shape::Seq { ext: false, fields: vec![f("x", true, Shape::Null), f("y", false, Shape::Bool)] }),
        T::new("CHOICE { x NULL, ..., y BOOLEAN }", Shape::Choice { lb: Some(0), ub: Some(0), ext: true, alts: vec![alt("x", 0, false, Shape::Null), alt("y", 0, true, Shape::Bool)] }),
        T::new("SEQUENCE (SIZE (0..3)) OF Seq§", Shape::List(sz(Some(0), Some(3), false), Box::new(seq_ref()))),
        T::new("ENUMERATED { x, y, ... }", Shape::Enum { lb: Some(0), ub: Some(1), ext: true, consts: vec![("x".into(), 0), ("y".into(), 1)], width: None }),
        T::new("NULL", Shape::Null),
        T::new("Seq§", seq_ref()),
        T::new("BIT STRING (SIZE (1..9, ...))", Shape::Bits(sz(Some(1), Some(9), true))),
        T::new("UTF8String", Shape::Str("UTF8String".into(), ANY)),
        T::new("OBJECT IDENTIFIER", Shape::Oid),
        T::new("Chain§", int_of(-1, 300)),
        T::new("PrintableString (SIZE (1..MAX))", Shape::Str("PrintableString".into(), sz(Some(1), None, false))),
        T::new("INTEGER", unconstrained_int()),
    ]
}
fn seq_ref() -> Shape { Shape::Seq { ext: true, fields: vec![Field { name: "q".into(), optional: true, key: false, ty: int_of(-1, 300) }] } }
pub fn decls(text: &str) -> String {
    let mut d = String::new();
    if text.contains("Chain§") { d.push_str("Chain§ ::= Ref§ ") }
    if text.contains("Seq§") { d.push_str("Seq§ ::= SEQUENCE { q Ref§ OPTIONAL, ... } ") }
    if text.contains("Ref§") || text.contains("Chain§") || text.contains("Seq§") { d.push_str("Ref§ ::= INTEGER (-1..300) ") }
    d
}
pub fn alt(n: &str, index: i128, addition: bool, ty: Shape) -> Alt { Alt { name: norm(n), index, addition, ty } }
fn default_of(t: &Shape) -> Option<&'static str> {
    Some(match t { Shape::Bool => "TRUE", Shape::Int { lb: Some(l), .. } if *l < 0 => "-1", Shape::Int { .. } => "3", Shape::Octets(_) => "'01FF'H", Shape::Bits(_) => "'0101'B", Shape::Enum { .. } => "y", Shape::Str(..) => "\"ab\"", Shape::List(..) => "{}", Shape::Seq { .. } => "{ }", Shape::Choice { .. } | Shape::Open(_) => "x : NULL", Shape::Null => "NULL", Shape::Oid | Shape::Any => return None })
}
/// Defaults that the compiler must understand.
fn default_ok(t: &Shape) -> bool { matches!(t, Shape::Bool | Shape::Int { .. } | Shape::Octets(_) | Shape::Bits(_) | Shape::Enum { .. } | Shape::Str(..) | Shape::List(..)) }

#[derive(Clone, Copy, PartialEq, Debug)]
enum Mode { Mand, Opt, Def }
const MODES: [Mode; 3] = [Mode::Mand, Mode::Opt, Mode::Def];
const NAMES: &[&str] = &["zeta", "b-x", "mid1", "a", "y2-k", "c", "x9", "eE"];

fn comp(name: &str, t: &T, m: Mode) -> (String, bool) {
    match m { Mode::Mand => (format!("{} {}", name, t.text), true), Mode::Opt => (format!("{} {} OPTIONAL", name, t.text), true),
        Mode::Def => match default_of(&t.shape) { Some(d) => (format!("{} {} DEFAULT {}", name, t.text, d), default_ok(&t.shape)), None => (format!("{} {} OPTIONAL", name, t.text), true) } }
}
fn modes(n: usize) -> Vec<Vec<Mode>> { (0..3usize.pow(n as u32)).map(|mut k| (0..n).map(|_| { let m = MODES[k % 3]; k /= 3; m }).collect()).collect() }

/// Extension additions, as written.
const ADDITIONS: &[&str] = &["", "n1 BOOLEAN", "n1 BOOLEAN OPTIONAL", "n1 INTEGER (0..7) DEFAULT 3", "[[ n1 BOOLEAN ]]", "[[ n1 BOOLEAN, n2 NULL OPTIONAL ]]", "[[ 2: n1 BOOLEAN OPTIONAL ]]", "n1 NULL, n2 Ref§", "n1 NULL, [[ n2 BOOLEAN ]], n3 NULL", "[[ n1 NULL ]], [[ n2 NULL, n3 NULL ]]", "[[ 2: n1 NULL ]], [[ 3: n2 SEQUENCE { m NULL } OPTIONAL ]], n3 CHOICE { c NULL }", "n1 SEQUENCE { m NULL, ..., k NULL }"];

struct Built { text: String, shape: Shape, sure: bool }
/// before: components ahead of the marker; ext: None, or additions and components after a second marker
fn build(before: &[(T, Mode)], ext: Option<(&str, Option<&[(T, Mode)]>)>) -> Built {
    let mut parts = vec![];
    let mut fields = vec![];
    let mut sure = true;
    let mut n = 0;
    let mut put = |cs: &[(T, Mode)], parts: &mut Vec<String>| for (t, m) in cs {
        let name = NAMES[n]; n += 1;
        let (tx, ok) = comp(name, t, *m);
        sure &= ok;
        parts.push(tx);
        fields.push(Field { name: norm(name), optional: *m != Mode::Mand, key: false, ty: t.shape.clone() });
    };
    put(before, &mut parts);
    if let Some((adds, tail)) = &ext {
        parts.push("...".into());
        if !adds.is_empty() { parts.push(adds.to_string()) }
        if let Some(tail) = tail { parts.push("...".into()); put(tail, &mut parts) }
    }
    Built { text: if parts.is_empty() { "SEQUENCE { }".into() } else { format!("SEQUENCE {{ {} }}", parts.join(", ")) }, shape: Shape::Seq { ext: ext.is_some(), fields }, sure }
}
fn case_of(text: &str, shape: Shape, sure: bool) -> Case {
    let c = Case::must(format!("{}A§ ::= {}", decls(text), text), vec![("A§", shape)]);
    if sure { c } else { c.may() }
}

pub fn sequences(c: &'static Check) {
    let r = Runner::new(c, What::Structure);
    let deeper = c.thorough;
    let pool = pool();
    let pick = |i: usize| pool[i % pool.len()].clone();
    let max = if deeper { 6 } else { 5 };
    for n in 0..=max {
        for ms in modes(n) {
            let rots: Vec<usize> = if n <= 3 || deeper && n <= 4 { (0..pool.len()).collect() } else { vec![0, 5, 11] };
            for rot in rots {
                let cs: Vec<(T, Mode)> = ms.iter().enumerate().map(|(i, m)| (pick(rot + i * 3), *m)).collect();
                let mut put = |b: Built| r.add(case_of(&b.text, b.shape, b.sure));
                put(build(&cs, None));
                for (k, a) in ADDITIONS.iter().enumerate() {
                    if n == max && !deeper && k % 3 != 0 { continue }
                    put(build(&cs, Some((a, None))));
                    for at in 0..=n { put(build(&cs[..at], Some((a, Some(&cs[at..]))))) }
                }
            }
        }
    }
    // every pair of types next to each other, every mode
    for a in &pool { for b in &pool { for ms in modes(2) { let x = build(&[(a.clone(), ms[0]), (b.clone(), ms[1])], None); r.add(case_of(&x.text, x.shape, x.sure)) } } }
    // many components
    for n in [5usize, 8, 16, 17, 63, 64, 65, 100, 255, 256, 257] { for opt in 0..3 {
        let parts: Vec<String> = (0..n).map(|i| format!("c{} BOOLEAN{}", i, if opt == 1 || opt == 2 && i % 3 == 1 { " OPTIONAL" } else { "" })).collect();
        let fields = (0..n).map(|i| Field { name: format!("c{}", i), optional: opt == 1 || opt == 2 && i % 3 == 1, key: false, ty: Shape::Bool }).collect();
        let text = format!("SEQUENCE {{ {}, ... }}", parts.join(", "));
        r.add(case_of(&text, Shape::Seq { ext: true, fields }, true));
    } }
    nest(&r, if deeper { 4 } else { 3 });
    for ctx in ["A ::= %", "A ::= SEQUENCE OF %", "A ::= CHOICE { k % }", "A ::= SEQUENCE { k % OPTIONAL }", "A ::= SEQUENCE { j NULL, ..., k % }", "A ::= P { B } P { X } ::= % B ::= NULL"] {
        for bad in BAD_SEQ { r.add(Case::err(ctx.replace('%', bad))) }
        for may in MAY_SEQ { let mut k = Case::err(ctx.replace('%', may)); k.verdict = Verdict::May; r.add(k) }
    }
    r.finish();
    c.assume("extension additions of a SEQUENCE have no fields in the generated type; nothing is said about them");
}
const BAD_SEQ: &[&str] = &["SEQUENCE { a }", "SEQUENCE { a NULL b NULL }", "SEQUENCE { a NULL, }", "SEQUENCE { , a NULL }", "SEQUENCE { a NULL,, b NULL }", "SEQUENCE { a NULL, ..., ..., b NULL, ... }", "SEQUENCE { ..., ..., ... }", "SEQUENCE { a NULL OPTIONAL DEFAULT NULL }", "SEQUENCE { a NULL DEFAULT }", "SEQUENCE { a BOOLEAN DEFAULT TRUE OPTIONAL }", "SEQUENCE { a NULL OPTIONAL OPTIONAL }", "SEQUENCE { a NULL", "SEQUENCE { a NULL ]", "SEQUENCE { A NULL }", "SEQUENCE { 1a NULL }", "SEQUENCE { a null }", "SEQUENCE { a NULL ... }", "SEQUENCE { a NULL, ... b NULL }", "SEQUENCE { [[ a NULL ]] }", "SEQUENCE { a NULL, [[ b NULL ]], ... }", "SEQUENCE { ..., [[ ]] }", "SEQUENCE { ..., [[ a NULL, ]] }", "SEQUENCE { ..., [[ a NULL ] ] }", "SEQUENCE { ..., [[ a NULL }", "SEQUENCE { ..., ..., [[ a NULL ]] }", "SEQUENCE { ..., a NULL, }", "SEQUENCE { ..., [[ 2 a NULL ]] }", "SEQUENCE { ..., [[ a NULL b NULL ]] }", "SEQUENCE { ..., [[ ..., a NULL ]] }", "SEQUENCE { ..., [[ a NULL, [[ b NULL ]] ]] }",
    "SEQUENCE { a NULL, a NULL }", "SEQUENCE { a NULL, b NULL, a BOOLEAN OPTIONAL }", "SEQUENCE { a NULL, ..., a NULL }", "SEQUENCE { a NULL, ..., [[ a NULL ]] }", "SEQUENCE { ..., b NULL, b NULL }", "SEQUENCE { ..., [[ b NULL ]], [[ b NULL ]] }", "SEQUENCE { a NULL, ..., ..., a NULL }", "SEQUENCE a NULL", "SEQUENCE { a OPTIONAL }", "SEQUENCE { a Undefined }", "SEQUENCE { ..., a Undefined }", "SEQUENCE { ..., [[ a Undefined ]] }", "SEQUENCE", "SEQUENCE OF", "SEQUENCE { a SEQUENCE { b }, c NULL }", "SEQUENCE { a NULL } }", "SEQUENCE (SIZE (1)) { a NULL }"];
const MAY_SEQ: &[&str] = &["SEQUENCE { COMPONENTS OF Z }", "SEQUENCE { a NULL, COMPONENTS OF Z }", "SET { a NULL }", "SET OF NULL", "SEQUENCE { a NULL, ... ! 5 }"];

/// Types in types.
fn nest(r: &Runner, depth: usize) {
    fn types(d: usize) -> Vec<T> {
        if d == 0 { return vec![T::new("NULL", Shape::Null), int(-4, 70000), T::new("Ref§", int_of(-1, 300))] }
        let inner = types(d - 1);
        let mut v = vec![];
        for t in &inner {
            let s = t.shape.clone();
            let f = |n: &str, optional| Field { name: n.into(), optional, key: false, ty: s.clone() };
            let b = Field { name: "b".into(), optional: false, key: false, ty: Shape::Bool };
            v.push(T::new(format!("SEQUENCE {{ a {}, b BOOLEAN }}", t.text), Shape::Seq { ext: false, fields: vec![f("a", false), b.clone()] }));
            v.push(T::new(format!("SEQUENCE {{ b BOOLEAN, a {} OPTIONAL, ... }}", t.text), Shape::Seq { ext: true, fields: vec![b.clone(), f("a", true)] }));
            v.push(T::new(format!("SEQUENCE {{ b BOOLEAN, ..., n {}, ..., a {} }}", t.text, t.text), Shape::Seq { ext: true, fields: vec![b.clone(), f("a", false)] }));
            v.push(T::new(format!("CHOICE {{ a {}, b {} }}", t.text, t.text), Shape::Choice { lb: Some(0), ub: Some(1), ext: false, alts: vec![alt("a", 0, false, s.clone()), alt("b", 1, false, s.clone())] }));
            v.push(T::new(format!("CHOICE {{ b BOOLEAN, ..., a {} }}", t.text), Shape::Choice { lb: Some(0), ub: Some(0), ext: true, alts: vec![alt("b", 0, false, Shape::Bool), alt("a", 0, true, s.clone())] }));
            v.push(T::new(format!("SEQUENCE OF {}", t.text), Shape::List(ANY, Box::new(s.clone()))));
            v.push(T::new(format!("SEQUENCE (SIZE (1..4, ...)) OF {}", t.text), Shape::List(Size { lb: Some(1), ub: Some(4), ext: true }, Box::new(s.clone()))));
            if d > 1 { v.push(t.clone()) }
        }
        v
    }
    for d in 1..=depth { for t in types(d) { r.add(case_of(&t.text, t.shape.clone(), true));
        // through a reference and as actual parameter
        let text = &t.text;
        r.add(Case::must(format!("{}B§ ::= {} A§ ::= B§", decls(text), text), vec![("A§", t.shape.clone()), ("B§", t.shape.clone())]));
        r.add(Case::must(format!("{}B§ ::= {} A§ ::= P§ {{ B§ }} P§ {{ X }} ::= SEQUENCE {{ p X OPTIONAL }}", decls(text), text), vec![("A§", Shape::Seq { ext: false, fields: vec![Field { name: "p".into(), optional: true, key: false, ty: t.shape.clone() }] })]));
    } }
}

// ------------------------------------------------------------------------------------------------ K07
pub fn choices(c: &'static Check) {
    let r = Runner::new(c, What::Structure);
    let deep = c.thorough;
    let pool = pool();
    // root alternatives x additions, alone and in groups
    let (rmax, amax) = if deep { (6, 6) } else { (5, 4) };
    for n in 1..=rmax { for ext in [None].into_iter().chain((0..=amax).map(Some)) {
        let a = ext.unwrap_or(0);
        // cut points between additions: alone, or in groups
        let layouts: Vec<Vec<String>> = if ext.is_none() { vec![vec![]] } else { layouts(a) };
        for (k, lay) in layouts.iter().enumerate() {
            let rots: Vec<usize> = if n + a <= if deep { 7 } else { 5 } { (0..pool.len()).collect() } else { vec![(n * 5 + k) % pool.len(), (a + k * 7 + 3) % pool.len()] };
            for rot in rots {
                let t = |i: usize| pool[(rot + i * 3) % pool.len()].clone();
                let mut alts = vec![];
                let mut parts: Vec<String> = (0..n).map(|i| { alts.push(alt(NAMES[i], i as i128, false, t(i).shape)); format!("{} {}", NAMES[i], t(i).text) }).collect();
                if ext.is_some() {
                    parts.push("...".into());
                    for i in 0..a { alts.push(alt(&format!("n{}", i), i as i128, true, t(n + i).shape)) }
                    for l in lay { let mut l = l.clone(); for i in 0..a { l = l.replace(&format!("%{}%", i), &format!("n{} {}", i, t(n + i).text)) } parts.push(l) }
                }
                let text = format!("CHOICE {{ {} }}", parts.join(", "));
                r.add(case_of(&text, Shape::Choice { lb: Some(0), ub: Some(n as i128 - 1), ext: ext.is_some(), alts }, true));
            }
        }
    } }
    for n in [5usize, 8, 63, 64, 65, 127, 128, 255, 256, 257, 300] { for a in [0usize, 1, 63, 64, 65, 256] {
        let mut parts: Vec<String> = (0..n).map(|i| format!("c{} NULL", i)).collect();
        let mut alts: Vec<Alt> = (0..n).map(|i| alt(&format!("c{}", i), i as i128, false, Shape::Null)).collect();
        if a > 0 { parts.push("...".into()); for i in 0..a { parts.push(format!("n{} NULL", i)); alts.push(alt(&format!("n{}", i), i as i128, true, Shape::Null)) } }
        r.add(case_of(&format!("CHOICE {{ {} }}", parts.join(", ")), Shape::Choice { lb: Some(0), ub: Some(n as i128 - 1), ext: a > 0, alts }, true));
    } }
    tags(&r, deep);
    enums(&r, deep);
    for ctx in ["A ::= %", "A ::= SEQUENCE OF %", "A ::= CHOICE { k % }", "A ::= SEQUENCE { k % OPTIONAL }", "A ::= P { B } P { X } ::= SEQUENCE { x X, k % } B ::= NULL"] {
        for bad in BAD_ALT { r.add(Case::err(ctx.replace('%', bad))) }
        for may in MAY_ALT { let mut k = Case::err(ctx.replace('%', may)); k.verdict = Verdict::May; r.add(k) }
    }
    r.finish();
    c.assume("no written tags; in modules without AUTOMATIC TAGS the tags of the alternatives are distinct, as X.680 demands; items of an enumeration added after the marker have no constants in the generated type");
}
/// X.691 23.2: without AUTOMATIC TAGS, the alternatives are numbered in the order of their tags, an untagged CHOICE
/// has the smallest tag of its root alternatives.
fn tags(r: &Runner, deep: bool) {
    #[derive(Clone)]
    struct G { text: &'static str, shape: Shape, tags: Vec<u32> }
    let g = |text, shape, tags: &[u32]| G { text, shape, tags: tags.to_vec() };
    let any = |n: &str| Shape::Str(n.into(), ANY);
    let choice = |l: Vec<(&str, Shape)>| Shape::Choice { lb: Some(0), ub: Some(l.len() as i128 - 1), ext: false, alts: l.into_iter().enumerate().map(|(i, (n, t))| alt(n, i as i128, false, t)).collect() };
    let f = |n: &str, ty| Field { name: n.into(), optional: false, key: false, ty };
    // definitions of the module itself (Q*) and of a module with AUTOMATIC TAGS (Z*)
    let own = "QInt ::= INTEGER (-1..300) QChain ::= QInt QList ::= SEQUENCE OF NULL QCh ::= CHOICE { x UTF8String, y OBJECT IDENTIFIER } QPar { INTEGER : n } ::= CHOICE { x OCTET STRING (SIZE (0..n)), y BOOLEAN } QSeq { INTEGER : n } ::= SEQUENCE { x CHOICE { y INTEGER (0..n), z BOOLEAN } }";
    let other = "Z DEFINITIONS AUTOMATIC TAGS ::= BEGIN ZCh ::= CHOICE { x UTF8String, y BOOLEAN } ZPar { INTEGER : n } ::= CHOICE { x INTEGER (0..n), y BOOLEAN } ZBits ::= BIT STRING END";
    const AUTO: u32 = 1000;
    let pool = vec![
        g("BOOLEAN", Shape::Bool, &[1]),
        g("INTEGER (0..5)", int_of(0, 5), &[2]),
        g("QChain", int_of(-1, 300), &[2]),
        g("ZBits", Shape::Bits(ANY), &[3]),
        g("OCTET STRING", Shape::Octets(ANY), &[4]),
        g("NULL", Shape::Null, &[5]),
        g("OBJECT IDENTIFIER", Shape::Oid, &[6]),
        g("ENUMERATED { x, y }", Shape::Enum { lb: Some(0), ub: Some(1), ext: false, consts: vec![("x".into(), 0), ("y".into(), 1)], width: None }, &[10]),
        g("UTF8String", any("UTF8String"), &[12]),
        g("SEQUENCE { x NULL }", Shape::Seq { ext: false, fields: vec![f("x", Shape::Null)] }, &[16]),
        g("QList", Shape::List(ANY, Box::new(Shape::Null)), &[16]),
        g("QSeq { 3 }", Shape::Seq { ext: false, fields: vec![f("x", choice(vec![("z", Shape::Bool), ("y", int_of(0, 3))]))] }, &[16]),
        g("PrintableString", any("PrintableString"), &[19]),
        g("VisibleString", any("VisibleString"), &[26]),
        g("QCh", choice(vec![("y", Shape::Oid), ("x", any("UTF8String"))]), &[6, 12]),
        g("QPar { 7 }", choice(vec![("y", Shape::Bool), ("x", Shape::Octets(Size { lb: Some(0), ub: Some(7), ext: false }))]), &[1, 4]),
        g("CHOICE { x VisibleString, y NULL, z CHOICE { p INTEGER (0..5), q PrintableString } }", choice(vec![("z", choice(vec![("p", int_of(0, 5)), ("q", any("PrintableString"))])), ("y", Shape::Null), ("x", any("VisibleString"))]), &[2, 5, 19, 26]),
        g("ZCh", choice(vec![("x", any("UTF8String")), ("y", Shape::Bool)]), &[AUTO]),
        g("ZPar { 5 }", choice(vec![("x", int_of(0, 5)), ("y", Shape::Bool)]), &[AUTO]),
    ];
    let module = |default: &str, body: &str| vec![format!("M DEFINITIONS {} ::= BEGIN IMPORTS ZCh, ZPar, ZBits FROM Z; {} {} END", default, own, body), other.to_string()];
    let add = |default: &str, body: &str, shape: Shape| { let mut k = Case::must(body, vec![("A", shape)]); k.files = Some(module(default, body)); r.add(k) };
    let build = |pick: &[&G], marker: usize| -> (String, Shape) {
        let mut order: Vec<usize> = (0..pick.len()).collect();
        order.sort_by_key(|i| pick[*i].tags[0]);
        let mut alts: Vec<Alt> = order.iter().enumerate().map(|(k, i)| alt(NAMES[*i], k as i128, false, pick[*i].shape.clone())).collect();
        let mut parts: Vec<String> = pick.iter().enumerate().map(|(i, p)| format!("{} {}", NAMES[i], p.text)).collect();
        if marker > 0 { parts.push("...".into()) }
        // additions are numbered as they are written (their tags are distinct, and larger in practice)
        if marker > 1 { parts.push("k IA5String".into()); alts.push(alt("k", 0, true, any("IA5String"))) }
        (format!("CHOICE {{ {} }}", parts.join(", ")), Shape::Choice { lb: Some(0), ub: Some(pick.len() as i128 - 1), ext: marker > 0, alts })
    };
    fn all<'a>(pool: &'a [G], n: usize, pick: &mut Vec<&'a G>, go: &mut dyn FnMut(&[&'a G])) {
        if pick.len() == n { return go(pick) }
        for p in pool { if pick.iter().all(|q| q.tags.iter().all(|t| !p.tags.contains(t))) { pick.push(p); all(pool, n, pick, go); pick.pop(); } }
    }
    for default in ["", "EXPLICIT TAGS", "IMPLICIT TAGS"] {
        for n in 1..=if deep { 4 } else { 3 } {
            if n == 4 && !default.is_empty() { continue }
            all(&pool, n, &mut vec![], &mut |pick| {
                let (text, shape) = build(pick, if n == 3 { pick[0].tags[0] as usize % 3 } else { 0 });
                if n < 3 { for m in 0..3 { let (text, shape) = build(pick, m); add(default, &format!("A ::= {}", text), shape) } } else { add(default, &format!("A ::= {}", text), shape.clone()) }
                if n == 2 {
                    add(default, &format!("A ::= SEQUENCE {{ k {} }}", text), Shape::Seq { ext: false, fields: vec![f("k", shape.clone())] });
                    add(default, &format!("A ::= SEQUENCE OF {}", text), Shape::List(ANY, Box::new(shape.clone())));
                    add(default, &format!("A ::= B B ::= {}", text), shape.clone());
                    add(default, &format!("A ::= P {{ 1 }} P {{ INTEGER : n }} ::= {}", text), shape.clone());
                    // the same text where tags are automatic
                    let alts = pick.iter().enumerate().map(|(i, p)| alt(NAMES[i], i as i128, false, p.shape.clone())).collect();
                    let written = Shape::Choice { lb: Some(0), ub: Some(1), ext: false, alts };
                    let plain = pick.iter().all(|p| !p.text.contains("CHOICE"));
                    if plain {
                        let mut k = Case::must("", vec![("A", written.clone()), ("B", shape.clone())]);
                        let names = "QInt, QChain, QList, QCh, QPar, QSeq";
                        k.files = Some(vec![
                            format!("M DEFINITIONS {} ::= BEGIN IMPORTS ZCh, ZPar, ZBits FROM Z; {} B ::= {} END", default, own, text), other.to_string(),
                            format!("N DEFINITIONS AUTOMATIC TAGS ::= BEGIN IMPORTS {} FROM M ZCh, ZPar, ZBits FROM Z; A ::= {} END", names, text)]);
                        r.add(k);
                    }
                }
            });
        }
    }
}
/// All ways to put 0..a, in order, alone or in groups (the placeholders are %i%).
fn layouts(a: usize) -> Vec<Vec<String>> {
    if a == 0 { return vec![vec![]] }
    let mut out = vec![];
    for first in 1..=a {
        for rest in layouts(a - first) {
            let rest: Vec<String> = rest.into_iter().map(|s| { let mut s = s; for i in (0..a).rev() { s = s.replace(&format!("%{}%", i), &format!("%{}%", i + first)) } s }).collect();
            let inner = (0..first).map(|i| format!("%{}%", i)).collect::<Vec<_>>().join(", ");
            let mut forms = vec![format!("[[ {} ]]", inner), format!("[[ {}: {} ]]", a - first + 2, inner)];
            if first == 1 { forms.push(inner) }
            for f in forms { let mut v = vec![f]; v.extend(rest.iter().cloned()); out.push(v) }
        }
    }
    out
}
const BAD_ALT: &[&str] = &["CHOICE { }", "CHOICE { ... }", "CHOICE { ..., a NULL }", "CHOICE { a }", "CHOICE { a NULL b NULL }", "CHOICE { a NULL, }", "CHOICE { , a NULL }", "CHOICE { a NULL,, b NULL }", "CHOICE { a NULL, ..., ..., b NULL }", "CHOICE { a NULL OPTIONAL }", "CHOICE { a BOOLEAN DEFAULT TRUE }", "CHOICE { a NULL", "CHOICE { A NULL }", "CHOICE { a NULL ... }", "CHOICE { a NULL, ... b NULL }", "CHOICE { [[ a NULL ]] }", "CHOICE { a NULL, [[ b NULL ]] }", "CHOICE { a NULL, ..., [[ ]] }", "CHOICE { a NULL, ..., [[ b NULL, ]] }", "CHOICE { a NULL, ..., b NULL, }", "CHOICE { a NULL, ..., [[ 2 b NULL ]] }",
    "CHOICE { a NULL, a NULL }", "CHOICE { a NULL, b BOOLEAN, a BOOLEAN }", "CHOICE { a NULL, ..., a NULL }", "CHOICE { a NULL, ..., [[ a NULL ]] }", "CHOICE { z NULL, ..., b NULL, b NULL }", "CHOICE { z NULL, ..., [[ b NULL ]], [[ b NULL ]] }", "CHOICE { a Undefined }", "CHOICE { a NULL, ..., b Undefined }", "CHOICE { a NULL, ..., [[ b Undefined ]] }", "CHOICE",
    "ENUMERATED { }", "ENUMERATED { ... }", "ENUMERATED { ..., a }", "ENUMERATED { a b }", "ENUMERATED { a, }", "ENUMERATED { , a }", "ENUMERATED { a,, b }", "ENUMERATED { a, ..., }", "ENUMERATED { a ... }", "ENUMERATED { a, ... b }", "ENUMERATED { a, ..., b, ... }", "ENUMERATED { a, ..., b c }", "ENUMERATED { a, ..., ..., b }", "ENUMERATED { A }", "ENUMERATED { a", "ENUMERATED { a(1), b(1) }", "ENUMERATED { a, b(0), c(0) }", "ENUMERATED { a(1.5) }", "ENUMERATED { a() }", "ENUMERATED { a(1 }", "ENUMERATED { a(nothing) }", "ENUMERATED { a(Undefined) }", "ENUMERATED { a(\"x\") }", "ENUMERATED { 1 }", "ENUMERATED { a, a }", "ENUMERATED { a(1), b, a(3) }", "ENUMERATED { a, ..., a }", "ENUMERATED { a, ..., b, b }", "ENUMERATED { a, b, ..., c(1) }", "ENUMERATED { a(5), ..., c(5) }", "ENUMERATED { a(1), b, ..., c(0) }", "ENUMERATED { a, ..., b(7), c(7) }", "ENUMERATED", "ENUMERATED { a NULL }", "ENUMERATED { a OPTIONAL }"];
const MAY_ALT: &[&str] = &["CHOICE { a NULL, ..., b NULL, ... }", "CHOICE { a NULL, ..., [[ b NULL ]], ... }", "CHOICE { a NULL, ... ! 5 }", "ENUMERATED { a, ... ! 5 }"];

/// X.680: items without a number get, in order, the lowest numbers from 0 that are not used in the root.
fn numbered(items: &[(String, Option<i128>)]) -> Option<Vec<(String, i128)>> {
    let used: Vec<i128> = items.iter().filter_map(|(_, n)| *n).collect();
    let mut seen = std::collections::BTreeSet::new();
    for u in &used { if !seen.insert(*u) { return None } }
    let mut next = 0;
    Some(items.iter().map(|(n, x)| (n.clone(), match x { Some(x) => *x, None => { while used.contains(&next) { next += 1 } next += 1; next - 1 } })).collect())
}
fn enums(r: &Runner, deep: bool) {
    let nums: Vec<Option<&str>> = if deep { vec![None, Some("0"), Some("1"), Some("2"), Some("3"), Some("-1"), Some("1000"), Some("five§")] } else { vec![None, Some("0"), Some("1"), Some("2"), Some("-1"), Some("five§")] };
    let val = |s: &str| if s == "five§" { 5 } else { s.parse::<i128>().unwrap() };
    let k = nums.len();
    for n in 1..=if deep { 5 } else { 4 } { for code in 0..k.pow(n as u32) {
        let mut c = code;
        let pick: Vec<Option<&str>> = (0..n).map(|_| { let x = nums[c % k]; c /= k; x }).collect();
        let items: Vec<(String, Option<i128>)> = pick.iter().enumerate().map(|(i, x)| (NAMES[i].to_string(), x.map(val))).collect();
        let text: Vec<String> = pick.iter().enumerate().map(|(i, x)| match x { Some(x) => format!("{} ({})", NAMES[i], x), None => NAMES[i].to_string() }).collect();
        let text = text.join(", ");
        let d = if text.contains("five§") { "five§ INTEGER ::= 5 " } else { "" };
        let exts: &[&str] = if n <= 3 || deep && n <= 4 { &["", ", ...", ", ..., n1", ", ..., n1, n2 (77)", ", ..., n1 (50), n2, n3 (90)", ", ..., n1 (-9)"] } else if code % 5 == 0 { &["", ", ...", ", ..., n1, n2"] } else { &[""] };
        for e in exts {
            let body = format!("{}A§ ::= ENUMERATED {{ {}{} }}", d, text, e);
            match numbered(&items) {
                None => r.add(Case::err(body)),
                Some(mut v) => {
                    v.sort_by_key(|x| x.1);
                    let consts = v.iter().enumerate().map(|(i, (n, _))| (norm(n), i as i128)).collect();
                    r.add(Case::must(body, vec![("A§", Shape::Enum { lb: Some(0), ub: Some(n as i128 - 1), ext: !e.is_empty(), consts, width: None })]));
                }
            }
        }
    } }
    // many items: in order, in reverse, shuffled
    for n in [5usize, 8, 63, 64, 127, 128, 129, 255, 256, 257, 300].into_iter().chain(if deep { vec![65535, 65536, 65537] } else { vec![65537] }) { for how in 0..6 { for ext in [false, true] {
        if n > 1000 && how > 1 { continue }
        let num = |i: usize| match how { 0 => None, 1 => Some(1_000_000 - i as i128), 2 => Some(((i * 7919) % 100_003) as i128 - 50_000), 4 => Some((((i * 7919) % 100_003) as i128 - 50_000) << 33), 5 => Some(if i % 2 == 0 { i as i128 } else { (1 << 62) - i as i128 }), _ => if i % 2 == 0 { Some((n - i) as i128) } else { None } };
        let items: Vec<(String, Option<i128>)> = (0..n).map(|i| (format!("i{}", i), num(i))).collect();
        let text: Vec<String> = items.iter().map(|(s, x)| match x { Some(x) => format!("{}({})", s, x), None => s.clone() }).collect();
        let body = format!("A§ ::= ENUMERATED {{ {}{} }}", text.join(", "), if ext { ", ..., added" } else { "" });
        if let Some(mut v) = if n > 1000 { Some(items.iter().enumerate().map(|(i, (s, x))| (s.clone(), x.unwrap_or(i as i128))).collect()) } else { numbered(&items) } {
            v.sort_by_key(|x| x.1);
            let consts = v.iter().enumerate().map(|(i, (n, _))| (n.clone(), i as i128)).collect();
            let mut k = Case::must(body, vec![("A§", Shape::Enum { lb: Some(0), ub: Some(n as i128 - 1), ext, consts, width: None })]);
            if n > 256 { k.body = k.body.replace('§', ""); k.want[0].0 = "A".into() }
            r.add(k);
        }
    } } }
    // places
    for (tx, consts, ext) in [("ENUMERATED { b, a }", vec![("b", 0), ("a", 1)], false), ("ENUMERATED { b (4), a (2), ..., c }", vec![("a", 0), ("b", 1)], true)] {
        let s = Shape::Enum { lb: Some(0), ub: Some(1), ext, consts: consts.iter().map(|(n, i)| (n.to_string(), *i)).collect(), width: None };
        let f = |n: &str, optional| Field { name: n.into(), optional, key: false, ty: s.clone() };
        for (body, shape) in [
            (format!("A§ ::= SEQUENCE {{ a {}, b {} OPTIONAL }}", tx, tx), Shape::Seq { ext: false, fields: vec![f("a", false), f("b", true)] }),
            (format!("A§ ::= SEQUENCE {{ a {} DEFAULT b }}", tx), Shape::Seq { ext: false, fields: vec![f("a", true)] }),
            (format!("A§ ::= SEQUENCE OF {}", tx), Shape::List(ANY, Box::new(s.clone()))),
            (format!("A§ ::= CHOICE {{ a {}, ..., b {} }}", tx, tx), Shape::Choice { lb: Some(0), ub: Some(0), ext: true, alts: vec![alt("a", 0, false, s.clone()), alt("b", 0, true, s.clone())] }),
            (format!("C§ ::= {} B§ ::= C§ A§ ::= B§", tx), s.clone()),
            (format!("A§ ::= P§ {{ B§ }} B§ ::= {} P§ {{ X }} ::= SEQUENCE {{ a X }}", tx), Shape::Seq { ext: false, fields: vec![f("a", false)] }),
        ] { r.add(Case::must(body, vec![("A§", shape)])) }
    }
}
