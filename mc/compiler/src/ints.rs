//! K03, K04: INTEGER constraints. K05: SIZE constraints.
use crate::asn::*;
use crate::cases::*;
use crate::shape::*;
use mc_model::report::*;

const P63: i128 = 1 << 63;
const P64: i128 = 1 << 64;
const WIDE: &[i128] = &[-P63 - 1, -P63, -(1 << 31) - 1, -(1 << 31), -32769, -32768, -129, -128, -2, -1, 0, 1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, P63 - 1, P63, P64 - 1, P64];
const WIDER: &[i128] = &[-(1 << 90), -P64, -P63 + 1, -(1 << 32), -65536, -256, -127, -3, 2, 126, 129, 254, 257, 65537, (1 << 31) + 1, P63 + 1, P64 - 2, P64 + 1, 1 << 90];

fn ends(vs: &[i128]) -> Vec<End> { let mut e: Vec<End> = vec![End::Min]; e.extend(vs.iter().map(|x| End::V(v(*x)))); e.push(End::Max); e }
/// all values and valid ranges with these end points
fn atoms(vs: &[i128], open: bool) -> Vec<El> {
    let mut r: Vec<El> = vs.iter().map(|x| El::Val(v(*x))).collect();
    for (i, a) in vs.iter().enumerate() { for b in &vs[i..] { r.push(range(*a, *b)) } }
    if open { for x in vs { r.push(El::Range(End::Min, false, false, End::V(v(*x)))); r.push(El::Range(End::V(v(*x)), false, false, End::Max)); } r.push(El::Range(End::Min, false, false, End::Max)); }
    r
}

fn decl(name: &str, cs: &[Cons]) -> String { format!("{} ::= INTEGER {}", name, texts(cs)) }
/// A definition whose only content is an INTEGER with these constraints.
fn int_case(cs: &[Cons], extra: &str) -> Case {
    let body = format!("{}{}", extra, decl("A§", cs));
    match int_shape(cs) {
        None => Case::err(body),
        Some((s, may)) => { let c = Case::must(body, vec![("A§", s)]); if may { c.may() } else { c } }
    }
}

pub fn ints(c: &'static Check, what: What) {
    let r = Runner::new(c, what);
    let (t, deep) = (true, c.thorough);
    let mut wide = WIDE.to_vec();
    if t { wide.extend(WIDER); wide.sort() }
    r.add(Case::must("A§ ::= INTEGER", vec![("A§", unconstrained_int())]));
    // one value, one range, with and without extension
    for x in &wide { r.add(int_case(&[cons(El::Val(v(*x)))], "")) }
    for a in ends(&wide) { for b in ends(&wide) { for (x, y) in [(false, false), (true, false), (false, true), (true, true)] {
        let e = El::Range(a.clone(), x, y, b.clone());
        r.add(int_case(&[cons(e.clone())], ""));
        if !x && !y || t {
            r.add(int_case(&[Cons { root: one(e.clone()), ext: Some(None) }], ""));
            for z in [-129i128, -1, 300, 70000, 1 << 33] { if !x && !y { r.add(int_case(&[Cons { root: one(e.clone()), ext: Some(Some(one(El::Val(v(z))))) }], "")) } }
        }
    } } }
    // sets of two and three elements
    let at = atoms(if deep { &[-3, 0, 2, 7, 300] } else { &[-3, 0, 2, 7] }, true);
    let wide_pairs = atoms(if deep { WIDE } else { &[-P63, -129, -1, 0, 1, 128, 255, 256, 65535, 65536, 1 << 32, P63, P64 - 1] }, true);
    for a in &wide_pairs { for b in &wide_pairs {
        r.add(int_case(&[Cons { root: vec![vec![a.clone()], vec![b.clone()]], ext: None }], ""));
        r.add(int_case(&[Cons { root: one(a.clone()), ext: Some(Some(one(b.clone()))) }], ""));
        if deep { r.add(int_case(&[Cons { root: vec![vec![a.clone(), b.clone()]], ext: None }], "")); r.add(int_case(&[cons(a.clone()), cons(b.clone())], "")) }
    } }
    for a in &at { for b in &at {
        r.add(int_case(&[Cons { root: vec![vec![a.clone()], vec![b.clone()]], ext: None }], ""));
        r.add(int_case(&[Cons { root: vec![vec![a.clone(), b.clone()]], ext: None }], ""));
        r.add(int_case(&[Cons { root: vec![vec![a.clone()], vec![b.clone()]], ext: Some(None) }], ""));
        r.add(int_case(&[Cons { root: one(a.clone()), ext: Some(Some(one(b.clone()))) }], ""));
        // one constraint after the other
        r.add(int_case(&[cons(a.clone()), cons(b.clone())], ""));
        r.add(int_case(&[Cons { root: one(a.clone()), ext: Some(None) }, cons(b.clone())], ""));
        r.add(int_case(&[cons(a.clone()), Cons { root: one(b.clone()), ext: Some(None) }], ""));
    } }
    let small = if t { at.clone() } else { vec![El::Val(v(-3)), El::Val(v(2)), El::Val(v(7)), range(-3, 2), range(0, 7), range(2, 7), range(2, 2), El::Range(End::Min, false, false, End::V(v(0))), El::Range(End::V(v(2)), false, false, End::Max), El::Range(End::V(v(-3)), true, true, End::V(v(7)))] };
    for a in &small { for b in &small { for d in &small {
        let (a, b, d) = (a.clone(), b.clone(), d.clone());
        let sets: Vec<Set> = vec![
            vec![vec![a.clone()], vec![b.clone()], vec![d.clone()]],
            vec![vec![a.clone(), b.clone(), d.clone()]],
            vec![vec![a.clone(), b.clone()], vec![d.clone()]],
            vec![vec![a.clone()], vec![b.clone(), d.clone()]],
            vec![vec![El::Paren(vec![vec![a.clone()], vec![b.clone()]]), d.clone()]],
            vec![vec![a.clone(), El::Paren(vec![vec![b.clone()], vec![d.clone()]])]],
            vec![vec![El::Paren(vec![vec![a.clone(), b.clone()]])], vec![El::Paren(one(d.clone()))]],
        ];
        for s in sets { r.add(int_case(&[Cons { root: s, ext: None }], "")) }
        r.add(int_case(&[cons(a.clone()), cons(b.clone()), cons(d.clone())], ""));
        // the same through references
        let chain = [cons(a.clone()), cons(b.clone()), cons(d.clone())];
        let body = format!("D§ ::= INTEGER {} C§ ::= D§ {} B§ ::= C§ A§ ::= B§ {}", chain[0].text(), chain[1].text(), chain[2].text());
        let mk = |cs: &[Cons]| int_shape(cs);
        match (mk(&chain[..1]), mk(&chain[..2]), mk(&chain)) {
            (Some((s1, m1)), Some((s2, m2)), Some((s3, m3))) => { let k = Case::must(body, vec![("D§", s1), ("C§", s2.clone()), ("B§", s2), ("A§", s3)]); r.add(if m1 || m2 || m3 { k.may() } else { k }) }
            _ => r.add(Case::err(body)),
        }
        // contained subtypes
        let sub = El::Sub("D§".into(), vec![cons(a.clone())]);
        for cs in [vec![Cons { root: vec![vec![sub.clone(), b.clone()]], ext: None }, cons(d.clone())], vec![Cons { root: vec![vec![b.clone()], vec![sub.clone(), d.clone()]], ext: None }]] {
            let k = int_case(&cs, &format!("D§ ::= INTEGER {} ", texts(&[cons(a.clone())])));
            r.add(k);
        }
    } } }
    if t {
        // four elements, flat
        let mut few = vec![El::Val(v(-3)), El::Val(v(7)), range(-3, 2), range(0, 7), range(2, 7), El::Range(End::V(v(2)), false, false, End::Max)];
        if deep { few.extend([El::Val(v(2)), range(0, 2), range(2, 300), El::Range(End::Min, false, false, End::V(v(7))), El::Range(End::Min, true, true, End::V(v(3)))]) }
        for a in &few { for b in &few { for d in &few { for e in &few { for ops in 0..8u32 {
            let mut s: Set = vec![vec![a.clone()]];
            for (i, x) in [b, d, e].iter().enumerate() { if ops >> i & 1 == 1 { s.last_mut().unwrap().push((*x).clone()) } else { s.push(vec![(*x).clone()]) } }
            r.add(int_case(&[Cons { root: s, ext: None }], ""));
        } } } } }
    }
    contexts(&r);
    names(&r, t);
    for bad in BAD { for ctx in ["A ::= INTEGER %", "A ::= SEQUENCE { a INTEGER % }", "A ::= CHOICE { a INTEGER % }", "A ::= SEQUENCE OF INTEGER %", "B ::= INTEGER A ::= B %", "B ::= INTEGER (0..9) A ::= B %"] { r.add(Case::err(ctx.replace('%', bad))) } }
    r.finish();
    c.assume("constraints with EXCEPT are outside the space; an end point outside the parent type may be an error");
}
/// Not constraints of INTEGER.
const BAD: &[&str] = &["()", "(,...)", "(...)", "(1..)", "(..1)", "(1 |)", "(| 1)", "(1 | | 2)", "(1 ^)", "(^ 1)", "(1 ^ ^ 2)", "(1, ...,)", "(1, ..., 2, 3)", "(1, 2)", "(1 ...)", "(1, ... 2)", "((1, ...) | 2)", "((1, ..., 3) ^ (1..5))", "(1", "1)", "(SIZE (1))", "(SIZE (1..4))", "(1 | SIZE (1))", "(FROM (\"a\"))", "(\"a\")", "('01'B)", "(TRUE)",
    "(2..1)", "(0<..<1)", "(MAX..MIN)", "(MAX)", "(MIN)", "(1..2 | 4..3)", "(1..2 ^ 3..4)", "(nothing)", "(0..nothing)", "(nothing..9)", "(1 | nothing)", "(1, ..., nothing)", "(Nothing)", "(1 | Nothing)", "(BOOLEAN)", "(OCTET STRING)", "(1..2..3)", "(1.5)", "(INTEGER (2..1))", "(CONTAINING A)", "({S})", "(1)(2)", "(1..3)(4..5)", "(1)(nothing)", "(0..5)(SIZE (1))"];

/// The same constraint in every place where a type can stand.
fn contexts(r: &Runner) {
    let cs: Vec<Vec<Cons>> = vec![
        vec![cons(range(-3, 12))], vec![cons(El::Val(v(5)))], vec![Cons { root: vec![vec![El::Val(v(1))], vec![range(3, 300)]], ext: None }], vec![Cons { root: one(range(0, 255)), ext: Some(None) }],
        vec![Cons { root: one(range(0, 255)), ext: Some(Some(one(range(256, 70000)))) }], vec![cons(range(0, 100)), cons(El::Range(End::V(v(50)), false, false, End::Max))], vec![cons(El::Range(End::V(v(1)), false, false, End::Max))],
        vec![cons(El::Range(End::Min, false, false, End::V(v(-1))))], vec![cons(El::Range(End::Min, false, false, End::Max))], vec![cons(range(0, P64 - 1))], vec![cons(range(-P63, P63 - 1))], vec![],
    ];
    for x in cs {
        let s = int_shape(&x).unwrap().0;
        let tx = format!("INTEGER {}", texts(&x));
        let f = |name: &str, optional: bool, ty: &Shape| Field { name: name.into(), optional, key: false, ty: ty.clone() };
        let seq = |fields: Vec<Field>, ext| Shape::Seq { ext, fields };
        for (body, shape) in [
            (format!("A§ ::= SEQUENCE {{ a {}, b BOOLEAN }}", tx), seq(vec![f("a", false, &s), f("b", false, &Shape::Bool)], false)),
            (format!("A§ ::= SEQUENCE {{ b BOOLEAN OPTIONAL, a {} OPTIONAL, ... }}", tx), seq(vec![f("b", true, &Shape::Bool), f("a", true, &s)], true)),
            (format!("A§ ::= SEQUENCE {{ ..., ..., a {} }}", tx), seq(vec![f("a", false, &s)], true)),
            (format!("A§ ::= CHOICE {{ a {}, b NULL }}", tx), Shape::Choice { lb: Some(0), ub: Some(1), ext: false, alts: vec![Alt { name: "a".into(), index: 0, addition: false, ty: s.clone() }, Alt { name: "b".into(), index: 1, addition: false, ty: Shape::Null }] }),
            (format!("A§ ::= CHOICE {{ b NULL, ..., a {} }}", tx), Shape::Choice { lb: Some(0), ub: Some(0), ext: true, alts: vec![Alt { name: "a".into(), index: 0, addition: true, ty: s.clone() }, Alt { name: "b".into(), index: 0, addition: false, ty: Shape::Null }] }),
            (format!("A§ ::= SEQUENCE OF {}", tx), Shape::List(ANY, Box::new(s.clone()))),
            (format!("A§ ::= SEQUENCE (SIZE (1..4)) OF {}", tx), Shape::List(Size { lb: Some(1), ub: Some(4), ext: false }, Box::new(s.clone()))),
            (format!("A§ ::= SEQUENCE OF SEQUENCE {{ a {} }}", tx), Shape::List(ANY, Box::new(seq(vec![f("a", false, &s)], false)))),
            (format!("B§ ::= {} A§ ::= SEQUENCE {{ a B§, b B§ OPTIONAL }}", tx), seq(vec![f("a", false, &s), f("b", true, &s)], false)),
            (format!("C§ ::= {} B§ ::= C§ A§ ::= B§", tx), s.clone()),
            (format!("A§ ::= P§ {{ B§ }} B§ ::= {} P§ {{ X }} ::= SEQUENCE {{ a X }}", tx), seq(vec![f("a", false, &s)], false)),
            (format!("N§ ::= NULL A§ ::= P§ {{ N§ }} P§ {{ X }} ::= SEQUENCE {{ a {}, b X }}", tx), seq(vec![f("a", false, &s), f("b", false, &Shape::Null)], false)),
        ] { r.add(Case::must(body, vec![("A§", shape)])) }
        // types that come from the field of a class, or out of a parameterized type
        let key = |ty: &Shape| seq(vec![Field { name: "i".into(), optional: false, key: true, ty: ty.clone() }], false);
        let class = |t: &str| format!("CL§ ::= CLASS {{ &id {} UNIQUE, &T OPTIONAL }} WITH SYNTAX {{ ID &id [TYPE &T] }} S§ CL§ ::= {{ ... }} ", t);
        r.add(Case::must(format!("{}A§ ::= SEQUENCE {{ i CL§.&id ({{S§}}) }}", class(&tx)), vec![("A§", key(&s))]));
        if !x.is_empty() {
            r.add(Case::must(format!("{}A§ ::= SEQUENCE {{ i CL§.&id ({{S§}}) {} }}", class("INTEGER"), texts(&x)), vec![("A§", key(&s))]).may());
            r.add(Case::must(format!("{}A§ ::= SEQUENCE {{ i CL§.&id {} ({{S§}}) }}", class("INTEGER"), texts(&x)), vec![("A§", key(&s))]).may());
            r.add(Case::must(format!("{}A§ ::= SEQUENCE {{ i CL§.&id ({{S§}}) (MIN..MAX) {} }}", class("INTEGER"), texts(&x)), vec![("A§", key(&s))]).may());
            r.add(Case::must(format!("P§ {{ X }} ::= X B§ ::= INTEGER A§ ::= P§ {{ B§ }} {}", texts(&x)), vec![("A§", s.clone())]).may());
            r.add(Case::must(format!("P§ {{ X }} ::= SEQUENCE {{ a X {} }} B§ ::= INTEGER A§ ::= P§ {{ B§ }}", texts(&x)), vec![("A§", seq(vec![f("a", false, &s)], false))]));
            r.add(Case::must(format!("P§ {{ X }} ::= INTEGER B§ ::= NULL A§ ::= SEQUENCE {{ a P§ {{ B§ }} {} OPTIONAL }}", texts(&x)), vec![("A§", seq(vec![f("a", true, &s)], false))]).may());
        }
    }
}

/// Names of values, in every place of a constraint.
fn names(r: &Runner, t: bool) {
    let val = |name: &str, n: i128| V { n, text: format!("{}§", name) };
    let vals: &[(&str, i128)] = &[("a", 4), ("b-c", -4), ("d", 0)];
    let decls = "a§ INTEGER ::= 4 b-c§ INTEGER ::= -4 d§ Z§ ::= e§ e§ INTEGER (0..9) ::= 0 Z§ ::= INTEGER ";
    let mut vs: Vec<V> = vals.iter().map(|(n, x)| val(n, *x)).collect();
    vs.push(v(2));
    let mut es: Vec<End> = vec![End::Min, End::Max];
    es.extend(vs.iter().map(|x| End::V(x.clone())));
    let mut el: Vec<El> = vs.iter().map(|x| El::Val(x.clone())).collect();
    for a in &es { for b in &es { for (x, y) in [(false, false), (true, true)] { el.push(El::Range(a.clone(), x, y, b.clone())) } } }
    for a in &el {
        r.add(int_case(&[cons(a.clone())], decls));
        r.add(int_case(&[Cons { root: one(range(0, 1)), ext: Some(Some(one(a.clone()))) }], decls));
        for b in if t { &el[..] } else { &el[..12] } { r.add(int_case(&[Cons { root: vec![vec![a.clone()], vec![b.clone()]], ext: None }], decls)); r.add(int_case(&[cons(a.clone()), cons(b.clone())], decls)) }
    }
    // large numbers by name
    for b in [7u32, 8, 15, 16, 31, 32, 33, 47, 62, 63] { for d in -1..=1i128 { for sg in [1i128, -1] {
        let n = sg * (1i128 << b) + d;
        if n > i64::MAX as i128 || n < i64::MIN as i128 { continue }
        let decls = format!("big§ INTEGER ::= mid§ mid§ Z§ ::= low§ low§ INTEGER ::= {} Z§ ::= INTEGER ", n);
        for w in [val("big", n), val("low", n)] {
            r.add(int_case(&[cons(El::Val(w.clone()))], &decls));
            r.add(int_case(&[cons(El::Range(End::V(w.clone()), false, false, End::Max))], &decls));
            r.add(int_case(&[cons(El::Range(End::Min, false, false, End::V(w.clone())))], &decls));
            for m in [0, n, -129, 70000] { r.add(int_case(&[cons(El::Range(End::V(w.clone()), false, false, End::V(v(m))))], &decls)); r.add(int_case(&[cons(El::Range(End::V(v(m)), false, false, End::V(w.clone())))], &decls)) }
        }
        let w = V { n, text: "huge".into() };
        for nm in [format!("{{ huge({}) }}", n), "{ huge(big§) }".to_string()] { for e in [El::Val(w.clone()), El::Range(End::V(w.clone()), false, false, End::Max), El::Range(End::Min, false, false, End::V(w.clone()))] {
            let cs = [cons(e)];
            if let Some((s, may)) = int_shape(&cs) { let k = Case::must(format!("{}A§ ::= INTEGER {} {}", decls, nm, texts(&cs)), vec![("A§", s)]); r.add(if may { k.may() } else { k }) }
        } }
    } } }
    // numbers with names of their own
    for (nm, with) in [("{ one(1), two(2), minus(-5) }", ""), ("{ one(1), two(k§), minus(m§) }", "k§ INTEGER ::= 2 m§ INTEGER ::= -5 "), ("{ one(1), two(2), minus(-5) }", "one INTEGER ::= 77 ")] {
        let w = [V { n: 1, text: "one".into() }, V { n: 2, text: "two".into() }, V { n: -5, text: "minus".into() }, v(2), v(3)];
        for a in &w { for b in &w {
            for e in [El::Val(a.clone()), El::Range(End::V(a.clone()), false, false, End::V(b.clone()))] {
                let cs = [cons(e)];
                let one_q = with.contains("one INTEGER");
                let body = format!("{}A§ ::= INTEGER {} {}", with, nm, texts(&cs));
                match int_shape(&cs) { None => r.add(Case::err(body)), Some((s, _)) => { let mut k = Case::must(body, vec![("A§", s)]); if one_q { k.body = k.body.replace('§', ""); k.want[0].0 = "A".into() } r.add(k) } }
                let body = format!("{}B§ ::= INTEGER {} A§ ::= B§ {}", with, nm, texts(&cs));
                match int_shape(&cs) { None => r.add(Case::err(body)), Some((s, _)) => { let mut k = Case::must(body, vec![("A§", s)]); if one_q { k.body = k.body.replace('§', ""); k.want[0].0 = "A".into() } r.add(k) } }
            }
        } }
    }
}

// ------------------------------------------------------------------------------------------------ sizes

/// What the constraints say about sizes: SIZE (...) elements become the sets inside them.
fn flatten(c: &Cons) -> Option<Cons> {
    fn set(s: &Set, ext: &mut bool) -> Option<Set> {
        let lone = s.len() == 1 && s[0].len() == 1;
        s.iter().map(|i| i.iter().map(|x| match x {
            El::Size(c) => { if c.ext.is_some() { if !lone { return None } *ext = true } Some(El::Paren(c.root.clone())) }
            El::Paren(s) => { let mut e = false; let r = set(s, &mut e)?; if e { None } else { Some(El::Paren(r)) } }
            _ => None,
        }).collect::<Option<Vec<El>>>()).collect()
    }
    let mut ext = false;
    let root = set(&c.root, &mut ext)?;
    let mut dummy = false;
    Some(Cons { root, ext: match &c.ext { Some(None) => Some(None), Some(Some(a)) => Some(Some(set(a, &mut dummy)?)), None => if ext { Some(None) } else { None } } })
}
fn size_shape(cs: &[Cons]) -> Option<(Size, bool)> {
    let f: Option<Vec<Cons>> = cs.iter().map(flatten).collect();
    match size_sem(&f.expect("outside of the space")) {
        Sem::Bad => None,
        Sem::Ok(e) => Some((Size { lb: if e.min == Some(0) && e.max.is_none() { None } else { e.min }, ub: e.max, ext: e.ext }, e.may)),
    }
}
const KINDS: &[&str] = &["OCTET STRING", "BIT STRING", "UTF8String", "IA5String", "VisibleString", "PrintableString", "SEQUENCE OF"];
fn typed(kind: &str, cs: &[Cons]) -> String { if kind == "SEQUENCE OF" { if cs.is_empty() { "SEQUENCE OF BOOLEAN".into() } else { format!("SEQUENCE {} OF BOOLEAN", texts(&cs[..1])) } } else { format!("{} {}", kind, texts(cs)) } }
fn sized(kind: &str, s: Size) -> Shape { match kind { "OCTET STRING" => Shape::Octets(s), "BIT STRING" => Shape::Bits(s), "SEQUENCE OF" => Shape::List(s, Box::new(Shape::Bool)), k => Shape::Str(k.into(), s) } }

fn sz(e: El) -> El { El::Size(Box::new(cons(e))) }
pub fn sizes(c: &'static Check) {
    let r = Runner::new(c, What::Structure);
    let (t, deep) = (true, c.thorough);
    // cs applied to the type itself; for SEQUENCE OF the rest through references
    let add = |kind: &str, cs: &[Cons]| {
        let want = |cs: &[Cons]| size_shape(cs);
        if kind == "SEQUENCE OF" && cs.len() > 1 {
            let body = format!("B§ ::= {} A§ ::= B§ {}", typed(kind, cs), texts(&cs[1..]));
            match (want(&cs[..1]), want(cs)) { (Some((a, m)), Some((b, n))) => { let k = Case::must(body, vec![("B§", sized(kind, a)), ("A§", sized(kind, b))]); r.add(if m || n { k.may() } else { k }) } _ => r.add(Case::err(body)) }
        } else {
            let body = format!("A§ ::= {}", typed(kind, cs));
            match want(cs) { Some((s, may)) => { let k = Case::must(body, vec![("A§", sized(kind, s))]); r.add(if may { k.may() } else { k }) } None => r.add(Case::err(body)) }
            if kind != "SEQUENCE OF" && cs.len() > 1 {
                let body = format!("B§ ::= {} C§ ::= B§ A§ ::= C§ {}", typed(kind, &cs[..1]), texts(&cs[1..]));
                match (want(&cs[..1]), want(cs)) { (Some((a, m)), Some((b, n))) => { let k = Case::must(body, vec![("B§", sized(kind, a)), ("A§", sized(kind, b))]); r.add(if m || n { k.may() } else { k }) } _ => r.add(Case::err(body)) }
            }
        }
    };
    let mut big: Vec<i128> = vec![-1, 0, 1, 2, 3, 8, 16, 17, 127, 128, 255, 256, 16383, 16384, 65535, 65536, 65537, 1 << 20];
    if t { big.extend([4, 7, 9, 15, 64, 129, 65534, 131071, 131072, 1 << 31, 1 << 32]); big.sort() }
    let at = atoms(if deep { &[0, 2, 3, 9, 16, 65536] } else { &[0, 2, 3, 9] }, true);
    for kind in KINDS {
        r.add(Case::must(format!("A§ ::= {}", typed(kind, &[])), vec![("A§", sized(kind, ANY))]));
        for x in &big { add(kind, &[cons(sz(El::Val(v(*x))))]); add(kind, &[Cons { root: one(sz(El::Val(v(*x)))), ext: Some(None) }]) }
        for a in ends(&big) { for b in ends(&big) { for (x, y) in [(false, false), (true, false), (false, true)] {
            let e = El::Range(a.clone(), x, y, b.clone());
            if matches!((&a, x), (End::V(z), false) if z.n == -1) || matches!(&b, End::V(z) if z.n == -1) { r.add(Case::err(format!("A§ ::= {}", typed(kind, &[cons(sz(e))])))); continue }
            add(kind, &[cons(sz(e.clone()))]);
            if !x && !y {
                add(kind, &[Cons { root: one(sz(e.clone())), ext: Some(None) }]);
                add(kind, &[cons(El::Size(Box::new(Cons { root: one(e.clone()), ext: Some(None) })))]);
            }
        } } }
        for (i, a) in at.iter().enumerate() { for (j, b) in at.iter().enumerate() {
            let (a, b) = (a.clone(), b.clone());
            // inside one SIZE
            add(kind, &[cons(El::Size(Box::new(Cons { root: vec![vec![a.clone()], vec![b.clone()]], ext: None })))]);
            add(kind, &[cons(El::Size(Box::new(Cons { root: vec![vec![a.clone(), b.clone()]], ext: None })))]);
            add(kind, &[cons(El::Size(Box::new(Cons { root: one(a.clone()), ext: Some(Some(one(b.clone()))) })))]);
            // two SIZEs
            add(kind, &[Cons { root: vec![vec![sz(a.clone())], vec![sz(b.clone())]], ext: None }]);
            add(kind, &[Cons { root: vec![vec![sz(a.clone()), sz(b.clone())]], ext: None }]);
            add(kind, &[Cons { root: one(sz(a.clone())), ext: Some(Some(one(sz(b.clone())))) }]);
            add(kind, &[cons(sz(a.clone())), cons(sz(b.clone()))]);
            add(kind, &[Cons { root: one(sz(a.clone())), ext: Some(None) }, cons(sz(b.clone()))]);
            add(kind, &[cons(El::Size(Box::new(Cons { root: one(a.clone()), ext: Some(None) }))), cons(sz(b.clone()))]);
            add(kind, &[cons(sz(a.clone())), cons(El::Size(Box::new(Cons { root: one(b.clone()), ext: Some(None) })))]);
            if t || (i + j) % 3 == 0 && i % 2 == 0 { for d in [El::Val(v(2)), range(0, 3), range(3, 9), El::Range(End::V(v(2)), false, false, End::Max)] {
                add(kind, &[Cons { root: vec![vec![El::Paren(vec![vec![sz(a.clone())], vec![sz(b.clone())]]), sz(d.clone())]], ext: None }]);
                add(kind, &[cons(sz(a.clone())), cons(sz(b.clone())), cons(sz(d.clone()))]);
                add(kind, &[cons(El::Size(Box::new(Cons { root: vec![vec![a.clone(), b.clone()], vec![d.clone()]], ext: Some(None) })))]);
            } }
        } }
        // places
        for (cs, s) in [(vec![cons(sz(range(1, 4)))], Size { lb: Some(1), ub: Some(4), ext: false }), (vec![Cons { root: one(sz(El::Val(v(3)))), ext: Some(None) }], Size { lb: Some(3), ub: Some(3), ext: true }), (vec![cons(sz(El::Range(End::V(v(2)), false, false, End::Max)))], Size { lb: Some(2), ub: None, ext: false }), (vec![], ANY)] {
            let tx = typed(kind, &cs);
            let s = sized(kind, s);
            let f = |name: &str, optional: bool, ty: &Shape| Field { name: name.into(), optional, key: false, ty: ty.clone() };
            for (body, shape) in [
                (format!("A§ ::= SEQUENCE {{ a {}, b {} OPTIONAL, ... }}", tx, tx), Shape::Seq { ext: true, fields: vec![f("a", false, &s), f("b", true, &s)] }),
                (format!("A§ ::= SEQUENCE (SIZE (0..7)) OF {}", tx), Shape::List(Size { lb: Some(0), ub: Some(7), ext: false }, Box::new(s.clone()))),
                (format!("A§ ::= SEQUENCE OF {}", tx), Shape::List(ANY, Box::new(s.clone()))),
                (format!("A§ ::= CHOICE {{ a {}, ..., b {} }}", tx, tx), Shape::Choice { lb: Some(0), ub: Some(0), ext: true, alts: vec![Alt { name: "a".into(), index: 0, addition: false, ty: s.clone() }, Alt { name: "b".into(), index: 0, addition: true, ty: s.clone() }] }),
                (format!("A§ ::= P§ {{ B§ }} B§ ::= {} P§ {{ X }} ::= SEQUENCE (SIZE (2)) OF X", tx), Shape::List(Size { lb: Some(2), ub: Some(2), ext: false }, Box::new(s.clone()))),
            ] { r.add(Case::must(body, vec![("A§", shape)])) }
        }
        // names
        let nm = |name: &str, n: i128| V { n, text: format!("{}§", name) };
        for e in [El::Val(nm("k", 5)), El::Range(End::V(v(1)), false, false, End::V(nm("k", 5))), El::Range(End::V(nm("z", 0)), false, false, End::V(nm("k", 5))), El::Range(End::V(nm("k", 5)), false, false, End::Max), El::Range(End::Min, false, false, End::V(nm("k", 5))), El::Range(End::V(nm("k", 5)), false, false, End::V(nm("z", 0)))] {
            let cs = [cons(sz(e))];
            let body = format!("k§ INTEGER ::= m§ m§ INTEGER ::= 5 z§ INTEGER (0..1) ::= 0 A§ ::= {}", typed(kind, &cs));
            match size_shape(&cs) { Some((s, _)) => r.add(Case::must(body, vec![("A§", sized(kind, s))])), None => r.add(Case::err(body)) }
        }
        // what is in no SIZE says nothing about sizes; a marker makes the constraint extensible all the same
        if !matches!(*kind, "OCTET STRING" | "BIT STRING" | "SEQUENCE OF") {
            let s13 = |ext| Size { lb: Some(1), ub: Some(3), ext };
            for (cs, s) in [
                ("(SIZE (1..3), ..., FROM (\"a\"..\"c\"))", s13(true)), ("(FROM (\"a\"..\"c\"))", ANY), ("(FROM (\"abc\"))", ANY), ("(FROM (\"a\"..\"c\")) (SIZE (1..3))", s13(false)), ("(SIZE (1..3)) (FROM (\"a\"..\"c\"))", s13(false)),
                ("(SIZE (1..3) ^ FROM (\"a\"..\"c\"))", s13(false)), ("(FROM (\"a\"..\"c\") ^ SIZE (1..3))", s13(false)), ("(SIZE (1..3) ^ FROM (\"a\"), ...)", s13(true)), ("(FROM (\"a\"..\"c\"), ...)", ANY), ("(FROM (\"a\"..\"c\"), ..., SIZE (1..3))", ANY), ("(SIZE (1..3), ..., \"abcd\")", s13(true)), ("(SIZE (1..3), ..., (\"a\"))", s13(true)), ("(SIZE (1..3), ..., \"a\" | \"abcd\")", s13(true)), ("(SIZE (1..3)) (SIZE (1..3), ..., \"abcd\")", s13(true)), ("(SIZE (1..3) | FROM (\"a\"..\"c\"))", ANY), ("(SIZE (1..3)) (FROM (\"a\"..\"c\"), ...)", s13(true)),
            ] {
                r.add(Case { verdict: Verdict::May, ..Case::must(format!("A§ ::= {} {}", kind, cs), vec![("A§", sized(kind, s))]) });
            }
        }
        for bad in BAD_SIZES {
            let txt = if *kind == "SEQUENCE OF" { format!("SEQUENCE {} OF BOOLEAN", bad) } else { format!("{} {}", kind, bad) };
            r.add(Case::err(format!("A ::= {}", txt)));
            r.add(Case::err(format!("A ::= SEQUENCE {{ a {} }}", txt)));
            r.add(Case::err(format!("B ::= {} A ::= B {}", typed(kind, &[]), bad)));
        }
    }
    // a type without size
    for k in ["BOOLEAN", "NULL", "INTEGER", "OBJECT IDENTIFIER", "ENUMERATED { a, b }", "SEQUENCE { a NULL }", "CHOICE { a NULL }"] { for s in ["(SIZE (1))", "(SIZE (1..2), ...)", "(SIZE (0..MAX))"] {
        r.add(Case::err(format!("A ::= {} {}", k, s)));
        r.add(Case::err(format!("B ::= {} A ::= B {}", k, s)));
        r.add(Case::err(format!("A ::= SEQUENCE OF {} {}", k, s)));
        r.add(Case::err(format!("A ::= SEQUENCE {{ a {} {} OPTIONAL }}", k, s)));
    } }
    // contents constraints say nothing about the size
    for kind in ["OCTET STRING", "BIT STRING"] { for (cs, s) in [("(CONTAINING D§)", ANY), ("(CONTAINING D§) (SIZE (2))", Size { lb: Some(2), ub: Some(2), ext: false }), ("(SIZE (1..2)) (CONTAINING D§)", Size { lb: Some(1), ub: Some(2), ext: false })] {
        r.add(Case::must(format!("D§ ::= NULL A§ ::= {} {}", kind, cs), vec![("A§", sized(kind, s))]));
        r.add(Case::must(format!("D§ ::= NULL B§ ::= {} A§ ::= B§ {}", kind, cs), vec![("A§", sized(kind, s))]));
    } }
    r.finish();
    c.assume("constraints with EXCEPT, and extension markers of a SIZE that is one of several elements, are outside the space");
}
const BAD_SIZES: &[&str] = &["(SIZE ())", "(SIZE)", "(SIZE (1..))", "(SIZE (|))", "(SIZE (1 |))", "(SIZE (1) |)", "(SIZE (1), ...,)", "(SIZE (1, ...,))", "(SIZE (2..1))", "(SIZE (-1))", "(SIZE (-1..1))", "(SIZE (1^2))", "(SIZE (1) ^ SIZE (2))", "(SIZE (nothing))", "(SIZE (1..nothing))", "(SIZE (Nothing))", "(SIZE (SIZE (1)))", "(SIZE (\"a\"))", "(SIZE (1)", "(SIZE (FROM (\"a\")))", "(5)", "(1..5)", "(FROM (\"a\"..\"b\") ^ SIZE (1))", "(SIZE (1) ^ FROM (\"a\"..\"b\"))", "(SIZE (1) | 5)", "(SIZE (1..3)) (SIZE (4))"];
