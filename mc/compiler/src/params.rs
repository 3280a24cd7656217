//! K08: parameterized types. K09: information object sets.
use crate::asn::*;
use crate::cases::*;
use crate::constructed::alt;
use crate::shape::*;
use mc_model::report::*;
use std::rc::Rc;

fn sz(lb: i128, ub: i128) -> Size { Size { lb: Some(lb), ub: Some(ub), ext: false } }
fn fld(n: &str, optional: bool, ty: Shape) -> Field { Field { name: norm(n), optional, key: false, ty } }
fn seq(ext: bool, fields: Vec<Field>) -> Shape { Shape::Seq { ext, fields } }

/// An actual parameter, how it is written and what it means.
#[derive(Clone)]
enum Arg { Ty(&'static str, Shape), Val(&'static str, i128), Set(&'static str, Vec<(i128, Shape)>) }
impl Arg {
    fn text(&self) -> String { match self { Arg::Ty(t, _) | Arg::Val(t, _) => t.to_string(), Arg::Set(t, _) => format!("{{{}}}", t) } }
    fn ty(&self) -> Shape { if let Arg::Ty(_, s) = self { s.clone() } else { unreachable!() } }
    fn val(&self) -> i128 { if let Arg::Val(_, n) = self { *n } else { unreachable!() } }
    fn set(&self) -> Vec<(i128, Shape)> { if let Arg::Set(_, s) = self { s.clone() } else { unreachable!() } }
}
#[derive(Clone, Copy, PartialEq)]
enum K { T, V, S }
/// A parameterized type: dummy references, body, meaning. `None`: not valid with these parameters.
#[derive(Clone)]
struct Tpl { kinds: Vec<K>, dummies: &'static str, body: &'static str, mean: Rc<dyn Fn(&[Arg]) -> Option<Shape>> }
fn tpl(kinds: &[K], dummies: &'static str, body: &'static str, mean: impl Fn(&[Arg]) -> Option<Shape> + 'static) -> Tpl { Tpl { kinds: kinds.to_vec(), dummies, body, mean: Rc::new(mean) } }

const CLASS: &str = "CL§ ::= CLASS { &id INTEGER (0..255) UNIQUE, &T OPTIONAL } WITH SYNTAX { ID &id [TYPE &T] } ";
/// Definitions that actual parameters refer to, some with the names of dummies.
const DEFS: &[(&str, &str)] = &[("Ta§", "Ta§ ::= INTEGER (0..9) "), ("Tb§", "Tb§ ::= SEQUENCE { q BOOLEAN OPTIONAL } "), ("Tc§", "Tc§ ::= OCTET STRING (SIZE (1..2)) "), ("X§", "X§ ::= UTF8String "), ("Y§", "Y§ ::= INTEGER (-5..5) "), ("k§", "k§ INTEGER ::= 12 "), ("v§", "v§ INTEGER ::= 40 "), ("w§", "w§ INTEGER ::= 3 "), ("o1§", "o1§ CL§ ::= { ID 4 TYPE OCTET STRING } "), ("Sa§", "Sa§ CL§ ::= { { ID 1 TYPE BOOLEAN } | { ID 2 TYPE Ta§ } } "), ("Sb§", "Sb§ CL§ ::= { o1§ | { ID 200 TYPE NULL }, ... } "), ("S§", "S§ CL§ ::= { { ID 77 TYPE NULL } } ")];
/// Those of them that a text needs, together with what they need.
fn needed(text: &str) -> Vec<(&'static str, String)> {
    let (mut d, mut seen) = (vec![], text.to_string());
    for (n, t) in DEFS.iter().rev() { if seen.contains(n) { d.push((*n, t.to_string())); seen.push_str(t) } }
    if seen.contains("CL§") { d.push(("CL§", CLASS.to_string())) }
    d
}
fn defs(text: &str) -> String { needed(text).into_iter().map(|d| d.1).collect() }
/// Modules of their own for a parameterized type, for its actual parameters and for its use.
fn modules(lib: &str, user: &str, apart: bool) -> Vec<String> {
    let lib = format!("{}{}", inner(lib), lib);
    let in_lib = needed(&lib);
    let args: Vec<_> = needed(user).into_iter().filter(|d| in_lib.iter().all(|l| l.0 != d.0)).collect();
    let text = |d: &[(&'static str, String)]| d.iter().map(|x| x.1.as_str()).collect::<String>();
    let from = |t: &str, names: &[&str], m: &str| { let n: Vec<&str> = names.iter().copied().filter(|n| t.contains(n)).collect(); if n.is_empty() { String::new() } else { format!("{} FROM {} ", n.join(", "), m) } };
    let lib_names: Vec<&str> = in_lib.iter().map(|d| d.0).chain(["P§"]).collect();
    let arg_names: Vec<&str> = args.iter().map(|d| d.0).collect();
    let m = |name: &str, imports: String, body: String| format!("{} DEFINITIONS AUTOMATIC TAGS ::= BEGIN {} {} END ", name, if imports.is_empty() { imports } else { format!("IMPORTS {};", imports) }, body);
    let args = text(&args);
    let mut all = vec![m("Lib", String::new(), text(&in_lib) + &lib)];
    if apart && !args.is_empty() {
        all.push(m("Args", from(&args, &lib_names, "Lib"), args));
        all.push(m("User", from(user, &lib_names, "Lib") + &from(user, &arg_names, "Args"), user.to_string()));
    } else { let t = args + user; all.push(m("User", from(&t, &lib_names, "Lib"), t)) }
    all
}
fn types() -> Vec<Arg> { vec![Arg::Ty("Ta§", int_of(0, 9)), Arg::Ty("Tb§", seq(false, vec![fld("q", true, Shape::Bool)])), Arg::Ty("Tc§", Shape::Octets(sz(1, 2))), Arg::Ty("X§", Shape::Str("UTF8String".into(), ANY)), Arg::Ty("Y§", int_of(-5, 5))] }
fn values() -> Vec<Arg> { vec![Arg::Val("0", 0), Arg::Val("7", 7), Arg::Val("-3", -3), Arg::Val("300", 300), Arg::Val("k§", 12), Arg::Val("v§", 40), Arg::Val("w§", 3)] }
fn sets() -> Vec<Arg> { vec![Arg::Set("Sa§", vec![(1, Shape::Bool), (2, int_of(0, 9))]), Arg::Set("Sb§", vec![(4, Shape::Octets(ANY)), (200, Shape::Null)]), Arg::Set("S§", vec![(77, Shape::Null)])] }

fn int_in(e: El) -> Option<Shape> { int_shape(&[cons(e)]).map(|x| x.0) }
fn size_in(lo: i128, hi: i128) -> Option<Size> { if lo > hi || lo < 0 { None } else { Some(sz(lo, hi)) } }
fn open(s: Vec<(i128, Shape)>) -> Shape { Shape::Open(s.into_iter().map(|(k, t)| (String::new(), k, t)).collect()) }
fn entry(s: Vec<(i128, Shape)>, opt: bool) -> Shape { seq(false, vec![Field { name: "i".into(), optional: false, key: true, ty: int_of(0, 255) }, fld("v", opt, open(s))]) }
const ENTRY: &str = "SEQUENCE { i CL§.&id ({S}), v CL§.&T ({S}{@i}) }";

/// Dummies: X, Y types; v, w values; S object set.
fn templates() -> Vec<Tpl> {
    use K::*;
    vec![
        tpl(&[T], "X", "SEQUENCE { a X }", |a| Some(seq(false, vec![fld("a", false, a[0].ty())]))),
        tpl(&[T], "X", "X", |a| Some(a[0].ty())),
        tpl(&[T], "X", "SEQUENCE { a X OPTIONAL, b SEQUENCE OF X, ... }", |a| Some(seq(true, vec![fld("a", true, a[0].ty()), fld("b", false, Shape::List(ANY, Box::new(a[0].ty())))]))),
        tpl(&[T], "X", "SEQUENCE (SIZE (1..3)) OF X", |a| Some(Shape::List(sz(1, 3), Box::new(a[0].ty())))),
        tpl(&[T], "X", "SEQUENCE OF CHOICE { a X, b SEQUENCE { x X, xX NULL }, ..., c X }", |a| { let t = a[0].ty(); Some(Shape::List(ANY, Box::new(Shape::Choice { lb: Some(0), ub: Some(1), ext: true, alts: vec![alt("a", 0, false, t.clone()), alt("b", 1, false, seq(false, vec![fld("x", false, t.clone()), fld("xX", false, Shape::Null)])), alt("c", 0, true, t)] }))) }),
        tpl(&[T], "X", "SEQUENCE { a OCTET STRING (CONTAINING X), b NULL }", |_| Some(seq(false, vec![fld("a", false, Shape::Octets(ANY)), fld("b", false, Shape::Null)]))),
        tpl(&[T], "X", "SEQUENCE { a NULL }", |_| Some(seq(false, vec![fld("a", false, Shape::Null)]))),
        tpl(&[V], "INTEGER : v", "INTEGER (0..v)", |a| int_in(range(0, a[0].val()))),
        tpl(&[V], "INTEGER:v", "INTEGER (v)", |a| int_in(El::Val(v(a[0].val())))),
        tpl(&[V], "INTEGER : v", "SEQUENCE { v INTEGER (v..MAX), w ENUMERATED { v, w }, a INTEGER { v(0) } (-1..1) }", |a| Some(seq(false, vec![fld("v", false, int_in(El::Range(End::V(v(a[0].val())), false, false, End::Max))?), fld("w", false, Shape::Enum { lb: Some(0), ub: Some(1), ext: false, consts: vec![("v".into(), 0), ("w".into(), 1)], width: None }), fld("a", false, int_of(-1, 1))]))),
        tpl(&[V], "INTEGER : v", "INTEGER (0..5, ..., v)", |a| { int_shape(&[Cons { root: one(range(0, 5)), ext: Some(Some(one(El::Val(v(a[0].val()))))) }]).map(|x| x.0) }),
        tpl(&[V], "INTEGER : v", "INTEGER (-10 | v | 1000)", |_| Some(int_of(-10, 1000))),
        tpl(&[V], "INTEGER : v", "OCTET STRING (SIZE (v))", |a| Some(Shape::Octets(size_in(a[0].val(), a[0].val())?))),
        tpl(&[V], "INTEGER : v", "BIT STRING (SIZE (0..v, ...))", |a| size_in(0, a[0].val()).map(|s| Shape::Bits(Size { ext: true, ..s }))),
        tpl(&[V], "INTEGER : v", "SEQUENCE (SIZE (0..v)) OF INTEGER (v)", |a| Some(Shape::List(size_in(0, a[0].val())?, Box::new(int_in(El::Val(v(a[0].val())))?)))),
        tpl(&[V], "INTEGER : v", "ENUMERATED { a(v), b(5) }", |a| { let f = a[0].val() < 5; Some(Shape::Enum { lb: Some(0), ub: Some(1), ext: false, consts: vec![("a".into(), if f { 0 } else { 1 }), ("b".into(), if f { 1 } else { 0 })], width: None }) }),
        tpl(&[V], "INTEGER : v", "SEQUENCE { a INTEGER DEFAULT v }", |_| Some(seq(false, vec![fld("a", true, unconstrained_int())]))),
        tpl(&[T, T], "X, Y", "SEQUENCE { a X, b Y }", |a| Some(seq(false, vec![fld("a", false, a[0].ty()), fld("b", false, a[1].ty())]))),
        tpl(&[T, T], "Y, X", "SEQUENCE { a X, b Y OPTIONAL }", |a| Some(seq(false, vec![fld("a", false, a[1].ty()), fld("b", true, a[0].ty())]))),
        tpl(&[V, V], "INTEGER : v, INTEGER : w", "INTEGER (v..w)", |a| int_in(range(a[0].val(), a[1].val()))),
        tpl(&[V, V], "INTEGER : w, INTEGER : v", "SEQUENCE (SIZE (w..v)) OF INTEGER (v | w)", |a| Some(Shape::List(size_in(a[0].val(), a[1].val())?, Box::new(int_shape(&[Cons { root: vec![vec![El::Val(v(a[0].val()))], vec![El::Val(v(a[1].val()))]], ext: None }])?.0)))),
        tpl(&[T, V], "X, INTEGER : v", "SEQUENCE { a X, v OCTET STRING (SIZE (0..v)) }", |a| Some(seq(false, vec![fld("a", false, a[0].ty()), fld("v", false, Shape::Octets(size_in(0, a[1].val())?))]))),
        tpl(&[V, T], "INTEGER : v, X", "SEQUENCE (SIZE (0..v)) OF X", |a| Some(Shape::List(size_in(0, a[0].val())?, Box::new(a[1].ty())))),
        tpl(&[S], "CL§ : S", ENTRY, |a| Some(entry(a[0].set(), false))),
        tpl(&[S], "CL§:S", "SEQUENCE { i CL§.&id ({S}), v CL§.&T ({S}{@i}) OPTIONAL }", |a| Some(entry(a[0].set(), true))),
        tpl(&[S, V], "CL§ : S, INTEGER : v", "SEQUENCE (SIZE (0..v)) OF SEQUENCE { i CL§.&id ({S}), v CL§.&T ({S}{@i}) }", |a| Some(Shape::List(size_in(0, a[1].val())?, Box::new(entry(a[0].set(), false))))),
        tpl(&[T, S], "X, CL§ : S", "SEQUENCE { i CL§.&id ({S}), v CL§.&T ({S}{@i}), x X }", |a| { let Shape::Seq { mut fields, .. } = entry(a[1].set(), false) else { unreachable!() }; fields.push(fld("x", false, a[0].ty())); Some(seq(false, fields)) }),
        // other parameterized types inside
        tpl(&[T], "X", "SEQUENCE { a In§ { X }, b X }", |a| Some(seq(false, vec![fld("a", false, seq(false, vec![fld("y", true, a[0].ty())])), fld("b", false, a[0].ty())]))),
        tpl(&[T, T], "X, Y", "SEQUENCE { a In§ { Y }, b In§ { X } }", |a| { let i = |t: Shape| seq(false, vec![fld("y", true, t)]); Some(seq(false, vec![fld("a", false, i(a[1].ty())), fld("b", false, i(a[0].ty()))])) }),
        tpl(&[V, V], "INTEGER : v, INTEGER : w", "SEQUENCE { a Rg§ { w, v }, b Rg§ { 0, 1 } }", |a| Some(seq(false, vec![fld("a", false, int_in(range(a[1].val(), a[0].val()))?), fld("b", false, int_of(0, 1))]))),
        tpl(&[S], "CL§ : S", "SEQUENCE (SIZE (1..4)) OF En§ {{S}}", |a| Some(Shape::List(sz(1, 4), Box::new(entry(a[0].set(), false))))),
        tpl(&[S, V], "CL§ : S, INTEGER : w", "SEQUENCE { l SEQUENCE (SIZE (0..w)) OF En§ {{S}}, r Rg§ { -9, w } }", |a| Some(seq(false, vec![fld("l", false, Shape::List(size_in(0, a[1].val())?, Box::new(entry(a[0].set(), false)))), fld("r", false, int_in(range(-9, a[1].val()))?)]))),
    ]
}
fn inner(text: &str) -> String {
    let mut d = String::new();
    if text.contains("In§") { d.push_str("In§ { X } ::= SEQUENCE { y X OPTIONAL } ") }
    if text.contains("Rg§") { d.push_str("Rg§ { INTEGER : v, INTEGER : w } ::= INTEGER (v..w) ") }
    if text.contains("En§") { d.push_str(&format!("En§ {{ CL§ : S }} ::= {} ", ENTRY)) }
    d
}
fn args_of(t: &Tpl) -> Vec<Vec<Arg>> {
    let mut all: Vec<Vec<Arg>> = vec![vec![]];
    for k in &t.kinds { let c = match k { K::T => types(), K::V => values(), K::S => sets() }; all = all.iter().flat_map(|p| c.iter().map(move |x| { let mut p = p.clone(); p.push(x.clone()); p })).collect() }
    all
}
fn call(name: &str, a: &[Arg]) -> String { format!("{} {{ {} }}", name, a.iter().map(|x| x.text()).collect::<Vec<_>>().join(", ")) }

/// Where a parameterized type is used.
const PLACES: usize = 7;
fn place(k: usize, name: &str, use_: &str, s: Shape) -> (String, Vec<(String, Shape)>) {
    let n = format!("{}§", name);
    match k {
        0 => (format!("{} ::= {} ", n, use_), vec![(n, s)]),
        1 => (format!("{} ::= SEQUENCE {{ a NULL, p {} }} ", n, use_), vec![(n, seq(false, vec![fld("a", false, Shape::Null), fld("p", false, s)]))]),
        2 => (format!("{} ::= SEQUENCE {{ p {} OPTIONAL, ... }} ", n, use_), vec![(n, seq(true, vec![fld("p", true, s)]))]),
        3 => (format!("{} ::= SEQUENCE (SIZE (0..3)) OF {} ", n, use_), vec![(n, Shape::List(sz(0, 3), Box::new(s)))]),
        4 => (format!("{} ::= CHOICE {{ p NULL, ..., q {} }} ", n, use_), vec![(n, Shape::Choice { lb: Some(0), ub: Some(0), ext: true, alts: vec![alt("p", 0, false, Shape::Null), alt("q", 0, true, s)] })]),
        5 => (format!("{} ::= {}R§ {}R§ ::= {} ", n, name, name, use_), vec![(n, s.clone()), (format!("{}R§", name), s)]),
        _ => (format!("{} ::= SEQUENCE {{ p {}, q SEQUENCE OF {} }} ", n, use_, use_), vec![(n, seq(false, vec![fld("p", false, s.clone()), fld("q", false, Shape::List(ANY, Box::new(s)))]))]),
    }
}
fn finish(body: String, want: Vec<(String, Shape)>) -> Case {
    let body = format!("{}{}", inner(&body), body);
    let body = format!("{}{}", defs(&body), body);
    Case { body, files: None, want, verdict: Verdict::Must }
}

pub fn params(c: &'static Check) {
    let r = Runner::new(c, What::Structure);
    let deep = c.thorough;
    let ts = templates();
    let def = |t: &Tpl, name: &str| format!("{} {{ {} }} ::= {} ", name, t.dummies, t.body);
    for (ti, t) in ts.iter().enumerate() {
        let all = args_of(t);
        for (ai, a) in all.iter().enumerate() {
            let m = (t.mean)(a);
            for k in 0..PLACES {
                for first in [true, false] {
                    match &m {
                        Some(s) => { let (b, w) = place(k, "A", &call("P§", a), s.clone()); r.add(finish(if first { def(t, "P§") + &b } else { b + &def(t, "P§") }, w)) }
                        None => if first { let (b, _) = place(k, "A", &call("P§", a), Shape::Null); let body = finish(def(t, "P§") + &b, vec![]).body; r.add(Case::err(body)) },
                    }
                }
            }
            // the parameterized type, its actual parameters and its use in modules of their own
            if let Some(s) = &m { for k in [(ai + ti) % PLACES, (ai * 2 + ti + 3) % PLACES] { for apart in [false, true] {
                let (b, w) = place(k, "A", &call("P§", a), s.clone());
                let mut files = modules(&def(t, "P§"), &b, apart);
                for order in 0..4 { match order { 0 => {} 2 => files = vec![files.concat()], _ => files.reverse() } r.add(Case { body: String::new(), files: Some(files.clone()), want: w.iter().map(|(n, s)| (n.replace('§', ""), s.clone())).collect(), verdict: Verdict::Must }) }
            } } }
            // two uses with different parameters
            let Some(s) = m else { continue };
            for (bi, b) in all.iter().enumerate() {
                if !deep && all.len() > 12 && (ai + bi) % 5 != 0 { continue }
                let Some(s2) = (t.mean)(b) else { continue };
                let k = (ai * 3 + bi + ti) % (PLACES * PLACES);
                let (x, mut w) = place(k % PLACES, "A", &call("P§", a), s.clone());
                let (y, w2) = place(k / PLACES, "B", &call("P§", b), s2.clone());
                w.extend(w2);
                r.add(finish(def(t, "P§") + &x + &y, w));
                // in one definition, and through another parameterized type
                let text = format!("A§ ::= SEQUENCE {{ m {}, n SEQUENCE OF {}, o {} OPTIONAL }} ", call("P§", a), call("P§", b), call("P§", a));
                r.add(finish(text + &def(t, "P§"), vec![("A§".into(), seq(false, vec![fld("m", false, s.clone()), fld("n", false, Shape::List(ANY, Box::new(s2.clone()))), fld("o", true, s.clone())]))]));
            }
        }
    }
    // different parameterized types with the same dummy references in one module
    for (i, t) in ts.iter().enumerate() { for (j, u) in ts.iter().enumerate() {
        let (ta, ua) = (args_of(t), args_of(u));
        for n in 0..if deep { 24 } else { 6 } {
            let (a, b) = (&ta[(n * 7 + i) % ta.len()], &ua[(n * 5 + j) % ua.len()]);
            let (Some(s), Some(s2)) = ((t.mean)(a), (u.mean)(b)) else { continue };
            let (x, mut w) = place((n + i) % PLACES, "A", &call("P§", a), s.clone());
            let (y, w2) = place((n + j) % PLACES, "B", &call("Q§", b), s2.clone());
            w.extend(w2);
            let p = [def(t, "P§"), def(u, "Q§"), x, y];
            for o in [[0, 1, 2, 3], [3, 2, 1, 0], [2, 0, 3, 1]] { r.add(finish(o.iter().map(|k| p[*k].as_str()).collect(), w.clone())) }
        }
    } }
    // wrong parameters
    for (t, _) in ts.iter().zip(0..) {
        let all = args_of(t);
        let a = all.iter().find(|a| (t.mean)(a).is_some()).unwrap();
        let texts: Vec<String> = a.iter().map(|x| x.text()).collect();
        let bad = |args: String| { let body = finish(format!("{}A§ ::= SEQUENCE {{ p P§ {} }} ", def(t, "P§"), args), vec![]).body; r.add(Case::err(body)) };
        bad(String::new()); bad("{ }".into());
        bad(format!("{{ {}, Ta§ }}", texts.join(", ")));
        bad(format!("{{ {}, 5 }}", texts.join(", ")));
        if texts.len() > 1 { bad(format!("{{ {} }}", texts[1..].join(", "))) }
        bad(format!("{{ {}, }}", texts.join(", ")));
        bad(format!("{{ {} ", texts.join(", ")));
        for k in 0..texts.len() { let mut x = texts.clone(); x[k] = if t.kinds[k] == K::S { "{Nothing}".into() } else if t.kinds[k] == K::T { "Nothing".into() } else { "nothing".into() }; if t.body != "SEQUENCE { a NULL }" && !t.body.contains("CONTAINING") && !t.body.contains("DEFAULT v") { bad(format!("{{ {} }}", x.join(", "))) } }
        // actual parameters of another kind, at every place
        for k in 0..texts.len() {
            let wrong: &[&str] = match t.kinds[k] { K::T => &["5", "-1", "k§", "{Sa§}", "{Ta§}", "TRUE", "o1§", "MAX"], K::V => &["Ta§", "Tb§", "{Sa§}", "TRUE", "o1§", "NULL"], K::S => &["Ta§", "{Ta§}", "5", "k§", "{k§}", "{o1§"] };
            if t.body == "SEQUENCE { a NULL }" || t.body.contains("CONTAINING") || t.body.contains("DEFAULT v") { continue }
            for y in wrong { let mut x = texts.clone(); x[k] = y.to_string(); bad(format!("{{ {} }}", x.join(", "))) }
        }
        if t.kinds[0] == K::V && !t.body.contains("DEFAULT") { let mut x = texts.clone(); x[0] = "Ta§".into(); if t.body.contains("SIZE") || t.body.contains("..") { bad(format!("{{ {} }}", x.join(", "))) } }
        if t.kinds[0] == K::T && t.body.contains("a X") { let mut x = texts.clone(); x[0] = "5".into(); bad(format!("{{ {} }}", x.join(", "))); }
    }
    for bad in ["A ::= B { BOOLEAN } B ::= NULL", "A ::= B { B } B ::= NULL", "A ::= P { B } B ::= NULL", "P { X } ::= SEQUENCE { a X } A ::= P", "P { X } ::= SEQUENCE { a X } A ::= SEQUENCE { b P }", "P { X } ::= SEQUENCE { a P { X } } A ::= P { A }", "P { X } ::= SEQUENCE { a P { X } } A ::= P { B } B ::= NULL", "P { X } ::= SEQUENCE { a Q { X } } Q { Y } ::= SEQUENCE { b P { Y } } A ::= P { B } B ::= NULL", "P { X, X } ::= SEQUENCE { a X } A ::= P { B, C } B ::= NULL C ::= BOOLEAN", "P { } ::= NULL A ::= P { }", "P { X ::= SEQUENCE { a X } A ::= P { B } B ::= NULL", "P { x } ::= SEQUENCE { a X } A ::= P { B } B ::= NULL", "P { INTEGER } ::= INTEGER A ::= P { 5 }", "P { X } ::= SEQUENCE { a X, b Y } A ::= P { B } B ::= NULL"] { r.add(Case::err(bad)) }
    // builtin types and type constructors as actual parameters: either an error, or right
    for (tx, s) in [("NULL", Shape::Null), ("BOOLEAN", Shape::Bool), ("INTEGER (0..5)", int_of(0, 5)), ("OCTET STRING", Shape::Octets(ANY)), ("SEQUENCE { z NULL }", seq(false, vec![fld("z", false, Shape::Null)])), ("Ta (1..2)", int_of(1, 2)), ("In { Ta }", seq(false, vec![fld("y", true, int_of(0, 9))]))] {
        for (b, w) in [("SEQUENCE { a X }", seq(false, vec![fld("a", false, s.clone())])), ("SEQUENCE { a X OPTIONAL, x NULL }", seq(false, vec![fld("a", true, s.clone()), fld("x", false, Shape::Null)])), ("SEQUENCE OF X", Shape::List(ANY, Box::new(s.clone())))] {
            r.add(Case::must(format!("Ta ::= INTEGER (0..9) In {{ X }} ::= SEQUENCE {{ y X OPTIONAL }} P {{ X }} ::= {} A ::= P {{ {} }}", b, tx), vec![("A", w)]).may());
        }
    }
    for (tx, n) in [("1 | 2", 2), ("{ 1 | 2 }", 2)] { r.add(Case::must(format!("P {{ INTEGER : V }} ::= INTEGER (V) A ::= P {{ {} }}", tx), vec![("A", int_of(1, n))]).may()) }
    r.finish();
    c.assume("parameterized classes, objects and sets are outside the space");
}

// ------------------------------------------------------------------------------------------------ K09

#[derive(Clone, Copy, Debug, PartialEq)]
enum How { Inline, InlineRef, Obj, ObjRef, Nested, Nested2, NoType, ObjNoType }
const HOWS: [How; 8] = [How::Inline, How::InlineRef, How::Obj, How::ObjRef, How::Nested, How::Nested2, How::NoType, How::ObjNoType];
fn payloads() -> Vec<(&'static str, Shape)> {
    vec![("BOOLEAN", Shape::Bool), ("Ty§", seq(true, vec![fld("m", true, Shape::Null)])), ("INTEGER (0..300)", int_of(0, 300)), ("SEQUENCE { a Ty§, b NULL OPTIONAL }", seq(false, vec![fld("a", false, seq(true, vec![fld("m", true, Shape::Null)])), fld("b", true, Shape::Null)])), ("OCTET STRING (SIZE (2))", Shape::Octets(sz(2, 2))), ("CHOICE { a NULL, b BOOLEAN }", Shape::Choice { lb: Some(0), ub: Some(1), ext: false, alts: vec![alt("a", 0, false, Shape::Null), alt("b", 1, false, Shape::Bool)] }), ("SEQUENCE OF Ty§", Shape::List(ANY, Box::new(seq(true, vec![fld("m", true, Shape::Null)])))), ("NULL", Shape::Null)]
}
const KEYS: [i128; 6] = [3, 200, 0, 17, 255, 100];
/// Classes: definition, object syntax (% key, @ type), whether the type may be left out.
struct Class { def: &'static str, obj: fn(&str, Option<&str>) -> String, optional: bool, field: &'static str, key: &'static str, keyty: Option<Shape> }
fn classes() -> Vec<Class> {
    let plain: fn(&str, Option<&str>) -> String = |k, t| match t { Some(t) => format!("{{ ID {} TYPE {} }}", k, t), None => format!("{{ ID {} }}", k) };
    vec![
        Class { def: "CL§ ::= CLASS { &id INTEGER (0..255) UNIQUE, &T OPTIONAL } WITH SYNTAX { ID &id [TYPE &T] } ", obj: plain, optional: true, field: "T", key: "id", keyty: Some(int_of(0, 255)) },
        Class { def: "Kt§ ::= INTEGER (0..255) Cr§ ::= ENUMERATED { x, y } CL§ ::= CLASS { &id Kt§ UNIQUE, &crit Cr§ DEFAULT x, &T, &pres Cr§ } WITH SYNTAX { ID &id CRITICALITY &crit TYPE &T PRESENCE &pres } ", obj: |k, t| format!("{{ ID {} CRITICALITY y TYPE {} PRESENCE x }}", k, t.unwrap()), optional: false, field: "T", key: "id", keyty: Some(int_of(0, 255)) },
        Class { def: "CL§ ::= CLASS { &First, &T OPTIONAL, &Third OPTIONAL, &code INTEGER (0..255) UNIQUE, &crit INTEGER DEFAULT 5 } WITH SYNTAX { FIRST MESSAGE &First [SECOND OUTCOME &T] [THIRD OUTCOME &Third] PROCEDURE CODE &code [CRITICALITY &crit] } ", obj: |k, t| match t { Some(t) => format!("{{ FIRST MESSAGE UTF8String SECOND OUTCOME {} PROCEDURE CODE {} CRITICALITY 7 }}", t, k), None => format!("{{ FIRST MESSAGE UTF8String THIRD OUTCOME BOOLEAN PROCEDURE CODE {} }}", k) }, optional: true, field: "T", key: "code", keyty: Some(int_of(0, 255)) },
        Class { def: "CL§ ::= CLASS { &T OPTIONAL, &id INTEGER (0..255) UNIQUE } WITH SYNTAX { [&T] IDENTIFIED BY &id } ", obj: |k, t| match t { Some(t) => format!("{{ {} IDENTIFIED BY {} }}", t, k), None => format!("{{ IDENTIFIED BY {} }}", k) }, optional: true, field: "T", key: "id", keyty: Some(int_of(0, 255)) },
    ]
}
struct Set_ { defs: String, text: String, objs: Vec<(i128, Shape)> }
/// The elements of a set S§, what they need, and the objects with a type.
fn object_set(cl: &Class, name: &str, hows: &[How], rot: usize, marker: Option<usize>, sep: &str) -> Set_ {
    let pl = payloads();
    let (mut defs, mut els, mut objs) = (String::new(), vec![], vec![]);
    for (i, h) in hows.iter().enumerate() {
        let key = KEYS[(i + rot) % KEYS.len()];
        let (tx, sh) = pl[(i * 3 + rot) % pl.len()].clone();
        let kr = format!("k{}{}§", name.to_lowercase(), i);
        let with_ref = matches!(h, How::InlineRef | How::ObjRef | How::Nested2);
        if with_ref { defs.push_str(&format!("{} INTEGER ::= {} ", kr, key)) }
        let ktext = if with_ref { kr } else { key.to_string() };
        let no_type = matches!(h, How::NoType | How::ObjNoType) && cl.optional;
        let o = (cl.obj)(&ktext, if no_type { None } else { Some(tx) });
        if !no_type { objs.push((key, sh)) }
        let (on, sn) = (format!("o{}{}§", name.to_lowercase(), i), format!("N{}{}§", name, i));
        els.push(match h {
            How::Inline | How::InlineRef | How::NoType => o,
            How::Obj | How::ObjRef | How::ObjNoType => { defs.push_str(&format!("{} CL§ ::= {} ", on, o)); on }
            How::Nested => { defs.push_str(&format!("{} CL§ ::= {{ {} }} ", sn, o)); sn }
            How::Nested2 => { defs.push_str(&format!("{} CL§ ::= {{ {}b, ... }} {}b CL§ ::= {{ {} }} {} CL§ ::= {} ", sn, sn.replace('§', "i§"), sn.replace('§', "i§"), on, on, o).replace("§b", "b§")); sn }
        });
        if defs.contains("Ty§") || tx.contains("Ty§") { }
    }
    let text = match marker {
        None => els.join(sep),
        Some(m) if els.is_empty() => { let _ = m; "...".into() }
        Some(0) => format!("..., {}", els.join(sep)),
        Some(m) if m >= els.len() => format!("{}, ...", els.join(sep)),
        Some(m) => format!("{}, ..., {}", els[..m].join(sep), els[m..].join(sep)),
    };
    Set_ { defs, text, objs }
}
/// Users of the set: text and expected shape of A§.
fn consumers(cl: &Class, set: &str, objs: &[(i128, Shape)]) -> Vec<(String, Shape)> {
    let key = |n: &str| Field { name: n.into(), optional: false, key: true, ty: cl.keyty.clone().unwrap() };
    let (k, t) = (cl.key, cl.field);
    let op = || open(objs.to_vec());
    let e = seq(false, vec![key("i"), fld("v", false, op())]);
    let p = format!("P§ {{ CL§ : X }} ::= SEQUENCE {{ i CL§.&{} ({{X}}), v CL§.&{} ({{X}}{{@i}}) }} ", k, t);
    let mut v = vec![
        (format!("A§ ::= SEQUENCE {{ i CL§.&{k} ({{{set}}}), v CL§.&{t} ({{{set}}}{{@i}}) }} "), e.clone()),
        (format!("A§ ::= SEQUENCE {{ b BOOLEAN, i CL§.&{k} ({{{set}}}), v CL§.&{t} ({{{set}}}{{@i}}) OPTIONAL, z NULL OPTIONAL, ... }} "), seq(true, vec![fld("b", false, Shape::Bool), key("i"), fld("v", true, op()), fld("z", true, Shape::Null)])),
        (format!("{p}A§ ::= P§ {{{{{set}}}}} "), e.clone()),
        (format!("{p}A§ ::= SEQUENCE (SIZE (1..5)) OF P§ {{{{{set}}}}} "), Shape::List(sz(1, 5), Box::new(e.clone()))),
        (format!("{p}L§ {{ CL§ : Y }} ::= SEQUENCE (SIZE (0..9)) OF P§ {{{{Y}}}} A§ ::= SEQUENCE {{ l L§ {{{{{set}}}}}, ... }} "), seq(true, vec![fld("l", false, Shape::List(sz(0, 9), Box::new(e.clone())))])),
        (format!("A§ ::= CHOICE {{ n NULL, ..., c SEQUENCE {{ i CL§.&{k} ({{{set}}}), v CL§.&{t} ({{{set}}}{{@i}}) }} }} "), Shape::Choice { lb: Some(0), ub: Some(0), ext: true, alts: vec![alt("n", 0, false, Shape::Null), alt("c", 0, true, e.clone())] }),
    ];
    if cl.def.contains("&First") { v.push((format!("A§ ::= SEQUENCE {{ i CL§.&{k} ({{{set}}}), c CL§.&crit ({{{set}}}{{@i}}), v CL§.&{t} ({{{set}}}{{@i}}) }} "), seq(false, vec![key("i"), fld("c", false, unconstrained_int()), fld("v", false, op())]))) }
    for mode in ["OPTIONAL", "DEFAULT 5"] { let mut i = key("i"); i.optional = true; v.push((format!("A§ ::= SEQUENCE {{ i CL§.&{k} ({{{set}}}) {mode}, v CL§.&{t} ({{{set}}}{{@i}}) OPTIONAL }} "), seq(false, vec![i, fld("v", true, op())]))) }
    if cl.def.contains("&First") { for mode in ["OPTIONAL", "DEFAULT 5", "DEFAULT -1"] { v.push((format!("A§ ::= SEQUENCE {{ i CL§.&{k} ({{{set}}}), c CL§.&crit ({{{set}}}{{@i}}) {mode}, v CL§.&{t} ({{{set}}}{{@i}}), ... }} "), seq(true, vec![key("i"), fld("c", true, unconstrained_int()), fld("v", false, op())]))) } }
    if cl.def.contains("&pres") { for mode in ["OPTIONAL", "DEFAULT x"] { v.push((format!("A§ ::= SEQUENCE {{ i CL§.&{k} ({{{set}}}), c CL§.&crit ({{{set}}}{{@i}}) {mode}, v CL§.&{t} ({{{set}}}{{@i}}) OPTIONAL }} "), seq(false, vec![key("i"), fld("c", true, Shape::Enum { lb: Some(0), ub: Some(1), ext: false, consts: vec![("x".into(), 0), ("y".into(), 1)], width: None }), fld("v", true, op())]))) } }
    if cl.def.contains("&pres") { v.push((format!("A§ ::= SEQUENCE {{ i CL§.&{k} ({{{set}}}), c CL§.&crit ({{{set}}}{{@i}}), v CL§.&{t} ({{{set}}}{{@i}}) }} "), seq(false, vec![key("i"), fld("c", false, Shape::Enum { lb: Some(0), ub: Some(1), ext: false, consts: vec![("x".into(), 0), ("y".into(), 1)], width: None }), fld("v", false, op())]))) }
    v
}
const TY: &str = "Ty§ ::= SEQUENCE { m NULL OPTIONAL, ... } ";

/// Every text in a module of its own; what a module does not define itself it imports from the one that does.
fn apart(texts: &[String]) -> Vec<String> {
    let names = |t: &str| -> std::collections::BTreeSet<String> { t.split(|c: char| !(c.is_alphanumeric() || c == '§' || c == '-')).filter(|w| w.ends_with('§')).map(|w| w.to_string()).collect() };
    let defines = |t: &str, n: &str| t.match_indices(n).any(|(i, _)| {
        if n == "CL§" { return t[i..].starts_with("CL§ ::= CLASS") }
        if t[..i].chars().last().map_or(false, |c| c.is_alphanumeric()) { return false }
        let rest = t[i + n.len()..].trim_start();
        let rest = if let Some(r) = rest.strip_prefix('{') { r.split_once('}').map_or("", |x| x.1).trim_start() } else { rest };
        let rest = ["CL§ ", "INTEGER "].iter().find_map(|p| rest.strip_prefix(p)).unwrap_or(rest);
        rest.starts_with("::=")
    });
    texts.iter().enumerate().filter(|t| !t.1.is_empty()).map(|(i, t)| {
        let missing: Vec<String> = names(t).into_iter().filter(|n| !defines(t, n)).collect();
        let mut imports = String::new();
        for (j, u) in texts.iter().enumerate() {
            let from: Vec<&str> = missing.iter().filter(|n| j != i && defines(u, n)).map(|n| n.as_str()).collect();
            if !from.is_empty() { imports.push_str(&format!(" {} FROM M{}", from.join(", "), j)) }
        }
        format!("M{} DEFINITIONS AUTOMATIC TAGS ::= BEGIN {} {} END ", i, if imports.is_empty() { imports } else { format!("IMPORTS{};", imports) }, t)
    }).collect()
}

pub fn object_sets(c: &'static Check) {
    let r = Runner::new(c, What::Structure);
    let deep = c.thorough;
    let cls = classes();
    for cl in &cls {
        let hows: Vec<How> = HOWS.iter().copied().filter(|h| cl.optional || !matches!(h, How::NoType | How::ObjNoType)).collect();
        for n in 1..=if deep { 4 } else { 3 } { for code in 0..hows.len().pow(n as u32) {
            let mut k = code;
            let hs: Vec<How> = (0..n).map(|_| { let h = hows[k % hows.len()]; k /= hows.len(); h }).collect();
            let markers: Vec<Option<usize>> = if n <= 2 || deep { [None].into_iter().chain((0..=n).map(Some)).collect() } else { vec![None, Some(code % (n + 1))] };
            for m in markers {
                for rot in if deep && n <= 3 { vec![code, code + 1, code + 2, code + 5] } else { vec![code] } {
                    let s = object_set(cl, "S", &hs, rot % 48, m, " | ");
                    let us = consumers(cl, "S§", &s.objs);
                    let pick: Vec<usize> = if n <= 2 || deep { (0..us.len()).collect() } else { vec![code % us.len()] };
                    for u in pick {
                        let (ut, us) = &us[u];
                        let parts = [cl.def.to_string(), s.defs.clone(), format!("S§ CL§ ::= {{ {} }} ", s.text), ut.clone()];
                        let mut body: String = if (code + u) % 2 == 0 { parts.concat() } else { parts.iter().rev().cloned().collect() };
                        if body.contains("Ty§") { body.push_str(TY) }
                        r.add(Case::must(body, vec![("A§", us.clone())]));
                        // the class, the objects, the set and its use in modules of their own
                        if n > 2 && !deep { continue }
                        let ty = if parts.iter().any(|p| p.contains("Ty§")) { TY } else { "" };
                        let (cls, objs, set, user) = (format!("{}{}", ty, cl.def), s.defs.clone(), parts[2].clone(), ut.clone());
                        for (l, texts) in [vec![cls.clone(), objs.clone() + &set, user.clone()], vec![cls.clone(), objs.clone(), set.clone(), user.clone()], vec![cls.clone(), objs.clone() + &set + &user], vec![cls.clone() + &objs, set.clone() + &user], vec![cls + &objs + &set, user]].iter().enumerate() {
                            if n > 1 && !deep && (code + u + l) % 3 != 0 { continue }
                            let mut files = apart(texts);
                            match (code + u + l) % 4 { 0 => {} 1 => files.reverse(), 2 => files = vec![files.concat()], _ => files.rotate_left(1) }
                            r.add(Case { body: String::new(), files: Some(files), want: vec![("A".into(), us.clone())], verdict: Verdict::Must });
                        }
                    }
                }
            }
        } }
        // two sets, used in one module through the same parameterized type, or one inside the other
        let few = [How::Inline, How::ObjRef, How::Nested2];
        for (i, a) in few.iter().enumerate() { for (j, b) in few.iter().enumerate() { for rot in 0..6 {
            let s1 = object_set(cl, "S", &[*a, *b], rot, Some(2), " | ");
            let s2 = object_set(cl, "U", &[*b, How::Inline, *a], rot + 1 + i + j, None, " | ");
            let p = format!("P§ {{ CL§ : X }} ::= SEQUENCE {{ i CL§.&{} ({{X}}), v CL§.&{} ({{X}}{{@i}}) }} ", cl.key, cl.field);
            let e = |o: &[(i128, Shape)]| seq(false, vec![Field { name: "i".into(), optional: false, key: true, ty: int_of(0, 255) }, fld("v", false, open(o.to_vec()))]);
            let ty = TY;
            let body = format!("{}{}{}{}{}S§ CL§ ::= {{ {} }} U§ CL§ ::= {{ {} }} A§ ::= SEQUENCE OF P§ {{{{S§}}}} B§ ::= P§ {{{{U§}}}} D§ ::= SEQUENCE {{ a P§ {{{{S§}}}}, b P§ {{{{U§}}}} OPTIONAL }} ", cl.def, ty, s1.defs, s2.defs, p, s1.text, s2.text);
            r.add(Case::must(body, vec![("A§", Shape::List(ANY, Box::new(e(&s1.objs)))), ("B§", e(&s2.objs)), ("D§", seq(false, vec![fld("a", false, e(&s1.objs)), fld("b", true, e(&s2.objs))]))]));
            // one set with the other inside: no key twice
            let s3 = object_set(cl, "U", &[*b, *a], rot + 2, None, " | ");
            let mut all = s1.objs.clone(); all.extend(s3.objs.iter().cloned());
            for (u, extra) in [(format!("S§ | {}", s3.text), 0), (format!("{}, ..., S§", s3.text), 1), (format!("S§ | {} | S§", s3.text), 2)] {
                let _ = extra;
                let body = format!("{}{}{}{}{}S§ CL§ ::= {{ {} }} U§ CL§ ::= {{ {} }} A§ ::= P§ {{{{U§}}}} ", cl.def, ty, s1.defs, s3.defs, p, s1.text, u);
                r.add(Case::must(body, vec![("A§", e(&all))]));
            }
        } } }
        // an object more than once; two objects with the same key
        let o = |k: &str, t: &str| (cl.obj)(k, Some(t));
        let user = format!("A§ ::= SEQUENCE {{ i CL§.&{} ({{S§}}), v CL§.&{} ({{S§}}{{@i}}) }} ", cl.key, cl.field);
        let e = |o: Vec<(i128, Shape)>| seq(false, vec![Field { name: "i".into(), optional: false, key: true, ty: int_of(0, 255) }, fld("v", false, open(o))]);
        for (els, w) in [("a§ | a§", vec![(1, Shape::Bool)]), ("a§ | b§ | a§, ...", vec![(1, Shape::Bool), (2, Shape::Null)]), ("N§ | a§", vec![(1, Shape::Bool)]), ("N§ | b§ | N§", vec![(1, Shape::Bool), (2, Shape::Null)]), ("N§ | O§", vec![(1, Shape::Bool), (2, Shape::Null)])] {
            r.add(Case::must(format!("{}a§ CL§ ::= {} b§ CL§ ::= {} N§ CL§ ::= {{ a§ }} O§ CL§ ::= {{ b§ | N§ }} S§ CL§ ::= {{ {} }} {}", cl.def, o("1", "BOOLEAN"), o("2", "NULL"), els, user), vec![("A§", e(w))]));
        }
        let kd = "k§ INTEGER ::= 1 m§ INTEGER ::= k§ ";
        for els in [format!("{} | {}", o("1", "BOOLEAN"), o("1", "NULL")), format!("a§ | {}", o("1", "NULL")), format!("a§ | {}", o("k§", "NULL")), format!("{} | {}", o("k§", "BOOLEAN"), o("m§", "NULL")), format!("N§ | {}", o("1", "NULL")), format!("{}, ..., {}", o("1", "BOOLEAN"), o("1", "NULL")), "a§ | c§".into(), "N§ | M§".into()] {
            r.add(Case::err(format!("{}{}a§ CL§ ::= {} c§ CL§ ::= {} N§ CL§ ::= {{ a§ }} M§ CL§ ::= {{ c§ }} S§ CL§ ::= {{ {} }} {}", cl.def, kd, o("1", "BOOLEAN"), o("1", "OCTET STRING"), els, user)));
        }
        // keys: bounds, values, chains of references
        for (k, n) in [("0", 0), ("255", 255), ("k§", 1), ("m§", 1)] { r.add(Case::must(format!("{}{}S§ CL§ ::= {{ {} }} {}", cl.def, kd, o(k, "BOOLEAN"), user), vec![("A§", e(vec![(n, Shape::Bool)]))])) }
        for bad in [format!("{{ {} | }}", o("1", "NULL")), format!("{{ | {} }}", o("1", "NULL")), format!("{{ {} {} }}", o("1", "NULL"), o("2", "NULL")), format!("{{ {}, ..., ... }}", o("1", "NULL")), format!("{{ ..., {}, }}", o("1", "NULL")), format!("{{ {} ...}}", o("1", "NULL")), "{ nothing }".into(), "{ Nothing }".into(), "{ Ty§ }".into(), "{ x§ }".into(), format!("{{ {} | nothing }}", o("1", "NULL")), format!("{{ {}, ..., Nothing }}", o("1", "NULL")), format!("{{ {} }}", o("nothing", "NULL")), format!("{{ {} }}", o("1", "Nothing")), format!("{{ {} }}", o("TRUE", "NULL")), "{ { } }".into(), "{ { 5 } }".into(), "{ { ID } }".into(), "{ { TYPE NULL ID } }".into(), "{ S§ }".into(), "{ 1 }".into(), "{ NULL }".into(), format!("{} ", o("1", "NULL")), format!("{{ {} ", o("1", "NULL"))] {
            if bad.contains("nothing } }") && false { continue }
            r.add(Case::err(format!("{}{}x§ INTEGER ::= 5 S§ CL§ ::= {} {}", cl.def, TY, bad, user)));
        }
        for bad in [user.replace("S§", "Nothing"), user.replace("{S§}", "S§"), user.replace("CL§.", "NO."), user.replace("&T", "&Nope"), user.replace(&format!("&{}", cl.key), "&nope"), user.replace("({S§})", ""), user.replace("({S§}{@i})", ""), user.replace("{S§}", "{x§}"), user.replace("{S§}", "{Ty§}"), user.replace("{@i}", "{@nope}"), user.replace("({S§}{@i})", "({Z§}{@i})")] {
            r.add(Case::err(format!("{}{}x§ INTEGER ::= 5 S§ CL§ ::= {{ {} }} Z§ CL§ ::= {{ {} }} {}", cl.def, TY, o("1", "NULL"), o("2", "BOOLEAN"), bad)));
        }
    }
    // relations between components that are none
    let two = format!("{}D§ ::= CLASS {{ &id INTEGER (0..255) UNIQUE, &T OPTIONAL }} WITH SYNTAX {{ ID &id [TYPE &T] }} S§ CL§ ::= {{ {{ ID 1 TYPE NULL }} }} Z§ D§ ::= {{ {{ ID 1 TYPE BOOLEAN }} }} ", CLASS);
    for bad in ["SEQUENCE { i D§.&id ({Z§}), v CL§.&T ({S§}{@i}) }", "SEQUENCE { i CL§.&id ({S§}), v CL§.&T ({Z§}{@i}) }", "SEQUENCE { i CL§.&id ({S§}), v CL§.&T ({Z§}) }", "SEQUENCE { i CL§.&id ({Z§}), v NULL }", "SEQUENCE { i INTEGER, v CL§.&T ({S§}{@i}) }", "SEQUENCE { j CL§.&id ({S§}), i NULL, v CL§.&T ({S§}{@i}) }", "SEQUENCE { s SEQUENCE { i CL§.&id ({S§}) }, v CL§.&T ({S§}{@i}) }", "SEQUENCE { i CL§.&id ({S§}), v CL§.&T ({S§}{@}) }", "SEQUENCE { i CL§.&id ({S§}), v CL§.&T ({S§}{i}) }", "SEQUENCE { i CL§.&id ({S§}), v CL§.&T ({@i}) }", "SEQUENCE { i CL§.&id ({S§}), v CL§.&T ({S§}{@i}{@i}) }", "SEQUENCE { i CL§.&id ({S§}{@i}), v CL§.&T ({S§}{@i}) }", "SEQUENCE { v CL§.&T ({S§}{@v}) }", "SEQUENCE { i CL§.&T ({S§}), v CL§.&T ({S§}{@i}) }"] { r.add(Case::err(format!("{}A§ ::= {} ", two, bad))) }
    for bad in ["S§ CL§ ::= { Z§ } Z§ D§ ::= { { ID 1 TYPE NULL } }", "S§ CL§ ::= { z§ } z§ D§ ::= { ID 1 TYPE NULL }", "S§ CL§ ::= { { ID 2 TYPE NULL } | Z§, ... } Z§ D§ ::= { { ID 1 TYPE NULL } }"] { r.add(Case::err(format!("{}D§ ::= CLASS {{ &id INTEGER (0..255) UNIQUE, &U OPTIONAL }} WITH SYNTAX {{ ID &id [TYPE &U] }} {} A§ ::= SEQUENCE {{ i CL§.&id ({{S§}}), v CL§.&T ({{S§}}{{@i}}) }} ", CLASS, bad))) }
    // an optional type with a default
    let d = "CL§ ::= CLASS { &id INTEGER (0..255) UNIQUE, &T DEFAULT BOOLEAN } WITH SYNTAX { ID &id [TYPE &T] } ";
    let e = |o: Vec<(i128, Shape)>| seq(false, vec![Field { name: "i".into(), optional: false, key: true, ty: int_of(0, 255) }, fld("v", false, open(o))]);
    let user = "A§ ::= SEQUENCE { i CL§.&id ({S§}), v CL§.&T ({S§}{@i}) } ";
    r.add(Case::must(format!("{}S§ CL§ ::= {{ {{ ID 1 }} | {{ ID 2 TYPE NULL }} | o§ }} o§ CL§ ::= {{ ID 3 }} {}", d, user), vec![("A§", e(vec![(1, Shape::Bool), (2, Shape::Null), (3, Shape::Bool)]))]));
    // every object without the type: an open type without alternatives
    r.add(Case::must(format!("{}S§ CL§ ::= {{ {{ ID 1 }} | {{ ID 2 }} }} {}", CLASS, user), vec![("A§", e(vec![]))]));
    // no alternatives at all (the last two: not supported, or right)
    for (body, s) in [("S§ CL§ ::= { ... } A§ ::= SEQUENCE { i CL§.&id ({S§}), v CL§.&T ({S§}{@i}) } ", e(vec![])), ("S§ CL§ ::= { ... } P§ { CL§ : X } ::= SEQUENCE { i CL§.&id ({X}), v CL§.&T ({X}{@i}) } A§ ::= SEQUENCE (SIZE (1..5)) OF P§ {{S§}} ", Shape::List(sz(1, 5), Box::new(e(vec![])))), ("N§ CL§ ::= { ... } S§ CL§ ::= { N§, ... } A§ ::= SEQUENCE { i CL§.&id ({S§}), v CL§.&T ({S§}{@i}) } ", e(vec![]))] {
        r.add(Case::must(format!("{}{}", CLASS, body).replace('§', ""), vec![("A", s)]));
    }
    // keys of other sizes, without UNIQUE, alias of a class
    for (body, s) in [
        ("CL§ ::= CLASS { &id INTEGER UNIQUE, &T OPTIONAL } WITH SYNTAX { ID &id [TYPE &T] } S§ CL§ ::= { { ID 70000 TYPE NULL } | { ID 4294967296 TYPE BOOLEAN } | { ID 7 TYPE UTF8String } } A§ ::= SEQUENCE { i CL§.&id ({S§}), v CL§.&T ({S§}{@i}) } ", Some((unconstrained_int(), vec![(70000, Shape::Null), (1 << 32, Shape::Bool), (7, Shape::Str("UTF8String".into(), ANY))], false))),
        ("CL§ ::= CLASS { &id INTEGER (-128..127) UNIQUE, &T OPTIONAL } WITH SYNTAX { ID &id [TYPE &T] } S§ CL§ ::= { { ID -1 TYPE NULL } | { ID 127 TYPE BOOLEAN } | { ID -128 TYPE UTF8String } } A§ ::= SEQUENCE { i CL§.&id ({S§}), v CL§.&T ({S§}{@i}) } ", Some((int_of(-128, 127), vec![(-1, Shape::Null), (127, Shape::Bool), (-128, Shape::Str("UTF8String".into(), ANY))], false))),
        ("CL§ ::= CLASS { &id INTEGER (0..255), &T OPTIONAL } WITH SYNTAX { ID &id [TYPE &T] } S§ CL§ ::= { { ID 3 TYPE NULL } | { ID 4 TYPE BOOLEAN } } A§ ::= SEQUENCE { i CL§.&id ({S§}), v CL§.&T ({S§}{@i}) } ", Some((int_of(0, 255), vec![(3, Shape::Null), (4, Shape::Bool)], true))),
        ("C2§ ::= CL§ CL§ ::= CLASS { &id INTEGER (0..255) UNIQUE, &T OPTIONAL } WITH SYNTAX { ID &id [TYPE &T] } S§ C2§ ::= { { ID 3 TYPE NULL } | { ID 4 TYPE BOOLEAN } } A§ ::= SEQUENCE { i C2§.&id ({S§}), v C2§.&T ({S§}{@i}) } ", Some((int_of(0, 255), vec![(3, Shape::Null), (4, Shape::Bool)], true))),
        ("CL§ ::= CLASS { &id INTEGER (0..255) UNIQUE, &T OPTIONAL } S§ CL§ ::= { { &id 3, &T NULL } | { &id 4, &T BOOLEAN } } A§ ::= SEQUENCE { i CL§.&id ({S§}), v CL§.&T ({S§}{@i}) } ", Some((int_of(0, 255), vec![(3, Shape::Null), (4, Shape::Bool)], true))),
        ("CL§ ::= CLASS { &id INTEGER (0..255) UNIQUE, &T OPTIONAL } WITH SYNTAX { ID &id [TYPE &T] } A§ ::= SEQUENCE { i CL§.&id ({{ ID 3 TYPE NULL } | { ID 4 TYPE BOOLEAN }}), v CL§.&T ({{ ID 3 TYPE NULL } | { ID 4 TYPE BOOLEAN }}{@i}) } ", Some((int_of(0, 255), vec![(3, Shape::Null), (4, Shape::Bool)], true))),
        ("CL§ ::= CLASS { &id INTEGER (0..255) UNIQUE, &T OPTIONAL } WITH SYNTAX { ID &id [TYPE &T] } S§ CL§ ::= { { ID 3 TYPE NULL } UNION { ID 4 TYPE BOOLEAN } } A§ ::= SEQUENCE { i CL§.&id ({S§}), v CL§.&T ({S§}{@i}) } ", Some((int_of(0, 255), vec![(3, Shape::Null), (4, Shape::Bool)], true))),
        ("CL§ ::= CLASS { &id INTEGER (0..255) UNIQUE DEFAULT 3, &T OPTIONAL } WITH SYNTAX { ID &id [TYPE &T] } S§ CL§ ::= { { ID 3 TYPE NULL } | { ID 4 TYPE BOOLEAN } } A§ ::= SEQUENCE { i CL§.&id ({S§}), v CL§.&T ({S§}{@i}) } ", None),
        ("CL§ ::= CLASS { &T OPTIONAL, &id INTEGER (0..255) UNIQUE DEFAULT 3 } WITH SYNTAX { [ID &id] [TYPE &T] } S§ CL§ ::= { { ID 3 TYPE NULL } | { ID 4 TYPE BOOLEAN } } A§ ::= SEQUENCE { i CL§.&id ({S§}), v CL§.&T ({S§}{@i}) } ", None),
        ("CL§ ::= CLASS { &id INTEGER (0..255) UNIQUE OPTIONAL, &T OPTIONAL } WITH SYNTAX { [ID &id] [TYPE &T] } S§ CL§ ::= { { ID 3 TYPE NULL } | { ID 4 TYPE BOOLEAN } } A§ ::= SEQUENCE { i CL§.&id ({S§}), v CL§.&T ({S§}{@i}) } ", Some((int_of(0, 255), vec![(3, Shape::Null), (4, Shape::Bool)], false))),
        ("CL§ ::= CLASS { &id INTEGER (0..255) UNIQUE OPTIONAL, &T OPTIONAL } WITH SYNTAX { [ID &id] [TYPE &T] } S§ CL§ ::= { { ID 3 TYPE NULL } | { TYPE UTF8String } | { ID 4 TYPE BOOLEAN } } A§ ::= SEQUENCE { i CL§.&id ({S§}), v CL§.&T ({S§}{@i}) } ", Some((int_of(0, 255), vec![(3, Shape::Null), (4, Shape::Bool)], true))),
        ("CL§ ::= CLASS { &id INTEGER (0..255) UNIQUE, &opt INTEGER OPTIONAL, &T, &dfl INTEGER DEFAULT 9 } WITH SYNTAX { ID &id [OPT &opt] TYPE &T [DFL &dfl] } S§ CL§ ::= { { ID 3 OPT 7 TYPE NULL } | { ID 4 TYPE BOOLEAN DFL 8 } } A§ ::= SEQUENCE { i CL§.&id ({S§}), v CL§.&T ({S§}{@i}) } ", Some((int_of(0, 255), vec![(3, Shape::Null), (4, Shape::Bool)], false))),
        ("CL§ ::= CLASS { &id INTEGER (0..255) UNIQUE, &T OPTIONAL } WITH SYNTAX { ID &id [TYPE &T] } S§ CL§ ::= { ALL EXCEPT { ID 3 TYPE NULL } } A§ ::= SEQUENCE { i CL§.&id ({S§}), v CL§.&T ({S§}{@i}) } ", None),
        ("CL§ ::= CLASS { &id INTEGER (0..255) UNIQUE, &T OPTIONAL } WITH SYNTAX { ID &id [TYPE &T] } S§ CL§ ::= { { ID 300 TYPE NULL } } A§ ::= SEQUENCE { i CL§.&id ({S§}), v CL§.&T ({S§}{@i}) } ", Some((int_of(0, 255), vec![(300, Shape::Null)], true))),
    ] {
        match s {
            None => r.add(Case::err(body)),
            Some((kt, objs, may)) => { let k = Case::must(body, vec![("A§", seq(false, vec![Field { name: "i".into(), optional: false, key: !may || !body.contains("INTEGER (0..255), "), ty: kt }, fld("v", false, open(objs))]))]); r.add(if may { k.may() } else { k }) }
        }
    }
    // two objects with one key, wherever they are written: names of sets that are longer by a digit
    for inner in ["S1", "S", "Sx", "T1"] { for first in [true, false] { for same in (0..13 * 3 + 1).map(|k| if k == 39 { None } else { Some((k % 13, k / 13)) }) {
        let outer = if inner == "S" { "S1" } else { "S" };
        let key = |j: usize| if let Some((a, b)) = same { if b == j { 100 + a } else { 200 + j } } else { 200 + j };
        let mut els: Vec<String> = (0..13).map(|i| format!("{{ ID {} TYPE BOOLEAN }}", 100 + i)).collect();
        els.insert(if first { 0 } else { 13 }, inner.into());
        let body = format!("{}{} CL ::= {{ {} }} {} CL ::= {{ {} }} A ::= SEQUENCE {{ i CL.&id ({{{}}}), v CL.&T ({{{}}}{{@i}}) }} ", CLASS.replace('§', ""), outer, els.join(" | "), inner, (0..3).map(|j| format!("{{ ID {} TYPE NULL }}", key(j))).collect::<Vec<_>>().join(" | "), outer, outer);
        if same.is_some() { r.add(Case::err(body)) } else {
            let objs = (0..13).map(|i| (100 + i, Shape::Bool)).chain((0..3).map(|j| (200 + j, Shape::Null))).collect();
            r.add(Case::must(body, vec![("A", seq(false, vec![Field { name: "i".into(), optional: false, key: true, ty: int_of(0, 255) }, fld("v", false, open(objs))]))]))
        }
    } } }
    // many objects
    for n in [1usize, 16, 17, 64, 100, 256, 300] { for how in 0..4usize {
        let mut defs = String::from("CL§ ::= CLASS { &id INTEGER (0..65535) UNIQUE, &T OPTIONAL } WITH SYNTAX { ID &id [TYPE &T] } ");
        let mut els = vec![]; let mut objs = vec![];
        for i in 0..n {
            let key = (i as i128 * 7919) % 65536;
            let (tx, sh) = [("NULL", Shape::Null), ("BOOLEAN", Shape::Bool), ("UTF8String", Shape::Str("UTF8String".into(), ANY))][i % 3].clone();
            objs.push((key, sh));
            let o = format!("{{ ID {} TYPE {} }}", key, tx);
            match (how + if how == 3 { i } else { 0 }) % 3 { 0 => els.push(o), 1 => { defs.push_str(&format!("ob{}§ CL§ ::= {} ", i, o)); els.push(format!("ob{}§", i)) } _ => { defs.push_str(&format!("Nb{}§ CL§ ::= {{ {} }} ", i, o)); els.push(format!("Nb{}§", i)) } }
        }
        let body = format!("{}S§ CL§ ::= {{ {}, ... }} A§ ::= SEQUENCE {{ i CL§.&id ({{S§}}), v CL§.&T ({{S§}}{{@i}}) }} ", defs, els.join(" | "));
        r.add(Case::must(body, vec![("A§", seq(false, vec![Field { name: "i".into(), optional: false, key: true, ty: int_of(0, 65535) }, fld("v", false, open(objs))]))]));
    } }
    r.finish();
    c.assume("the names of the alternatives of open types are free; keys are integers");
}
