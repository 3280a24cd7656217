//! K11: every type definition is generated or reported. K12: references denote what they are defined as.
use crate::asn::*;
use crate::cases::*;
use crate::constructed::alt;
use crate::shape::*;
use mc_model::report::*;

fn sz(lb: i128, ub: i128) -> Size { Size { lb: Some(lb), ub: Some(ub), ext: false } }
fn fld(n: &str, optional: bool, ty: Shape) -> Field { Field { name: norm(n), optional, key: false, ty } }
fn seq(ext: bool, fields: Vec<Field>) -> Shape { Shape::Seq { ext, fields } }
fn open(s: Vec<(i128, Shape)>) -> Shape { Shape::Open(s.into_iter().map(|(k, t)| (String::new(), k, t)).collect()) }
pub fn product(dims: &[usize], mut f: impl FnMut(&[usize])) {
    if dims.iter().any(|d| *d == 0) { return }
    let mut i = vec![0; dims.len()];
    loop {
        f(&i);
        let mut k = 0;
        while k < dims.len() { i[k] += 1; if i[k] < dims[k] { break } i[k] = 0; k += 1 }
        if k == dims.len() { return }
    }
}
pub fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 { return vec![vec![]] }
    permutations(n - 1).into_iter().flat_map(|p| (0..n).map(move |k| { let mut q = p.clone(); q.insert(k, n - 1); q })).collect()
}

// ------------------------------------------------------------------------------------------------ K11

/// How a definition refers to another one.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Ed { Alias, Member, Optional, Addition, List, Alternative, Containing, Param, ObjType }
const EDS: [Ed; 9] = [Ed::Alias, Ed::Member, Ed::Optional, Ed::List, Ed::Alternative, Ed::Containing, Ed::Param, Ed::Addition, Ed::ObjType];
impl Ed {
    fn text(&self, t: &str) -> String {
        match self {
            Ed::Alias => t.to_string(),
            Ed::Member => format!("SEQUENCE {{ a {} }}", t),
            Ed::Optional => format!("SEQUENCE {{ a {} OPTIONAL }}", t),
            Ed::Addition => format!("SEQUENCE {{ z NULL, ..., a {} }}", t),
            Ed::List => format!("SEQUENCE OF {}", t),
            Ed::Alternative => format!("CHOICE {{ a {} }}", t),
            Ed::Containing => format!("OCTET STRING (CONTAINING {})", t),
            Ed::Param => format!("P§ {{ {} }}", t),
            Ed::ObjType => format!("SEQUENCE {{ i CL§.&id ({{S{}}}), v CL§.&T ({{S{}}}{{@i}}) }}", t, t),
        }
    }
    fn shape(&self, t: Shape) -> Shape {
        match self {
            Ed::Alias => t,
            Ed::Member => seq(false, vec![fld("a", false, t)]),
            Ed::Optional => seq(false, vec![fld("a", true, t)]),
            Ed::Addition => seq(true, vec![fld("z", false, Shape::Null)]),
            Ed::List => Shape::List(ANY, Box::new(t)),
            Ed::Alternative => Shape::Choice { lb: Some(0), ub: Some(0), ext: false, alts: vec![alt("a", 0, false, t)] },
            Ed::Containing => Shape::Octets(ANY),
            Ed::Param => seq(false, vec![fld("y", false, t)]),
            Ed::ObjType => seq(false, vec![Field { name: "i".into(), optional: false, key: true, ty: int_of(0, 255) }, fld("v", false, open(vec![(1, t)]))]),
        }
    }
    /// A cycle through this has finite values.
    fn guarded(&self) -> bool { matches!(self, Ed::Optional | Ed::List | Ed::Containing | Ed::Addition) }
}
fn around(text: &str, names: &[String]) -> String {
    let mut d = String::new();
    if text.contains("P§") { d.push_str("P§ { X } ::= SEQUENCE { y X } ") }
    if text.contains("CL§") {
        d.push_str("CL§ ::= CLASS { &id INTEGER (0..255) UNIQUE, &T OPTIONAL } WITH SYNTAX { ID &id [TYPE &T] } ");
        for n in names { if text.contains(&format!("{{S{}}}", n)) { d.push_str(&format!("S{} CL§ ::= {{ {{ ID 1 TYPE {} }} }} ", n, n)) } }
    }
    d
}

/// Definitions around a place for a name.
pub const CONTEXT: &str = "C§ ::= CLASS { &id INTEGER (0..255) UNIQUE, &T OPTIONAL } WITH SYNTAX { ID &id [TYPE &T] } o§ C§ ::= { ID 9 TYPE NULL } S§ C§ ::= { o§ | { ID 2 TYPE B§ } } B§ ::= INTEGER (0..5) v§ INTEGER ::= 3 Q§ { X, INTEGER : n } ::= SEQUENCE { q X, r INTEGER (0..n) } ";
/// A name in every place where names are used: the text, a name that is defined, one that is not.
pub const NAME_PLACES: &[(&str, &str, &str)] = &[
        ("A§ ::= {}", "B§", "Nope"), ("A§ ::= SEQUENCE { a {} }", "B§", "Nope"), ("A§ ::= SEQUENCE { a NULL, b {} OPTIONAL }", "B§", "Nope"), ("A§ ::= SEQUENCE { a NULL, ..., b {} }", "B§", "Nope"), ("A§ ::= SEQUENCE { a NULL, ..., [[ b {} ]] }", "B§", "Nope"), ("A§ ::= SEQUENCE OF {}", "B§", "Nope"), ("A§ ::= SEQUENCE OF SEQUENCE OF {}", "B§", "Nope"), ("A§ ::= SEQUENCE (SIZE (1..2)) OF {}", "B§", "Nope"), ("A§ ::= CHOICE { a {}, b NULL }", "B§", "Nope"), ("A§ ::= CHOICE { b NULL, ..., a {} }", "B§", "Nope"), ("A§ ::= CHOICE { b NULL, ..., [[ a {} ]] }", "B§", "Nope"), ("A§ ::= SEQUENCE { s SEQUENCE { t CHOICE { u SEQUENCE OF {} } } }", "B§", "Nope"), ("A§ ::= OCTET STRING (CONTAINING {})", "B§", "Nope"), ("A§ ::= SEQUENCE { o OCTET STRING (CONTAINING {}), p NULL }", "B§", "Nope"), ("A§ ::= {} (1..2)", "B§", "Nope"),
        ("A§ ::= INTEGER (0..{})", "v§", "nope"), ("A§ ::= INTEGER ({}..9)", "v§", "nope"), ("A§ ::= INTEGER ({})", "v§", "nope"), ("A§ ::= INTEGER (1 | {})", "v§", "nope"), ("A§ ::= INTEGER (0..9) (1..{})", "v§", "nope"), ("A§ ::= OCTET STRING (SIZE ({}))", "v§", "nope"), ("A§ ::= BIT STRING (SIZE (0..{}))", "v§", "nope"), ("A§ ::= SEQUENCE (SIZE (1..{})) OF NULL", "v§", "nope"), ("A§ ::= UTF8String (SIZE ({}..9))", "v§", "nope"), ("A§ ::= SEQUENCE { a INTEGER (0..{}) }", "v§", "nope"), ("A§ ::= ENUMERATED { a({}), b(7) }", "v§", "nope"), ("A§ ::= INTEGER (0..1, ..., {})", "v§", "nope"), ("A§ ::= OCTET STRING (SIZE (1, ..., {}))", "v§", "nope"), ("A§ ::= INTEGER ({})", "B§", "Nope"), ("A§ ::= INTEGER (0..9) ({})", "B§", "Nope"), ("A§ ::= INTEGER { n({}) }", "v§", "nope"),
        ("w§ INTEGER ::= {} A§ ::= INTEGER (0..w§)", "v§", "nope"), ("w§ INTEGER ::= {} A§ ::= NULL", "v§", "nope"), ("w§ {} ::= 1 A§ ::= NULL", "B§", "Nope"), ("w§ {} ::= 1 A§ ::= INTEGER (0..w§)", "B§", "Nope"),
        ("A§ ::= SEQUENCE { i C§.&id ({{}}), v C§.&T ({{}}{@i}) }", "S§", "Nope"), ("A§ ::= SEQUENCE { i {}.&id ({S§}) }", "C§", "NOPE"), ("A§ ::= SEQUENCE { i C§.&id ({S§}), v C§.&{} ({S§}{@i}) }", "T", "Nope"), ("A§ ::= SEQUENCE { i C§.&{} ({S§}), v C§.&T ({S§}{@i}) }", "id", "nope"), ("A§ ::= SEQUENCE { i C§.&id ({S§}), v C§.&T ({S§}{@{}}) }", "i", "nope"),
        ("U§ C§ ::= { {} } A§ ::= NULL", "o§", "nope"), ("U§ C§ ::= { {} } A§ ::= NULL", "S§", "Nope"), ("U§ C§ ::= { o§ | {}, ... } A§ ::= NULL", "S§", "Nope"), ("U§ C§ ::= { ..., {} } A§ ::= NULL", "o§", "nope"), ("U§ C§ ::= { { ID {} TYPE NULL } } A§ ::= NULL", "v§", "nope"), ("U§ C§ ::= { { ID 1 TYPE {} } } A§ ::= NULL", "B§", "Nope"), ("u§ C§ ::= { ID {} TYPE NULL } A§ ::= NULL", "v§", "nope"), ("u§ C§ ::= { ID 1 TYPE {} } A§ ::= NULL", "B§", "Nope"), ("U§ {} ::= { o§ } A§ ::= NULL", "C§", "NOPE"), ("u§ {} ::= { ID 1 } A§ ::= NULL", "C§", "NOPE"), ("u§ C§ ::= {} A§ ::= NULL", "o§", "nope"), ("U§ C§ ::= { { ID 1 {} NULL } } A§ ::= NULL", "TYPE", "NOPE"),
        ("D§ ::= CLASS { &id {} UNIQUE } A§ ::= NULL", "B§", "Nope"), ("D§ ::= CLASS { &id INTEGER UNIQUE, &T DEFAULT {} } WITH SYNTAX { ID &id [TYPE &T] } A§ ::= NULL", "B§", "Nope"), ("D§ ::= CLASS { &id INTEGER UNIQUE } WITH SYNTAX { ID &{} } A§ ::= NULL", "id", "nope"),
        ("A§ ::= Q§ { {}, 5 }", "B§", "Nope"), ("A§ ::= Q§ { B§, {} }", "v§", "nope"), ("A§ ::= {} { B§, 5 }", "Q§", "Nope"), ("R§ { Y } ::= SEQUENCE { a Y, b {} } A§ ::= NULL", "B§", "Nope"), ("R§ { Y } ::= SEQUENCE { a Y, b {} } A§ ::= R§ { B§ }", "B§", "Nope"), ("R§ { Y } ::= SEQUENCE { a {} } A§ ::= R§ { B§ }", "Y", "Nope"), ("R§ { INTEGER : y } ::= INTEGER (0..{}) A§ ::= R§ { 5 }", "y", "nope"), ("R§ { {} : Y } ::= SEQUENCE { i C§.&id ({Y}) } A§ ::= R§ {{S§}}", "C§", "NOPE"), ("R§ { C§ : Y } ::= SEQUENCE { i C§.&id ({{}}), v C§.&T ({{}}{@i}) } A§ ::= R§ {{S§}}", "Y", "Nope"), ("R§ { Y } ::= Q§ { Y, {} } A§ ::= R§ { B§ }", "v§", "nope"),
    ];

pub fn definitions(c: &'static Check) {
    let r = Runner::new(c, What::Structure);
    let deep = c.thorough;
    // every way for n definitions to refer to one another (the n-th name is not defined)
    let mut graph = |n: usize, eds: &[Ed], reversed: bool| {
        let per = 1 + eds.len() * (n + 1);
        product(&vec![per; n], |g| {
            let name = |j: usize| if j == n { "Nope§".to_string() } else { format!("T{}§", j) };
            let edge = |i: usize| if g[i] == 0 { None } else { Some((eds[(g[i] - 1) / (n + 1)], (g[i] - 1) % (n + 1))) };
            let undefined = (0..n).any(|i| edge(i).map_or(false, |(_, j)| j == n));
            // every definition refers to one at most: follow
            let (mut cyclic, mut infinite) = (false, false);
            for i in 0..n {
                let (mut k, mut guarded, mut steps) = (i, false, 0);
                while let Some((e, j)) = edge(k) { if j == n { break } guarded |= e.guarded(); k = j; steps += 1; if k == i { cyclic = true; infinite |= !guarded; break } if steps > n { break } }
            }
            let mut ds: Vec<String> = (0..n).map(|i| format!("{} ::= {} ", name(i), match edge(i) { None => "INTEGER (0..9)".to_string(), Some((e, j)) => e.text(&name(j)) })).collect();
            let names: Vec<String> = (0..=n).map(name).collect();
            if reversed { ds.reverse() }
            let text = ds.concat();
            let body = if reversed { text.clone() + &around(&text, &names) } else { around(&text, &names) + &text };
            fn sh(i: usize, edge: &dyn Fn(usize) -> Option<(Ed, usize)>) -> Shape { match edge(i) { None => int_of(0, 9), Some((e, j)) => e.shape(sh(j, edge)) } }
            if undefined || infinite { r.add(Case::err(body)) }
            else if cyclic { r.add(Case { body, files: None, want: (0..n).map(|i| (name(i), Shape::Any)).collect(), verdict: Verdict::May }) }
            else { r.add(Case { body, files: None, want: (0..n).map(|i| (name(i), sh(i, &edge))).collect(), verdict: Verdict::Must }) }
        });
    };
    graph(1, &EDS, false);
    graph(2, &EDS, false);
    graph(2, &EDS, true);
    graph(3, if deep { &EDS } else { &EDS[..7] }, false);
    if deep { graph(3, &EDS[..7], true); graph(4, &EDS[..4], false) }

    // a name that is not defined, in every place where names are used
    let (ctx, places) = (CONTEXT, NAME_PLACES);
    for (t, good, bad) in places {
        let fill = |x: &str| format!("{}{} ", ctx, t.replacen("{}", x, 1).replace("{}", x));
        // with a name that is defined: not refused for the name alone (only tells that the place is one)
        r.add(Case { body: fill(good), files: None, want: vec![("A§".into(), Shape::Any)], verdict: Verdict::May });
        let g = compile(&[module(&fill(good).replace('§', ""))]);
        c.count(if matches!(g, crate::run::Out::Code(_)) { "places for names" } else { "places for names that are not supported" }, 1);
        r.add(Case::err(fill(bad)));
        r.add(Case::err(format!("{} {}", fill(bad), "Z§ ::= SEQUENCE { a A§ } ")));
        // defined, but something else
        for other in ["B§", "v§", "S§", "o§", "C§", "Q§"] {
            let first = |s: &str| s.chars().find(|c| c.is_alphabetic()).map_or(false, |c| c.is_uppercase());
            if other == *good || ((*other == *"Q§" || *other == *"C§" || first(other) != first(good)) && good.len() < 3) { continue }
            // contained subtypes, types of values and objects of some kind: what is right is told apart by K03 to K09
            let kind = |n: &str| match n { "B§" => 't', "v§" => 'v', "S§" => 's', "o§" => 'o', "C§" => 'c', "Q§" => 'q', _ => '-' };
            if kind(good) == '-' || (kind(good) == 's' && kind(other) == 'o') || (kind(good) == 'o' && kind(other) == 's') { continue }
            if t.contains("ENUMERATED") || t.contains("INTEGER {") { continue }
            // definitions that generate nothing, and contents that are not represented
            if !t.trim_start().starts_with("A§ ::=") || t.contains("CONTAINING") || t.contains("...") { continue }
            // a type may stand for its values in a constraint
            if matches!((kind(good), *&other), ('v', "B§") | ('t', "v§")) { continue }
            r.add(Case::err(fill(other)));
        }
    }
    // the same name more than once
    let defs = ["N§ ::= NULL ", "N§ ::= BOOLEAN ", "N§ ::= SEQUENCE { a NULL } ", "N§ ::= CLASS { &id INTEGER UNIQUE, &T } ", "N§ { X } ::= SEQUENCE { a X } ", "N§ C§ ::= { { ID 1 TYPE NULL } } "];
    let lower = ["n§ INTEGER ::= 1 ", "n§ INTEGER ::= 2 ", "n§ C§ ::= { ID 1 TYPE NULL } ", "n§ C§ ::= { ID 2 TYPE NULL } ", "n§ BOOLEAN ::= TRUE "];
    let cl = "C§ ::= CLASS { &id INTEGER (0..255) UNIQUE, &T OPTIONAL } WITH SYNTAX { ID &id [TYPE &T] } ";
    let m = |n: &str, imports: &str, body: &str| format!("{} DEFINITIONS AUTOMATIC TAGS ::= BEGIN {} {} END ", n, imports, body);
    for set in [&defs[..], &lower[..]] {
        for a in set { for b in set {
            r.add(Case::err(format!("{}{}A§ ::= NULL {}", cl, a, b)));
            // in two modules: right, or an error
            let shape = |d: &str| match d { "N§ ::= NULL " => Some(Shape::Null), "N§ ::= BOOLEAN " => Some(Shape::Bool), _ => None };
            let user = if set[0] == defs[0] { "N§" } else { "INTEGER (0..n§)" };
            let val = |d: &str| match d { "n§ INTEGER ::= 1 " => Some(int_of(0, 1)), "n§ INTEGER ::= 2 " => Some(int_of(0, 2)), _ => None };
            let of = |d: &str| shape(d).or(val(d));
            let (c1, c2) = (if a.contains("C§ ::=") { "C FROM Lib" } else { "" }, if b.contains("C§ ::=") { "C FROM Lib" } else { "" });
            let imp = |s: &str| if s.is_empty() { String::new() } else { format!("IMPORTS {};", s) };
            let (f1, f2) = (m("M1", &imp(c1), &format!("{} U1 ::= {}", a, user)).replace('§', ""), m("M2", &imp(c2), &format!("{} U2 ::= {}", b, user)).replace('§', ""));
            let lib = m("Lib", "", cl).replace('§', "");
            let mut want = vec![];
            if let Some(s) = of(a) { want.push(("U1".to_string(), s)) }
            if let Some(s) = of(b) { want.push(("U2".to_string(), s)) }
            for files in [vec![lib.clone(), f1.clone(), f2.clone()], vec![lib.clone() + &f2 + &f1]] { r.add(Case { body: String::new(), files: Some(files), want: want.clone(), verdict: Verdict::May }) }
        } }
        // defined here and imported, imported twice
        for a in set { for b in set {
            let lib = m("Lib", "", &format!("{} {}", cl, b)).replace('§', "");
            let n = if set[0] == defs[0] { "N" } else { "n" };
            let main = m("Main", &format!("IMPORTS {}, C FROM Lib;", n), &format!("{} A ::= NULL", a)).replace('§', "");
            if !a.contains("C§ ::=") || true { r.add(Case { body: String::new(), files: Some(vec![lib.clone(), main]), want: vec![], verdict: Verdict::MustErr }) }
            let lib2 = m("Lib2", "IMPORTS C FROM Lib;", a).replace('§', "");
            let lib1 = m("Lib1", "IMPORTS C FROM Lib;", b).replace('§', "");
            let lc = m("Lib", "", cl).replace('§', "");
            r.add(Case { body: String::new(), files: Some(vec![lc, lib1, lib2, m("Main", &format!("IMPORTS {} FROM Lib1 {} FROM Lib2;", n, n), "A ::= NULL")]), want: vec![], verdict: Verdict::MustErr });
        } }
    }
    // modules: the same one twice, with other contents, in one file or two
    for (a, b) in [("A ::= NULL", "A ::= NULL"), ("A ::= NULL", "B ::= NULL"), ("A ::= NULL", "")] {
        r.add(Case { body: String::new(), files: Some(vec![m("M", "", a) + &m("M", "", b)]), want: vec![], verdict: Verdict::MustErr });
        r.add(Case { body: String::new(), files: Some(vec![m("M", "", a), m("M", "", b)]), want: vec![], verdict: Verdict::MustErr });
    }
    // three modules with a type each, every way to import and to refer
    let files = |v: &[String], layout: usize| match layout { 0 => v.to_vec(), 1 => vec![v.concat()], 2 => v.iter().rev().cloned().collect(), _ => vec![v[2].clone() + &v[0], v[1].clone()] };
    product(&[3, 3, 3, 4, 4, 4, if deep { 4 } else { 2 }], |x| {
        let others = |i: usize| match i { 0 => [1, 2], 1 => [0, 2], _ => [0, 1] };
        let to = |i: usize| if x[i] == 0 { None } else { Some(others(i)[x[i] - 1]) };
        let imports = |i: usize, j: usize| others(i).iter().position(|k| *k == j).map_or(false, |p| x[3 + i] >> p & 1 == 1);
        let undefined = (0..3).any(|i| to(i).map_or(false, |j| !imports(i, j)));
        let reach = |edge: &dyn Fn(usize, usize) -> bool| { let mut r = [[false; 3]; 3]; for i in 0..3 { for j in 0..3 { r[i][j] = edge(i, j) } } for k in 0..3 { for i in 0..3 { for j in 0..3 { r[i][j] |= r[i][k] && r[k][j] } } } (0..3).any(|i| r[i][i]) };
        let type_cycle = reach(&|i, j| to(i) == Some(j));
        let module_cycle = reach(&|i, j| imports(i, j));
        let ms: Vec<String> = (0..3).map(|i| {
            let im: String = others(i).iter().filter(|j| imports(i, **j)).map(|j| format!("T{} FROM M{} ", j, j)).collect();
            m(&format!("M{}", i), &if im.is_empty() { String::new() } else { format!("IMPORTS {};", im) }, &format!("T{} ::= {}", i, to(i).map_or("INTEGER (0..9)".to_string(), |j| format!("SEQUENCE {{ a T{} }}", j))))
        }).collect();
        fn sh(i: usize, to: &dyn Fn(usize) -> Option<usize>) -> Shape { to(i).map_or(int_of(0, 9), |j| Ed::Member.shape(sh(j, to))) }
        let bad = undefined || type_cycle;
        let want = if bad { vec![] } else { (0..3).map(|i| (format!("T{}", i), sh(i, &to))).collect() };
        r.add(Case { body: String::new(), files: Some(files(&ms, x[6])), want, verdict: if bad { Verdict::MustErr } else if module_cycle { Verdict::May } else { Verdict::Must } });
    });
    // imports that are none
    let lib = m("Lib", "", "A ::= NULL B ::= BOOLEAN v INTEGER ::= 4");
    for (imp, ok) in [("IMPORTS A FROM Lib;", true), ("IMPORTS A, B, v FROM Lib;", true), ("IMPORTS Nope FROM Lib;", false), ("IMPORTS A, Nope FROM Lib;", false), ("IMPORTS nope FROM Lib;", false), ("IMPORTS A FROM Nope;", false), ("IMPORTS A FROM Lib B FROM Lib;", true), ("IMPORTS A FROM Lib B FROM Lib2;", false), ("IMPORTS A FROM Main;", false), ("IMPORTS Z FROM Main;", false), ("IMPORTS A FROM Lib", false), ("IMPORTS A;", false), ("IMPORTS A FROM;", false), ("IMPORTS A B FROM Lib;", false), ("IMPORTS A,, B FROM Lib;", false), ("IMPORTS ,A FROM Lib;", false), ("IMPORTS A, FROM Lib;", false), ("IMPORTS FROM Lib;", false), ("IMPORTS A FROM lib;", false), ("IMPORTS A, A FROM Lib;", false), ("IMPORTS A FROM Lib A FROM Lib;", false), ("IMPORTS 5 FROM Lib;", false), ("IMPORTS A | B FROM Lib;", false), ("IMPORTS A FROM Lib;;", false), ("IMPORTS A FROM Lib; IMPORTS B FROM Lib;", false)] {
        for user in ["Z ::= SEQUENCE { a NULL }", ""] {
            let w = if ok && !user.is_empty() { vec![("Z".to_string(), seq(false, vec![fld("a", false, Shape::Null)])), ("A".to_string(), Shape::Null), ("B".to_string(), Shape::Bool)] } else { vec![] };
            for l in 0..2 { let v = [lib.clone(), m("Main", imp, user)]; r.add(Case { body: String::new(), files: Some(if l == 0 { v.to_vec() } else { vec![v.concat()] }), want: w.clone(), verdict: if ok { Verdict::Must } else { Verdict::MustErr } }) }
        }
    }
    for imp in ["IMPORTS ;", "EXPORTS ALL;", "EXPORTS Z;", "EXPORTS ;", "EXPORTS ALL; IMPORTS A FROM Lib;", "EXPORTS Z; IMPORTS A FROM Lib;"] { r.add(Case { body: String::new(), files: Some(vec![lib.clone(), m("Main", imp, "Z ::= NULL")]), want: vec![("Z".into(), Shape::Null), ("A".into(), Shape::Null)], verdict: Verdict::May }) }
    // forms of a module header and of an import
    let oids = ["", "{ 1 2 3 }", "{ iso 2 x(5) }", "{ iso(1) member-body(2) us (840) 1 }", "{ itu-t (0) identified-organization (4) etsi (0) }", "{ joint-iso-itu-t 5 }", "{ 0 }", "{ a(1) 2 b-c(3) }"];
    let imports: [&[&str]; 9] = [&[], &["A"], &["P{}"], &["A", "B", "v"], &["P {}", "A"], &["A", "P { }", "v"], &["v", "P{}"], &["P{}", "Q{}", "B"], &["v", "B", "A", "P{}", "Q"]];
    for (n, oid) in oids.iter().enumerate() { for own in oids.iter() { for (l, list) in imports.iter().enumerate() { for from in ["", oid] { for tags in ["", "AUTOMATIC TAGS", "IMPLICIT TAGS", "EXPLICIT TAGS"] {
        if !deep && (tags.len() + n + l + own.len()) % 3 != 0 { continue }
        let names: Vec<&str> = list.iter().map(|x| x.split(&[' ', '{'][..]).next().unwrap()).collect();
        let lib = format!("Lib {} DEFINITIONS {} ::= BEGIN A ::= NULL B ::= BOOLEAN v INTEGER ::= 4 P {{ T }} ::= SEQUENCE {{ t T }} Q {{ INTEGER : n }} ::= OCTET STRING (SIZE (n)) END ", oid, tags);
        let mut fs = vec![fld("z", true, int_of(0, 9))];
        let mut text = "z INTEGER (0..9) OPTIONAL".to_string();
        for (k, n) in names.iter().enumerate() {
            let (t, sh) = match *n { "A" => ("A", Shape::Null), "B" => ("B", Shape::Bool), "v" => ("INTEGER (0..v)", int_of(0, 4)), "P" => ("P { Own }", seq(false, vec![fld("t", false, Shape::Bool)])), _ => ("Q { 3 }", Shape::Octets(sz(3, 3))) };
            text.push_str(&format!(", f{} {}", k, t));
            fs.push(fld(&format!("f{}", k), false, sh));
        }
        let imp = if list.is_empty() { String::new() } else { format!("IMPORTS {} FROM Lib {};", list.join(", "), from) };
        let main = format!("Main {} DEFINITIONS {} ::= BEGIN {} Z ::= SEQUENCE {{ {} }} Own ::= BOOLEAN END ", own, tags, imp, text);
        let want = vec![("Z".to_string(), seq(false, fs)), ("A".to_string(), Shape::Null), ("B".to_string(), Shape::Bool)];
        let v = vec![lib, main];
        let files = match (n + l) % 3 { 0 => v, 1 => v.into_iter().rev().collect(), _ => vec![v.concat()] };
        r.add(Case { body: String::new(), files: Some(files), want, verdict: Verdict::Must });
    } } } } }
    // many definitions
    for n in [100usize, 1000] {
        let body: String = (0..n).map(|i| if i % 7 == 3 { format!("D{}§ ::= D{}§ ", i, i - 1) } else { format!("D{}§ ::= SEQUENCE {{ a INTEGER (0..{}) }} ", i, i) }).collect();
        let sh = |i: usize| seq(false, vec![fld("a", false, int_of(0, if i % 7 == 3 { i - 1 } else { i } as i128))]);
        r.add(Case { body, files: None, want: (0..n).map(|i| (format!("D{}§", i), sh(i))).collect(), verdict: Verdict::Must });
    }
    r.finish();
    c.assume("DEFAULT values are outside the space; types that are recursive (validly) and modules that import from each other may be refused");
}

// ------------------------------------------------------------------------------------------------ K12

/// A definition that may stand in any module: name, text, names it refers to.
#[derive(Clone)]
struct Def { name: &'static str, text: String, refs: Vec<&'static str> }
fn d(name: &'static str, text: impl Into<String>, refs: &[&'static str]) -> Def { Def { name, text: text.into(), refs: refs.to_vec() } }

/// Texts of modules, definition i in module `at[i]`; `skip` leaves out the n-th import. None: nothing to leave out.
fn spread(defs: &[Def], at: &[usize], modules: usize, via: bool, skip: Option<usize>) -> Option<(Vec<String>, bool)> {
    let home = |n: &str| defs.iter().position(|x| x.name == n).map(|k| at[k]);
    let mut im: Vec<Vec<(usize, &str)>> = vec![vec![]; modules];
    for (x, a) in defs.iter().zip(at) { for rf in &x.refs { let h = home(rf).unwrap(); if h != *a && !im[*a].contains(&(h, rf)) { im[*a].push((h, rf)) } } }
    if via { // everything the last module needs from the first comes by way of the one between
        let last = modules - 1;
        let mut extra = vec![];
        for e in im[last].iter_mut() { if e.0 == 0 { extra.push(e.1); e.0 = 1 } }
        if extra.is_empty() { return None }
        for n in extra { if !im[1].contains(&(0, n)) { im[1].push((0, n)) } }
    }
    let mut reach = vec![vec![false; modules]; modules];
    for a in 0..modules { for (h, _) in &im[a] { reach[a][*h] = true } }
    for k in 0..modules { for i in 0..modules { for j in 0..modules { let v = reach[i][k] && reach[k][j]; reach[i][j] |= v } } }
    let cyclic = (0..modules).any(|i| reach[i][i]);
    if let Some(mut s) = skip {
        let mut done = false;
        for v in im.iter_mut() { if s < v.len() { v.remove(s); done = true; break } s -= v.len() }
        if !done { return None }
    }
    let names = ["Ma", "Mb", "Mc", "Md"];
    let texts = (0..modules).map(|k| {
        let mut imports = String::new();
        for h in 0..modules { let l: Vec<&str> = im[k].iter().filter(|e| e.0 == h).map(|e| e.1).collect(); if !l.is_empty() { imports.push_str(&format!("{} FROM {} ", l.join(", "), names[h])) } }
        let body: String = defs.iter().zip(at).filter(|(_, a)| **a == k).map(|(x, _)| x.text.as_str()).collect();
        format!("{} DEFINITIONS AUTOMATIC TAGS ::= BEGIN {} {} END ", names[k], if imports.is_empty() { String::new() } else { format!("IMPORTS {};", imports) }, body)
    }).collect();
    Some((texts, cyclic))
}

type Meaning = Box<dyn Fn(i128) -> Option<Shape>>;
fn int_in(e: El) -> Option<Shape> { int_shape(&[cons(e)]).map(|x| x.0) }
fn size_in(lo: i128, hi: i128) -> Option<Size> { if lo > hi || lo < 0 { None } else { Some(sz(lo, hi)) } }

pub fn references(c: &'static Check) {
    let r = Runner::new(c, What::Structure);
    let deep = c.thorough;
    // places where numbers stand
    let entry = |k: i128| seq(false, vec![Field { name: "i".into(), optional: false, key: true, ty: int_of(-10, 70000) }, fld("v", false, open(vec![(k, Shape::Null), (-9, Shape::Bool)]))]);
    let cl = "CL§ ::= CLASS { &id INTEGER (-10..70000) UNIQUE, &T OPTIONAL } WITH SYNTAX { ID &id [TYPE &T] } ";
    let user = "A§ ::= SEQUENCE { i CL§.&id ({S§}), v CL§.&T ({S§}{@i}) } ";
    let places: Vec<(String, Meaning)> = vec![
        ("A§ ::= INTEGER (-100..{}) ".into(), Box::new(|n| int_in(range(-100, n)))),
        ("A§ ::= INTEGER ({}..80000) ".into(), Box::new(|n| int_in(range(n, 80000)))),
        ("A§ ::= INTEGER ({}) ".into(), Box::new(|n| int_in(El::Val(v(n))))),
        ("A§ ::= INTEGER ({}..{}) ".into(), Box::new(|n| int_in(range(n, n)))),
        ("A§ ::= INTEGER (MIN..{}) ".into(), Box::new(|n| int_in(El::Range(End::Min, false, false, End::V(v(n)))))),
        ("A§ ::= INTEGER ({}<..MAX) ".into(), Box::new(|n| int_in(El::Range(End::V(v(n)), true, false, End::Max)))),
        ("A§ ::= INTEGER (-100..<{}) ".into(), Box::new(|n| int_in(El::Range(End::V(v(-100)), false, true, End::V(v(n)))))),
        ("A§ ::= INTEGER (-7 | {}) ".into(), Box::new(|n| int_shape(&[Cons { root: vec![vec![El::Val(v(-7))], vec![El::Val(v(n))]], ext: None }]).map(|x| x.0))),
        ("A§ ::= INTEGER (-100..80000) ({}..80000) ".into(), Box::new(|n| int_in(range(n, 80000)))),
        ("A§ ::= INTEGER (-100..-50, ..., {}) ".into(), Box::new(|n| int_shape(&[Cons { root: one(range(-100, -50)), ext: Some(Some(one(El::Val(v(n))))) }]).map(|x| x.0))),
        ("A§ ::= OCTET STRING (SIZE ({})) ".into(), Box::new(|n| Some(Shape::Octets(size_in(n, n)?)))),
        ("A§ ::= BIT STRING (SIZE (0..{}, ...)) ".into(), Box::new(|n| size_in(0, n).map(|s| Shape::Bits(Size { ext: true, ..s })))),
        ("A§ ::= SEQUENCE (SIZE (0..{})) OF NULL ".into(), Box::new(|n| Some(Shape::List(size_in(0, n)?, Box::new(Shape::Null))))),
        ("A§ ::= SEQUENCE { a SEQUENCE (SIZE ({}..80000)) OF INTEGER ({}) } ".into(), Box::new(|n| Some(seq(false, vec![fld("a", false, Shape::List(size_in(n, 80000)?, Box::new(int_in(El::Val(v(n)))?)))])))),
        ("A§ ::= PrintableString (SIZE (0..{})) ".into(), Box::new(|n| Some(Shape::Str("PrintableString".into(), size_in(0, n)?)))),
        ("A§ ::= CHOICE { a NULL, b INTEGER (-100..{}) } ".into(), Box::new(|n| Some(Shape::Choice { lb: Some(0), ub: Some(1), ext: false, alts: vec![alt("a", 0, false, Shape::Null), alt("b", 1, false, int_in(range(-100, n))?)] }))),
        ("A§ ::= ENUMERATED { a({}), b(-8) } ".into(), Box::new(|n| if n == -8 { None } else { Some(Shape::Enum { lb: Some(0), ub: Some(1), ext: false, consts: vec![("a".into(), if n < -8 { 0 } else { 1 }), ("b".into(), if n < -8 { 1 } else { 0 })], width: None }) })),
        (format!("{}S§ CL§ ::= {{ {{ ID {{}} TYPE NULL }} | {{ ID -9 TYPE BOOLEAN }} }} {}", cl, user), Box::new(move |n| if n < -10 || n > 70000 { None } else { Some(entry(n)) })),
        (format!("{}S§ CL§ ::= {{ o§ | {{ ID -9 TYPE BOOLEAN }} }} o§ CL§ ::= {{ ID {{}} TYPE NULL }} {}", cl, user), Box::new(move |n| if n < -10 || n > 70000 { None } else { Some(entry(n)) })),
        ("P§ { INTEGER : x } ::= INTEGER (-100..x) A§ ::= P§ { {} } ".into(), Box::new(|n| int_in(range(-100, n)))),
        ("P§ { INTEGER : x } ::= SEQUENCE { a INTEGER (x), b INTEGER ({}) } A§ ::= P§ { {} } ".into(), Box::new(|n| Some(seq(false, vec![fld("a", false, int_in(El::Val(v(n)))?), fld("b", false, int_in(El::Val(v(n)))?)])))),
        ("Q§ { INTEGER : v0§ } ::= INTEGER (-100..v0§) P§ { INTEGER : x } ::= Q§ { x } A§ ::= P§ { {} } ".into(), Box::new(|n| int_in(range(-100, n)))),
    ];
    let nums: &[i128] = if deep { &[0, 1, -1, 5, -8, 255, 256, 65535, 65536, 70000, -100, 1 << 31, 1 << 40] } else { &[0, 1, -1, 5, 255, 65536] };
    let types = ["INTEGER", "Kt§", "Kw§", "Kx§"];
    for (t, mean) in &places { for n in nums {
        let s = mean(*n);
        for depth in 0..=if deep { 5usize } else { 3 } { for ty in types { for last_first in [false, true] { for named in [false, true] {
            if depth == 0 && (ty != "INTEGER" || last_first || named) { continue }
            // v1 ::= literal, v2 ::= v1, ... ; with `named`, names are such that one is a prefix of the next
            let name = |k: usize| if named { format!("v{}§", "-a".repeat(k)) } else { format!("v{}§", k) };
            let mut chain: Vec<String> = (1..=depth).map(|k| format!("{} {} ::= {} ", name(k), ty, if k == 1 { n.to_string() } else { name(k - 1) })).collect();
            let use_ = t.replace("{}", &if depth == 0 { n.to_string() } else { name(depth) });
            if last_first { chain.reverse() }
            let kt = match ty { "Kt§" => "Kt§ ::= INTEGER (-200..MAX) ", "Kw§" => "Kw§ ::= Kt§ Kt§ ::= INTEGER (-200..MAX) ", "Kx§" => "Kt§ ::= INTEGER Kw§ ::= Kt§ (-200..MAX) Kx§ ::= Kw§ ", _ => "" };
            let body = if last_first { format!("{}{}{}", use_, chain.concat(), kt) } else { format!("{}{}{}", kt, chain.concat(), use_) };
            // values the class does not take: K09
            match &s { Some(s) => r.add(Case { body, files: None, want: vec![("A§".into(), s.clone())], verdict: Verdict::Must }), None => if !t.contains("CL§") { r.add(Case::err(body)) } }
        } } } }
    } }
    // large numbers
    for b in [7u32, 8, 15, 16, 31, 32, 47, 62, 63] { for e in -1..=1i128 { for sg in [1i128, -1] {
        let n = sg * (1i128 << b) + e;
        if n > i64::MAX as i128 || n < i64::MIN as i128 { continue }
        for (t, el) in [("A§ ::= INTEGER ({}) ", El::Val(v(n))), ("A§ ::= INTEGER ({}..MAX) ", El::Range(End::V(v(n)), false, false, End::Max)), ("A§ ::= INTEGER (MIN..{}) ", El::Range(End::Min, false, false, End::V(v(n)))), ("P§ { INTEGER : x } ::= INTEGER (x..x) A§ ::= P§ { {} } ", range(n, n))] { for depth in 0..3usize {
            let mut chain = String::new();
            for k in 1..=depth { chain += &format!("v{}§ INTEGER ::= {} ", k, if k == 1 { n.to_string() } else { format!("v{}§", k - 1) }) }
            let body = format!("{}{}", t.replace("{}", &if depth == 0 { n.to_string() } else { format!("v{}§", depth) }), chain);
            if let Some(s) = int_in(el.clone()) { r.add(Case { body, files: None, want: vec![("A§".into(), s)], verdict: Verdict::Must }) }
        } }
    } } }
    // the same over modules
    for (t, mean) in &places { for n in [0, 7, 255] {
        let Some(s) = mean(n) else { continue };
        let plain = |x: String| x.replace('§', "");
        let defs: Vec<Def> = vec![d("v1", plain(format!("v1 Kt ::= {} ", n)), &["Kt"]), d("v2", "v2 INTEGER ::= v1 ", &["v1"]), d("Kt", "Kt ::= INTEGER (-200..MAX) ", &[]), d("rest", plain(t.replace("{}", "v2")), &["v2"])];
        product(&[3, 3, 3, 2], |a| {
            let at = [a[0], a[1], a[2], 2];
            if let Some((ms, cyclic)) = spread(&defs, &at, 3, a[3] == 1, None) { r.add(Case { body: String::new(), files: Some(ms), want: vec![("A".into(), s.clone())], verdict: if cyclic { Verdict::May } else { Verdict::Must } }) }
            if a[3] == 0 { for k in 0..4 { if let Some((ms, _)) = spread(&defs, &at, 3, false, Some(k)) { r.add(Case { body: String::new(), files: Some(ms), want: vec![], verdict: Verdict::MustErr }) } } }
        });
    } }
    // every way to spread a specification over modules
    let specs: Vec<(Vec<Def>, Vec<(&str, Shape)>)> = vec![
        (vec![
            d("CL", "CL ::= CLASS { &id Kt UNIQUE, &T OPTIONAL } WITH SYNTAX { ID &id [TYPE &T] } ", &["Kt"]), d("Kt", "Kt ::= INTEGER (0..255) ", &[]), d("k", "k Kt ::= 17 ", &["Kt"]), d("o", "o CL ::= { ID k TYPE Ty } ", &["CL", "k", "Ty"]), d("Ty", "Ty ::= SEQUENCE { m NULL OPTIONAL } ", &[]), d("S", "S CL ::= { o | { ID 2 TYPE NULL } } ", &["CL", "o"]), d("A", "A ::= SEQUENCE { i CL.&id ({S}), v CL.&T ({S}{@i}) } ", &["CL", "S"]),
        ], vec![("A", seq(false, vec![Field { name: "i".into(), optional: false, key: true, ty: int_of(0, 255) }, fld("v", false, open(vec![(17, seq(false, vec![fld("m", true, Shape::Null)])), (2, Shape::Null)]))])), ("Kt", int_of(0, 255)), ("Ty", seq(false, vec![fld("m", true, Shape::Null)]))]),
        (vec![
            d("CL", "CL ::= CLASS { &id INTEGER (0..255) UNIQUE, &T OPTIONAL } WITH SYNTAX { ID &id [TYPE &T] } ", &[]), d("S", "S CL ::= { { ID 2 TYPE NULL }, ... } ", &["CL"]), d("En", "En { CL : X } ::= SEQUENCE { i CL.&id ({X}), v CL.&T ({X}{@i}) } ", &["CL"]), d("Li", "Li { CL : Y } ::= SEQUENCE (SIZE (0..max)) OF En {{Y}} ", &["CL", "En", "max"]), d("max", "max INTEGER ::= 40 ", &[]), d("A", "A ::= SEQUENCE { l Li {{S}} OPTIONAL } ", &["S", "Li"]),
        ], vec![("A", seq(false, vec![fld("l", true, Shape::List(sz(0, 40), Box::new(seq(false, vec![Field { name: "i".into(), optional: false, key: true, ty: int_of(0, 255) }, fld("v", false, open(vec![(2, Shape::Null)]))]))))]))]),
        (vec![
            d("A", "A ::= SEQUENCE { a B, b C OPTIONAL } ", &["B", "C"]), d("B", "B ::= C ", &["C"]), d("C", "C ::= CHOICE { x D, y SEQUENCE OF D } ", &["D"]), d("D", "D ::= INTEGER (lo..hi) ", &["lo", "hi"]), d("lo", "lo INTEGER ::= -3 ", &[]), d("hi", "hi INTEGER ::= top ", &["top"]), d("top", "top INTEGER ::= 12 ", &[]),
        ], { let dd = int_of(-3, 12); let c = Shape::Choice { lb: Some(0), ub: Some(1), ext: false, alts: vec![alt("x", 0, false, dd.clone()), alt("y", 1, false, Shape::List(ANY, Box::new(dd.clone())))] }; vec![("A", seq(false, vec![fld("a", false, c.clone()), fld("b", true, c.clone())])), ("B", c.clone()), ("C", c), ("D", dd)] }),
        (vec![
            d("P", "P { T, INTEGER : n } ::= SEQUENCE { a T, b OCTET STRING (SIZE (0..n)) OPTIONAL } ", &[]), d("Q", "Q { T } ::= P { T, max } ", &["P", "max"]), d("max", "max INTEGER ::= 9 ", &[]), d("T1", "T1 ::= E ", &["E"]), d("E", "E ::= ENUMERATED { x, y, ... } ", &[]), d("A", "A ::= SEQUENCE { q Q { T1 }, p P { E, 4 } } ", &["Q", "T1", "P", "E"]),
        ], { let e = Shape::Enum { lb: Some(0), ub: Some(1), ext: true, consts: vec![("x".into(), 0), ("y".into(), 1)], width: None }; let p = |n| seq(false, vec![fld("a", false, e.clone()), fld("b", true, Shape::Octets(sz(0, n)))]); vec![("A", seq(false, vec![fld("q", false, p(9)), fld("p", false, p(4))])), ("E", e.clone()), ("T1", e.clone())] }),
    ];
    for (defs, want) in &specs {
        let want: Vec<(String, Shape)> = want.iter().map(|(n, s)| (n.to_string(), s.clone())).collect();
        let n = defs.len();
        for modules in 1..=3usize {
            product(&vec![modules; n], |at| {
                // module names in every role: modules count only up to the one used last
                if (0..modules).any(|m| !at.contains(&m)) { return }
                for via in [false, true] {
                    if via && modules < 3 { continue }
                    let Some((ms, cyclic)) = spread(defs, at, modules, via, None) else { continue };
                    let verdict = if cyclic { Verdict::May } else { Verdict::Must };
                    let layouts: Vec<Vec<String>> = if deep && !cyclic { permutations(modules).into_iter().flat_map(|p| { let v: Vec<String> = p.iter().map(|i| ms[*i].clone()).collect(); vec![v.clone(), vec![v.concat()]] }).collect() } else { vec![if at[0] == 0 { ms.clone() } else { vec![ms.concat()] }] };
                    for files in layouts { r.add(Case { body: String::new(), files: Some(files), want: want.clone(), verdict: verdict.clone() }) }
                    if !via && !cyclic && (deep || modules == 2) { let mut k = 0; while let Some((ms, _)) = spread(defs, at, modules, false, Some(k)) { r.add(Case { body: String::new(), files: Some(ms), want: vec![], verdict: Verdict::MustErr }); k += 1 } }
                }
            });
        }
    }
    // long chains of definitions, in one module and through many
    for n in [9usize, 10, 16, 17, 32, 33, 64, 100, 200] { for rev in [false, true] {
        let join = |mut v: Vec<String>| { if rev { v.reverse() } v.join(" ") };
        r.add(Case { body: join((0..=n).map(|i| if i == 0 { "v0 INTEGER ::= 7".to_string() } else { format!("v{} INTEGER ::= v{}", i, i - 1) }).chain([format!("A ::= SEQUENCE {{ a INTEGER (0..v{}), b OCTET STRING (SIZE (v{})) }}", n, n)]).collect()), files: None, want: vec![("A".into(), seq(false, vec![fld("a", false, int_of(0, 7)), fld("b", false, Shape::Octets(sz(7, 7)))]))], verdict: Verdict::Must });
        r.add(Case { body: join((0..=n).map(|i| if i == 0 { "T0 ::= INTEGER (0..5)".to_string() } else { format!("T{} ::= T{}", i, i - 1) }).chain([format!("A ::= SEQUENCE {{ a T{} }}", n)]).collect()), files: None, want: vec![("A".into(), seq(false, vec![fld("a", false, int_of(0, 5))])), (format!("T{}", n), int_of(0, 5))], verdict: Verdict::Must });
        if n > 64 { continue }
        let mut sh = int_of(0, 5);
        let mut v = vec![];
        for i in 0..=n {
            if i > 0 { sh = seq(false, vec![fld("a", i % 3 == 0, sh)]) }
            v.push(format!("M{} DEFINITIONS AUTOMATIC TAGS ::= BEGIN {} T{} ::= {} END ", i, if i == 0 { String::new() } else { format!("IMPORTS T{} FROM M{};", i - 1, i - 1) }, i, if i == 0 { "INTEGER (0..5)".to_string() } else { format!("SEQUENCE {{ a T{}{} }}", i - 1, if i % 3 == 0 { " OPTIONAL" } else { "" }) }));
        }
        if rev { v.reverse() }
        for files in [vec![v.concat()], v] { r.add(Case { body: String::new(), files: Some(files), want: vec![(format!("T{}", n), sh.clone())], verdict: Verdict::Must }) }
    } }
    // imported again and again
    for n in [2usize, 3, 9, 17, 40] { for rev in [false, true] {
        let mut v = vec!["M0 DEFINITIONS AUTOMATIC TAGS ::= BEGIN T ::= SEQUENCE { a INTEGER (0..v) } v INTEGER ::= 3 END ".to_string()];
        for i in 1..=n { v.push(format!("M{} DEFINITIONS AUTOMATIC TAGS ::= BEGIN IMPORTS T, v FROM M{}; U{} ::= SEQUENCE {{ t T, i INTEGER (v..{}) }} END ", i, i - 1, i, i + 3)) }
        if rev { v.reverse() }
        let want = (1..=n).map(|i| (format!("U{}", i), seq(false, vec![fld("t", false, seq(false, vec![fld("a", false, int_of(0, 3))])), fld("i", false, int_of(3, i as i128 + 3))]))).collect();
        r.add(Case { body: String::new(), files: Some(v), want, verdict: Verdict::May });
    } }
    // a name that exists, but not in the module it is imported from
    let m = |n: &str, imports: &str, body: &str| format!("{} DEFINITIONS AUTOMATIC TAGS ::= BEGIN {} {} END ", n, imports, body);
    for (def, use_, name) in [("X ::= NULL", "SEQUENCE { a X }", "X"), ("x INTEGER ::= 4", "INTEGER (0..x)", "x"), ("X { T } ::= SEQUENCE { a T }", "X { B }", "X")] {
        for (from, lib, ok) in [("Lib", "", true), ("Other", "", false), ("Other", "lib", true)] {
            let other = m("Other", &if lib.is_empty() { String::new() } else { format!("IMPORTS {} FROM Lib;", name) }, "Oo ::= NULL");
            let main = m("Main", &format!("IMPORTS {} FROM {};", name, from), &format!("B ::= NULL A ::= {}", use_));
            let v = vec![m("Lib", "", def), other, main];
            for p in permutations(3) { r.add(Case { body: String::new(), files: Some(p.iter().map(|i| v[*i].clone()).collect()), want: if ok { vec![("A".into(), Shape::Any)] } else { vec![] }, verdict: if ok { Verdict::Must } else { Verdict::MustErr } }) }
        }
    }
    // a name imported from two modules stands for neither; one that is defined here as well stands for this one
    for (n, d1, d2, user, local) in [("v", "v INTEGER ::= 1", "v INTEGER ::= 2", "A ::= INTEGER (0..v)", int_of(0, 2)), ("v", "v INTEGER ::= 1", "v INTEGER ::= 1", "A ::= INTEGER (0..v)", int_of(0, 1)), ("vv-v", "vv-v INTEGER ::= 1", "vv-v INTEGER ::= 2", "A ::= OCTET STRING (SIZE (vv-v))", Shape::Octets(sz(2, 2))),
        ("T", "T ::= BOOLEAN", "T ::= NULL", "A ::= SEQUENCE { a T }", seq(false, vec![fld("a", false, Shape::Null)])), ("T", "T ::= NULL", "T ::= NULL", "A ::= T", Shape::Null),
        ("P", "P { T } ::= SEQUENCE { a T }", "P { T } ::= SEQUENCE { b T }", "A ::= P { NULL }", seq(false, vec![fld("b", false, Shape::Null)])),
        ("S", "S CL ::= { { ID 1 TYPE NULL } }", "S CL ::= { { ID 2 TYPE NULL } }", "A ::= SEQUENCE { i CL.&id ({S}), v CL.&T ({S}{@i}) }", Shape::Any), ("o", "o CL ::= { ID 1 TYPE NULL }", "o CL ::= { ID 2 TYPE NULL }", "S CL ::= { o } A ::= SEQUENCE { i CL.&id ({S}), v CL.&T ({S}{@i}) }", Shape::Any)] {
        let class = user.contains("CL");
        let cl = m("Cm", "", if class { "CL ::= CLASS { &id INTEGER (0..255) UNIQUE, &T OPTIONAL } WITH SYNTAX { ID &id [TYPE &T] }" } else { "Cu ::= NULL" });
        let ic = if class { "CL FROM Cm " } else { "" };
        let imp = |x: &str| if x.is_empty() { String::new() } else { format!("IMPORTS {};", x) };
        for used in [true, false] { for extra in ["", "w INTEGER ::= 9", "W ::= NULL"] { for swapped in [false, true] { for second in [0, 1, 2] {
            let lists = ["P", "Q"].map(|q| format!("{} FROM {} ", n, q));
            let lists: String = if swapped { lists.iter().rev().cloned().collect() } else { lists.concat() };
            let (p1, q1) = (m("P", &imp(ic), d1), m("Q", &imp(ic), &if swapped { format!("{} {}", d2, extra) } else { format!("{} {}", extra, d2) }));
            let u = if used { user } else { "B ::= NULL" };
            let (main, want, verdict) = match second {
                0 => (m("R", &imp(&format!("{}{}", ic, lists)), u), vec![], if used { Verdict::MustErr } else { Verdict::May }),
                // one of the two comes by way of a module between
                1 => (m("R", &imp(&format!("{}{} FROM Between {} FROM Q", ic, n, n)), u), vec![], if used { Verdict::MustErr } else { Verdict::May }),
                _ => (m("R", &imp(&format!("{}{} FROM P", ic, n)), &format!("{} {}", u, d2)), if used { vec![("A".to_string(), local.clone())] } else { vec![] }, Verdict::May),
            };
            let between = m("Between", &imp(&format!("{}{} FROM P", ic, n)), "Bt ::= NULL");
            let mut ms = vec![cl.clone(), p1, q1, between, main];
            if swapped { ms.reverse() }
            r.add(Case { body: String::new(), files: Some(ms.clone()), want: want.clone(), verdict: verdict.clone() });
            r.add(Case { body: String::new(), files: Some(vec![ms.concat()]), want, verdict });
        } } } }
    }
    // values of enumerated and named numbers, values that are no numbers
    for (body, s) in [
        ("v§ INTEGER ::= -v1§ v1§ INTEGER ::= 4 A§ ::= INTEGER (v§)", None),
        ("T§ ::= INTEGER { two(2) } v§ T§ ::= two A§ ::= INTEGER (0..v§)", Some(int_of(0, 2))),
        ("T§ ::= INTEGER { two(2) } two§ INTEGER ::= 3 A§ ::= INTEGER (0..two§)", Some(int_of(0, 3))),
        ("v§ BOOLEAN ::= TRUE A§ ::= INTEGER (0..v§)", None), ("v§ NULL ::= NULL A§ ::= INTEGER (0..v§)", None), ("T§ ::= ENUMERATED { a, b } v§ T§ ::= b A§ ::= INTEGER (0..v§)", None), ("v§ UTF8String ::= \"x\" A§ ::= INTEGER (0..v§)", None), ("v§ OCTET STRING ::= '05'H A§ ::= INTEGER (0..v§)", None),
        ("v§ BOOLEAN ::= TRUE A§ ::= OCTET STRING (SIZE (v§))", None), ("v§ INTEGER ::= TRUE A§ ::= INTEGER (0..v§)", None), ("v§ INTEGER ::= Ty§ Ty§ ::= NULL A§ ::= INTEGER (0..v§)", None), ("v§ INTEGER ::= v§ A§ ::= INTEGER (0..v§)", None), ("v§ INTEGER ::= w§ w§ INTEGER ::= v§ A§ ::= INTEGER (0..v§)", None), ("v§ INTEGER ::= w§ w§ INTEGER ::= v§ A§ ::= NULL", None), ("v§ BOOLEAN ::= TRUE w§ INTEGER ::= v§ A§ ::= INTEGER (0..w§)", None),
    ] { match s { None => r.add(Case::err(body)), Some(s) => r.add(Case::must(body, vec![("A§", s)]).may()) } }
    // within its type a named number hides a value of the same name, and does not depend on it
    for (body, s) in [
        ("A§ ::= INTEGER { two§(2) } (0..two§) two§ A§ ::= 1", int_of(0, 2)),
        ("A§ ::= INTEGER { two§(2), one§(1) } (one§ | two§) two§ INTEGER ::= 7 one§ A§ ::= 1", int_of(1, 2)),
        ("A§ ::= SEQUENCE { a INTEGER { two§(2) } (0..two§), b INTEGER (0..two§) } two§ INTEGER ::= 3", seq(false, vec![fld("a", false, int_of(0, 2)), fld("b", false, int_of(0, 3))])),
    ] { r.add(Case::must(body, vec![("A§", s)])) }
    // values of an ENUMERATED type are its items (or other values of it)
    for items in ["aa", "aa, bb", "aa (5), bb (2)", "aa, ...", "aa, bb, ..., cc", "aa (7), ..., cc (9), bb"] {
        for (ty, more) in [("E§", ""), ("F§", "F§ ::= E§ "), ("G§", "G§ ::= F§ F§ ::= E§ ")] {
            for item in ["aa", "bb", "cc", "dd", "aaa", "a", "ee§"] {
                let known = item == "ee§" || items.split(|c: char| !c.is_ascii_alphabetic()).any(|x| x == item);
                for (value, chain) in [("v§ # ::= %", ""), ("w§ # ::= %", "v§ # ::= w§ "), ("v§ # ::= %", "x§ # ::= aa ")] {
                    let body = format!("E§ ::= ENUMERATED {{ {} }} {}ee§ E§ ::= aa {}{}", items, more, format!("{} ", value.replace('%', item)).replace('#', ty), chain.replace('#', ty));
                    if known { r.add(Case::must(body, vec![("E§", Shape::Any)])) } else { r.add(Case::err(body)) }
                }
            }
        }
    }
    r.finish();
    c.assume("values are numbers; whether a value is within its own type is not checked by the compiler and outside the space");
}
