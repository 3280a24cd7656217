//! K02: the compiler terminates with code or an error, on every text of a bounded space.
use crate::lex::{lex, Lexed};
use crate::run::*;
use mc_model::report::*;

pub const ALPHA: &[&str] = &["INTEGER", "BOOLEAN", "SEQUENCE", "OF", "CHOICE", "ENUMERATED", "OCTET", "STRING", "BIT", "NULL", "UTF8String", "SIZE", "OPTIONAL", "DEFAULT", "CLASS", "UNIQUE", "WITH", "SYNTAX", "FROM", "MAX", "MIN", "OBJECT", "CONTAINING", "END",
    "A", "B", "a", "C", "&id", "&T", "ID", "{", "}", "(", ")", "[[", "]]", "[", "]", "...", "..", "::=", ":", ",", "|", "^", "!", ".", ";", "1", "-1", "99999999999999999999999999999999999999999", "'0'B", "\"s\"", "@id", "<"];
const CORE: &[&str] = &["INTEGER", "SEQUENCE", "OF", "SIZE", "OPTIONAL", "A", "a", "C", "&T", "{", "}", "(", ")", "[[", "]]", "...", "..", "::=", ",", "|", "^", ".", "1", "MAX", "@id"];

const LIB: &str = " a INTEGER ::= 5  B ::= INTEGER (0..7)  C ::= CLASS { &id INTEGER UNIQUE, &T OPTIONAL } WITH SYNTAX { ID &id [TYPE &T] }  c1 C ::= { ID 1 TYPE B }  S C ::= { c1 | { ID a TYPE BOOLEAN }, ... }  P { T, INTEGER : v } ::= SEQUENCE { p T, q INTEGER (0..v) } ";

fn contexts() -> Vec<(&'static str, String)> {
    let m = |x: &str| format!("M DEFINITIONS AUTOMATIC TAGS ::= BEGIN {} {} END", x, LIB);
    vec![
        ("module body", m("□")), ("type", m("A ::= □")), ("sequence body", m("A ::= SEQUENCE { □ }")), ("component", m("A ::= SEQUENCE { a □ }")),
        ("choice body", m("A ::= CHOICE { □ }")), ("enumeration", m("A ::= ENUMERATED { □ }")), ("integer constraint", m("A ::= INTEGER ( □ )")), ("integer names", m("A ::= INTEGER { □ }")),
        ("size", m("A ::= OCTET STRING (SIZE ( □ ))")), ("string constraint", m("A ::= UTF8String ( □ )")), ("bit names", m("A ::= BIT STRING { □ }")),
        ("actual parameters", m("A ::= P { □ }")), ("second parameter", m("A ::= P { B, □ }")), ("dummy parameters", m("A { □ } ::= SEQUENCE { a T }")),
        ("class", m("D ::= CLASS { □ }")), ("syntax", m("D ::= CLASS { &id INTEGER UNIQUE, &T } WITH SYNTAX { □ }")),
        ("object", m("o C ::= { □ }")), ("object set", m("O C ::= { □ }")), ("open type", m("A ::= SEQUENCE { id C.&id ({S}), v C.&T □ }")), ("table constraint", m("A ::= SEQUENCE { id C.&id ({S}), v C.&T ({S}{□}) }")),
        ("value", m("x B ::= □")), ("value type", m("x □ ::= 1")), ("sequence of", m("A ::= SEQUENCE (SIZE (1..a)) OF □")), ("sequence size", m("A ::= SEQUENCE □ OF B")),
        ("addition group", m("A ::= SEQUENCE { b B, ..., [[ □ ]], ... , d B }")), ("choice group", m("A ::= CHOICE { b B, ..., [[ □ ]] }")),
        ("imports", format!("M DEFINITIONS AUTOMATIC TAGS ::= BEGIN IMPORTS □ ; {} END N DEFINITIONS ::= BEGIN A ::= NULL END", LIB)),
        ("header", "M □ BEGIN A ::= NULL END".into()), ("start", "□".into()), ("after a module", "M DEFINITIONS ::= BEGIN A ::= NULL END □".into()), ("oid", "M { □ } DEFINITIONS ::= BEGIN A ::= NULL END".into()),
        ("exports", "M DEFINITIONS ::= BEGIN EXPORTS □ ; A ::= NULL END".into()),
    ]
}

/// Small specifications that together use everything the parser knows.
pub fn seeds() -> Vec<String> {
    vec![
        format!("M DEFINITIONS AUTOMATIC TAGS ::= BEGIN {} E ::= ENUMERATED {{ x, y (4), ..., z }} Q ::= SEQUENCE {{ a [0] INTEGER (0..10, ...) OPTIONAL, b E DEFAULT x, ..., [[ 2: c BOOLEAN ]], ... , d NULL }} END", LIB),
        format!("M DEFINITIONS AUTOMATIC TAGS ::= BEGIN {} F ::= SEQUENCE {{ id C.&id ({{S}}), v C.&T ({{S}}{{@id}}) }} R ::= SEQUENCE (SIZE (0..a)) OF P {{ B, 9 }} H ::= CHOICE {{ r R, f F, ..., [[ g NULL ]] }} END", LIB),
        "M { iso (1) standard (0) 3 } DEFINITIONS AUTOMATIC TAGS ::= BEGIN EXPORTS ALL; IMPORTS A, b FROM N C FROM O ; T ::= SEQUENCE { a A, c INTEGER (0..b), d OCTET STRING (SIZE (1..b, ...)), e BIT STRING { one (0), two (1) } (SIZE (2)) } X { C : S } ::= SEQUENCE (SIZE (1..b)) OF Y { { S } } Y { C : S } ::= SEQUENCE { id C.&id ({S}), v C.&V ({S}{@id}) } Z ::= X { { Os } } Os C ::= { { ID 1 TYPE T } | { ID 2 TYPE A } , ... } END N DEFINITIONS ::= BEGIN A ::= INTEGER (1 | 2 | 5..9) b INTEGER ::= 7 END O DEFINITIONS ::= BEGIN C ::= CLASS { &id INTEGER UNIQUE , &V } WITH SYNTAX { ID &id TYPE &V } END".to_string(),
        "M DEFINITIONS ::= BEGIN A ::= INTEGER { one (1), two (2) } (one | two) B ::= UTF8String (SIZE (1..4)) (FROM (\"a\"..\"z\")) D ::= OCTET STRING (CONTAINING A) F ::= OBJECT IDENTIFIER G ::= SET OF A H ::= INTEGER (MIN..5 ^ 0..MAX) I ::= PrintableString (SIZE (1..10) ^ FROM (\"abc\")) v A ::= one w INTEGER ::= -5 o OBJECT IDENTIFIER ::= { iso 3 } END".to_string(),
    ]
}

fn words(s: &str) -> Vec<String> { match lex(s) { Lexed::Items { items, .. } => items.into_iter().map(|i| match i.kind { crate::lex::Kind::BStr => format!("{}B", i.text), crate::lex::Kind::HStr => format!("{}H", i.text), _ => i.text }).collect(), _ => panic!("seed") } }

fn strings(name: String, ctx: String, alpha: &'static [&'static str], n: u32) -> Group {
    let k = alpha.len() as u64;
    Group { name: format!("{}, {} tokens", name, n), len: k.pow(n), get: Box::new(move |mut i| {
        let mut s = String::new();
        for _ in 0..n { s.push_str(alpha[(i % k) as usize]); s.push(' '); i /= k }
        vec![ctx.replace("□", &s)]
    }) }
}

/// Recursive constructs, nested n deep.
fn nests() -> Vec<(&'static str, fn(usize) -> String)> {
    fn m(x: String) -> String { format!("M DEFINITIONS ::= BEGIN {} {} END", x, LIB) }
    vec![
        ("SEQUENCE OF", |n| m(format!("A ::= {} NULL", "SEQUENCE OF ".repeat(n)))),
        ("SET OF", |n| m(format!("A ::= {} NULL", "SET OF ".repeat(n)))),
        ("SEQUENCE (SIZE) OF", |n| m(format!("A ::= {} NULL", "SEQUENCE (SIZE (1)) OF ".repeat(n)))),
        ("SEQUENCE {", |n| m(format!("A ::= {} NULL {}", "SEQUENCE { a ".repeat(n), "}".repeat(n)))),
        ("CHOICE {", |n| m(format!("A ::= {} NULL {}", "CHOICE { a ".repeat(n), "}".repeat(n)))),
        ("unclosed SEQUENCE {", |n| m(format!("A ::= {} NULL", "SEQUENCE { a ".repeat(n)))),
        ("group", |n| m(format!("A ::= {} NULL {}", "SEQUENCE { ..., [[ a ".repeat(n), "]] }".repeat(n)))),
        ("choice group", |n| m(format!("A ::= {} NULL {}", "CHOICE { b NULL, ..., [[ a ".repeat(n), "]] }".repeat(n)))),
        ("(", |n| m(format!("A ::= INTEGER {} 1 {}", "(".repeat(n), ")".repeat(n)))),
        ("( only", |n| m(format!("A ::= INTEGER {}", "(".repeat(n)))),
        ("SIZE (", |n| m(format!("A ::= OCTET STRING {} 1 {}", "(SIZE ".repeat(n), ")".repeat(n)))),
        ("INTEGER constraint list", |n| m(format!("A ::= INTEGER {}", "(1)".repeat(n)))),
        ("union", |n| m(format!("A ::= INTEGER (1 {})", "| 1".repeat(n)))),
        ("intersection", |n| m(format!("A ::= INTEGER (1 {})", "^ 1".repeat(n)))),
        ("{", |n| m(format!("A ::= P {} {}", "{".repeat(n), "}".repeat(n)))),
        ("P{", |n| m(format!("A ::= {} B {}", "P {".repeat(n), ", 1}".repeat(n)))),
        ("value {", |n| m(format!("v B ::= {} 1 {}", "{".repeat(n), "}".repeat(n)))),
        ("object {", |n| m(format!("o C ::= {} 1 {}", "{".repeat(n), "}".repeat(n)))),
        ("object set {", |n| m(format!("O C ::= {} 1 {}", "{".repeat(n), "}".repeat(n)))),
        ("syntax [", |n| m(format!("D ::= CLASS {{ &id INTEGER }} WITH SYNTAX {{ {} X {} &id }}", "[".repeat(n), "]".repeat(n)))),
        ("containing", |n| m(format!("A ::= {} NULL {}", "OCTET STRING (CONTAINING ".repeat(n), ")".repeat(n)))),
        ("alias chain", |n| m((0..n).map(|i| format!("A{} ::= A{} ", i, i + 1)).collect::<String>() + &format!("A{} ::= NULL", n))),
        ("value chain", |n| m((0..n).map(|i| format!("v{} INTEGER ::= v{} ", i, i + 1)).collect::<String>() + &format!("v{} INTEGER ::= 1 A ::= INTEGER (0..v0)", n))),
        ("object set chain", |n| m((0..n).map(|i| format!("S{} C ::= {{ S{} }} ", i, i + 1)).collect::<String>() + &format!("S{} C ::= {{ c1 }}", n))),
        ("parameter chain", |n| m((0..n).map(|i| format!("A{} {{T}} ::= SEQUENCE {{ a A{}{{T}} }} ", i, i + 1)).collect::<String>() + &format!("A{} {{T}} ::= SEQUENCE {{ a T }} Z ::= A0{{B}}", n))),
        ("doubling parameters", |n| { let n = n.min(12); m((0..n).map(|i| format!("A{} {{T}} ::= SEQUENCE {{ a A{}{{T}}, b A{}{{T}} }} ", i, i + 1, i + 1)).collect::<String>() + &format!("A{} {{T}} ::= SEQUENCE {{ a T }} Z ::= A0{{B}}", n)) }),
        ("comment", |n| m(format!("A ::= NULL --{}", "-".repeat(n)))),
        ("cstring", |n| m(format!("A ::= UTF8String (FROM (\"{}\"))", "\"\"".repeat(n)))),
        ("many components", |n| m(format!("A ::= SEQUENCE {{ {} z NULL }}", (0..n).map(|i| format!("a{} NULL, ", i)).collect::<String>()))),
        ("many items", |n| m(format!("A ::= ENUMERATED {{ {} z }}", (0..n).map(|i| format!("a{}, ", i)).collect::<String>()))),
    ]
}
const DEPTHS: &[usize] = &[1, 2, 3, 5, 8, 16, 32, 33, 64, 65, 100, 128, 129, 200, 256, 257, 300, 400, 512, 700, 1000, 2000, 5000, 20000];

/// Definitions that refer to each other in a circle, in every way the notation has.
fn cycles() -> Vec<String> {
    let m = |x: String| format!("M DEFINITIONS ::= BEGIN {} {} END", x, LIB);
    let edge: &[fn(&str) -> String] = &[
        |r| r.to_string(), |r| format!("SEQUENCE {{ a {} }}", r), |r| format!("SEQUENCE {{ a {} OPTIONAL }}", r), |r| format!("CHOICE {{ a {}, b NULL }}", r),
        |r| format!("SEQUENCE OF {}", r), |r| format!("{} (0..1)", r), |r| format!("P {{ {}, 1 }}", r), |r| format!("OCTET STRING (CONTAINING {})", r), |r| format!("SEQUENCE {{ ..., [[ a {} ]] }}", r),
    ];
    let mut v = vec![];
    for a in edge { v.push(m(format!("A ::= {}", a("A"))));
        for b in edge { v.push(m(format!("A ::= {} D ::= {}", a("D"), b("A"))));
            for c in edge { v.push(m(format!("A ::= {} D ::= {} E ::= {}", a("D"), b("E"), c("A")))); } }
    }
    // parameterized types that instantiate themselves
    let inst: &[&str] = &["A{T}", "A{A}", "T", "T{T}", "A{A{T}}", "D{T}", "D{A}", "T{A}", "A{B}", "A{INTEGER}"];
    for i in inst { for j in inst { for u in ["A{B}", "A{A}", "A{D}", "A{NULL}", "A{A{B}}", "D{A}", "D{D}", "A", "D{B}"] {
        v.push(m(format!("A{{T}} ::= SEQUENCE {{ a {}, b T }} D{{T}} ::= SEQUENCE {{ a {} }} Z ::= {}", i, j, u)));
        v.push(m(format!("A{{T}} ::= {} D{{T}} ::= CHOICE {{ a {} }} Z ::= {}", i, j, u)));
    } } }
    for x in ["a INTEGER ::= a", "x INTEGER ::= y y INTEGER ::= x", "x D ::= 1 D ::= INTEGER (0..x)", "D ::= INTEGER (0..x) x INTEGER ::= y y D ::= 1",
        "O C ::= { O }", "O C ::= { Q } Q C ::= { O }", "O C ::= { { ID 1 TYPE Q } } Q ::= SEQUENCE { id C.&id({O}), v C.&T({O}{@id}) }", "o C ::= o", "o C ::= { ID 1 TYPE D } D ::= SEQUENCE { id C.&id({O}), v C.&T({O}{@id}) } O C ::= { o }",
        "O C ::= { o } o C ::= { ID x TYPE D } x INTEGER ::= x D ::= NULL", "D ::= CLASS { &id D.&id UNIQUE }", "D ::= CLASS { &T D } e D ::= { &T e }", "D ::= D", "D ::= C", "C ::= C"] { v.push(m(x.to_string())) }
    for (i, j) in [("A", "A"), ("A", "B"), ("x", "x"), ("M", "N")] {
        v.push(format!("M DEFINITIONS ::= BEGIN IMPORTS {} FROM N; A ::= B B ::= {} END N DEFINITIONS ::= BEGIN IMPORTS {} FROM M; B ::= A A ::= {} END", i, j, j, i));
        v.push(format!("M DEFINITIONS ::= BEGIN IMPORTS {} FROM M; A ::= {} END", i, j));
        v.push(format!("M DEFINITIONS ::= BEGIN IMPORTS {} FROM N; END N DEFINITIONS ::= BEGIN IMPORTS {} FROM O; END O DEFINITIONS ::= BEGIN IMPORTS {} FROM M; END", i, j, i));
    }
    v
}

pub fn groups(thorough: bool) -> Vec<Group> {
    let mut g = vec![];
    for (name, ctx) in contexts() {
        for n in 0..=3 { g.push(strings(name.into(), ctx.clone(), ALPHA, n)); }
        let deep = ["type", "sequence body", "component", "integer constraint", "object set", "module body"].contains(&name);
        if thorough { g.push(strings(format!("{} (core)", name), ctx.clone(), CORE, 4)); if deep { g.push(strings(format!("{} (all)", name), ctx.clone(), ALPHA, 4)); } }
        else if deep { g.push(strings(format!("{} (core)", name), ctx.clone(), CORE, 4)); }
    }
    for (k, s) in seeds().into_iter().enumerate() {
        let w = words(&s);
        let n = w.len() as u64;
        let a = ALPHA.len() as u64;
        let w1 = w.clone();
        g.push(Group { name: format!("specification {} without tokens i..j", k), len: n * n, get: Box::new(move |x| {
            let (i, l) = ((x / n) as usize, (x % n) as usize);
            let e = (i + l).min(w1.len());
            vec![[&w1[..i], &w1[e..]].concat().join(" ")]
        }) });
        let w2 = w.clone();
        g.push(Group { name: format!("specification {} with one token changed", k), len: n * a, get: Box::new(move |x| { let mut v = w2.clone(); v[(x / a) as usize] = ALPHA[(x % a) as usize].into(); vec![v.join(" ")] }) });
        let w3 = w.clone();
        g.push(Group { name: format!("specification {} with one token inserted", k), len: (n + 1) * a, get: Box::new(move |x| { let mut v = w3.clone(); v.insert((x / a) as usize, ALPHA[(x % a) as usize].into()); vec![v.join(" ")] }) });
        let w4 = w.clone();
        g.push(Group { name: format!("specification {} with two tokens exchanged", k), len: n * n, get: Box::new(move |x| { let mut v = w4.clone(); v.swap((x / n) as usize, (x % n) as usize); vec![v.join(" ")] }) });
        if thorough {
            let w5 = w.clone();
            let c = CORE.len() as u64;
            g.push(Group { name: format!("specification {} with two neighbouring tokens changed", k), len: (n - 1) * c * c, get: Box::new(move |x| { let mut v = w5.clone(); let i = (x / c / c) as usize; v[i] = CORE[(x / c % c) as usize].into(); v[i + 1] = CORE[(x % c) as usize].into(); vec![v.join(" ")] }) });
            let w6 = w.clone();
            g.push(Group { name: format!("specification {} without two tokens", k), len: n * n, get: Box::new(move |x| { let mut v = w6.clone(); let (i, j) = ((x / n) as usize, (x % n) as usize); v.remove(i); if j < v.len() { v.remove(j); } vec![v.join(" ")] }) });
        }
        let len = s.chars().count() as u64;
        let s1 = s.clone();
        g.push(Group { name: format!("specification {} cut short", k), len: len + 1, get: Box::new(move |x| vec![s1.chars().take(x as usize).collect()]) });
        // every character replaced by every one of these
        const CH: &[char] = &['-', '"', '\'', '{', '}', '(', '.', '@', '&', '0', 'A', 'a', ' ', '\n', 'é', '\u{0}'];
        g.push(Group { name: format!("specification {} with one character changed", k), len: len * CH.len() as u64, get: Box::new(move |x| { let i = (x / CH.len() as u64) as usize; vec![s.chars().enumerate().map(|(j, c)| if j == i { CH[(x % CH.len() as u64) as usize] } else { c }).collect()] }) });
    }
    for (name, f) in nests() { g.push(Group { name: format!("nesting {}", name), len: DEPTHS.len() as u64, get: Box::new(move |i| vec![f(DEPTHS[i as usize])]) }); }
    let cy = cycles();
    g.push(Group { name: "circles".into(), len: cy.len() as u64, get: Box::new(move |i| vec![cy[i as usize].clone()]) });
    if thorough {
        // the real specifications cut short at every 97th line, and without one line
        if let Ok(rd) = std::fs::read_dir("/repo/specs") {
            let mut dirs: Vec<_> = rd.flatten().map(|d| d.path()).collect(); dirs.sort();
            for d in dirs {
                let mut fs: Vec<_> = std::fs::read_dir(&d).into_iter().flatten().flatten().map(|f| f.path()).filter(|p| p.extension().map_or(false, |e| e == "asn")).collect(); fs.sort();
                let texts: Vec<String> = fs.iter().filter_map(|f| std::fs::read_to_string(f).ok()).collect();
                for k in 0..texts.len() {
                    let t = texts.clone();
                    let lines = t[k].lines().count() as u64;
                    g.push(Group { name: format!("{} without one line", fs[k].display()), len: lines / 97, get: Box::new(move |i| { let mut v = t.clone(); v[k] = t[k].lines().enumerate().filter(|(j, _)| *j as u64 != i * 97).map(|(_, l)| format!("{}\n", l)).collect(); v }) });
                }
            }
        }
    }
    g
}

pub fn k02(c: &'static Check) {
    let g = groups(c.thorough);
    let total: u64 = g.iter().map(|x| x.len).sum();
    let max = if std::env::var("MC_CONTINUE").is_ok() { 400 } else { 20 };
    let r = sweep("K02", &g, max);
    for (i, what) in &r.bad {
        let (name, files) = case_of(&g, *i);
        let t = files.join("\n--\n");
        let short = if t.len() > 1500 { format!("{} ... ({} characters)", t.chars().take(1500).collect::<String>(), t.len()) } else { t };
        c.violation(format!("K02 {} {}", name, short), format!("{}: {}", name, what));
    }
    c.add_states(r.cases); c.add_traces(r.cases); c.add_transitions(r.cases);
    c.count("texts", r.cases); c.count("texts accepted with code", r.accepted); c.count("groups", g.len() as u64);
    if r.cases < total { c.exhaustive.store(false, std::sync::atomic::Ordering::Relaxed); if r.bad.is_empty() { eprintln!("K02: {} of {} texts", r.cases, total); std::process::exit(2) } }
    c.assume("the main thread has the usual 8 MB stack; a text that takes more than 40 s counts as one that does not terminate");
}
