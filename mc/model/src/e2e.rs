//! Specifications whose generated code is compiled and run: the text of each, and the type (`Top`) it means.
//! Deterministic given `Extra`: the explorer and the writer of the generated crate enumerate the same list.
use crate::family::{family, Group};
use crate::ty::*;

/// Names read off the code under test: every one of them is tried as a name in a specification.
#[derive(Default, Debug, Clone)]
pub struct Extra { pub idents: Vec<String>, pub aux: Vec<String> }
impl Extra {
    pub fn text(&self) -> String { self.idents.iter().map(|s| format!("i {}\n", s)).chain(self.aux.iter().map(|s| format!("a {}\n", s))).collect() }
    pub fn read(t: &str) -> Extra {
        let mut e = Extra::default();
        for l in t.lines() { if let Some(x) = l.strip_prefix("i ") { e.idents.push(x.into()) } else if let Some(x) = l.strip_prefix("a ") { e.aux.push(x.into()) } }
        e
    }
}

pub struct E2e { pub g: Group, pub ty: Ty, pub asn: String, pub top: &'static str, pub what: String, /// values are explored, not only compiled
    pub may: bool }

fn size(r: &Rng) -> String {
    if r.lb.is_none() && r.ub.is_none() { return String::new() }
    let l = r.lb.unwrap_or(0);
    let x = if r.ext { ", ..." } else { "" };
    match r.ub { Some(u) if u == l => format!(" (SIZE ({}{}))", l, x), Some(u) => format!(" (SIZE ({}..{}{}))", l, u, x), None => format!(" (SIZE ({}..MAX{}))", l, x) }
}
fn int(r: &Rng) -> String {
    if r.unbounded() && !r.ext { return "INTEGER".into() }
    let s = |o: Option<i128>, d: &str| o.map(|v| v.to_string()).unwrap_or(d.into());
    let x = if r.ext { ", ..." } else { "" };
    if r.lb.is_some() && r.lb == r.ub { return format!("INTEGER ({}{})", r.lb.unwrap(), x) }
    format!("INTEGER ({}..{}{})", s(r.lb, "MIN"), s(r.ub, "MAX"), x)
}

/// Writes a type; `named` gives every component type a definition of its own.
pub struct Writer { pub defs: Vec<String>, n: usize, named: bool }
impl Writer {
    pub fn new(named: bool) -> Writer { Writer { defs: vec![], n: 0, named } }
    fn place(&mut self, t: &Ty) -> Option<String> {
        let e = self.expr(t)?;
        if !self.named { return Some(e) }
        self.n += 1;
        let n = format!("T{}", self.n);
        self.defs.push(format!("{} ::= {}", n, e));
        Some(n)
    }
    pub fn expr(&mut self, t: &Ty) -> Option<String> {
        Some(match t {
            Ty::Bool => "BOOLEAN".into(),
            Ty::Null => "NULL".into(),
            Ty::Int(r) => int(r),
            Ty::Enum(n, x) => { if *n > 300 { return None } format!("ENUMERATED {{ {}{} }}", (0..*n).map(|i| format!("e{}", i)).collect::<Vec<_>>().join(", "), if *x { ", ..." } else { "" }) }
            Ty::Bits(r) => format!("BIT STRING{}", size(r)),
            Ty::Octets(r) => format!("OCTET STRING{}", size(r)),
            Ty::Str(k, r) => format!("{}{}", match k { StrKind::Visible => "VisibleString", StrKind::Printable => "PrintableString", StrKind::Utf8 => "UTF8String" }, size(r)),
            Ty::SeqOf(r, e) => { let e = self.place(e)?; format!("SEQUENCE{} OF {}", size(r), e) }
            Ty::Choice(a, x, adds) => {
                let mut p = vec![];
                for (i, t) in a.iter().enumerate() { p.push(format!("v{} {}", i, self.place(t)?)); }
                if *x { p.push("...".into()); }
                for (i, t) in adds.iter().enumerate() { p.push(format!("x{} {}", i, self.place(t)?)); }
                format!("CHOICE {{ {} }}", p.join(", "))
            }
            Ty::Seq(cs, x) => {
                let opens: Vec<&Vec<(i128, Ty)>> = cs.iter().filter_map(|c| if let Ty::Open(t) = &c.ty { Some(t) } else { None }).collect();
                let mut cls = String::new();
                if let Some(f) = opens.first() {
                    let key = cs.iter().find(|c| c.key)?;
                    if !matches!(key.ty, Ty::Int(_)) || opens.iter().any(|o| o.iter().map(|x| x.0).ne(f.iter().map(|x| x.0))) { return None }
                    self.n += 1;
                    cls = format!("{}", self.n);
                    let k = self.place(&key.ty)?;
                    let w = |i: usize| (b'A' + i as u8) as char;
                    self.defs.push(format!("CL-{} ::= CLASS {{ &id {} UNIQUE{} }} WITH SYNTAX {{ ID &id{} }}", cls, k, (0..opens.len()).map(|i| format!(", &V{}", i)).collect::<String>(), (0..opens.len()).map(|i| format!(" V{} &V{}", w(i), i)).collect::<String>()));
                    let mut rows = vec![];
                    for (j, (k, _)) in f.iter().enumerate() {
                        let mut r = format!("{{ ID {}", k);
                        for (i, o) in opens.iter().enumerate() { r += &format!(" V{} {}", w(i), self.place(&o[j].1)?); }
                        rows.push(r + " }");
                    }
                    self.defs.push(format!("Set{} CL-{} ::= {{ {} }}", cls, cls, rows.join(" | ")));
                }
                let (mut p, mut o) = (vec![], 0);
                for (i, c) in cs.iter().enumerate() {
                    let t = match &c.ty {
                        Ty::Open(_) => { o += 1; format!("CL-{}.&V{} ({{Set{}}}{{@c{}}})", cls, o - 1, cls, key_index(cs, i)?) }
                        _ if c.key && !cls.is_empty() => format!("CL-{}.&id ({{Set{}}})", cls, cls),
                        t => self.place(t)?,
                    };
                    p.push(format!("c{} {}{}", i, t, if c.optional { " OPTIONAL" } else { "" }));
                }
                if *x { p.push("...".into()) }
                format!("SEQUENCE {{ {} }}", p.join(", "))
            }
            _ => return None,
        })
    }
}
pub fn module(defs: &[String]) -> String { format!("M DEFINITIONS AUTOMATIC TAGS ::= BEGIN\n{}\nEND\n", defs.join("\n")) }

fn i(l: i128, u: i128) -> Ty { Ty::Int(Rng::new(l, u)) }
fn oct() -> Ty { Ty::Octets(Rng::none()) }
fn seq(c: Vec<Comp>) -> Ty { Ty::Seq(c, false) }

const KEYWORDS: &str = "as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref return self static struct super trait true type unsafe use where while async await dyn abstract become box do final macro override priv typeof unsized virtual yield try gen union auto default raw safe \
 u8 i8 u16 u32 u64 i64 i128 usize isize bool char str f32 f64 std core alloc vec string option result some none ok err drop clone copy eq main test cfg derive debug println format panic assert todo len push iter into from map new value key id data index asn asn1-codecs bitvec log syn";
const TYPES: &str = "Self Box Vec String Option Some None Result Ok Err Clone Copy Debug Default Drop Eq Fn FnMut FnOnce From Into Iterator IntoIterator Extend DoubleEndedIterator ExactSizeIterator Ord PartialEq PartialOrd Hash Send Sized Sync Unpin ToString ToOwned TryFrom TryInto AsRef AsMut FromIterator \
 AperCodec AperCodecData AperCodecError BitVec Msb0 Bitvec Std Core Type Struct Enum Match Str U8 I128 Bool Rc Arc Cell Cow Error Formatter Arguments Display Value Entry Item Output";

fn words(s: &str) -> Vec<String> { s.split_whitespace().map(|x| x.to_string()).collect() }
fn dedup(v: Vec<String>) -> Vec<String> { let mut seen = std::collections::HashSet::new(); v.into_iter().filter(|x| seen.insert(x.clone())).collect() }

/// All identifiers of the alphabet up to a length.
fn spellings(first: &[char], rest: &[char], n: usize) -> Vec<String> {
    let mut v: Vec<String> = first.iter().map(|c| c.to_string()).collect();
    let mut last = v.clone();
    for _ in 1..n {
        last = last.iter().flat_map(|s| rest.iter().map(move |c| format!("{}{}", s, c))).filter(|s| !s.contains("--")).collect();
        v.extend(last.iter().cloned());
    }
    v.into_iter().filter(|s| !s.ends_with('-')).collect()
}

/// The specification that helper names are read off.
pub fn aux_base() -> (Ty, Vec<String>) {
    let ty = seq(vec![
        Comp::m(seq(vec![Comp::m(Ty::Bool), Comp::o(i(0, 6))])),
        Comp::m(Ty::Choice(vec![Ty::Null, seq(vec![Comp::m(Ty::Bool)])], true, vec![])),
        Comp::m(Ty::Enum(3, false)),
        Comp::o(Ty::SeqOf(Rng::new(0, 3), Box::new(Ty::SeqOf(Rng::new(0, 2), Box::new(seq(vec![Comp::m(i(0, 255))])))))),
        Comp::m(seq(vec![Comp::k(i(0, 255)), Comp::m(Ty::Open(vec![(1, Ty::Bool), (2, i(0, 7))]))])),
        Comp::m(Ty::Bits(Rng::new(3, 3))), Comp::m(oct()), Comp::m(Ty::Str(StrKind::Utf8, Rng::none())),
    ]);
    let mut w = Writer::new(false);
    let e = w.expr(&ty).unwrap();
    w.defs.push(format!("Top ::= {}", e));
    (ty, w.defs)
}

fn name_cases(x: &Extra, v: &mut Vec<E2e>) {
    let lower = |s: &String| s.chars().next().map_or(false, |c| c.is_ascii_lowercase()) && s.chars().all(|c| c.is_ascii_alphanumeric() || c == '-') && !s.contains("--") && !s.ends_with('-');
    let upper = |s: &String| s.chars().next().map_or(false, |c| c.is_ascii_uppercase()) && s.chars().any(|c| c.is_ascii_lowercase()) && s.chars().all(|c| c.is_ascii_alphanumeric() || c == '-') && !s.contains("--") && !s.ends_with('-');
    let from = |s: &String| s.trim_start_matches('_').replace('_', "-");
    let ids = dedup(words(KEYWORDS).into_iter().chain(x.idents.iter().map(from)).chain(words(TYPES).iter().map(|s| s.to_lowercase())).filter(|s| lower(s)).collect());
    let tys = dedup(words(TYPES).into_iter().chain(x.idents.iter().map(from)).filter(|s| upper(s) && s != "Top").collect());
    let mut add = |what: String, ty: Ty, defs: Vec<String>, _run: bool| v.push(E2e { g: Group::Seq, ty, asn: module(&defs), top: if defs.iter().any(|d| d.contains("ZTop ::=")) { "ZTop" } else { "Top" }, what, may: false });
    let pal = [Ty::Bool, i(0, 6), i(0, 255), oct(), Ty::Null];
    let txt = |t: &Ty| Writer::new(false).expr(t).unwrap();
    // spelled names of many kinds as components, alternatives, items, numbers, values
    let spelled = spellings(&['a'], &['a', 'B', '-', '1'], 4);
    let spelled2 = spellings(&['a', 'x'], &['A', 'b', '2'], 4);
    let mut chunks: Vec<(String, Vec<String>)> = ids.chunks(12).map(|c| (format!("{}..", c[0]), c.to_vec())).collect();
    chunks.push(("spelled alike".into(), spelled.clone())); chunks.push(("spelled alike, with digits".into(), spelled2.clone()));
    for (w, c) in &chunks {
        let comps: Vec<Ty> = (0..c.len()).map(|j| pal[j % 5].clone()).collect();
        let fields = |opt: bool| c.iter().zip(&comps).map(|(n, t)| format!("{} {}{}", n, txt(t), if opt { " OPTIONAL" } else { "" })).collect::<Vec<_>>().join(", ");
        let small = c.len() <= 12;
        add(format!("components {}", w), seq(comps.iter().cloned().map(Comp::m).collect()), vec![format!("Top ::= SEQUENCE {{ {} }}", fields(false))], true);
        add(format!("optional components {}", w), Ty::Seq(comps.iter().cloned().map(Comp::o).collect(), true), vec![format!("Top ::= SEQUENCE {{ {}, ... }}", fields(true))], small);
        add(format!("alternatives {}", w), Ty::Choice(comps.clone(), true, vec![]), vec![format!("Top ::= CHOICE {{ {}, ... }}", fields(false))], true);
        add(format!("added alternatives {}", w), Ty::Choice(vec![Ty::Bool], true, comps.clone()), vec![format!("Top ::= CHOICE {{ zz BOOLEAN, ..., {} }}", fields(false))], true);
        add(format!("items, numbers, values {}", w), seq(vec![Comp::m(Ty::Enum(c.len() as u32, false)), Comp::m(i(0, 1000)), Comp::m(Ty::Enum(1, true)), Comp::m(Ty::Bits(Rng::new(4, 4)))]),
            vec![format!("Top ::= SEQUENCE {{ e Enm, i Int, x Ext, b Bts }}\nEnm ::= ENUMERATED {{ {} }}", c.join(", ")), format!("Int ::= INTEGER {{ {} }} (0..1000)", c.iter().enumerate().map(|(j, n)| format!("{} ({})", n, j)).collect::<Vec<_>>().join(", ")),
                format!("Ext ::= ENUMERATED {{ zz, ..., {} }}", c.join(", ")), format!("Bts ::= BIT STRING {{ {} }} (SIZE (4))", c.iter().enumerate().map(|(j, n)| format!("{} ({})", n, j)).collect::<Vec<_>>().join(", ")),
                c.iter().enumerate().map(|(j, n)| format!("{} INTEGER ::= {}", n, j)).collect::<Vec<_>>().join("\n")], true);
        // inline constructed components: helper types named after the components
        let inl: Vec<Ty> = (0..c.len()).map(|j| [seq(vec![Comp::m(i(0, 255))]), Ty::Choice(vec![Ty::Null, Ty::Bool], false, vec![]), Ty::SeqOf(Rng::new(0, 2), Box::new(seq(vec![Comp::m(Ty::Bool)]))), Ty::Enum(3, false)][j % 4].clone()).collect();
        add(format!("constructed components {}", w), seq(inl.iter().cloned().map(Comp::m).collect()), vec![format!("Top ::= SEQUENCE {{ {} }}", c.iter().zip(&inl).map(|(n, t)| format!("{} {}", n, txt(t))).collect::<Vec<_>>().join(", "))], small);
        add(format!("constructed alternatives {}", w), Ty::Choice(inl.clone(), false, vec![]), vec![format!("Top ::= CHOICE {{ {} }}", c.iter().zip(&inl).map(|(n, t)| format!("{} {}", n, txt(t))).collect::<Vec<_>>().join(", "))], true);
        // as key and as open type, as object names
        let open = Ty::Open(vec![(1, Ty::Bool), (2, i(0, 255))]);
        let cl = "CL ::= CLASS { &id INTEGER (0..255) UNIQUE, &Value } WITH SYNTAX { ID &id V &Value }\nSet CL ::= { { ID 1 V BOOLEAN } | { ID 2 V INTEGER (0..255) } }".to_string();
        if small {
            let n = c.len() as i128;
            add(format!("objects {}", w), seq(vec![Comp::k(i(0, 255)), Comp::m(Ty::Open((0..n).map(|j| (j, pal[j as usize % 5].clone())).collect()))]),
                vec!["CL ::= CLASS { &id INTEGER (0..255) UNIQUE, &Value } WITH SYNTAX { ID &id V &Value }\nTop ::= SEQUENCE { id CL.&id ({Set}), v CL.&Value ({Set}{@id}) }".into(), format!("Set CL ::= {{ {} }}", c.join(" | ")),
                    c.iter().enumerate().map(|(j, o)| format!("{} CL ::= {{ ID {} V {} }}", o, j, txt(&pal[j % 5]))).collect::<Vec<_>>().join("\n")], true);
            for (k, half) in c.chunks(4).enumerate() {
                let one = |key: bool, j: usize, nm: &String| if key { format!("s{} SEQUENCE {{ {} CL.&id ({{Set}}), opn CL.&Value ({{Set}}{{@{}}}) }}", j, nm, nm) } else { format!("s{} SEQUENCE {{ zid CL.&id ({{Set}}), {} CL.&Value ({{Set}}{{@zid}}) }}", j, nm) };
                let ty = seq(vec![Comp::k(i(0, 255)), Comp::m(open.clone())]);
                add(format!("keys {} {}", w, k), seq(half.iter().map(|_| Comp::o(ty.clone())).collect()), vec![cl.clone(), format!("Top ::= SEQUENCE {{ {} }}", half.iter().enumerate().map(|(j, n)| one(true, j, n) + " OPTIONAL").collect::<Vec<_>>().join(", "))], true);
                add(format!("open types {} {}", w, k), seq(half.iter().map(|_| Comp::o(ty.clone())).collect()), vec![cl.clone(), format!("Top ::= SEQUENCE {{ {} }}", half.iter().enumerate().map(|(j, n)| one(false, j, n) + " OPTIONAL").collect::<Vec<_>>().join(", "))], true);
            }
        }
    }
    // type names
    let shapes: Vec<(Ty, &str)> = vec![(Ty::Null, "NULL"), (i(0, 255), "INTEGER (0..255)"), (seq(vec![Comp::o(Ty::Bool), Comp::m(oct())]), "SEQUENCE { a BOOLEAN OPTIONAL, b OCTET STRING }"), (Ty::Choice(vec![Ty::Bool, Ty::Null], true, vec![]), "CHOICE { a BOOLEAN, b NULL, ... }"), (Ty::Enum(2, false), "ENUMERATED { a, b }"), (Ty::SeqOf(Rng::new(0, 2), Box::new(Ty::Bool)), "SEQUENCE (SIZE (0..2)) OF BOOLEAN")];
    let spelled_t = spellings(&['A'], &['a', 'B', '-', '1'], 4).into_iter().filter(upper).collect::<Vec<_>>();
    let mut chunks: Vec<(String, Vec<String>)> = tys.chunks(8).map(|c| (format!("{}..", c[0]), c.to_vec())).collect();
    for c in spelled_t.chunks(12) { chunks.push((format!("spelled alike {}..", c[0]), c.to_vec())); }
    for (k, (w, c)) in chunks.iter().enumerate() {
        let alike = w.starts_with("spelled");
        for (m, (t, tx)) in shapes.iter().enumerate() {
            if alike && (k + m) % 3 != 0 { continue }
            let mut cs: Vec<Comp> = c.iter().map(|_| Comp::o(t.clone())).collect();
            cs.push(Comp::o(Ty::SeqOf(Rng::new(0, 1), Box::new(t.clone())))); cs.push(Comp::o(Ty::Choice(vec![t.clone(), Ty::Null], true, vec![]))); cs.push(Comp::o(Ty::Str(StrKind::Utf8, Rng::none()))); cs.push(Comp::o(Ty::Bits(Rng::new(2, 2))));
            let top = format!("Top ::= SEQUENCE {{ {}, p SEQUENCE (SIZE (0..1)) OF {} OPTIONAL, q CHOICE {{ x {}, y NULL, ... }} OPTIONAL, r UTF8String OPTIONAL, s BIT STRING (SIZE (2)) OPTIONAL }}", c.iter().enumerate().map(|(j, n)| format!("c{} {} OPTIONAL", j, n)).collect::<Vec<_>>().join(", "), c[0], c[0]);
            let mut defs: Vec<String> = c.iter().map(|n| format!("{} ::= {}", n, tx)).collect();
            defs.push(top);
            add(format!("types {} as {}", w, tx.split(' ').next().unwrap()), seq(cs), defs, true);
        }
    }
    // all of them in one specification, unused
    add("types spelled alike, all".into(), Ty::Bool, spelled_t.iter().map(|n| format!("{} ::= BOOLEAN", n)).chain(["Top ::= BOOLEAN".to_string()]).collect(), true);
    // names of helper types, taken by definitions
    let (bt, bd) = aux_base();
    for n in x.aux.iter().map(from).filter(|s| s.chars().next().map_or(false, |c| c.is_ascii_uppercase()) && s.chars().all(|c| c.is_ascii_alphanumeric() || c == '-') && !s.contains("--") && !s.ends_with('-') && s != "Top") {
        for first in [true, false] {
            let mut defs = bd.clone();
            let d = format!("{} ::= SEQUENCE {{ zzz OCTET STRING }}\nZTop ::= SEQUENCE {{ c0 {}, c1 Top }}", n, n);
            if first { defs.insert(0, d) } else { defs.push(d) }
            add(format!("helper name {} defined {}", n, if first { "before" } else { "after" }), seq(vec![Comp::m(seq(vec![Comp::m(oct())])), Comp::m(bt.clone())]), defs, true);
        }
    }
    // helper names that meet: paths of definitions and components that spell the same
    let s1 = |b: &str| format!("SEQUENCE {{ {} }}", b);
    let leaf = seq(vec![Comp::m(i(0, 255))]);
    let paths: &[&[&str]] = &[&["A", "b", "c"], &["A", "bC"], &["AB", "c"], &["A", "b-c"], &["A-b", "c"], &["ABc"], &["AB-C"], &["AB-c"], &["A-B-C"], &["Ab", "c"], &["A", "b", "c", "d"], &["AbC"], &["A", "bc"]];
    for (i1, p) in paths.iter().enumerate() { for q in &paths[i1 + 1..] { if p[0] == q[0] { continue }
        let def = |p: &[&str]| {
            let mut e = s1("z INTEGER (0..255)");
            for n in p[1..].iter().rev() { e = s1(&format!("{} {}", n, e)); }
            let mut t = leaf.clone();
            for _ in 1..p.len() { t = seq(vec![Comp::m(t)]); }
            (format!("{} ::= {}", p[0], e), t)
        };
        let ((d1, t1), (d2, t2)) = (def(p), def(q));
        add(format!("helper names {} and {}", p.join("."), q.join(".")), seq(vec![Comp::m(t1), Comp::m(t2)]), vec![d1, d2, format!("Top ::= SEQUENCE {{ c0 {}, c1 {} }}", p[0], q[0])], true);
    } }
    v.retain(|e| !e.asn.contains("18446744073709551616"));
    // the same names in two modules
    let twice = "M DEFINITIONS AUTOMATIC TAGS ::= BEGIN\nIMPORTS Other FROM N;\nTop ::= SEQUENCE { c0 Seq1, c1 Other }\nSeq1 ::= SEQUENCE { a BOOLEAN, b SEQUENCE { c NULL } }\nEND\nN DEFINITIONS AUTOMATIC TAGS ::= BEGIN\nOther ::= SEQUENCE { a BOOLEAN, b SEQUENCE { c OCTET STRING } }\nEND\n";
    v.push(E2e { g: Group::Seq, ty: seq(vec![Comp::m(seq(vec![Comp::m(Ty::Bool), Comp::m(seq(vec![Comp::m(Ty::Null)]))])), Comp::m(seq(vec![Comp::m(Ty::Bool), Comp::m(seq(vec![Comp::m(oct())]))]))]), asn: twice.into(), top: "Top", what: "two modules".into(), may: false });
}

/// One construct of the notation each, and what it means.
fn feature_cases(v: &mut Vec<E2e>) {
    let ie = |l, u| Ty::Int(Rng::ext(l, u));
    let osz = |l, u| Ty::Octets(Rng::new(l, u));
    let s = |t: Ty, r: Rng| Ty::SeqOf(r, Box::new(t));
    let m = |t: Ty| Comp::m(t);
    let o = |t: Ty| Comp::o(t);
    let x = |c: Vec<Comp>| Ty::Seq(c, true);
    let cls = "CL ::= CLASS { &id INTEGER (0..255) UNIQUE, &crit Crit DEFAULT ignore, &Value, &pres Pres OPTIONAL } WITH SYNTAX { ID &id [CRIT &crit] TYPE &Value [PRES &pres] }  Crit ::= ENUMERATED { reject, ignore, notify }  Pres ::= ENUMERATED { optional, mandatory }  ";
    let crit = || Comp::m(Ty::Enum(3, false));
    let fld = |t: Vec<(i128, Ty)>| seq(vec![Comp::k(i(0, 255)), crit(), Comp::m(Ty::Open(t))]);
    let c1 = |g: Group, asn: &str, ty: Ty, v: &mut Vec<E2e>| v.push(E2e { g, ty, asn: module(&[asn.replace("CLS", cls)]), top: "Top", what: "notation".into(), may: ["CONTAINING", "SEQUENCE SIZE", "::= [5]", "EXPLICIT", "DEFAULT NULL", "P { NULL", "P { BOOLEAN", "P { INTEGER (", "0, 3, BOOLEAN"].iter().any(|w| asn.contains(w)) });
    let list: Vec<(&str, Ty)> = vec![
        // values and constraints
        ("a INTEGER ::= 3  b INTEGER ::= 300  Top ::= INTEGER (a..b)", i(3, 300)),
        ("a INTEGER ::= -3  Top ::= INTEGER (a..<4)", i(-3, 3)),
        ("Top ::= INTEGER (-4<..300)", i(-3, 300)),
        ("Top ::= INTEGER (1 | 5 | 9)", i(1, 9)),
        ("Top ::= INTEGER (0..3 | 10..12)", i(0, 12)),
        ("Top ::= INTEGER (0..100 ^ 50..300)", i(50, 100)),
        ("Top ::= INTEGER (0..100) (50..60)", i(50, 60)),
        ("Sub ::= INTEGER (2..9)  Top ::= Sub (3..7)", i(3, 7)),
        ("Sub ::= INTEGER (2..9)  Top ::= INTEGER (Sub)", i(2, 9)),
        ("Sub ::= INTEGER (2..9)  Top ::= INTEGER (MIN..5) (Sub)", i(2, 5)),
        ("Top ::= INTEGER (0..7, ..., 8..15)", ie(0, 7)),
        ("Top ::= INTEGER (5, ...)", ie(5, 5)),
        ("Top ::= INTEGER { one(1), two(2) } (one..two)", i(1, 2)),
        ("Int ::= INTEGER { one(1), two(2) }  Top ::= Int (one..two)", i(1, 2)),
        ("maxN INTEGER ::= 4  Top ::= SEQUENCE (SIZE (1..maxN)) OF INTEGER (0..maxN)", s(i(0, 4), Rng::new(1, 4))),
        ("maxN INTEGER ::= 4  Top ::= OCTET STRING (SIZE (maxN))", osz(4, 4)),
        ("Top ::= OCTET STRING (SIZE (1 | 3))", osz(1, 3)),
        ("Top ::= OCTET STRING (SIZE (1..3 | 5..6))", osz(1, 6)),
        ("Top ::= BIT STRING { a(0), b(1), c(2) } (SIZE (3))", Ty::Bits(Rng::new(3, 3))),
        ("Top ::= OCTET STRING (CONTAINING BOOLEAN)", oct()),
        ("Top ::= SEQUENCE SIZE (0..3) OF BOOLEAN", s(Ty::Bool, Rng::new(0, 3))),
        ("Top ::= [5] INTEGER (0..7)", i(0, 7)),
        ("Top ::= SEQUENCE { a [0] INTEGER (0..7), b [1] IMPLICIT BOOLEAN OPTIONAL, c [2] EXPLICIT NULL }", seq(vec![m(i(0, 7)), o(Ty::Bool), m(Ty::Null)])),
        // references
        ("A ::= B  B ::= C  C ::= INTEGER (0..9)  Top ::= A", i(0, 9)),
        ("Top ::= SEQUENCE { a A OPTIONAL, b A }  A ::= B  B ::= SEQUENCE { c C }  C ::= BOOLEAN", seq(vec![o(seq(vec![m(Ty::Bool)])), m(seq(vec![m(Ty::Bool)]))])),
        ("Top ::= SEQUENCE OF A  A ::= CHOICE { a B, b NULL, ... }  B ::= SEQUENCE { a Top2 OPTIONAL }  Top2 ::= OCTET STRING", s(Ty::Choice(vec![seq(vec![o(oct())]), Ty::Null], true, vec![]), Rng::none())),
        // components
        ("Top ::= SEQUENCE { a INTEGER (0..7) DEFAULT 3, b BOOLEAN, c BOOLEAN OPTIONAL, d BOOLEAN DEFAULT TRUE }", seq(vec![o(i(0, 7)), m(Ty::Bool), o(Ty::Bool), o(Ty::Bool)])),
        ("d INTEGER ::= 5  Top ::= SEQUENCE { a INTEGER (0..7) DEFAULT d, b E DEFAULT y, ... }  E ::= ENUMERATED { x, y }", x(vec![o(i(0, 7)), o(Ty::Enum(2, false))])),
        ("Top ::= SEQUENCE { }", seq(vec![])),
        ("Top ::= SEQUENCE { ... }", x(vec![])),
        ("Top ::= SEQUENCE { a A, b SEQUENCE OF B, c CHOICE { d SEQUENCE { e ENUMERATED { f, g, ... } OPTIONAL }, h NULL } }  A ::= NULL  B ::= BIT STRING (SIZE (2))", seq(vec![m(Ty::Null), m(s(Ty::Bits(Rng::new(2, 2)), Rng::none())), m(Ty::Choice(vec![seq(vec![o(Ty::Enum(2, true))]), Ty::Null], false, vec![]))])),
        // enumerations
        ("Top ::= ENUMERATED { a(5), b(2), c(9) }", Ty::Enum(3, false)),
        ("Top ::= ENUMERATED { a, b(0), c }", Ty::Enum(3, false)),
        ("Top ::= ENUMERATED { a, b, ..., c, d(10) }", Ty::Enum(2, true)),
        // choices
        ("Top ::= CHOICE { a BOOLEAN, ..., b NULL, [[ c INTEGER (0..255), d OCTET STRING ]], e BOOLEAN }", Ty::Choice(vec![Ty::Bool], true, vec![Ty::Null, i(0, 255), oct(), Ty::Bool])),
        ("Top ::= CHOICE { a BOOLEAN, b CHOICE { c NULL, d INTEGER (0..3) }, c CHOICE { c NULL, ... } }", Ty::Choice(vec![Ty::Bool, Ty::Choice(vec![Ty::Null, i(0, 3)], false, vec![]), Ty::Choice(vec![Ty::Null], true, vec![])], false, vec![])),
        // parameterized types
        ("P { T } ::= SEQUENCE { a T, b T OPTIONAL }  Top ::= P { INTEGER (0..7) }", seq(vec![m(i(0, 7)), o(i(0, 7))])),
        ("P { INTEGER : n } ::= SEQUENCE (SIZE (0..n)) OF BOOLEAN  Top ::= SEQUENCE { a P { 2 }, b P { 4 } }", seq(vec![m(s(Ty::Bool, Rng::new(0, 2))), m(s(Ty::Bool, Rng::new(0, 4)))])),
        ("P { INTEGER : lo, INTEGER : hi, T } ::= SEQUENCE { a SEQUENCE (SIZE (lo..hi)) OF T, ... }  Top ::= SEQUENCE { a P { 1, 2, Q }, b P { 0, 3, BOOLEAN } OPTIONAL }  Q ::= CHOICE { a NULL, b BOOLEAN }", seq(vec![m(x(vec![m(s(Ty::Choice(vec![Ty::Null, Ty::Bool], false, vec![]), Rng::new(1, 2)))])), o(x(vec![m(s(Ty::Bool, Rng::new(0, 3)))]))])),
        ("P { T } ::= SEQUENCE { a Q { T } }  Q { U } ::= SEQUENCE { b U OPTIONAL, c SEQUENCE { d U } }  Top ::= SEQUENCE { x P { NULL }, y P { OCTET STRING } }", seq(vec![m(seq(vec![m(seq(vec![o(Ty::Null), m(seq(vec![m(Ty::Null)]))]))])), m(seq(vec![m(seq(vec![o(oct()), m(seq(vec![m(oct())]))]))]))])),
        ("P { T } ::= SEQUENCE { a SEQUENCE { b T, c CHOICE { d T, e NULL } } }  X ::= P { BOOLEAN }  Y ::= P { INTEGER (0..255) }  Top ::= SEQUENCE { x X, y Y, z P { BOOLEAN } }", seq(vec![m(seq(vec![m(seq(vec![m(Ty::Bool), m(Ty::Choice(vec![Ty::Bool, Ty::Null], false, vec![]))]))])), m(seq(vec![m(seq(vec![m(i(0, 255)), m(Ty::Choice(vec![i(0, 255), Ty::Null], false, vec![]))]))])), m(seq(vec![m(seq(vec![m(Ty::Bool), m(Ty::Choice(vec![Ty::Bool, Ty::Null], false, vec![]))]))]))])),
        ("P { T } ::= SEQUENCE { a T, b T OPTIONAL }  Top ::= P { A }  A ::= INTEGER (0..7)", seq(vec![m(i(0, 7)), o(i(0, 7))])),
        ("P { INTEGER : lo, INTEGER : hi, T } ::= SEQUENCE { a SEQUENCE (SIZE (lo..hi)) OF T, ... }  Top ::= SEQUENCE { a P { 1, 2, Q }, b P { 0, 3, Bo } OPTIONAL }  Bo ::= BOOLEAN  Q ::= CHOICE { a NULL, b BOOLEAN }", seq(vec![m(x(vec![m(s(Ty::Choice(vec![Ty::Null, Ty::Bool], false, vec![]), Rng::new(1, 2)))])), o(x(vec![m(s(Ty::Bool, Rng::new(0, 3)))]))])),
        ("P { T } ::= SEQUENCE { a Q { T } }  Q { U } ::= SEQUENCE { b U OPTIONAL, c SEQUENCE { d U } }  Top ::= SEQUENCE { x P { Nu }, y P { Oc } }  Nu ::= NULL  Oc ::= OCTET STRING", seq(vec![m(seq(vec![m(seq(vec![o(Ty::Null), m(seq(vec![m(Ty::Null)]))]))])), m(seq(vec![m(seq(vec![o(oct()), m(seq(vec![m(oct())]))]))]))])),
        ("P { T } ::= SEQUENCE { a SEQUENCE { b T, c CHOICE { d T, e NULL } } }  X ::= P { Bo }  Y ::= P { In }  Top ::= SEQUENCE { x X, y Y, z P { Bo } }  Bo ::= BOOLEAN  In ::= INTEGER (0..255)", seq(vec![m(seq(vec![m(seq(vec![m(Ty::Bool), m(Ty::Choice(vec![Ty::Bool, Ty::Null], false, vec![]))]))])), m(seq(vec![m(seq(vec![m(i(0, 255)), m(Ty::Choice(vec![i(0, 255), Ty::Null], false, vec![]))]))])), m(seq(vec![m(seq(vec![m(Ty::Bool), m(Ty::Choice(vec![Ty::Bool, Ty::Null], false, vec![]))]))]))])),
        // information objects
        ("CLS S CL ::= { { ID 1 TYPE BOOLEAN PRES optional } | { ID 2 CRIT reject TYPE OCTET STRING } | o3, ... }  o3 CL ::= { ID idThree TYPE Seq3 }  idThree INTEGER ::= 77  Seq3 ::= SEQUENCE { a BOOLEAN OPTIONAL, ... }  Top ::= SEQUENCE { id CL.&id ({S}), crit CL.&crit ({S}{@id}), value CL.&Value ({S}{@id}) }", fld(vec![(1, Ty::Bool), (2, oct()), (77, x(vec![o(Ty::Bool)]))])),
        ("CLS S CL ::= { S1 | S2 | { ID 9 TYPE NULL } }  S1 CL ::= { { ID 1 TYPE BOOLEAN } }  S2 CL ::= { { ID 2 TYPE INTEGER (0..7) } | o3 }  o3 CL ::= { ID 3 TYPE OCTET STRING }  Top ::= SEQUENCE (SIZE (0..2)) OF F  F ::= SEQUENCE { id CL.&id ({S}), crit CL.&crit ({S}{@id}), value CL.&Value ({S}{@id}) }", s(fld(vec![(1, Ty::Bool), (2, i(0, 7)), (3, oct()), (9, Ty::Null)]), Rng::new(0, 2))),
        ("CLS Field { CL : Set } ::= SEQUENCE { id CL.&id ({Set}), crit CL.&crit ({Set}{@id}), value CL.&Value ({Set}{@id}) }  Top ::= SEQUENCE { a Field { {S1} }, b Container { {S2} } OPTIONAL, ... }  Container { CL : Set } ::= SEQUENCE (SIZE (0..3)) OF Field { {Set} }  S1 CL ::= { { ID 1 TYPE BOOLEAN }, ... }  S2 CL ::= { { ID 1 TYPE INTEGER (0..255) } | { ID 5 TYPE Sub }, ... }  Sub ::= SEQUENCE { c Container { {S1} } }", x(vec![m(fld(vec![(1, Ty::Bool)])), o(s(fld(vec![(1, i(0, 255)), (5, seq(vec![m(s(fld(vec![(1, Ty::Bool)]), Rng::new(0, 3)))]))]), Rng::new(0, 3)))])),
        ("CLS S CL ::= { { ID 1 TYPE SEQUENCE { a BOOLEAN, b SEQUENCE { c NULL } } } | { ID 2 TYPE CHOICE { a NULL, b OCTET STRING } } | { ID 3 TYPE SEQUENCE (SIZE (0..2)) OF SEQUENCE { a BOOLEAN } } | { ID 4 TYPE ENUMERATED { a, b } } }  Top ::= SEQUENCE { id CL.&id ({S}), crit CL.&crit ({S}{@id}), value CL.&Value ({S}{@id}) }", fld(vec![(1, seq(vec![m(Ty::Bool), m(seq(vec![m(Ty::Null)]))])), (2, Ty::Choice(vec![Ty::Null, oct()], false, vec![])), (3, s(seq(vec![m(Ty::Bool)]), Rng::new(0, 2))), (4, Ty::Enum(2, false))])),
        ("CLS S CL ::= { { ID 1 TYPE SEQUENCE { a BOOLEAN } } }  S2 CL ::= { { ID 1 TYPE SEQUENCE { b OCTET STRING } } }  Top ::= SEQUENCE { a A, b B }  A ::= SEQUENCE { id CL.&id ({S}), crit CL.&crit ({S}{@id}), value CL.&Value ({S}{@id}) }  B ::= SEQUENCE { id CL.&id ({S2}), crit CL.&crit ({S2}{@id}), value CL.&Value ({S2}{@id}) }", seq(vec![m(fld(vec![(1, seq(vec![m(Ty::Bool)]))])), m(fld(vec![(1, seq(vec![m(oct())]))]))])),
        ("CLS rows1 CL ::= { ID 1 TYPE BOOLEAN }  Rows CL ::= { { ID 7 TYPE NULL } | rows1 | { ID 8 TYPE OCTET STRING } | rows0 }  rows0 CL ::= { ID 2 TYPE INTEGER (0..7) }  Top ::= SEQUENCE { id CL.&id ({Rows}), crit CL.&crit ({Rows}{@id}), value CL.&Value ({Rows}{@id}) }", fld(vec![(1, Ty::Bool), (2, i(0, 7)), (7, Ty::Null), (8, oct())])),
    ];
    for (t, ty) in list { c1(Group::Seq, t, ty, v) }
    // sequences that say more than the root: values without the additions, and with additions skipped
    let root = || vec![m(i(0, 6)), o(Ty::Bool)];
    for a in ["n INTEGER (0..7)", "n INTEGER OPTIONAL, p BOOLEAN", "[[ n BOOLEAN, p NULL OPTIONAL ]]", "n SEQUENCE { q BOOLEAN }, [[ p CHOICE { r NULL, s Sub } ]], t OCTET STRING OPTIONAL", "n NULL DEFAULT NULL"] {
        c1(Group::Ext, &format!("Top ::= SEQUENCE {{ a INTEGER (0..6), b BOOLEAN OPTIONAL, ..., {} }}  Sub ::= BOOLEAN", a), x(root()), v);
        c1(Group::Ext, &format!("Top ::= SEQUENCE {{ a INTEGER (0..6), b BOOLEAN OPTIONAL, ..., {}, ..., c OCTET STRING, d BOOLEAN OPTIONAL }}  Sub ::= BOOLEAN", a), x([root(), vec![m(oct()), o(Ty::Bool)]].concat()), v);
        c1(Group::Ext, &format!("Top ::= SEQUENCE (SIZE (0..2)) OF SEQUENCE {{ a INTEGER (0..6), b BOOLEAN OPTIONAL, ..., {} }}  Sub ::= BOOLEAN", a), s(x(root()), Rng::new(0, 2)), v);
    }
    // keys anywhere in the sequence: may be refused, but not decoded by another key
    let table = || Ty::Open(vec![(1, Ty::Bool), (2, oct()), (3, i(0, 7))]);
    let cl = "CL ::= CLASS { &id INTEGER (0..255) UNIQUE, &T } WITH SYNTAX { ID &id TYPE &T }  S CL ::= { { ID 1 TYPE BOOLEAN } | { ID 2 TYPE OCTET STRING } | { ID 3 TYPE INTEGER (0..7) } }";
    let (k, ok, at) = (|| Comp::k(i(0, 255)), || Comp::ok(i(0, 255)), |n| Comp::at(table(), false, n));
    for (t, c) in [
        ("a K, b K, c T@a, d T@b", vec![k(), k(), at(0), at(1)]),
        ("a K, b K, c T@b, d T@a", vec![k(), k(), at(1), at(0)]),
        ("a K, b K, c T@a", vec![k(), k(), at(0)]),
        ("a K, b K, c T@b", vec![k(), k(), at(1)]),
        ("a K, b T@a, c K, d T@c", vec![k(), at(0), k(), at(2)]),
        ("a K, b T@a, c K, d T@a", vec![k(), at(0), k(), at(0)]),
        ("b T@a, a K", vec![at(1), k()]),
        ("b T@a, a K, c T@a", vec![at(1), k(), at(1)]),
        ("a K, b T@c, c K, d T@a", vec![k(), at(2), k(), at(0)]),
        ("a K OPTIONAL, b T@a OPTIONAL", vec![ok(), Comp::at(table(), true, 0)]),
        ("a K, b T@a OPTIONAL, c K OPTIONAL, d T@c OPTIONAL", vec![k(), Comp::at(table(), true, 0), ok(), Comp::at(table(), true, 2)]),
        ("a K, c K OPTIONAL, b T@a OPTIONAL, d T@c OPTIONAL", vec![k(), ok(), Comp::at(table(), true, 0), Comp::at(table(), true, 1)]),
    ] {
        let mut t: String = t.replace("K", "CL.&id ({S})");
        for n in ["a", "b", "c"] { t = t.replace(&format!("T@{}", n), &format!("CL.&T ({{S}}{{@{}}})", n)); }
        for outer in [false, true] {
            let inner = seq(c.clone());
            let (asn, ty) = if outer { (format!("{}  Top ::= SEQUENCE {{ a CL.&id ({{S}}), x In, y CL.&T ({{S}}{{@a}}) }}  In ::= SEQUENCE {{ {} }}", cl, t), seq(vec![k(), m(inner), m(table())])) } else { (format!("{}  Top ::= SEQUENCE {{ {} }}", cl, t), inner) };
            c1(Group::Open, &asn, ty, v);
            v.last_mut().unwrap().may = true;
        }
    }
    // object sets without objects: no value for the open type, but everything around it
    let cl = "CL ::= CLASS { &id INTEGER (0..255) UNIQUE, &c INTEGER (0..7) DEFAULT 3, &T OPTIONAL } WITH SYNTAX { ID &id [C &c] [TYPE &T] }  S CL ::= { ... }  E CL ::= { {ID 1} | {ID 2}, ... }";
    let f = |opt: bool| seq(vec![k(), m(i(0, 7)), Comp { optional: opt, ..Comp::m(Ty::Open(vec![])) }]);
    for s0 in ["S", "E"] {
        let t = |opt: &str| format!("SEQUENCE {{ id CL.&id ({{{0}}}), c CL.&c ({{{0}}}{{@id}}), v CL.&T ({{{0}}}{{@id}}){1} }}", s0, opt);
        c1(Group::Open, &format!("{}  Top ::= {}", cl, t(" OPTIONAL")), f(true), v);
        c1(Group::Open, &format!("{}  Top ::= {}", cl, t("")), f(false), v);
        c1(Group::Open, &format!("{}  Top ::= SEQUENCE {{ a BOOLEAN, b SEQUENCE (SIZE (1..3)) OF F OPTIONAL, c INTEGER (0..6) }}  F ::= {}", cl, t("")), seq(vec![m(Ty::Bool), o(s(f(false), Rng::new(1, 3))), m(i(0, 6))]), v);
        c1(Group::Open, &format!("{}  Top ::= CHOICE {{ a BOOLEAN, b {}, c {} }}", cl, t(" OPTIONAL"), t("")), Ty::Choice(vec![Ty::Bool, f(true), f(false)], false, vec![]), v);
    }
    // modules
    let two = |a: &str, b: &str, ty: Ty, v: &mut Vec<E2e>| v.push(E2e { g: Group::Seq, ty, asn: format!("{}\n{}\n", a, b), top: "Top", what: "modules".into(), may: false });
    two("M DEFINITIONS AUTOMATIC TAGS ::= BEGIN IMPORTS N1, maxN, P FROM N; Top ::= SEQUENCE { a N1, b P { Im } } Im ::= INTEGER (0..maxN) END", "N DEFINITIONS AUTOMATIC TAGS ::= BEGIN N1 ::= SEQUENCE { a N2 OPTIONAL } N2 ::= INTEGER (0..maxN) maxN INTEGER ::= 9 P { T } ::= SEQUENCE (SIZE (0..2)) OF T END", seq(vec![m(seq(vec![o(i(0, 9))])), m(s(i(0, 9), Rng::new(0, 2)))]), v);
    two("N DEFINITIONS ::= BEGIN N1 ::= CHOICE { a NULL, b N2 } N2 ::= BOOLEAN END", "M DEFINITIONS ::= BEGIN IMPORTS N1 FROM N N2 FROM N; Top ::= SEQUENCE { a N1, b N2 } END", seq(vec![m(Ty::Choice(vec![Ty::Bool, Ty::Null], false, vec![])), m(Ty::Bool)]), v);
    // without automatic tags the alternatives are in the order of their tags
    for h in ["", "EXPLICIT TAGS", "IMPLICIT TAGS"] {
        two(&format!("N DEFINITIONS {} ::= BEGIN N1 ::= CHOICE {{ a UTF8String, b NULL, c N2, d OCTET STRING, e INTEGER (0..9) }} N2 ::= BOOLEAN END", h), "M DEFINITIONS AUTOMATIC TAGS ::= BEGIN IMPORTS N1, N2 FROM N; Top ::= SEQUENCE { a N1, b CHOICE { x NULL, y N2 } } END",
            seq(vec![m(Ty::Choice(vec![Ty::Bool, i(0, 9), oct(), Ty::Null, Ty::Str(StrKind::Utf8, Rng::none())], false, vec![])), m(Ty::Choice(vec![Ty::Null, Ty::Bool], false, vec![]))]), v);
    }
}

pub fn list(x: &Extra) -> Vec<E2e> {
    let mut v = vec![];
    for (n, (g, ty)) in family().into_iter().enumerate() {
        for named in [false, true] {
            let atom = !matches!(ty, Ty::Seq(..) | Ty::Choice(..) | Ty::SeqOf(..));
            if (atom && named) || (!atom && named != (n % 2 == 0) && !matches!(g, Group::Open)) { continue }
            let mut w = Writer::new(named);
            if let Some(e) = w.expr(&ty) {
                w.defs.insert(if n % 3 == 0 { w.defs.len() } else { 0 }, format!("Top ::= {}", e));
                v.push(E2e { g, ty: ty.clone(), asn: module(&w.defs), top: "Top", what: format!("{:?}", g), may: false });
            }
        }
    }
    feature_cases(&mut v);
    name_cases(x, &mut v);
    v
}
