//! Specifications for K10.
pub struct Group { pub each: Box<dyn Fn(&mut dyn FnMut(Vec<String>)) + Sync + Send> }

pub fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 { return vec![vec![]] }
    permutations(n - 1).into_iter().flat_map(|p| (0..n).map(move |k| { let mut q = p.clone(); q.insert(k, n - 1); q })).collect()
}
fn subsets(n: usize, k: usize) -> Vec<Vec<usize>> {
    let mut out = vec![];
    fn go(n: usize, k: usize, from: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if cur.len() == k { out.push(cur.clone()); return }
        for i in from..n { cur.push(i); go(n, k, i + 1, cur, out); cur.pop(); }
    }
    go(n, k, 0, &mut vec![], &mut out);
    out
}
pub fn module(body: &str) -> String { format!("M DEFINITIONS AUTOMATIC TAGS ::= BEGIN {} END", body) }

/// name, text, names it uses
pub const DEFS: &[(&str, &str, &[&str])] = &[
    ("a", "a INTEGER ::= 3", &[]),
    ("b", "b INTEGER ::= a", &["a"]),
    ("B", "B ::= INTEGER (0..a)", &["a"]),
    ("L", "L ::= SEQUENCE (SIZE (1..b)) OF B", &["b", "B"]),
    ("E", "E ::= ENUMERATED { x, y, ..., z }", &[]),
    ("N", "N ::= INTEGER { one(1), two(2), three(3), four(4), five(5) } (one..five)", &[]),
    ("V", "V ::= BIT STRING { f(0), g(1), h(7) } (SIZE (8))", &[]),
    ("Q", "Q ::= SEQUENCE { p B, q E OPTIONAL, r INTEGER (0..255), s OCTET STRING, t SEQUENCE { u INTEGER (0..9), w BOOLEAN }, ... }", &["B", "E"]),
    ("H", "H ::= CHOICE { p Q, q L, r SEQUENCE { x NULL }, s INTEGER (0..255), ... }", &["Q", "L"]),
    ("CL", "CL ::= CLASS { &id INTEGER (0..255) UNIQUE, &cr E, &T, &U OPTIONAL } WITH SYNTAX { ID &id CR &cr TYPE &T [ALSO &U] }", &["E"]),
    ("o1", "o1 CL ::= { ID a CR x TYPE B }", &["CL", "a", "B"]),
    ("o2", "o2 CL ::= { ID 7 CR y TYPE Q ALSO E }", &["CL", "Q"]),
    ("S", "S CL ::= { o1 | o2, ... }", &["CL", "o1", "o2"]),
    ("S2", "S2 CL ::= { S | { ID 9 CR x TYPE N } | { ID 1 CR x TYPE NULL }, ... }", &["CL", "S", "N"]),
    ("P", "P { CL : X } ::= SEQUENCE { i CL.&id ({X}), c CL.&cr ({X}{@i}), v CL.&T ({X}{@i}) }", &["CL"]),
    ("R", "R ::= P {{S}}", &["P", "S"]),
    ("R2", "R2 ::= SEQUENCE { x P {{S2}}, y P {{S}} OPTIONAL }", &["P", "S2", "S"]),
    ("G", "G { T, INTEGER : n } ::= SEQUENCE (SIZE (0..n)) OF T", &[]),
    ("U", "U ::= G { B, 4 }", &["G", "B"]),
    ("W", "W ::= SEQUENCE { x G { Q, b }, y G { SEQUENCE { k NULL }, a } }", &["G", "Q", "b", "a"]),
    ("A1", "A1 ::= A2", &["A2"]),
    ("A2", "A2 ::= B", &["B"]),
    ("X1", "X1 ::= SEQUENCE { y Y1 OPTIONAL }", &["Y1"]),
    ("Y1", "Y1 ::= SEQUENCE { x X1 OPTIONAL }", &["X1"]),
    ("d1", "B ::= BOOLEAN", &[]),
    ("d2", "a INTEGER ::= 4", &[]),
    ("BX", "B-X ::= SEQUENCE { a INTEGER (0..1), b INTEGER (0..1), c INTEGER (0..2) }", &[]),
];
fn index(n: &str) -> usize { DEFS.iter().position(|d| d.0 == n).unwrap() }
pub fn closure(of: &[usize]) -> Vec<usize> {
    let mut v: Vec<usize> = of.to_vec();
    let mut i = 0;
    while i < v.len() { for u in DEFS[v[i]].2 { let k = index(u); if !v.contains(&k) { v.push(k) } } i += 1 }
    v.sort();
    v
}
fn text(ids: &[usize]) -> String { ids.iter().map(|i| DEFS[*i].1).collect::<Vec<_>>().join(" ") }

/// Systems of modules: name, (module imported from, names), definitions.
type Mod = (&'static str, Vec<(&'static str, Vec<&'static str>)>, Vec<&'static str>);
fn systems() -> Vec<Vec<Mod>> {
    vec![
        vec![("Ma", vec![("Mb", vec!["B", "v", "E"])], vec!["A ::= SEQUENCE { a B, b E, c INTEGER (0..v) }"]), ("Mb", vec![], vec!["B ::= INTEGER (0..v)", "v INTEGER ::= 5", "E ::= ENUMERATED { x, y }"])],
        vec![("Mb", vec![("Ma", vec!["B", "v"]), ("Mc", vec!["C"])], vec!["A ::= SEQUENCE { a B, b C, c INTEGER (0..v) }"]), ("Ma", vec![("Mc", vec!["w"])], vec!["B ::= INTEGER (0..v)", "v INTEGER ::= w"]), ("Mc", vec![], vec!["C ::= NULL", "w INTEGER ::= 9"])],
        vec![("Ma", vec![("Mb", vec!["CL", "S"]), ("Mc", vec!["P"])], vec!["A ::= SEQUENCE { l P {{S}} OPTIONAL }"]),
             ("Mb", vec![("Md", vec!["T", "k"])], vec!["CL ::= CLASS { &id INTEGER (0..255) UNIQUE, &T } WITH SYNTAX { ID &id TYPE &T }", "S CL ::= { o | { ID k TYPE T }, ... }", "o CL ::= { ID 1 TYPE NULL }"]),
             ("Mc", vec![("Mb", vec!["CL"])], vec!["P { CL : X } ::= SEQUENCE { i CL.&id ({X}), v CL.&T ({X}{@i}) }"]),
             ("Md", vec![], vec!["T ::= SEQUENCE { x INTEGER (0..k) }", "k INTEGER ::= 4"])],
        // the same definition in two modules; different ones (an error); names that are not imported, not defined; cycles
        vec![("Ma", vec![], vec!["T ::= INTEGER (0..9)", "A ::= SEQUENCE { t T }"]), ("Mb", vec![], vec!["T ::= INTEGER (0..9)", "B ::= SEQUENCE { t T }"])],
        vec![("Ma", vec![], vec!["T ::= ENUMERATED { a, b, c }", "A ::= SEQUENCE { t T }"]), ("Mb", vec![], vec!["T ::= ENUMERATED { a, b, c }"]), ("Mc", vec![("Ma", vec!["T"])], vec!["C ::= SEQUENCE OF T"])],
        vec![("Ma", vec![], vec!["T ::= INTEGER { one(1), two(2), three(3) } (one..three)", "A ::= T"]), ("Mb", vec![], vec!["T ::= INTEGER { one(1), two(2), three(3) } (one..three)"])],
        vec![("Ma", vec![], vec!["T ::= NULL", "A ::= SEQUENCE { t T }"]), ("Mb", vec![], vec!["T ::= BOOLEAN", "B ::= SEQUENCE { t T }"])],
        vec![("Ma", vec![], vec!["v INTEGER ::= 1", "A ::= INTEGER (0..v)"]), ("Mb", vec![], vec!["v INTEGER ::= 2", "B ::= INTEGER (0..v)"])],
        vec![("Ma", vec![], vec!["A ::= SEQUENCE { t T }"]), ("Mb", vec![], vec!["T ::= BOOLEAN"])],
        vec![("Mb", vec![], vec!["A ::= SEQUENCE { t T }"]), ("Ma", vec![], vec!["T ::= BOOLEAN"])],
        vec![("Ma", vec![], vec!["A ::= INTEGER (0..v)"]), ("Mb", vec![], vec!["v INTEGER ::= 2"])],
        vec![("Mb", vec![], vec!["A ::= INTEGER (0..v)"]), ("Ma", vec![], vec!["v INTEGER ::= 2"])],
        vec![("Ma", vec![("Mb", vec!["B"])], vec!["A ::= B"]), ("Mb", vec![("Ma", vec!["A"])], vec!["B ::= SEQUENCE { a A OPTIONAL }"])],
        vec![("Ma", vec![("Mb", vec!["B"])], vec!["A ::= B", "A2 ::= NULL"]), ("Mb", vec![("Ma", vec!["A2"])], vec!["B ::= SEQUENCE { a A2 OPTIONAL }"])],
        vec![("Ma", vec![("Mb", vec!["B", "Z"])], vec!["A ::= B"]), ("Mb", vec![], vec!["B ::= NULL"])],
        vec![("Ma", vec![("Mb", vec!["B"]), ("Mc", vec!["B"])], vec!["A ::= B"]), ("Mb", vec![], vec!["B ::= NULL"]), ("Mc", vec![], vec!["B ::= BOOLEAN"])],
        vec![("Ma", vec![("Mb", vec!["B", "D"])], vec!["A ::= SEQUENCE { x B, y D }"]), ("Mb", vec![("Mc", vec!["B"])], vec!["D ::= SEQUENCE OF B"]), ("Mc", vec![], vec!["B ::= BOOLEAN"])],
        // anonymous types that need names, in several modules
        vec![("Ma", vec![], vec!["A ::= SEQUENCE { x SEQUENCE { y INTEGER (0..5), z INTEGER (0..5) }, w INTEGER (0..6) }"]), ("Mb", vec![], vec!["B ::= SEQUENCE { x SEQUENCE { y INTEGER (0..5) } }"]), ("Mc", vec![], vec!["C ::= CHOICE { x INTEGER (0..6), y SEQUENCE OF INTEGER (0..7) }"])],
        vec![("Ma", vec![], vec!["G { T } ::= SEQUENCE { x T, y INTEGER (0..9) }", "A ::= G { INTEGER }"]), ("Mb", vec![("Ma", vec!["G"])], vec!["B ::= G { BOOLEAN }", "C ::= SEQUENCE { c G { NULL } }"]), ("Mc", vec![("Ma", vec!["G"])], vec!["D ::= SEQUENCE OF G { OCTET STRING }"])],
        vec![("Ma", vec![("Mb", vec!["CL"])], vec!["S CL ::= { { ID 1 TYPE NULL } | { ID 2 TYPE BOOLEAN } | { ID 3 TYPE SEQUENCE { a INTEGER (0..7) } } | { ID 4 TYPE INTEGER (0..7) } | { ID 5 TYPE INTEGER (0..8) }, ... }", "A ::= SEQUENCE { i CL.&id ({S}), v CL.&T ({S}{@i}) }"]), ("Mb", vec![], vec!["CL ::= CLASS { &id INTEGER (0..255) UNIQUE, &T } WITH SYNTAX { ID &id TYPE &T }"])],
    ]
}
fn write(m: &Mod, imports: &[usize], names: &[Vec<usize>], defs: &[usize]) -> String {
    let im: String = imports.iter().map(|i| format!("{} FROM {} ", names[*i].iter().map(|k| m.1[*i].1[*k]).collect::<Vec<_>>().join(", "), m.1[*i].0)).collect();
    format!("{} DEFINITIONS AUTOMATIC TAGS ::= BEGIN {} {} END ", m.0, if im.is_empty() { String::new() } else { format!("IMPORTS {};", im) }, defs.iter().map(|d| m.2[*d]).collect::<Vec<_>>().join(" "))
}
fn plain(m: &Mod) -> String { write(m, &(0..m.1.len()).collect::<Vec<_>>(), &m.1.iter().map(|x| (0..x.1.len()).collect()).collect::<Vec<_>>(), &(0..m.2.len()).collect::<Vec<_>>()) }

pub fn groups(deep: bool) -> Vec<Group> {
    let mut out: Vec<Group> = vec![];
    let sets = |v: Vec<Vec<usize>>, out: &mut Vec<Group>| for s in v {
        let perms: Vec<Vec<usize>> = if s.len() <= 6 || deep && s.len() == 7 { permutations(s.len()) } else { vec![] };
        out.push(Group { each: Box::new(move |f| {
            if !perms.is_empty() { for p in &perms { f(vec![module(&text(&p.iter().map(|i| s[*i]).collect::<Vec<_>>()))]) } return }
            let n = s.len();
            let mut seen = std::collections::HashSet::new();
            let mut orders: Vec<Vec<usize>> = vec![];
            let id: Vec<usize> = (0..n).collect();
            for r in 0..n { let mut q = id.clone(); q.rotate_left(r); orders.push(q.clone()); q.reverse(); orders.push(q) }
            for i in 0..n { for j in 0..n { let mut q = id.clone(); let x = q.remove(i); q.insert(j, x); orders.push(q); let mut q = id.clone(); q.swap(i, j); orders.push(q) } }
            for o in orders { if seen.insert(o.clone()) { f(vec![module(&text(&o.iter().map(|i| s[*i]).collect::<Vec<_>>()))]) } }
        }) });
    };
    for k in 2..=if deep { 4 } else { 3 } { sets(subsets(DEFS.len(), k), &mut out) }
    // whole specifications: what one, two (or three) definitions need
    let mut whole = std::collections::BTreeSet::new();
    for k in 1..=if deep { 3 } else { 2 } { for s in subsets(DEFS.len(), k) { let c = closure(&s); if c.len() > 3 && (deep || c.len() <= 6 || k == 1) { whole.insert(c); } } }
    if !deep { for s in subsets(DEFS.len(), 2) { let c = closure(&s); if c.len() > 6 && (s[0] + s[1]) % 3 == 0 { whole.insert(c); } } }
    sets(whole.into_iter().collect(), &mut out);
    // modules: every order of the definitions in each, of the imports, of the modules, and every split into files
    for sys in systems() {
        for k in 0..sys.len() {
            let sys = sys.clone();
            out.push(Group { each: Box::new(move |f| {
                let m = &sys[k];
                let mut names: Vec<Vec<Vec<usize>>> = vec![vec![]];
                for x in &m.1 { let ps = permutations(x.1.len()); names = names.iter().flat_map(|v| ps.iter().map(move |p| { let mut v = v.clone(); v.push(p.clone()); v })).collect() }
                for ip in permutations(m.1.len()) { for n in &names { for d in permutations(m.2.len()) {
                    f(sys.iter().enumerate().map(|(i, x)| if i == k { write(m, &ip, n, &d) } else { plain(x) }).collect())
                } } }
            }) });
        }
        out.push(Group { each: Box::new(move |f| {
            let texts: Vec<String> = sys.iter().map(plain).collect();
            let n = texts.len();
            for p in permutations(n) { for cut in 0..1usize << (n - 1) {
                let mut files: Vec<String> = vec![];
                for (i, k) in p.iter().enumerate() { if i > 0 && cut >> (i - 1) & 1 == 0 { files.last_mut().unwrap().push_str(&texts[*k]) } else { files.push(texts[*k].clone()) } }
                f(files)
            } }
        }) });
    }
    // three and four of the catalogue's definitions, spread over modules in every way is for K12; here: all in one, with
    // the same in two modules of the same contents under other names
    out
}

pub fn specs(deep: bool) -> Vec<(Vec<String>, usize)> {
    let mut v: Vec<(Vec<String>, usize)> = vec![];
    let mut whole = std::collections::BTreeSet::new();
    for k in 1..=2 { for s in subsets(DEFS.len(), k) { let c = closure(&s); if deep || k == 1 || (s[0] + s[1]) % 4 == 0 { whole.insert(c); } } }
    for c in whole { let d = if c.len() <= if deep { 7 } else { 4 } { 2 } else { 1 }; v.push((vec![module(&text(&c))], d)) }
    let all: Vec<usize> = (0..DEFS.len()).filter(|i| !["d1", "d2", "X1", "Y1"].contains(&DEFS[*i].0)).collect();
    v.push((vec![module(&text(&all))], 1));
    for sys in systems() { v.push((sys.iter().map(plain).collect(), if deep && sys.len() < 4 { 2 } else { 1 })) }
    v.push((vec![module("B ::= BIT STRING { a(0), b(1), c(2), d(3), e(4), f(5) } (SIZE (8)) C ::= B I ::= INTEGER { p(1), q(2), r(3), s(4), t(5) } (p | q | t)")], if deep { 2 } else { 1 }));
    v.push((vec![module("CL ::= CLASS { &a INTEGER (0..9) UNIQUE, &b BOOLEAN, &C, &D OPTIONAL, &e INTEGER, &F } WITH SYNTAX { A &a B &b C &C [D &D] E &e F &F } S CL ::= { { A 1 B TRUE C NULL E 5 F BOOLEAN } | { A 2 B FALSE C BOOLEAN D NULL E 6 F INTEGER (0..3) } | { A 3 B FALSE C INTEGER (0..3) D BOOLEAN E 7 F NULL }, ... } A ::= SEQUENCE { a CL.&a ({S}), c CL.&C ({S}{@a}), d CL.&D ({S}{@a}), f CL.&F ({S}{@a}) }")], if deep { 2 } else { 1 }));
    v
}
