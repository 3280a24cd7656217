//! K15: every history of calls on one compiler object.
use crate::run::{self, Capture, Out, Service};
use mc_model::{par, report::*};
use std::collections::{BTreeMap, BTreeSet};

const A: &str = "Alpha DEFINITIONS AUTOMATIC TAGS ::= BEGIN T ::= SEQUENCE { a INTEGER (0..max), b CHOICE { x NULL, y SEQUENCE OF E } OPTIONAL, ... } E ::= ENUMERATED { one, two } max INTEGER ::= 9 P { X, INTEGER : n } ::= SEQUENCE { p X, q OCTET STRING (SIZE (0..n)) } CL ::= CLASS { &id INTEGER (0..255) UNIQUE, &T OPTIONAL } WITH SYNTAX { ID &id [TYPE &T] } S CL ::= { { ID max TYPE T } | { ID 2 TYPE NULL }, ... } U ::= SEQUENCE { i CL.&id ({S}), v CL.&T ({S}{@i}), w P { E, max } } END ";
const A2: &str = "Alpha DEFINITIONS AUTOMATIC TAGS ::= BEGIN T ::= SEQUENCE { other BOOLEAN } E ::= NULL max INTEGER ::= 3 P { X, INTEGER : n } ::= SEQUENCE { r X, q INTEGER (0..n) } END ";
const B: &str = "Beta DEFINITIONS AUTOMATIC TAGS ::= BEGIN IMPORTS T, max, P FROM Alpha; V ::= SEQUENCE (SIZE (0..max)) OF T W ::= SEQUENCE { v V, p P { V, 4 }, ..., z BIT STRING { m (0) } (SIZE (8)) } END ";
const C: &str = "Gamma DEFINITIONS ::= BEGIN IMPORTS W FROM Beta max FROM Alpha; G ::= SEQUENCE { w W, m INTEGER (max..20) } END ";
/// its definition is one of Alpha's as well
const D: &str = "Delta DEFINITIONS AUTOMATIC TAGS ::= BEGIN Own ::= BOOLEAN T ::= OCTET STRING END ";
const E: &str = "Eps DEFINITIONS AUTOMATIC TAGS ::= BEGIN H ::= UTF8String J ::= SEQUENCE { h H, i INTEGER } END ";
const F: &str = "Zeta DEFINITIONS AUTOMATIC TAGS ::= BEGIN K ::= SEQUENCE { h Missing } END ";
const POOL: &[&str] = &[A, A2, B, C, D, E, F];
fn name(m: usize) -> &'static str { POOL[m].split(' ').next().unwrap() }

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub enum Op { Add(usize), Resolve, Generate }

/// In the child: carries out the calls; one line of answer for each.
pub fn instead(ops: &[String], cap: &mut Capture) -> Option<Out> {
    let mut log = String::new();
    let r = run::caught(|| {
        let mut c = asn1_compiler::Asn1Compiler::new();
        for o in &ops[1..] {
            match o.as_str() {
                "R" => log.push_str(&match c.resolve_modules() { Ok(()) => "ok\n".to_string(), Err(_) => "err\n".to_string() }),
                "G" => { let r = c.generate(); let t = cap.take(); log.push_str(&match r { Ok(()) => format!("ok {}\n", t.replace('\n', "\u{1}")), Err(_) => "err\n".to_string() }) }
                text => {
                    let mut tokens = asn1_compiler::tokenizer::tokenize(text.as_bytes()).expect("tokens");
                    for m in asn1_compiler::parser::parse(&mut tokens).expect("module") { log.push_str(if run::Added::done(c.add_module(m)).is_ok() { "ok\n" } else { "err\n" }) }
                }
            }
        }
    });
    let _ = cap.take();
    Some(match r { Ok(()) => Out::Code(log), Err(p) => Out::Panic(format!("{}after {} calls: {}", log, log.lines().count(), p)) })
}
pub fn serve() -> ! {
    let _ = run::CONTROL.set(run::Control { before: |_| {}, after: String::new, instead });
    run::serve()
}

fn request(ops: &[Op]) -> Vec<String> {
    let mut v = vec![String::new()];
    v.extend(ops.iter().map(|o| match o { Op::Add(m) => POOL[*m].to_string(), Op::Resolve => "R".into(), Op::Generate => "G".into() }));
    v
}
fn show(ops: &[Op]) -> String {
    ops.iter().map(|o| match o { Op::Add(m) => format!("add {}{}", name(*m), if *m == 1 { "'" } else { "" }), Op::Resolve => "resolve".into(), Op::Generate => "generate".into() }).collect::<Vec<_>>().join(", ")
}
thread_local! { static SVC: std::cell::RefCell<Option<Service>> = const { std::cell::RefCell::new(None) }; }
fn ask(ops: &[Op]) -> Out { match SVC.with(|s| s.borrow_mut().get_or_insert_with(|| Service::mode("--api")).compile(&request(ops))) {
    Out::Code(l) => Out::Code(l.trim_start_matches('\n').to_string()),
    o => o,
} }

pub fn api(c: &'static Check) {
    let pool: Vec<usize> = (0..POOL.len()).collect();
    // what a new object makes of every set of modules
    let mut fresh: BTreeMap<BTreeSet<usize>, Option<String>> = BTreeMap::new();
    for bits in 0..1usize << pool.len() {
        let s: BTreeSet<usize> = pool.iter().cloned().filter(|m| bits >> m & 1 == 1).collect();
        if s.contains(&0) && s.contains(&1) { continue }
        let mut ops: Vec<Op> = s.iter().map(|m| Op::Add(*m)).collect();
        ops.extend([Op::Resolve, Op::Generate]);
        match ask(&ops) {
            Out::Code(log) => {
                let l: Vec<&str> = log.lines().collect();
                let ok = l[s.len()] == "ok";
                if ok != valid(&s) { c.violation(show(&ops), format!("{}", if ok { "accepted" } else { "refused" })); }
                let code = if ok { l[s.len() + 1].strip_prefix("ok ").map(|x| x.to_string()) } else { None };
                fresh.insert(s, code);
            }
            o => { c.violation(show(&ops), o.brief()); fresh.insert(s, None); }
        }
    }
    let ops: Vec<Op> = pool.iter().map(|m| Op::Add(*m)).chain([Op::Resolve, Op::Generate]).collect();
    let depth = if c.thorough { 7 } else { 6 };
    let states = StateSet::new();
    let firsts: Vec<Vec<Op>> = ops.iter().flat_map(|a| ops.iter().map(move |b| vec![*a, *b])).flat_map(|h| ops.iter().map(move |x| { let mut h = h.clone(); h.push(*x); h })).collect();
    par::for_each(&firsts, |_, first| {
        let mut loc = std::collections::HashSet::new();
        let mut tr = 0;
        let mut at = vec![0usize; depth - first.len()];
        loop {
            let mut h = first.clone();
            h.extend(at.iter().map(|i| ops[*i]));
            // histories that end without looking at anything are prefixes of others
            if matches!(h.last(), Some(Op::Resolve) | Some(Op::Generate)) { tr += history(c, &h, &fresh, &mut loc); c.add_traces(1); }
            if c.stopped() { return }
            let mut k = 0;
            while k < at.len() { at[k] += 1; if at[k] < ops.len() { break } at[k] = 0; k += 1 }
            if k == at.len() { break }
        }
        c.add_transitions(tr);
        states.merge(loc);
    });
    c.add_states(states.len());
    c.count("depth", depth as u64);
    c.count("sets of modules", fresh.len() as u64);
    c.assume("the specification of the code is what a new object makes of the same modules (K03-K13 judge that); code is compared before rustfmt; what generate does before resolve_modules has succeeded for the modules added is not specified, other than that it does not panic");
}

/// Which sets compile, by the specifications in `POOL`.
fn valid(s: &BTreeSet<usize>) -> bool {
    let has = |m| s.contains(&m);
    let alpha = has(0) || has(1);
    (!has(2) || alpha) && (!has(3) || has(2) && alpha) && !(has(4) && alpha) && !has(6)
}

fn history(c: &Check, h: &[Op], fresh: &BTreeMap<BTreeSet<usize>, Option<String>>, loc: &mut std::collections::HashSet<u64>) -> u64 {
    let log = match ask(h) { Out::Code(l) => l, o => { c.violation(show(h), o.brief()); return h.len() as u64 } };
    let lines: Vec<&str> = log.lines().collect();
    let mut added: BTreeSet<usize> = BTreeSet::new();
    let mut resolved = false;
    for (i, o) in h.iter().enumerate() {
        match o {
            Op::Add(m) => {
                let new = !added.iter().any(|x| name(*x) == name(*m));
                if new { added.insert(*m); resolved = false }
                if (lines[i] == "ok") != new { c.violation(show(&h[..=i]), format!("the module is {}", if new { "refused" } else { "taken twice" })); return i as u64 }
            }
            Op::Resolve => {
                let want = fresh[&added].is_some();
                if (lines[i] == "ok") != want { c.violation(show(&h[..=i]), format!("resolve_modules {}, a new object {}", if want { "fails" } else { "succeeds" }, if want { "succeeds" } else { "fails" })); return i as u64 }
                resolved = want;
            }
            Op::Generate => if resolved {
                let want = fresh[&added].as_ref().unwrap();
                match lines[i].strip_prefix("ok ") {
                    None => { c.violation(show(&h[..=i]), "generate fails, on a new object it succeeds"); return i as u64 }
                    Some(t) => if t != want { c.violation(show(&h[..=i]), format!("the code is not that of a new object\n{}\nexpected\n{}", t.replace('\u{1}', "\n"), want.replace('\u{1}', "\n"))); return i as u64 }
                }
            }
        }
        loc.insert(hash_of(&(&added, resolved, h[..=i].iter().filter(|o| **o == Op::Generate).count(), h[..=i].iter().filter(|o| **o == Op::Resolve).count())));
    }
    h.len() as u64
}
