//! K16: the place that the message about a wrong text names.
use crate::{lex::{self, Lexed}, names, run::{self, Out}};
use mc_model::report::*;

/// Valid modules, definition by definition; the first part is the header, the last one the end.
fn modules() -> Vec<Vec<&'static str>> {
    vec![
        vec!["Alpha DEFINITIONS AUTOMATIC TAGS ::= BEGIN", "T ::= SEQUENCE { a INTEGER (0..max), b CHOICE { x NULL, y SEQUENCE OF E } OPTIONAL, ..., [[ c BOOLEAN ]] }", "E ::= ENUMERATED { one, two, ..., three (7) }", "max INTEGER ::= 9", "P { X, INTEGER : n } ::= SEQUENCE { p X, q OCTET STRING (SIZE (0..n)) }", "U ::= P { E, max }", "END"],
        vec!["Beta { iso (1) 3 five(5) } DEFINITIONS ::= BEGIN IMPORTS V, k FROM Gamma { 1 2 } ;", "CL ::= CLASS { &id INTEGER (0..255) UNIQUE, &T OPTIONAL } WITH SYNTAX { ID &id [TYPE &T] }", "o CL ::= { ID k TYPE V }", "Q { CL : SS } ::= SEQUENCE (SIZE (0..3)) OF SEQUENCE { i CL.&id ({SS}), v CL.&T ({SS}{@i}) }", "S CL ::= { o | { ID 2 TYPE NULL }, ... }", "R ::= SEQUENCE { i CL.&id ({S}), v CL.&T ({S}{@i}), q Q {{S}} OPTIONAL }", "END"],
        vec!["Gamma { 1 2 } DEFINITIONS AUTOMATIC TAGS ::= BEGIN", "V ::= BIT STRING { m (0), n (3) } (SIZE (1..8, ...))", "k INTEGER ::= 4", "D ::= SEQUENCE { a INTEGER DEFAULT 5, b BOOLEAN DEFAULT TRUE, c VisibleString (SIZE (1 | 3..5)), d OCTET STRING (CONTAINING V), e INTEGER { p (1) } (0..5 | -7, ...) }", "END"],
        vec!["Delta DEFINITIONS ::= BEGIN", "END"],
        vec!["Eps DEFINITIONS IMPLICIT TAGS ::= BEGIN", "W ::= CHOICE { a NULL, b UTF8String, ..., [[ 2: c SEQUENCE { } , d INTEGER (MIN..-1) ]], e PrintableString }", "b INTEGER ::= -3", "END"],
    ]
}

/// The items of some modules, and to which part each belongs.
struct Text { items: Vec<(String, usize)>, parts: Vec<&'static str> }
fn text_of(ms: &[Vec<&'static str>]) -> Text {
    let mut t = Text { items: vec![], parts: vec![] };
    for m in ms { for p in m {
        let Lexed::Items { items, .. } = lex::lex(p) else { panic!("{}", p) };
        // as they are written
        let chars: Vec<char> = p.chars().collect();
        for (k, i) in items.iter().enumerate() {
            let end = items.get(k + 1).map_or(chars.len(), |n| n.col);
            t.items.push((chars[i.col..end].iter().collect::<String>().trim().to_string(), t.parts.len()));
        }
        t.parts.push(p);
    } }
    t
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Layout { Line, Lines, Parts }
/// The text, and the place of each item.
fn lay(items: &[(String, usize)], l: Layout) -> (String, Vec<(usize, usize)>) {
    let (mut s, mut at, mut line, mut col) = (String::new(), vec![], 1, 0);
    let mut put = |s: &mut String, x: &str, line: &mut usize, col: &mut usize| for ch in x.chars() { s.push(ch); if ch == '\n' { *line += 1; *col = 0 } else { *col += 1 } };
    for (k, (x, p)) in items.iter().enumerate() {
        if k > 0 {
            let new_part = items[k - 1].1 != *p;
            match l {
                Layout::Line => put(&mut s, " ", &mut line, &mut col),
                Layout::Lines => put(&mut s, ["\n", "\r\n  ", "\n\n\t", " -- words --\n "][k % 4], &mut line, &mut col),
                Layout::Parts => put(&mut s, if new_part { "\n-- next:\n" } else { "  " }, &mut line, &mut col),
            }
        }
        at.push((line, col));
        put(&mut s, x, &mut line, &mut col);
    }
    s.push('\n');
    (s, at)
}

/// The (first) place that a message names, and the item it quotes.
fn place(m: &str) -> Option<((usize, usize), Option<String>)> {
    let low = m.to_ascii_lowercase();
    let number = |from: usize, what: &str| -> Option<(usize, usize)> {
        let k = from + low[from..].find(what)? + what.len();
        let d: String = low[k..].chars().take_while(|c| c.is_ascii_digit()).collect();
        Some((d.parse().ok()?, k + d.len()))
    };
    let (l, k) = number(0, "line: ")?;
    let (c, k2) = number(k, "column: ")?;
    // only "line: L, column: C"
    if low[k..k2].chars().any(|c| c == ';' || c == '.') { return None }
    let quoted = m.find("Found '").and_then(|a| m[a + 7..].find("' at Line: ").map(|b| m[a + 7..a + 7 + b].to_string()));
    Some(((l, c), quoted))
}

#[derive(Clone)]
enum Want {
    /// between two items
    Between(usize, usize),
    /// exactly there, if it is refused
    Exactly(usize),
}
struct Case { text: String, at: Vec<(usize, usize)>, items: Vec<String>, want: Want, what: String, must: bool }

pub fn errors(c: &'static Check) {
    let all = modules();
    let mut texts: Vec<Vec<Vec<&'static str>>> = all.iter().filter(|m| !m[0].contains("FROM")).map(|m| vec![m.clone()]).collect();
    texts.push(vec![all[1].clone(), all[2].clone()]);
    texts.push(vec![all[0].clone(), all[3].clone(), all[4].clone()]);
    if c.thorough { texts.push(all.clone()); let mut r = all.clone(); r.reverse(); texts.push(r) }
    // what stands nowhere in a specification, and what no text contains
    let foreign = ["INSTANCE", "ABSTRACT-SYNTAX", "EMBEDDED", "!", "<"];
    let broken = ["?", "#x", "~", "%", "$", "é", "'012'B", "'0G'H", "'0A\n  0G'H", "'01\r\n\t 1 2'B", "'01'X", "'01", "\"open", "&", "&1", "=", "::", "\u{7f}", "-é"];
    let mut cases: Vec<Case> = vec![];
    for ms in &texts {
        let t = text_of(ms);
        let first_of = |k: usize| { let p = t.items[k].1; t.items.iter().position(|x| x.1 == p).unwrap() };
        for l in [Layout::Line, Layout::Lines, Layout::Parts] {
            let mut add = |items: Vec<(String, usize)>, want: Want, what: String, must: bool| {
                let (text, at) = lay(&items, l);
                cases.push(Case { text, at, items: items.into_iter().map(|x| x.0).collect(), want, what, must });
            };
            add(t.items.clone(), Want::Between(0, 0), "as it is".into(), false);
            for k in 0..t.items.len() {
                for f in foreign {
                    let mut x = t.items.clone(); x[k].0 = f.into();
                    add(x, Want::Between(first_of(k), k), format!("{:?} in place of item {}", f, k), false);
                    let mut x = t.items.clone(); x.insert(k, (f.into(), t.items[k].1));
                    // before the first item of a definition: it may be taken for a part of the one before
                    let from = if first_of(k) == k && k > 0 { first_of(k - 1) } else { first_of(k) };
                    add(x, Want::Between(from, k), format!("{:?} before item {}", f, k), false);
                }
                // a number that is too large, a name that nobody knows
                if t.items[k].0.chars().all(|c| c.is_ascii_digit()) {
                    let mut x = t.items.clone(); x[k].0 = "99999999999999999999999999999999999999999999999".into();
                    add(x, Want::Between(first_of(k), k), format!("large number for item {}", k), false);
                }
                if ["iso", "five"].contains(&t.items[k].0.as_str()) {
                    let mut x = t.items.clone(); x[k].0 = "nobody".into(); if t.items[k + 1].0 == "(" { x.drain(k + 1..k + 4); }
                    add(x, Want::Between(k, k), format!("unknown name for item {}", k), false);
                }
                for b in broken {
                    let mut x = t.items.clone(); x.insert(k, (b.into(), t.items[k].1));
                    add(x, Want::Exactly(k), format!("{:?} before item {}", b, k), true);
                }
                if k > 0 { add(t.items[..k].to_vec(), Want::Between(first_of(k - 1), k), format!("the first {} items", k), false) }
            }
        }
    }
    let input: Vec<Vec<String>> = cases.iter().map(|x| vec![x.text.clone()]).collect();
    let (mut n_place, mut n_none) = (std::sync::atomic::AtomicU64::new(0), std::sync::atomic::AtomicU64::new(0));
    let ok = std::sync::atomic::AtomicU64::new(0);
    use std::sync::atomic::Ordering::Relaxed;
    run::compile_all(&input, |i, o| {
        let x = &cases[i];
        c.add_states(1); c.add_transitions(1); c.add_traces(1);
        let e = match o { Out::Error(e) => e, Out::Code(_) => { ok.fetch_add(1, Relaxed); return }, _ => { n_none.fetch_add(1, Relaxed); return } };
        let bad = |d: String| c.violation(format!("{} in {:?}", x.what, x.text), d);
        let e1 = e.split_whitespace().collect::<Vec<_>>().join(" ");
        if x.what == "as it is" { return bad(format!("refused: {}", e1)) }
        let Some((p, quoted)) = (if e.starts_with("tokenize") || e.starts_with("parse") { place(e) } else { None }) else {
            if x.must && e.starts_with("tokenize") { return bad(format!("no place in {:?}", e1)) }
            n_none.fetch_add(1, Relaxed); return
        };
        n_place.fetch_add(1, Relaxed);
        let tokenizer = e.starts_with("tokenize");
        match x.want {
            Want::Exactly(k) if tokenizer => if p != x.at[k] { bad(format!("the wrong item {:?} is at {:?}: {:?}", x.items[k], x.at[k], e1)) },
            Want::Exactly(_) => {}
            Want::Between(a, b) => {
                let Some(k) = x.at.iter().position(|q| *q == p) else { return bad(format!("no item is at {:?}: {:?}", p, e1)) };
                if let Some(q) = quoted { if q != x.items[k] && !x.items[k].starts_with(&q) { return bad(format!("the item at {:?} is {:?}: {:?}", p, x.items[k], e1)) } }
                // what is said to be unexpected stands in a valid text as well
                if k < b && e.contains("Expected '") { return bad(format!("the item at {:?} is right, the wrong one is at {:?}: {:?}", p, x.at.get(b), e1)) }
                if k > b { return bad(format!("the item at {:?} comes after the wrong one at {:?}: {:?}", p, x.at.get(b), e1)) }
                if k < a { return bad(format!("the item at {:?} comes before the definition at {:?}: {:?}", p, x.at[a], e1)) }
            }
        }
    });
    // a name that is not defined is quoted
    let mut named: Vec<(String, String)> = vec![];
    for (t, _, bad) in names::NAME_PLACES {
        // there the message quotes the item that is given a number, or the definition
        if t.contains("ENUMERATED") || t.contains("INTEGER {") || t.contains("WITH SYNTAX { ID &{}") || t.starts_with("u§ C§ ::= {} ") { continue }
        let n = if bad.starts_with('n') { "unknown-name" } else if *bad == "Nope" { "Unknown-Name" } else { "UNKNOWN-NAME" };
        let body = format!("{}{} ", names::CONTEXT, t.replacen("{}", n, 1).replace("{}", n)).replace('§', "");
        named.push((n.to_string(), format!("M DEFINITIONS AUTOMATIC TAGS ::= BEGIN {}END", body)));
    }
    let input: Vec<Vec<String>> = named.iter().map(|x| vec![x.1.clone()]).collect();
    run::compile_all(&input, |i, o| {
        c.add_states(1); c.add_transitions(1); c.add_traces(1);
        let Out::Error(e) = o else { return };
        if !e.contains(&named[i].0) { c.violation(format!("undefined name in {:?}", named[i].1), format!("the message does not say {}: {:?}", named[i].0, e.split_whitespace().collect::<Vec<_>>().join(" "))) }
    });
    c.count("messages with a place", *n_place.get_mut());
    c.count("messages without", *n_none.get_mut());
    c.count("accepted", ok.load(Relaxed));
    c.assume("a message that names no place is not judged; where the parser only says which definition is wrong, that is enough; a number of an item or a reference to an object that is not defined may be reported by its item or class");
}
