//! K10: the compiler's result does not depend on the order of definitions, modules, imports and files, nor on the order
//! in which its hash tables are iterated over. The real compiler is built against a standard library whose hash tables
//! ask the explorer for their order (see std/); the same real compiler with the real standard library is the reference.
#[path = "../../compiler/src/run.rs"]
#[allow(dead_code)]
mod run;
mod corpus;
use mc_model::report::*;
use run::*;
use std::collections::HashSet;
use std::sync::Mutex;

#[global_allocator]
static A: Counting = Counting;

// ------------------------------------------------------------------------------------------------ the child

/// "r": the compiler with the real tables; "a<k>": the order k for every table; "p:o,p:o": the order o at choice point p.
fn before(plan: &str) {
    if let Some(k) = plan.strip_prefix('a') { return mc_std::order::begin(vec![], Some(k.parse().unwrap())) }
    let v = plan.split(',').filter_map(|x| x.split_once(':')).map(|(p, o)| (p.parse().unwrap(), o.parse().unwrap())).collect();
    mc_std::order::begin(v, None)
}
fn after() -> String { mc_std::order::end().iter().map(|n| n.to_string()).collect::<Vec<_>>().join(",") }
fn instead(files: &[String], cap: &mut Capture) -> Option<Out> {
    if files[0] != "r" { return None }
    let r = caught(|| -> Result<(), String> {
        let mut compiler = asn1_real::Asn1Compiler::new();
        for f in &files[1..] {
            let mut tokens = asn1_real::tokenizer::tokenize(f.as_bytes()).map_err(|e| format!("tokenize: {}", e))?;
            let mut modules = asn1_real::parser::parse(&mut tokens).map_err(|e| format!("parse: {}", e))?;
            while let Some(m) = modules.pop() { compiler.add_module(m).done()?; }
        }
        compiler.resolve_modules().map_err(|e| format!("resolve: {}", e))?;
        compiler.generate().map_err(|e| format!("generate: {}", e))
    });
    let text = cap.take();
    Some(match r { Err(p) => Out::Panic(p), Ok(Err(e)) => Out::Error(e), Ok(Ok(())) => Out::Code(text) })
}

// ------------------------------------------------------------------------------------------------ the explorer

thread_local! { static SVC: std::cell::RefCell<Option<Service>> = const { std::cell::RefCell::new(None) }; }
fn exec(plan: &str, files: &[String]) -> (Out, Vec<usize>) {
    let mut req = vec![plan.to_string()];
    req.extend(files.iter().cloned());
    let out = SVC.with(|s| s.borrow_mut().get_or_insert_with(Service::new).compile(&req));
    let cut = |s: String| { let (h, t) = s.split_once('\n').unwrap_or(("", "")); (t.to_string(), h.split(',').filter_map(|x| x.parse().ok()).collect::<Vec<usize>>()) };
    match out {
        Out::Code(s) => { let (t, p) = cut(s); (Out::Code(t), p) }
        Out::Error(s) => { let (t, p) = cut(s); (Out::Error(t), p) }
        Out::Panic(s) => { let (t, p) = cut(s); (Out::Panic(t), p) }
        o => (o, vec![]),
    }
}
/// None: the same result. (Which of several errors is reported may depend on the order, that there is one may not.)
fn differ(a: &Out, b: &Out) -> Option<String> {
    match (a, b) {
        (Out::Code(x), Out::Code(y)) => if x == y { None } else {
            let (u, v) = x.split("AperCodec").zip(y.split("AperCodec")).find(|(u, v)| u != v).unwrap_or(("(end)", "(end)"));
            let short = |s: &str| s.split_whitespace().collect::<Vec<_>>().join(" ").chars().take(160).collect::<String>();
            Some(format!("other code: {} / {}", short(u), short(v)))
        },
        (Out::Error(_), Out::Error(_)) | (Out::Panic(_), Out::Panic(_)) => None,
        (a, b) => if std::mem::discriminant(a) == std::mem::discriminant(b) { None } else { Some(format!("{} / {}", a.brief(), b.brief())) }
    }
}
fn key(files: &[String]) -> String { files.iter().map(|f| f.split_whitespace().collect::<Vec<_>>().join(" ")).collect::<Vec<_>>().join(" -- ") }

/// Every order in which the same specification can be written gives the same result.
fn rewritings(c: &'static Check, groups: &[corpus::Group]) {
    let outs: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
    mc_model::par::for_each(groups, |_, g| {
        let mut first: Option<(Out, Vec<String>)> = None;
        let mut n = 0u64;
        (g.each)(&mut |files: Vec<String>| {
            if c.stopped() { return }
            let out = exec("", &files).0;
            n += 1;
            match &first {
                None => { c.count(match out { Out::Code(_) => "specifications that compile", Out::Error(_) => "specifications that are refused", _ => "specifications without an answer" }, 1); outs.lock().unwrap().insert(hash_of(&format!("{:?}", out))); first = Some((out, files)) }
                Some((f, ff)) => if let Some(d) = differ(f, &out) { c.violation(format!("order: {}", key(&files)), format!("{}; written like this: {}", d, key(ff))) }
            }
        });
        c.add_states(n);
        c.add_transitions(n.saturating_sub(1));
        c.count("ways to write them", n);
    });
    c.count("distinct results", outs.lock().unwrap().len() as u64);
}

/// Every deviation of up to `depth` table orders from the first run gives the same result.
fn schedules(c: &'static Check, specs: &[(Vec<String>, usize)]) {
    let bases: Mutex<Vec<Option<(Out, Vec<usize>)>>> = Mutex::new(vec![None; specs.len()]);
    mc_model::par::for_each(specs, |i, (files, _)| {
        let (out, points) = exec("", files);
        let real = exec("r", files).0;
        // conformance: the same source with the tables of the real standard library
        if let Some(d) = differ(&out, &real) { c.violation(format!("hash order: {}", key(files)), format!("{} (explored / as built with the standard library)", d)) }
        for k in 1..24 {
            let o = exec(&format!("a{}", k), files).0;
            c.add_states(1);
            if let Some(d) = differ(&out, &o) { c.violation(format!("hash order: {}", key(files)), format!("{}; all tables in order {}", d, k)) }
        }
        c.add_traces(1);
        bases.lock().unwrap()[i] = Some((out, points));
    });
    let bases = bases.into_inner().unwrap();
    let mut tasks = vec![];
    for (i, b) in bases.iter().enumerate() { if let Some((_, p)) = b { c.count("choice points of the first runs", p.len() as u64); for k in 0..p.len() { if p[k] > 1 { tasks.push((i, k)) } } } }
    let traces: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
    mc_model::par::for_each(&tasks, |_, (i, k)| {
        let (files, depth) = &specs[*i];
        let (out, points) = bases[*i].as_ref().unwrap();
        fn go(c: &'static Check, files: &[String], base: &Out, plan: &str, points: &[usize], at: usize, depth: usize, n: &mut u64, tr: &Mutex<HashSet<u64>>) {
            for o in 1..mc_std::order::orders(points[at]) {
                if c.stopped() { return }
                let p = format!("{}{}:{}", plan, at, o);
                let (out, more) = exec(&p, files);
                *n += 1;
                tr.lock().unwrap().insert(hash_of(&more));
                if let Some(d) = differ(base, &out) { c.violation(format!("hash order: {}", key(files)), format!("{}; choices {} of tables of {:?} entries", d, p, more)); return }
                if depth > 1 { for q in at + 1..more.len() { if more[q] > 1 { go(c, files, base, &format!("{},", p), &more, q, depth - 1, n, tr) } } }
            }
        }
        let mut n = 0;
        go(c, files, out, "", points, *k, *depth, &mut n, &traces);
        c.add_states(n);
        c.add_transitions(n);
        c.count("runs with another order of tables", n);
    });
    c.count("distinct sequences of choice points", traces.lock().unwrap().len() as u64);
}

/// The specifications that come with the project.
fn bundled(c: &'static Check, deep: bool) {
    let mut tasks: Vec<(Vec<String>, Vec<String>, String)> = vec![];
    let Ok(dirs) = std::fs::read_dir("/repo/specs") else { return };
    for d in dirs.flatten() {
        let mut names: Vec<_> = std::fs::read_dir(d.path()).map(|r| r.flatten().map(|e| e.path()).filter(|p| p.extension().map_or(false, |e| e == "asn")).collect()).unwrap_or_default();
        names.sort();
        let files: Vec<String> = names.iter().filter_map(|p| std::fs::read_to_string(p).ok()).collect();
        if files.is_empty() || files.len() > 200 { continue }
        let id = d.file_name().to_string_lossy().into_owned();
        let mut plans = vec!["r".to_string(), "a1".into()];
        if deep { for k in 2..10 { plans.push(format!("a{}", k)) } for k in 0..40 { plans.push(format!("{}:1", k)) } }
        for p in plans { tasks.push((files.clone(), files.clone(), format!("{} with order of tables {}", id, p))) }
        let mut o: Vec<Vec<String>> = vec![];
        let mut x = files.clone(); x.reverse(); o.push(x);
        o.push(vec![files.join("\n")]);
        if deep { for k in 1..files.len() { let mut x = files.clone(); x.rotate_left(k); o.push(x.clone()); x.reverse(); o.push(x) } for k in 1..files.len() { let mut x = files.clone(); x.swap(0, k); o.push(x) } }
        for (k, x) in o.into_iter().enumerate() { tasks.push((files.clone(), x, format!("{} with order of files {} ", id, k))) }
    }
    let bases: Mutex<std::collections::HashMap<u64, Out>> = Mutex::new(Default::default());
    let mut firsts: Vec<Vec<String>> = vec![];
    for t in &tasks { if !firsts.contains(&t.0) { firsts.push(t.0.clone()) } }
    mc_model::par::for_each(&firsts, |_, f| { let o = exec("", f).0; c.count(if matches!(o, Out::Code(_)) { "bundled specifications that compile" } else { "bundled specifications without code" }, 1); bases.lock().unwrap().insert(hash_of(f), o); });
    mc_model::par::for_each(&tasks, |_, (f, g, name)| {
        if c.stopped() { return }
        let plan = name.split_once("tables ").map_or("", |x| x.1);
        let out = exec(plan, g).0;
        let base = bases.lock().unwrap()[&hash_of(f)].clone();
        c.add_states(1);
        c.count("runs of bundled specifications", 1);
        if let Some(d) = differ(&base, &out) { c.violation(name.clone(), d) }
    });
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map_or(false, |s| s == "--serve") {
        let _ = CONTROL.set(Control { before, after, instead });
        serve()
    }
    let c: &'static Check = Box::leak(Box::new(Check::new("K10")));
    install(c);
    let deep = c.thorough;
    rewritings(c, &corpus::groups(deep));
    schedules(c, &corpus::specs(deep));
    bundled(c, deep);
    c.assume("tables that do not change are iterated over in one order; which of several errors is reported may vary");
    std::process::exit(c.finish());
}
