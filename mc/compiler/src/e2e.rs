//! K13: writes the generated code of every specification of `mc_model::e2e`, with conversions to and from the
//! model, as the source of a crate; and tells which specification an error of the Rust compiler belongs to.
use crate::run::{compile_all, Out};
use mc_model::e2e::{aux_base, list, module, Extra};
use mc_model::report::*;
use mc_model::ty::*;
use std::collections::{BTreeSet, HashMap};
use std::fmt::Write;
use std::path::Path;
use std::sync::Mutex;
use syn::*;

fn repo() -> String { std::env::var("VERIF_REPO").unwrap_or_else(|_| "/repo".into()) }

fn idents_of(t: proc_macro2::TokenStream, out: &mut BTreeSet<String>) {
    for x in t { match x {
        proc_macro2::TokenTree::Ident(i) => { out.insert(i.to_string().trim_start_matches("r#").to_string()); }
        proc_macro2::TokenTree::Group(g) => idents_of(g.stream(), out),
        _ => {}
    } }
}
fn sources(d: &Path, out: &mut BTreeSet<String>) {
    let Ok(r) = std::fs::read_dir(d) else { return };
    for e in r.flatten() {
        let p = e.path();
        if p.is_dir() { sources(&p, out) }
        else if p.extension().map_or(false, |x| x == "rs") {
            if let Ok(t) = std::fs::read_to_string(&p).unwrap_or_default().parse() { idents_of(t, out) }
        }
    }
}

fn items(code: &str) -> std::result::Result<HashMap<String, Item>, String> {
    let f = parse_file(code).map_err(|e| format!("the generated code cannot be read as Rust: {}", e))?;
    let mut m = HashMap::new();
    for i in f.items {
        let n = match &i { Item::Struct(s) => s.ident.to_string(), Item::Enum(e) => e.ident.to_string(), Item::Type(t) => t.ident.to_string(), _ => continue };
        if m.insert(n.clone(), i).is_some() { return Err(format!("two types are named {}", n)) }
    }
    Ok(m)
}

struct Conv<'a> { items: &'a HashMap<String, Item>, m: &'a str, out: String, done: HashMap<String, Ty> }
fn last(t: &Type) -> Option<(String, Option<Type>)> {
    let Type::Path(p) = t else { return None };
    let s = p.path.segments.last()?;
    let arg = match &s.arguments { PathArguments::AngleBracketed(a) => a.args.iter().find_map(|a| if let GenericArgument::Type(t) = a { Some(t.clone()) } else { None }), _ => None };
    Some((s.ident.to_string(), arg))
}
fn key_of(attrs: &[Attribute]) -> Option<i128> {
    for a in attrs { if let Ok(Meta::List(l)) = a.parse_meta() { for n in l.nested { if let NestedMeta::Meta(Meta::NameValue(nv)) = n { if nv.path.is_ident("key") { match nv.lit { Lit::Int(i) => return i.base10_parse().ok(), Lit::Str(s) => return s.value().parse().ok(), _ => {} } } } } } }
    None
}
impl<'a> Conv<'a> {
    fn ty(&mut self, name: &str, t: &Ty) -> std::result::Result<String, String> {
        let m = self.m.to_string();
        let mut name = name.to_string();
        for _ in 0..50 { match self.items.get(&name) { Some(Item::Type(t)) => match last(&t.ty) { Some(x) => name = x.0, None => break }, _ => break } }
        let name = name.as_str();
        let path = format!("super::{}::{}", m, name);
        if let Some(d) = self.done.get(name) { return if d == t { Ok(path) } else { Err(format!("{} stands for two different types", name)) } }
        self.done.insert(name.into(), t.clone());
        let it = self.items.get(name).ok_or(format!("no type {} is generated", name))?.clone();
        let bad = |w: &str| Err::<String, String>(format!("{} is not {}", name, w));
        let strukt = |it: &Item| if let Item::Struct(s) = it { Some(s.clone()) } else { None };
        let imp = |to: &str, from: &str| format!("impl Conv for {} {{ fn to(&self) -> Val {{ {} }} fn from(v: &Val) -> Option<Self> {{ {} }} }}\n", path, to, from);
        // newtypes
        let (to, from): (String, String) = match t {
            Ty::Bool => ("Val::Bool(self.0)".into(), "if let Val::Bool(b) = v { Some(Self(*b)) } else { None }".into()),
            Ty::Int(_) => ("Val::Int(self.0 as i128)".into(), "if let Val::Int(i) = v { std::convert::TryFrom::try_from(*i).ok().map(Self) } else { None }".into()),
            Ty::Enum(..) => ("Val::Enum(self.0 as i128)".into(), "if let Val::Enum(i) = v { std::convert::TryFrom::try_from(*i).ok().map(Self) } else { None }".into()),
            Ty::Bits(_) => ("Val::Bits(self.0.iter().map(|b| *b).collect())".into(), "if let Val::Bits(b) = v { Some(Self(b.iter().copied().collect())) } else { None }".into()),
            Ty::Octets(_) => ("Val::Octets(self.0.clone())".into(), "if let Val::Octets(b) = v { Some(Self(b.clone())) } else { None }".into()),
            Ty::Str(..) => ("Val::Str(self.0.clone().into_bytes())".into(), "if let Val::Str(b) = v { String::from_utf8(b.clone()).ok().map(Self) } else { None }".into()),
            Ty::Null => {
                let o = imp("Val::Null", "if let Val::Null = v { Some(Self {}) } else { None }");
                self.out += &o;
                return Ok(path)
            }
            Ty::SeqOf(_, e) => {
                let Some(s) = strukt(&it) else { return bad("a list") };
                let inner = match &s.fields { Fields::Unnamed(u) if u.unnamed.len() == 1 => last(&u.unnamed[0].ty).and_then(|x| x.1).and_then(|t| last(&t)).map(|x| x.0), _ => None };
                let Some(inner) = inner else { return bad("a list") };
                let e = self.ty(&inner, e)?;
                ("Val::List(self.0.iter().map(|x| x.to()).collect())".into(), format!("if let Val::List(l) = v {{ Some(Self(l.iter().map(|x| <{} as Conv>::from(x)).collect::<Option<Vec<_>>>()?)) }} else {{ None }}", e))
            }
            Ty::Seq(cs, _) => {
                let Some(s) = strukt(&it) else { return bad("a struct") };
                let fields: Vec<Field> = match &s.fields { Fields::Named(n) => n.named.iter().cloned().collect(), Fields::Unit => vec![], _ => return bad("a struct with fields") };
                if fields.len() != cs.len() { return Err(format!("{} has {} fields for {} components", name, fields.len(), cs.len())) }
                let (mut to, mut from) = (String::new(), String::new());
                for (j, (c, f)) in cs.iter().zip(&fields).enumerate() {
                    let id = f.ident.as_ref().unwrap().to_string();
                    let Some((n, arg)) = last(&f.ty) else { return bad("readable") };
                    if c.optional {
                        let Some((n, _)) = arg.and_then(|t| last(&t)) else { return Err(format!("{}.{} is not optional", name, id)) };
                        let cn = self.ty(&n, &c.ty)?;
                        write!(to, "self.{}.as_ref().map(|x| x.to()),", id).unwrap();
                        write!(from, "{}: match &s[{}] {{ Some(x) => Some(<{} as Conv>::from(x)?), None => None }},", id, j, cn).unwrap();
                    } else {
                        if arg.is_some() { return Err(format!("{}.{} is not mandatory", name, id)) }
                        let cn = self.ty(&n, &c.ty)?;
                        write!(to, "Some(self.{}.to()),", id).unwrap();
                        write!(from, "{}: <{} as Conv>::from(s[{}].as_ref()?)?,", id, cn, j).unwrap();
                    }
                }
                (format!("Val::Seq(vec![{}])", to), format!("if let Val::Seq(_s) = v {{ let s = _s; if s.len() != {} {{ return None }} Some(Self {{ {} }}) }} else {{ None }}", cs.len(), from))
            }
            Ty::Choice(..) | Ty::Open(_) => {
                let Item::Enum(e) = &it else { return bad("an enum") };
                let want: Vec<(i128, Ty)> = match t { Ty::Choice(a, _, x) => a.iter().chain(x).cloned().enumerate().map(|(i, t)| (i as i128, t)).collect(), Ty::Open(t) => t.clone(), _ => unreachable!() };
                if e.variants.len() != want.len() { return Err(format!("{} has {} variants for {} alternatives", name, e.variants.len(), want.len())) }
                let (mut to, mut from) = (String::new(), String::new());
                let open = matches!(t, Ty::Open(_));
                for (j, (k, ct)) in want.iter().enumerate() {
                    let var = if open { e.variants.iter().find(|v| key_of(&v.attrs) == Some(*k)) } else { e.variants.iter().nth(j) };
                    let Some(var) = var else { return Err(format!("{} has no variant for {}", name, k)) };
                    let inner = match &var.fields { Fields::Unnamed(u) if u.unnamed.len() == 1 => last(&u.unnamed[0].ty).map(|x| x.0), _ => None };
                    let Some(inner) = inner else { return bad("an enum of one type each") };
                    let cn = self.ty(&inner, ct)?;
                    let (id, vk, kk) = (var.ident.to_string(), if open { "Open" } else { "Choice" }, k);
                    write!(to, "Self::{}(x) => Val::{}({}, Box::new(x.to())),", id, vk, kk).unwrap();
                    write!(from, "Val::{}({}, x) => Self::{}(<{} as Conv>::from(x)?),", vk, kk, id, cn).unwrap();
                }
                (format!("match {}self {{ {} }}", if want.is_empty() { "*" } else { "" }, to), format!("Some(match v {{ {} _ => return None }})", from))
            }
            _ => return bad("supported here"),
        };
        if matches!(t, Ty::Bool | Ty::Int(_) | Ty::Enum(..) | Ty::Bits(_) | Ty::Octets(_) | Ty::Str(..)) && !matches!(strukt(&it).map(|s| s.fields), Some(Fields::Unnamed(u)) if u.unnamed.len() == 1) { return bad("a struct around one value") }
        self.out += &imp(&to, &from);
        Ok(path)
    }
}

fn extra(c: &Check) -> Extra {
    let mut ids = BTreeSet::new();
    for d in ["codecs/src", "codecs_derive/src"] { sources(&Path::new(&repo()).join(d), &mut ids) }
    let mut aux = vec![];
    let base = vec![vec![module(&aux_base().1)]];
    let out = Mutex::new(None);
    compile_all(&base, |_, r| *out.lock().unwrap() = Some(r.clone()));
    match out.into_inner().unwrap() {
        Some(Out::Code(s)) => match items(&s) { Ok(m) => { aux = m.into_keys().collect(); aux.sort() } Err(e) => c.violation("helper names", e) },
        Some(o) => c.violation("helper names", format!("{}\n{}", o.brief(), base[0][0])),
        None => {}
    }
    Extra { idents: ids.into_iter().filter(|s| s.len() > 1 && !s.starts_with("__")).collect(), aux }
}

pub fn write(c: &Check, dir: &Path) {
    let x = extra(c);
    let cases = list(&x);
    std::fs::create_dir_all(dir).unwrap();
    let wrote: Mutex<BTreeSet<String>> = Mutex::new(BTreeSet::new());
    // files that do not change are left alone, so that they are not compiled again
    let put = |f: String, t: String| { let p = dir.join(&f); if std::fs::read_to_string(&p).ok().as_ref() != Some(&t) { std::fs::write(p, t).unwrap() } wrote.lock().unwrap().insert(f); };
    put("extra.txt".into(), x.text());
    let specs: Vec<Vec<String>> = cases.iter().map(|e| vec![e.asn.clone()]).collect();
    let rows: Mutex<Vec<(usize, String)>> = Mutex::new(vec![]);
    compile_all(&specs, |i, r| {
        let e = &cases[i];
        let key = || format!("{}: {}", e.what, e.asn);
        match r {
            Out::Code(s) => {
                let m = format!("c{:04}", i);
                match items(s).and_then(|its| { let mut k = Conv { items: &its, m: &m, out: String::new(), done: HashMap::new() }; k.ty(e.top, &e.ty)?; Ok(k.out) }) {
                    Ok(conv) => {
                        let mut s = s.clone();
                        // rustc names lines: one item each is enough
                        if s.lines().count() < 3 { s = s.replace("# [derive", "\n# [derive") }
                        put(format!("{}.rs", m), s);
                        put(format!("{}.asn", m), format!("-- {}\n{}", e.what, e.asn));
                        rows.lock().unwrap().push((i, conv));
                    }
                    Err(d) => c.violation(key(), d),
                }
            }
            Out::Error(t) if e.may => { let _ = t; c.count("refused", 1) }
            o => c.violation(key(), format!("refused: {}", o.brief())),
        }
    });
    let mut rows = rows.into_inner().unwrap();
    rows.sort();
    // parts of about equal size, compiled side by side
    let mut load = vec![0usize; 8];
    let mut parts = vec![vec![]; 8];
    for (i, conv) in &rows { let k = (0..8).min_by_key(|k| load[*k]).unwrap(); load[k] += conv.len() + 200; parts[k].push(*i); put(format!("v{:04}.rs", i), format!("use super::*;\n{}", conv)); }
    for (k, p) in parts.iter().enumerate() {
        let mut t = String::new();
        for i in p { write!(t, "#[path = \"{d}/c{i:04}.rs\"] mod c{i:04}; #[path = \"{d}/v{i:04}.rs\"] mod v{i:04};\n", d = dir.display(), i = i).unwrap(); }
        t += "pub static CASES: &[(usize, Enc, Dec)] = &[";
        for i in p { let n = cases[*i].top; write!(t, "({}, enc::<c{:04}::{}>, dec::<c{:04}::{}>),\n", i, i, n, i, n).unwrap(); }
        t.push_str("];\n");
        put(format!("part{}.rs", k), t);
    }
    let wrote = wrote.into_inner().unwrap();
    for f in std::fs::read_dir(dir).unwrap().flatten() { if !wrote.contains(f.file_name().to_string_lossy().as_ref()) { let _ = std::fs::remove_file(f.path()); } }
    c.add_states(rows.len() as u64);
    c.add_transitions(cases.len() as u64);
    c.add_traces(rows.len() as u64);
    c.count("specifications", cases.len() as u64);
}

/// Lines `error...` and `--> file:line:col` of the Rust compiler.
pub fn errors(c: &Check, dir: &Path, log: &str) {
    let (mut msg, mut seen, mut other) = (String::new(), BTreeSet::new(), 0);
    for l in log.lines() {
        if l.starts_with("error") { msg = l.to_string() }
        if let Some(p) = l.trim().strip_prefix("--> ") {
            if msg.is_empty() { continue }
            let f = p.split(':').next().unwrap_or("");
            let name = Path::new(f).file_stem().map(|s| s.to_string_lossy().into_owned()).unwrap_or_default();
            let m = name.replacen('v', "c", 1);
            if f.contains(dir.to_str().unwrap()) && dir.join(format!("{}.asn", m)).exists() {
                if seen.insert(m.clone()) && seen.len() <= 40 {
                    let asn = std::fs::read_to_string(dir.join(format!("{}.asn", m))).unwrap_or_default();
                    let n: usize = p.split(':').nth(1).and_then(|x| x.parse().ok()).unwrap_or(1);
                    let src = std::fs::read_to_string(dir.join(format!("{}.rs", name))).unwrap_or_default();
                    let line: String = src.lines().nth(n - 1).unwrap_or("").chars().take(300).collect();
                    c.violation(format!("generated code does not compile: {}", asn.lines().next().unwrap_or("").trim_start_matches("-- ")), format!("{}\nat {}\n{}\n{}", msg, p, line, asn));
                }
            } else { other += 1 }
            msg.clear();
        }
    }
    c.add_states(1); c.add_transitions(1);
    c.count("errors elsewhere", other);
}
