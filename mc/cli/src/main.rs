//! K14: the command line tool, run as a process over every tuple of input files and every condition of its environment.
#[path = "../../compiler/src/run.rs"]
#[allow(dead_code)]
mod run;
use mc_model::report::*;
use run::{Out, Service};
use std::collections::{HashMap, HashSet};
use std::io::{Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[global_allocator]
static A: Counting = Counting;

// ------------------------------------------------------------------------------------------------ the files

#[derive(Clone)]
enum Content { Text(Vec<u8>), Missing, Directory, Dangling }
/// What a file contributes: the modules with their imports, or an error of its own.
#[derive(Clone)]
struct Kind { name: &'static str, content: Content, modules: Vec<(&'static str, Vec<&'static str>)>, bad: Option<bool> }

fn kinds() -> Vec<Kind> {
    let t = |name, text: &str, modules: Vec<(&'static str, Vec<&'static str>)>, ok: bool| Kind { name, content: Content::Text(text.as_bytes().to_vec()), modules, bad: if ok { None } else { Some(true) } };
    let m = |n: &str, imp: &str, body: &str| format!("{} DEFINITIONS AUTOMATIC TAGS ::= BEGIN {} {} END\n", n, imp, body);
    vec![
        t("base", &m("Base", "", "B ::= INTEGER (0..5) v INTEGER ::= 3"), vec![("Base", vec![])], true),
        t("user", &m("User", "IMPORTS B, v FROM Base;", "U ::= SEQUENCE { b B, c INTEGER (0..v) OPTIONAL }"), vec![("User", vec!["Base"])], true),
        t("alone", &m("Alone", "", "A ::= CHOICE { x NULL, y BOOLEAN, ... } -- a comment --"), vec![("Alone", vec![])], true),
        t("two", &(m("TwoA", "IMPORTS W FROM TwoB;", "V ::= SEQUENCE OF W") + &m("TwoB", "", "W ::= ENUMERATED { p, q }")), vec![("TwoA", vec!["TwoB"]), ("TwoB", vec![])], true),
        t("crlf", &m("Crlf", "", "C ::= OCTET STRING").replace(' ', "\r\n"), vec![("Crlf", vec![])], true),
        t("lexical", "Lex DEFINITIONS AUTOMATIC TAGS ::= BEGIN L ::= \u{1}\u{2} ^ END", vec![], false),
        t("syntax", "Syn DEFINITIONS AUTOMATIC TAGS ::= BEGIN S ::= SEQUENCE { a END", vec![], false),
        t("good, then bad", &(m("First", "", "F ::= NULL") + "Second DEFINITIONS ::= BEGIN S ::= END"), vec![], false),
        t("undefined", &m("Undef", "", "X ::= SEQUENCE { a Nowhere }"), vec![], false),
        t("constraint", &m("Cons", "", "Y ::= INTEGER (5..1)"), vec![], false),
        t("cycle", &m("Cyc", "", "P ::= Q Q ::= P"), vec![], false),
        t("not text", "", vec![], false),
        Kind { name: "empty", content: Content::Text(vec![]), modules: vec![], bad: Some(false) },
        t("blank", " \n-- nothing\n", vec![], true),
        Kind { name: "missing", content: Content::Missing, modules: vec![], bad: Some(true) },
        Kind { name: "directory", content: Content::Directory, modules: vec![], bad: Some(true) },
        Kind { name: "dangling link", content: Content::Dangling, modules: vec![], bad: Some(true) },
    ].into_iter().map(|mut k| {
        if k.name == "not text" { k.content = Content::Text(b"Bin DEFINITIONS AUTOMATIC TAGS ::= BEGIN B\xff\xfe ::= NULL END".to_vec()) }
        if k.name == "blank" { k.bad = Some(false) }
        k
    }).collect()
}
/// Some(true): succeeds, Some(false): fails, None: either (a file without a module).
fn verdict(ks: &[&Kind]) -> Option<bool> {
    if ks.iter().any(|k| k.bad == Some(true)) { return Some(false) }
    let mut seen = HashSet::new();
    for k in ks { for (m, _) in &k.modules { if !seen.insert(*m) { return Some(false) } } }
    if ks.iter().any(|k| k.modules.iter().any(|(_, i)| i.iter().any(|x| !seen.contains(x)))) { return Some(false) }
    if ks.iter().any(|k| k.bad == Some(false)) { return None }
    Some(true)
}

// ------------------------------------------------------------------------------------------------ running the tool

#[derive(Clone, Debug, PartialEq)]
struct Ran { status: Option<i32>, stdout: Vec<u8>, stderr: String, hang: bool }
enum To { Pipe, Full, Closed }

fn tool(dir: &Path, args: &[String], path: &str, to: To) -> Ran {
    let bin = std::env::current_exe().unwrap().parent().unwrap().join("mc-hampi-asn1c");
    let mut c = Command::new(bin);
    c.args(args).current_dir(dir).env_clear().env("PATH", path).env("HOME", "/root").env("RUSTUP_TOOLCHAIN", std::env::var("RUSTUP_TOOLCHAIN").unwrap_or_default()).stdin(Stdio::null()).stderr(Stdio::piped());
    match to {
        To::Pipe => { c.stdout(Stdio::piped()); }
        To::Full => { c.stdout(std::fs::OpenOptions::new().write(true).open("/dev/full").unwrap()); }
        To::Closed => { let mut fds = [0; 2]; unsafe { libc::pipe(fds.as_mut_ptr()); libc::close(fds[0]); use std::os::fd::FromRawFd; c.stdout(Stdio::from_raw_fd(fds[1])); } }
    }
    let mut child = c.spawn().expect("cannot run the tool");
    let (o, e) = (child.stdout.take(), child.stderr.take());
    let (ho, he) = (std::thread::spawn(move || { let mut v = vec![]; if let Some(mut o) = o { let _ = o.read_to_end(&mut v); } v }), std::thread::spawn(move || { let mut v = vec![]; let _ = e.unwrap().read_to_end(&mut v); v }));
    let t = Instant::now();
    let mut hang = false;
    let status = loop {
        match child.try_wait() { Ok(Some(s)) => break s.code(), Ok(None) => {} Err(_) => break None }
        if t.elapsed() > Duration::from_secs(90) { hang = true; let _ = child.kill(); let _ = child.wait(); break None }
        std::thread::sleep(Duration::from_millis(2));
    };
    Ran { status, stdout: ho.join().unwrap(), stderr: String::from_utf8_lossy(&he.join().unwrap()).into_owned(), hang }
}

struct Lab { dir: PathBuf, real: String }
impl Lab {
    fn write(&self, name: &str, content: &Content) {
        let p = self.dir.join(name);
        match content {
            Content::Text(t) => std::fs::write(&p, t).unwrap(),
            Content::Missing => {}
            Content::Directory => std::fs::create_dir_all(&p).unwrap(),
            Content::Dangling => std::os::unix::fs::symlink("nowhere", &p).unwrap(),
        }
    }
    fn stand_in(&self, name: &str, script: &str) -> String {
        use std::os::unix::fs::PermissionsExt;
        let d = self.dir.join(format!("path-{}", name));
        std::fs::create_dir_all(&d).unwrap();
        let f = d.join("rustfmt");
        std::fs::write(&f, script).unwrap();
        std::fs::set_permissions(&f, std::fs::Permissions::from_mode(0o755)).unwrap();
        d.display().to_string()
    }
}

/// rustfmt as the tool should run it.
fn formatted(code: &str, real: &str, memo: &Mutex<HashMap<u64, Vec<u8>>>) -> Vec<u8> {
    if let Some(v) = memo.lock().unwrap().get(&hash_of(code)) { return v.clone() }
    let mut c = Command::new(format!("{}/rustfmt", real)).env("HOME", "/root").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("no rustfmt");
    let mut i = c.stdin.take().unwrap();
    let text = code.to_string();
    let h = std::thread::spawn(move || { let _ = i.write_all(text.as_bytes()); });
    let out = c.wait_with_output().unwrap();
    let _ = h.join();
    memo.lock().unwrap().insert(hash_of(code), out.stdout.clone());
    out.stdout
}
fn trim(v: &[u8]) -> &[u8] { let mut v = v; while v.last().map_or(false, |c| c.is_ascii_whitespace()) { v = &v[..v.len() - 1] } v }

thread_local! { static SVC: std::cell::RefCell<Option<Service>> = const { std::cell::RefCell::new(None) }; }
fn library(files: &[String]) -> Out { SVC.with(|s| s.borrow_mut().get_or_insert_with(Service::new).compile(files)) }

/// Errors end in a message: the last line says more than the progress that is reported without an error.
fn explains(stderr: &str) -> bool {
    let last = stderr.lines().rev().find(|l| !l.trim().is_empty()).unwrap_or("");
    !(last.is_empty() || last.starts_with("File:") || last.starts_with("tokens:") || last.starts_with("All IMPORTS"))
}

fn judge(c: &'static Check, what: &str, want: Option<bool>, r: &Ran, code: Option<&[u8]>) -> bool {
    let bad = |d: String| { c.violation(what.to_string(), d); false };
    let tail = r.stderr.lines().rev().take(2).collect::<Vec<_>>().join(" / ");
    if r.hang { return bad("does not end".into()) }
    let ok = r.status == Some(0);
    if want.map_or(false, |w| w != ok) { return bad(format!("status {:?}, expected {}; stderr ends: {}", r.status, if ok { "a failure" } else { "success" }, tail)) }
    if ok {
        if let Some(code) = code { if trim(&r.stdout) != trim(code) || trim(code).is_empty() { return bad(format!("status 0, but standard output is not the generated code: {} bytes instead of {}", trim(&r.stdout).len(), trim(code).len())) } }
    } else {
        if !trim(&r.stdout).is_empty() { return bad(format!("status {:?}, but {} bytes on standard output", r.status, r.stdout.len())) }
        if !explains(&r.stderr) { return bad(format!("status {:?} without a reason on standard error: {}", r.status, tail)) }
    }
    true
}

/// Every tuple of up to 3 (thorough 4) files.
fn tuples(c: &'static Check, lab: &Lab, ks: &[Kind], deep: bool) {
    let n = ks.len();
    let mut all: Vec<Vec<usize>> = vec![];
    for i in 0..n { all.push(vec![i]); for j in 0..n { all.push(vec![i, j]); for k in 0..n { all.push(vec![i, j, k]); if deep { for l in 0..n { let t = vec![i, j, k, l]; if t.iter().filter(|x| ks[**x].bad.is_some()).count() <= 1 { all.push(t) } } } } } }
    if !deep { all.retain(|t| t.len() < 3 || t.iter().filter(|x| ks[**x].bad == Some(true)).count() <= 1) }
    let memo = Mutex::new(HashMap::new());
    mc_model::par::for_each(&all, |_, t| {
        if c.stopped() { return }
        let kinds: Vec<&Kind> = t.iter().map(|i| &ks[*i]).collect();
        let what = format!("files {}", kinds.iter().map(|k| k.name).collect::<Vec<_>>().join(", "));
        let want = verdict(&kinds);
        let args: Vec<String> = kinds.iter().map(|k| format!("{}.asn", k.name)).collect();
        let r = tool(&lab.dir, &args, &lab.real, To::Pipe);
        c.add_states(1); c.add_transitions(t.len() as u64); c.add_traces(1);
        let texts: Option<Vec<String>> = kinds.iter().map(|k| match &k.content { Content::Text(t) => String::from_utf8(t.clone()).ok(), _ => None }).collect();
        let code = texts.as_ref().and_then(|f| match library(f) { Out::Code(s) => Some(formatted(&s, &lab.real, &memo)), _ => None });
        let ok = r.status == Some(0);
        c.count(if ok { "runs that succeed" } else { "runs that fail" }, 1);
        if ok && code.is_none() { c.violation(what.clone(), "the tool succeeds where the compiler refuses"); return }
        if !judge(c, &what, want, &r, code.as_deref()) { return }
        // the same in one file
        if let Some(f) = texts {
            if t.len() < 2 { return }
            // (files without a module of their own may not be distinguished from nothing here)
            let one = format!("one-{}.asn", t.iter().map(|x| x.to_string()).collect::<Vec<_>>().join("-"));
            std::fs::write(lab.dir.join(&one), f.join("\n")).unwrap();
            let q = tool(&lab.dir, &[one.clone()], &lab.real, To::Pipe);
            let _ = std::fs::remove_file(lab.dir.join(&one));
            c.add_states(1);
            let same = if want.is_none() { true } else { (q.status == Some(0)) == ok && (!ok || q.stdout == r.stdout) };
            if !same { c.violation(format!("{} in one file", what), format!("status {:?} with {} bytes; as several files status {:?} with {} bytes", q.status, q.stdout.len(), r.status, r.stdout.len())) }
            if q.status != Some(0) && (!trim(&q.stdout).is_empty() || !explains(&q.stderr)) { c.violation(format!("{} in one file", what), "a failure with code on standard output or without a reason") }
        }
    });
}

/// What rustfmt and standard output may do.
fn conditions(c: &'static Check, lab: &Lab, ks: &[Kind]) {
    let memo = Mutex::new(HashMap::new());
    let big = format!("Big DEFINITIONS AUTOMATIC TAGS ::= BEGIN {} END", (0..3000).map(|i| format!("T{} ::= SEQUENCE {{ a INTEGER (0..{}) OPTIONAL, b OCTET STRING }} ", i, i)).collect::<String>());
    lab.write("big.asn", &Content::Text(big.clone().into_bytes()));
    let text = |n: &str| ks.iter().find(|k| k.name == n).and_then(|k| match &k.content { Content::Text(t) => String::from_utf8(t.clone()).ok(), _ => None }).unwrap_or_default();
    let inputs: Vec<(&str, Vec<&str>, Vec<String>, bool)> = vec![
        ("one file", vec!["base.asn"], vec![text("base")], true),
        ("two files", vec!["user.asn", "base.asn"], vec![text("user"), text("base")], true),
        ("much", vec!["big.asn"], vec![big], true),
        ("a wrong file", vec!["base.asn", "undefined.asn"], vec![], false),
        ("a missing file", vec!["base.asn", "missing.asn"], vec![], false),
    ];
    // name, rustfmt, whether it does its work
    let cat = std::env::current_exe().unwrap().parent().unwrap().join("mc-rustfmt");
    let rustfmts: Vec<(&str, String, Option<bool>)> = vec![
        ("real", lab.real.clone(), Some(true)),
        ("plain copy", lab.stand_in("copy", &format!("#!/bin/sh\nexec {}\n", cat.display())), None),
        ("not there", lab.dir.join("nothing").display().to_string(), Some(false)),
        ("fails at once", lab.stand_in("false", "#!/bin/sh\nexit 1\n"), Some(false)),
        ("fails after reading", lab.stand_in("late", "#!/bin/sh\n/bin/cat >/dev/null\nexit 1\n"), Some(false)),
        ("fails after writing", lab.stand_in("copyfail", "#!/bin/sh\n/bin/cat\nexit 1\n"), Some(false)),
        ("fails after writing a part", lab.stand_in("part", "#!/bin/sh\n/usr/bin/head -c 300\nexit 3\n"), Some(false)),
        ("is killed", lab.stand_in("killed", "#!/bin/sh\n/bin/cat\nkill -9 $$\n"), Some(false)),
        ("is killed at once", lab.stand_in("killed0", "#!/bin/sh\nkill -9 $$\n"), Some(false)),
        ("is slow", lab.stand_in("slow", &format!("#!/bin/sh\n/bin/sleep 1\nexec {}\n", cat.display())), None),
    ];
    let mut tasks = vec![];
    for i in 0..inputs.len() { for r in 0..rustfmts.len() { for o in 0..3 { tasks.push((i, r, o)) } } }
    mc_model::par::for_each(&tasks, |_, (i, r, o)| {
        let (name, args, files, good) = &inputs[*i];
        let (rn, path, works) = &rustfmts[*r];
        let what = format!("{}; rustfmt: {}; standard output: {}", name, rn, ["a pipe", "full", "closed"][*o]);
        let out = tool(&lab.dir, &args.iter().map(|s| s.to_string()).collect::<Vec<_>>(), path, match o { 0 => To::Pipe, 1 => To::Full, _ => To::Closed });
        c.add_states(1); c.add_transitions(1);
        c.count("conditions of the environment", 1);
        let want = Some(*good && *works != Some(false) && *o == 0);
        let code = if want == Some(true) { match library(files) { Out::Code(s) => Some(if works.is_some() { formatted(&s, &lab.real, &memo) } else { s.into_bytes() }), _ => None } } else { None };
        judge(c, &what, want, &out, code.as_deref());
    });
    // the specifications that come with the project
    let Ok(dirs) = std::fs::read_dir("/repo/specs") else { return };
    let dirs: Vec<PathBuf> = dirs.flatten().map(|d| d.path()).collect();
    mc_model::par::for_each(&dirs, |_, d| {
        let mut names: Vec<PathBuf> = std::fs::read_dir(d).map(|r| r.flatten().map(|e| e.path()).filter(|p| p.extension().map_or(false, |e| e == "asn")).collect()).unwrap_or_default();
        names.sort();
        let files: Vec<String> = names.iter().filter_map(|p| std::fs::read_to_string(p).ok()).collect();
        if files.is_empty() { return }
        let Out::Code(code) = library(&files) else { return };
        let r = tool(&lab.dir, &names.iter().map(|p| p.display().to_string()).collect::<Vec<_>>(), &lab.real, To::Pipe);
        c.add_states(1); c.add_traces(1);
        c.count("bundled specifications", 1);
        judge(c, &format!("{}", d.display()), Some(true), &r, Some(&formatted(&code, &lab.real, &memo)));
    });
}

/// Long lists of files that depend upon one another, in several orders, whole and with one file that is bad.
fn many(c: &'static Check, lab: &Lab, deep: bool) {
    let memo = Mutex::new(HashMap::new());
    let module = |i: usize| format!("Many{} DEFINITIONS AUTOMATIC TAGS ::= BEGIN {} T{} ::= SEQUENCE {{ a INTEGER (0..v{}) {} }} v{} INTEGER ::= {} END\n", i, if i == 0 { String::new() } else { format!("IMPORTS T{}, v{} FROM Many{};", i - 1, i - 1, i - 1) }, i, i, if i == 0 { String::new() } else { format!(", b T{} OPTIONAL, c INTEGER (0..v{})", i - 1, i - 1) }, i, 3 + i);
    let top = if deep { 257 } else { 129 };
    for i in 0..top { lab.write(&format!("many{}.asn", i), &Content::Text(module(i).into_bytes())); }
    lab.write("bad-syntax.asn", &Content::Text(b"Bad DEFINITIONS AUTOMATIC TAGS ::= BEGIN S ::= SEQUENCE { END".to_vec()));
    lab.write("bad-name.asn", &Content::Text(b"Bad DEFINITIONS AUTOMATIC TAGS ::= BEGIN S ::= SEQUENCE { a Nowhere } END".to_vec()));
    let counts: Vec<usize> = [4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257].into_iter().filter(|n| *n <= top).collect();
    let mut tasks: Vec<(String, Vec<String>, Vec<Option<usize>>)> = vec![];
    for n in counts {
        let up: Vec<usize> = (0..n).collect();
        let down: Vec<usize> = (0..n).rev().collect();
        let mix: Vec<usize> = (0..n).map(|i| if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 }).collect();
        for (on, o) in [("in order", &up), ("in reverse", &down), ("mixed", &mix)] {
            let arg = |i: &usize| format!("many{}.asn", i);
            tasks.push((format!("{} files {}", n, on), o.iter().map(arg).collect(), o.iter().map(|i| Some(*i)).collect()));
            if on == "in reverse" && !deep { continue }
            for at in [0, n / 2, n - 1] { for b in ["bad-syntax.asn", "bad-name.asn", "missing.asn", "many0.asn"] {
                let mut a: Vec<String> = o.iter().map(arg).collect();
                a.insert(at, b.into());
                tasks.push((format!("{} files {}, {} at {}", n, on, b, at), a, vec![]));
            } }
            // one of them is left out
            for at in [0, n / 2, n - 2] { let a: Vec<String> = o.iter().filter(|i| **i != at).map(arg).collect(); tasks.push((format!("{} files {} without {}", n, on, at), a, vec![])); }
        }
    }
    mc_model::par::for_each(&tasks, |_, (what, args, good)| {
        if c.stopped() { return }
        let r = tool(&lab.dir, args, &lab.real, To::Pipe);
        c.add_states(1); c.add_transitions(args.len() as u64); c.add_traces(1);
        c.count("long lists of files", 1);
        let code = if good.is_empty() { None } else {
            let one: String = good.iter().flatten().map(|i| module(*i)).collect();
            match library(&[one]) { Out::Code(s) => Some(formatted(&s, &lab.real, &memo)), o => { c.violation(what.clone(), format!("in one text: {}", o.brief())); return } }
        };
        judge(c, what, Some(!good.is_empty()), &r, code.as_deref());
    });
}

/// Names, kinds and sizes of files.
fn shapes(c: &'static Check, lab: &Lab) {
    use std::os::unix::{ffi::OsStrExt, fs::{symlink, OpenOptionsExt}};
    let memo = Mutex::new(HashMap::new());
    let text = "Shape DEFINITIONS AUTOMATIC TAGS ::= BEGIN A ::= SEQUENCE { a INTEGER (0..5), b BOOLEAN OPTIONAL } END\n";
    let Out::Code(code) = library(&[text.to_string()]) else { c.violation("shape", "refused"); return };
    let want = formatted(&code, &lab.real, &memo);
    let d = lab.dir.join("shapes");
    std::fs::create_dir_all(d.join("sub dir")).unwrap();
    let mut tasks: Vec<(String, String, Option<bool>)> = vec![];
    for n in ["plain", "with space.asn", "-dash.asn", "--help", "umlaut-\u{fc}.asn", "a'b\"c.asn", "star*.asn", "new\nline.asn", "sub dir/deep.asn", "x.ASN", "noext", ".hidden"] {
        std::fs::write(d.join(n), text).unwrap();
        if !n.starts_with('-') { tasks.push((format!("name {:?}", n), format!("shapes/{}", n), Some(true))); tasks.push((format!("path of {:?}", n), d.join(n).display().to_string(), Some(true))) }
        else { tasks.push((format!("name {:?}", n), format!("shapes/{}", n), Some(true))) }
    }
    let long = "n".repeat(250); std::fs::write(d.join(&long), text).unwrap();
    tasks.push(("a long name".into(), format!("shapes/{}", long), Some(true)));
    tasks.push(("a name that is too long".into(), "n".repeat(300), Some(false)));
    tasks.push(("no name".into(), String::new(), Some(false)));
    tasks.push(("path through a file".into(), "shapes/plain/x".into(), Some(false)));
    tasks.push(("path with ..".into(), "shapes/../shapes/./plain".into(), Some(true)));
    symlink("plain", d.join("link")).unwrap(); symlink("link", d.join("link2")).unwrap(); symlink("loop", d.join("loop")).unwrap();
    tasks.push(("a link to a link".into(), "shapes/link2".into(), Some(true)));
    tasks.push(("a link to itself".into(), "shapes/loop".into(), Some(false)));
    tasks.push(("standard input, which is empty".into(), "/dev/stdin".into(), None));
    // sizes around those of buffers: filled in front, between items, in a comment, at the end
    for size in [4095usize, 4096, 4097, 8191, 8192, 8193, 16384, 32768, 65535, 65536, 65537, 131072, 1 << 20, 3 << 20] { for place in 0..4 {
        let fill = size - text.len();
        let t = match place {
            0 => format!("{}{}", " ".repeat(fill), text),
            1 => text.replacen("{ a", &format!("{{{} a", "\n".repeat(fill)), 1),
            2 => text.replacen("{ a", &format!("{{--{}\n a", "\u{e9}".repeat((fill - 3) / 2) + if (fill - 3) % 2 == 1 { "x" } else { "" }), 1),
            _ => format!("{}{}", text, "\n".repeat(fill)),
        };
        assert_eq!(t.len(), size);
        let n = format!("size-{}-{}", size, place);
        std::fs::write(d.join(&n), t).unwrap();
        tasks.push((format!("{} octets, filled at place {}", size, place), format!("shapes/{}", n), Some(true)));
    } }
    mc_model::par::for_each(&tasks, |_, (what, arg, good)| {
        let r = tool(&lab.dir, &[arg.clone()], &lab.real, To::Pipe);
        c.add_states(1); c.add_transitions(1); c.add_traces(1);
        c.count("names, kinds and sizes of files", 1);
        judge(c, what, *good, &r, if *good == Some(true) { Some(&want) } else { None });
    });
    // a pipe that gives the text in pieces, split everywhere
    for cut in 0..text.len() {
        if c.stopped() { return }
        let f = d.join(format!("fifo{}", cut));
        let name = std::ffi::CString::new(f.as_os_str().as_bytes()).unwrap();
        if unsafe { libc::mkfifo(name.as_ptr(), 0o600) } != 0 { return }
        let g = f.clone();
        let h = std::thread::spawn(move || { if let Ok(mut w) = std::fs::OpenOptions::new().write(true).open(&g) { let _ = w.write_all(&text.as_bytes()[..cut]); let _ = w.flush(); std::thread::sleep(Duration::from_millis(2)); let _ = w.write_all(&text.as_bytes()[cut..]); } });
        let r = tool(&lab.dir, &[f.display().to_string()], &lab.real, To::Pipe);
        // a tool that never opened it leaves the writer waiting
        let _ = std::fs::OpenOptions::new().read(true).custom_flags(libc::O_NONBLOCK).open(&f);
        let _ = h.join();
        let _ = std::fs::remove_file(&f);
        c.add_states(1); c.add_transitions(2); c.add_traces(1);
        c.count("pieces from a pipe", 1);
        judge(c, &format!("a pipe, in pieces of {} and {} octets", cut, text.len() - cut), Some(true), &r, Some(&want));
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map_or(false, |s| s == "--serve") { run::serve() }
    let c: &'static Check = Box::leak(Box::new(Check::new("K14")));
    install(c);
    let deep = c.thorough;
    let dir = std::env::temp_dir().join(format!("mc-cli-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    { use std::os::unix::fs::PermissionsExt; std::fs::set_permissions(&dir, std::fs::Permissions::from_mode(0o755)).unwrap() }
    // the real rustfmt, without the wrapper that chooses a toolchain
    let real = real_rustfmt();
    let lab = Lab { dir: dir.clone(), real: real.clone() };
    let ks = kinds();
    for k in &ks { lab.write(&format!("{}.asn", k.name), &k.content) }
    tuples(c, &lab, &ks, deep);
    conditions(c, &lab, &ks);
    many(c, &lab, deep);
    shapes(c, &lab);
    let _ = std::fs::remove_dir_all(&dir);
    c.assume("rustfmt is the one of the toolchain; a file without any module may be refused or taken as nothing");
    std::process::exit(c.finish());
}
fn real_rustfmt() -> String {
    let out = Command::new("rustc").args(["--print", "sysroot"]).output().expect("no rustc");
    format!("{}/bin", String::from_utf8_lossy(&out.stdout).trim())
}
