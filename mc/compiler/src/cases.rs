//! Runs specifications with a known meaning through the compiler and compares.
use crate::run::{Out, Service};
use crate::shape::*;
use mc_model::report::*;
use std::sync::Mutex;

#[derive(Clone, Debug, PartialEq)]
pub enum Verdict {
    /// valid and supported: code with exactly these types
    Must,
    /// valid, but the compiler may say that it does not support it
    May,
    /// no valid specification
    MustErr,
}

/// A specification. In `files`, `§` stands for a suffix that makes names unique, so that cases can share a module.
#[derive(Clone, Debug)]
pub struct Case {
    pub body: String,
    /// whole files instead of one module body
    pub files: Option<Vec<String>>,
    pub want: Vec<(String, Shape)>,
    pub verdict: Verdict,
}
impl Case {
    pub fn must(body: impl Into<String>, want: Vec<(&str, Shape)>) -> Case { Case { body: body.into(), files: None, want: want.into_iter().map(|(n, s)| (n.to_string(), s)).collect(), verdict: Verdict::Must } }
    pub fn err(body: impl Into<String>) -> Case { Case { body: body.into(), files: None, want: vec![], verdict: Verdict::MustErr } }
    pub fn may(mut self) -> Case { if self.verdict == Verdict::Must { self.verdict = Verdict::May } self }
    pub fn key(&self) -> String { match &self.files { Some(f) => f.join(" -- "), None => self.body.clone() }.replace('§', "") }
    fn alone(&self) -> Vec<String> { match &self.files { Some(f) => f.iter().map(|x| x.replace('§', "")).collect(), None => vec![module(&self.body.replace('§', ""))] } }
}
pub fn module(body: &str) -> String { format!("M DEFINITIONS AUTOMATIC TAGS ::= BEGIN {} END", body) }

thread_local! { static SVC: std::cell::RefCell<Option<Service>> = const { std::cell::RefCell::new(None) }; }
pub fn compile(files: &[String]) -> Out { SVC.with(|s| s.borrow_mut().get_or_insert_with(Service::new).compile(files)) }

/// None: fine.
pub fn judge(what: What, case: &Case, out: &Out, suffix: &str) -> Option<String> {
    match (out, &case.verdict) {
        (Out::Error(_), Verdict::MustErr) | (Out::Error(_), Verdict::May) => None,
        (Out::Error(e), Verdict::Must) => Some(format!("refused: {}", e.chars().take(300).collect::<String>())),
        (Out::Code(c), Verdict::MustErr) => Some(format!("accepted; generated: {}", brief(c))),
        (Out::Code(c), _) => {
            let code = match Code::parse(c) { Ok(c) => c, Err(e) => return Some(e) };
            for (n, s) in &case.want {
                if *s == Shape::Any { let k = code.find(&n.replace('§', suffix)).len(); if k != 1 { return Some(format!("{} types are generated for {}", k, n.replace('§', ""))) } continue }
                match code.shape_of_def(&n.replace('§', suffix)) {
                    Err(e) => return Some(e),
                    Ok(g) => if let Some(d) = differ(what, s, &g, &n.replace('§', "")) { return Some(d) }
                }
            }
            None
        }
        (o, _) => Some(o.brief()),
    }
}
pub fn brief(c: &str) -> String { let s: String = c.split("AperCodec ;").last().unwrap_or("").split_whitespace().collect::<Vec<_>>().join(" "); s.chars().take(400).collect() }

pub struct Runner { c: &'static Check, what: What, pack: Mutex<Vec<Case>>, single: Mutex<Vec<Case>> }
const PACK: usize = 48;
impl Runner {
    pub fn new(c: &'static Check, what: What) -> Runner { Runner { c, what, pack: Mutex::new(vec![]), single: Mutex::new(vec![]) } }
    pub fn add(&self, case: Case) {
        if self.c.only.as_ref().map_or(false, |o| *o != case.key()) { return }
        if self.c.stopped() || (self.what == What::Widths && case.verdict == Verdict::MustErr) { return }
        let v = if case.verdict == Verdict::Must && case.files.is_none() && case.body.contains('§') { &self.pack } else { &self.single };
        let mut g = v.lock().unwrap();
        g.push(case);
        if g.len() >= PACK * 512 { let all = std::mem::take(&mut *g); drop(g); self.run(all); }
    }
    fn run(&self, all: Vec<Case>) {
        let (packed, single): (Vec<Case>, Vec<Case>) = all.into_iter().partition(|c| c.verdict == Verdict::Must && c.files.is_none() && c.body.contains('§'));
        let chunks: Vec<&[Case]> = packed.chunks(PACK).collect();
        let again = Mutex::new(single);
        mc_model::par::for_each(&chunks, |_, ch| {
            if self.c.stopped() { return }
            let body: Vec<String> = ch.iter().enumerate().map(|(i, c)| c.body.replace('§', &format!("-Q{}", i))).collect();
            let out = compile(&[module(&body.join("\n"))]);
            self.c.add_transitions(1);
            let ok = match &out {
                Out::Code(text) => match Code::parse(text) {
                    Ok(code) => ch.iter().enumerate().all(|(i, c)| c.want.iter().all(|(n, s)| code.shape_of_def(&n.replace('§', &format!("-Q{}", i))).map_or(false, |g| differ(self.what, s, &g, "").is_none()))),
                    Err(_) => false,
                },
                _ => false,
            };
            if ok { self.c.add_states(ch.len() as u64); self.c.add_traces(ch.len() as u64); self.c.count("specifications compiled to the expected types", ch.len() as u64) }
            else { again.lock().unwrap().extend(ch.iter().cloned()) }
        });
        let single = again.into_inner().unwrap();
        mc_model::par::for_each(&single, |_, case| {
            if self.c.stopped() { return }
            let out = compile(&case.alone());
            self.c.add_transitions(1); self.c.add_states(1); self.c.add_traces(1);
            self.c.count(match (&out, &case.verdict) { (Out::Error(_), Verdict::MustErr) => "invalid specifications refused", (Out::Error(_), _) => "unsupported specifications refused", _ => "specifications compiled to the expected types" }, 1);
            if let Some(d) = judge(self.what, case, &out, "") { self.c.violation(case.key(), d) }
        });
    }
    pub fn finish(self) {
        let a = std::mem::take(&mut *self.pack.lock().unwrap());
        let b = std::mem::take(&mut *self.single.lock().unwrap());
        if let Some(s) = a.first() { self.c.sample(s.key()) }
        if let Some(s) = b.first() { self.c.sample(s.key()) }
        self.run(a);
        self.run(b);
    }
}
