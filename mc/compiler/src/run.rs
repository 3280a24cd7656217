//! Runs the real compiler (public API only) and isolates it in child processes.
use std::io::{Read, Write, Seek, SeekFrom};
use std::os::unix::process::ExitStatusExt;
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, PartialEq)]
pub enum Out { Code(String), Error(String), Panic(String), Crash(String), Hang }
impl Out {
    pub fn brief(&self) -> String {
        match self { Out::Code(_) => "accepted".into(), Out::Error(e) => format!("error: {}", e.chars().take(200).collect::<String>()), Out::Panic(p) => format!("panic: {}", p), Out::Crash(s) => format!("crash: {}", s), Out::Hang => "does not terminate".into() }
    }
}

/// Everything the command line tool does, file by file, up to the call that prints the code.
fn pipeline(files: &[String]) -> Result<asn1_compiler::Asn1Compiler, String> {
    let mut compiler = asn1_compiler::Asn1Compiler::new();
    for f in files {
        let mut tokens = asn1_compiler::tokenizer::tokenize(f.as_bytes()).map_err(|e| format!("tokenize: {}", e))?;
        let mut modules = asn1_compiler::parser::parse(&mut tokens).map_err(|e| format!("parse: {}", e))?;
        while let Some(m) = modules.pop() { compiler.add_module(m).done()?; }
    }
    compiler.resolve_modules().map_err(|e| format!("resolve: {}", e))?;
    Ok(compiler)
}
pub trait Added { fn done(self) -> Result<(), String>; }
impl Added for bool { fn done(self) -> Result<(), String> { if self { Ok(()) } else { Err("add_module: the module exists already".into()) } } }
impl<T, E: std::fmt::Display> Added for Result<T, E> { fn done(self) -> Result<(), String> { self.map(|_| ()).map_err(|e| format!("add_module: {}", e)) } }

thread_local! { static PANIC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()); }
fn quiet() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file().rsplit("/asn-compiler/").next().unwrap_or(""), l.line())).unwrap_or_default();
        let msg = i.payload().downcast_ref::<String>().cloned().or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        let msg: String = msg.chars().take(200).collect();
        PANIC.with(|p| *p.borrow_mut() = format!("{} ({})", msg, loc));
    }));
}
pub fn caught<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| PANIC.with(|p| p.borrow().clone()))
}

/// Standard output of this process goes to a memory file, so that the code the compiler prints can be read back.
pub struct Capture(std::fs::File);
impl Capture {
    fn new() -> Capture {
        use std::os::fd::FromRawFd;
        unsafe {
            let fd = libc::memfd_create(b"out\0".as_ptr() as *const _, 0);
            let null = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_RDWR);
            libc::dup2(fd, 1);
            libc::dup2(null, 2);
            Capture(std::fs::File::from_raw_fd(fd))
        }
    }
    pub fn take(&mut self) -> String {
        let _ = std::io::stdout().flush();
        let mut s = vec![];
        let _ = self.0.seek(SeekFrom::Start(0));
        let _ = self.0.read_to_end(&mut s);
        let _ = self.0.set_len(0);
        let _ = self.0.seek(SeekFrom::Start(0));
        String::from_utf8_lossy(&s).into_owned()
    }
}

fn compile(files: &[String], cap: &mut Capture) -> Out {
    let r = caught(|| {
        let mut c = pipeline(files)?;
        c.generate().map_err(|e| format!("generate: {}", e))
    });
    let text = cap.take();
    match r { Err(p) => Out::Panic(p), Ok(Err(e)) => Out::Error(e), Ok(Ok(())) => Out::Code(text) }
}

// ---------------------------------------------------------------- service: one request, one answer

fn put(w: &mut impl Write, s: &[u8]) -> std::io::Result<()> { w.write_all(&(s.len() as u32).to_le_bytes())?; w.write_all(s) }
fn get(r: &mut impl Read) -> std::io::Result<Vec<u8>> { let mut n = [0; 4]; r.read_exact(&mut n)?; let mut v = vec![0; u32::from_le_bytes(n) as usize]; r.read_exact(&mut v)?; Ok(v) }

/// Set by a harness that controls how a request is carried out: its first text is taken off the request and given to
/// `before`; what `after` says is put before the answer, with a line feed.
pub struct Control { pub before: fn(&str), pub after: fn() -> String, pub instead: fn(&[String], &mut Capture) -> Option<Out> }
pub static CONTROL: std::sync::OnceLock<Control> = std::sync::OnceLock::new();

/// What takes all the memory ends this process and no other.
fn memory_limit() {
    let most = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 3 << 30 };
    unsafe { libc::setrlimit(libc::RLIMIT_AS, &most) };
}

/// Child: answers requests on stdin; answers go to the original stdout.
pub fn serve() -> ! {
    use std::os::fd::FromRawFd;
    quiet();
    memory_limit();
    let out = unsafe { libc::dup(1) };
    let mut out = unsafe { std::fs::File::from_raw_fd(out) };
    let mut cap = Capture::new();
    let mut inp = std::io::stdin().lock();
    loop {
        let n = match get(&mut inp) { Ok(n) => n[0] as usize, Err(_) => std::process::exit(0) };
        let files: Vec<String> = (0..n).map(|_| String::from_utf8_lossy(&get(&mut inp).unwrap()).into_owned()).collect();
        let (r, head) = match CONTROL.get() {
            None => (compile(&files, &mut cap), String::new()),
            Some(k) => { (k.before)(&files[0]); let r = (k.instead)(&files, &mut cap).unwrap_or_else(|| compile(&files[1..], &mut cap)); (r, (k.after)() + "\n") }
        };
        let (t, s) = match r { Out::Code(s) => (b'c', s), Out::Error(s) => (b'e', s), Out::Panic(s) => (b'p', s), _ => unreachable!() };
        let mut m = vec![t]; m.extend_from_slice(head.as_bytes()); m.extend_from_slice(s.as_bytes());
        if put(&mut out, &m).is_err() { std::process::exit(0) }
    }
}

pub fn tool_path() -> String {
    // a directory that holds nothing but the stand-in for rustfmt, placed first
    let dir = std::env::current_exe().unwrap().parent().unwrap().join("mc-path");
    let _ = std::fs::create_dir_all(&dir);
    let l = dir.join("rustfmt");
    if !l.exists() { let _ = std::os::unix::fs::symlink("../mc-rustfmt", &l); }
    format!("{}:{}", dir.display(), std::env::var("PATH").unwrap_or_default())
}

pub struct Service { child: Child, env: Vec<(String, String)>, mode: &'static str }
pub const LIMIT: Duration = Duration::from_secs(40);
impl Service {
    pub fn new() -> Service { Service::with(vec![]) }
    pub fn mode(mode: &'static str) -> Service { Service { child: Service::start(&[], mode), env: vec![], mode } }
    pub fn with(env: Vec<(String, String)>) -> Service { Service { child: Service::start(&env, "--serve"), env, mode: "--serve" } }
    fn start(env: &[(String, String)], mode: &str) -> Child {
        let mut c = Command::new(std::env::current_exe().unwrap());
        c.arg(mode).env("PATH", tool_path()).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null());
        for (k, v) in env { c.env(k, v); }
        c.spawn().expect("cannot start a child process")
    }
    pub fn compile(&mut self, files: &[String]) -> Out {
        use std::os::fd::AsRawFd;
        let mut req = vec![];
        let _ = put(&mut req, &[files.len() as u8]);
        for f in files { let _ = put(&mut req, f.as_bytes()); }
        let w = self.child.stdin.as_mut().unwrap().write_all(&req).and_then(|_| self.child.stdin.as_mut().unwrap().flush());
        let fd = self.child.stdout.as_ref().unwrap().as_raw_fd();
        let t = Instant::now();
        let mut ready = false;
        while w.is_ok() && t.elapsed() < LIMIT {
            let mut p = libc::pollfd { fd, events: libc::POLLIN, revents: 0 };
            if unsafe { libc::poll(&mut p, 1, 500) } > 0 { ready = true; break }
        }
        if !ready && w.is_ok() {
            let _ = self.child.kill(); let _ = self.child.wait();
            self.child = Service::start(&self.env, self.mode);
            return Out::Hang;
        }
        match get(self.child.stdout.as_mut().unwrap()) {
            Ok(m) => { let s = String::from_utf8_lossy(&m[1..]).into_owned(); match m[0] { b'c' => Out::Code(s), b'e' => Out::Error(s), _ => Out::Panic(s) } }
            Err(_) => {
                let st = self.child.wait();
                self.child = Service::start(&self.env, self.mode);
                Out::Crash(match st { Ok(s) => s.signal().map(|n| format!("signal {}{}", n, if n == 6 || n == 11 { " (stack overflow or abort)" } else { "" })).unwrap_or_else(|| format!("exit {:?}", s.code())), Err(e) => e.to_string() })
            }
        }
    }
}
impl Drop for Service { fn drop(&mut self) { let _ = self.child.kill(); let _ = self.child.wait(); } }

/// Compile many cases in parallel; results in order.
pub fn compile_all(cases: &[Vec<String>], each: impl Fn(usize, &Out) + Sync) {
    thread_local! { static SVC: std::cell::RefCell<Option<Service>> = const { std::cell::RefCell::new(None) }; }
    mc_model::par::for_each(cases, |i, f| {
        let r = SVC.with(|s| s.borrow_mut().get_or_insert_with(Service::new).compile(f));
        each(i, &r);
    });
}

// ---------------------------------------------------------------- sweep: millions of cases, only termination matters

pub struct Group { pub name: String, pub len: u64, pub get: Box<dyn Fn(u64) -> Vec<String>> }

struct Shared(*mut AtomicU64);
impl Shared {
    fn open(path: &std::path::Path) -> Shared {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).open(path).unwrap();
        f.set_len(4096).unwrap();
        let p = unsafe { libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0) };
        assert!(p != libc::MAP_FAILED);
        Shared(p as *mut AtomicU64)
    }
    fn at(&self, i: usize) -> &AtomicU64 { unsafe { &*self.0.add(i) } }
}

/// Child of `sweep`: cases `from, from+n, ...` of the concatenated groups.
pub fn sweep_child(groups: Vec<Group>, dir: &str, shard: u64, n: u64, from: u64) -> ! {
    memory_limit();
    quiet();
    let sh = Shared::open(&std::path::Path::new(dir).join(format!("pos{}", shard)));
    let mut log = std::fs::OpenOptions::new().append(true).create(true).open(std::path::Path::new(dir).join(format!("panics{}", shard))).unwrap();
    let mut cap = Capture::new();
    let (mut base, mut panics) = (0u64, 0);
    for g in &groups {
        let first = if from > base { from - base } else { (n + shard - base % n) % n };
        let mut i = first;
        while i < g.len {
            sh.at(0).store(base + i, Ordering::SeqCst);
            sh.at(1).fetch_add(1, Ordering::SeqCst);
            let files = (g.get)(i);
            let r = caught(|| match pipeline(&files) { Err(_) => 0u64, Ok(mut c) => if c.generate().is_ok() { 2 } else { 1 } });
            match r {
                Ok(k) => { sh.at(3 + k as usize).fetch_add(1, Ordering::SeqCst); if k == 2 { cap.take(); } }
                Err(p) => { cap.take(); panics += 1; if panics <= 400 { let _ = writeln!(log, "{}\t{}", base + i, p.replace('\n', " ")); } }
            }
            i += n;
        }
        base += g.len;
    }
    sh.at(2).store(1, Ordering::SeqCst);
    std::process::exit(0)
}

pub struct Swept { pub cases: u64, pub accepted: u64, pub bad: Vec<(u64, String)> }

pub fn sweep(prop: &str, groups: &[Group], max_bad: usize) -> Swept {
    let total: u64 = groups.iter().map(|g| g.len).sum();
    let dir = mc_model::report::verif_dir().join("work").join(format!("sweep-{}-{}", prop, std::process::id()));
    let _ = std::fs::create_dir_all(&dir);
    let n = mc_model::par::threads() as u64;
    let bad = std::sync::Mutex::new(vec![]);
    let (cases, accepted) = (AtomicU64::new(0), AtomicU64::new(0));
    let stop = std::sync::atomic::AtomicBool::new(false);
    std::thread::scope(|s| for shard in 0..n {
        let (dir, bad, cases, accepted, stop) = (&dir, &bad, &cases, &accepted, &stop);
        s.spawn(move || {
            let sh = Shared::open(&dir.join(format!("pos{}", shard)));
            for i in 0..8 { sh.at(i).store(0, Ordering::SeqCst) }
            let mut from = shard;
            'restart: loop {
                let mut child = Command::new(std::env::current_exe().unwrap()).args(["--sweep", prop, dir.to_str().unwrap(), &shard.to_string(), &n.to_string(), &from.to_string()])
                    .env("PATH", tool_path()).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).spawn().expect("cannot start a child process");
                let (mut last, mut since) = (u64::MAX, Instant::now());
                loop {
                    if let Ok(Some(st)) = child.try_wait() {
                        if sh.at(2).load(Ordering::SeqCst) == 1 { break 'restart }
                        let at = sh.at(0).load(Ordering::SeqCst);
                        let what = st.signal().map(|x| format!("ended by signal {} (stack overflow or abort)", x)).unwrap_or_else(|| format!("left the process with status {:?}", st.code()));
                        bad.lock().unwrap().push((at, what));
                        if bad.lock().unwrap().len() >= max_bad { stop.store(true, Ordering::SeqCst); break 'restart }
                        from = at + n; continue 'restart
                    }
                    if stop.load(Ordering::SeqCst) { let _ = child.kill(); let _ = child.wait(); break 'restart }
                    let beat = sh.at(1).load(Ordering::SeqCst);
                    if beat != last { last = beat; since = Instant::now() }
                    if since.elapsed() > LIMIT {
                        let at = sh.at(0).load(Ordering::SeqCst);
                        let _ = child.kill(); let _ = child.wait();
                        bad.lock().unwrap().push((at, format!("does not terminate within {} s", LIMIT.as_secs())));
                        if bad.lock().unwrap().len() >= max_bad { stop.store(true, Ordering::SeqCst); break 'restart }
                        from = at + n; continue 'restart
                    }
                    std::thread::sleep(Duration::from_millis(20));
                }
            }
            cases.fetch_add(sh.at(1).load(Ordering::SeqCst), Ordering::SeqCst);
            accepted.fetch_add(sh.at(5).load(Ordering::SeqCst), Ordering::SeqCst);
            if let Ok(t) = std::fs::read_to_string(dir.join(format!("panics{}", shard))) {
                for l in t.lines() { if let Some((i, p)) = l.split_once('\t') { bad.lock().unwrap().push((i.parse().unwrap_or(0), format!("panics: {}", p))); } }
            }
        });
    });
    let _ = std::fs::remove_dir_all(&dir);
    let mut bad = bad.into_inner().unwrap();
    bad.sort();
    let _ = total;
    Swept { cases: cases.into_inner(), accepted: accepted.into_inner(), bad }
}
pub fn case_of(groups: &[Group], mut i: u64) -> (String, Vec<String>) {
    for g in groups { if i < g.len { return (g.name.clone(), (g.get)(i)) } i -= g.len; }
    panic!("no such case")
}
