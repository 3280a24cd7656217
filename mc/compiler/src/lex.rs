//! K01: an independent lexer after X.680 clause 12, compared with the tokenizer on every text of a bounded space.
use mc_model::report::*;
use std::collections::HashMap;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Kind { LCurly, RCurly, LRound, RRound, Bang, LSquare, RSquare, LGroup, RGroup, Ellipsis, Range, Assign, Colon, Semi, Ident, Keyword, And, Num, BStr, HStr, CStr, Dot, Comma, Bar, Caret, At, Less, Other }
use Kind::*;

#[derive(Clone, PartialEq, Debug)]
pub struct Item { pub kind: Kind, pub line: usize, pub col: usize, pub text: String }

pub enum Lexed {
    /// Not a sequence of lexical items.
    Invalid,
    /// The items; `strict`: plain ASN.1 that has to be accepted.
    Items { strict: bool, items: Vec<Item> },
    /// The standard leaves room here (or the notation is not supported): any answer but a panic.
    Unspecified,
}

pub const RESERVED: &[&str] = &["ABSENT","ABSTRACT-SYNTAX","ALL","APPLICATION","AUTOMATIC","BEGIN","BIT","BMPString","BOOLEAN","BY","CHARACTER","CHOICE","CLASS","COMPONENT","COMPONENTS","CONSTRAINED","CONTAINING","DEFAULT","DEFINITIONS","EMBEDDED","ENCODED","END","ENUMERATED","EXCEPT","EXPLICIT","EXPORTS","EXTENSIBILITY","EXTERNAL","FALSE","FROM","GeneralizedTime","GeneralString","GraphicString","IA5String","IDENTIFIER","IMPLICIT","IMPLIED","IMPORTS","INCLUDES","INSTANCE","INTEGER","INTERSECTION","ISO646String","MAX","MIN","MINUS-INFINITY","NULL","NumericString","OBJECT","ObjectDescriptor","OCTET","OF","OPTIONAL","PATTERN","PDV","PLUS-INFINITY","PRESENT","PrintableString","PRIVATE","REAL","RELATIVE-OID","SEQUENCE","SET","SIZE","STRING","SYNTAX","T61String","TAGS","TeletexString","TRUE","TYPE-IDENTIFIER","UNION","UNIQUE","UNIVERSAL","UniversalString","UTCTime","UTF8String","VideotexString","VisibleString","WITH"];

fn alnum(c: char) -> bool { c.is_ascii_alphanumeric() }

/// End of the identifier that starts at `i` (a letter), and whether a lone hyphen follows it.
fn word(c: &[char], i: usize) -> (usize, bool) {
    let mut j = i;
    loop {
        while j < c.len() && alnum(c[j]) { j += 1 }
        if j < c.len() && c[j] == '-' {
            if j + 1 < c.len() && alnum(c[j + 1]) { j += 1; continue }
            return (j, !(j + 1 < c.len() && c[j + 1] == '-'))
        }
        return (j, false)
    }
}

pub fn lex(text: &str) -> Lexed {
    let c: Vec<char> = text.chars().collect();
    let (mut i, mut line, mut start_of_line, mut zero_width) = (0usize, 1usize, 0usize, 0usize);
    let mut strict = true;
    let mut items: Vec<Item> = vec![];
    let at = |j: usize| c.get(j).copied();
    while i < c.len() {
        let ch = c[i];
        let col = i - start_of_line - zero_width;
        let mut push = |kind: Kind, text: String| items.push(Item { kind, line, col, text });
        let one = |k: Kind| (k, 1);
        match ch {
            ' ' | '\t' | '\r' | '\u{b}' | '\u{c}' => i += 1,
            '\n' => { i += 1; line += 1; start_of_line = i; zero_width = 0 }
            '\u{feff}' => { if i > 0 { strict = false } zero_width += 1; i += 1 }
            '-' if at(i + 1) == Some('-') => {
                let mut j = i + 2;
                while j < c.len() {
                    if matches!(c[j], '\n' | '\r' | '\u{b}' | '\u{c}') { break }
                    if c[j] == '-' && at(j + 1) == Some('-') { j += 2; break }
                    j += 1;
                }
                i = j;
            }
            '-' | '0'..='9' => {
                let mut j = i + (ch == '-') as usize;
                let d = j;
                while j < c.len() && c[j].is_ascii_digit() { j += 1 }
                if j == d { strict = false }
                if j > d + 1 && c[d] == '0' { strict = false }
                if at(j) == Some('.') && at(j + 1).map_or(false, |x| x.is_ascii_digit()) { strict = false }
                if at(j).map_or(false, |x| x.is_ascii_alphabetic()) { strict = false }
                push(Num, c[i..j].iter().collect());
                i = j;
            }
            'a'..='z' | 'A'..='Z' => {
                let (j, hyphen) = word(&c, i);
                if hyphen { strict = false }
                let t: String = c[i..j].iter().collect();
                push(if RESERVED.contains(&t.as_str()) { Keyword } else { Ident }, t);
                i = j;
            }
            '&' => {
                if !at(i + 1).map_or(false, |x| x.is_ascii_alphabetic()) { return if at(i + 1).map_or(true, |x| !alnum(x) && x != '-') { Lexed::Invalid } else { Lexed::Unspecified } }
                let (j, hyphen) = word(&c, i + 1);
                if hyphen { strict = false }
                push(And, c[i..j].iter().collect());
                i = j;
            }
            '@' => {
                let mut j = i + 1;
                while at(j) == Some('.') { j += 1 }
                loop {
                    if !at(j).map_or(false, |x| x.is_ascii_lowercase()) { return Lexed::Unspecified }
                    let (e, hyphen) = word(&c, j);
                    if hyphen { return Lexed::Unspecified }
                    j = e;
                    if at(j) == Some('.') { j += 1; continue }
                    break
                }
                push(At, c[i..j].iter().collect());
                i = j;
            }
            '\'' => {
                let e = match c[i + 1..].iter().position(|x| *x == '\'') { Some(p) => i + 1 + p, None => return Lexed::Invalid };
                let body: String = c[i + 1..e].iter().filter(|x| !matches!(x, ' ' | '\t' | '\n' | '\r' | '\u{b}' | '\u{c}')).collect();
                let k = match at(e + 1) { Some('B') => BStr, Some('H') => HStr, Some('b') => { strict = false; BStr } Some('h') => { strict = false; HStr } _ => return Lexed::Invalid };
                let ok = body.chars().all(|x| if k == BStr { matches!(x, '0' | '1') } else { x.is_ascii_hexdigit() });
                if !ok { return Lexed::Invalid }
                if body.chars().any(|x| x.is_ascii_lowercase()) { strict = false }
                push(k, format!("'{}'", body));
                for j in i..e { if c[j] == '\n' { line += 1; start_of_line = j + 1; zero_width = 0 } }
                i = e + 2;
            }
            '"' => {
                let mut j = i + 1;
                loop {
                    if j >= c.len() { return Lexed::Invalid }
                    if c[j] == '"' { if at(j + 1) == Some('"') { j += 2; continue } break }
                    j += 1;
                }
                let raw: String = c[i..=j].iter().collect();
                // a line break and the white space around it are not part of the string
                let parts: Vec<&str> = raw.split('\n').collect();
                let n = parts.len();
                let t: String = parts.iter().enumerate().map(|(k, p)| {
                    let p = if k > 0 { p.trim_start() } else { p };
                    if k + 1 < n { p.trim_end() } else { p }
                }).collect();
                push(CStr, t);
                for k in i..j { if c[k] == '\n' { line += 1; start_of_line = k + 1; zero_width = 0 } }
                i = j + 1;
            }
            '[' | ']' | '.' | ':' => {
                let rest: String = c[i..c.len().min(i + 3)].iter().collect();
                let (k, n) = if rest.starts_with("[[") { (LGroup, 2) } else if ch == '[' { one(LSquare) } else if rest.starts_with("]]") { (RGroup, 2) } else if ch == ']' { one(RSquare) }
                    else if rest == "..." { (Ellipsis, 3) } else if rest.starts_with("..") { (Range, 2) } else if ch == '.' { one(Dot) }
                    else if rest == "::=" { (Assign, 3) } else { if rest.starts_with("::") { strict = false } one(Colon) };
                push(k, c[i..i + n].iter().collect());
                i += n;
            }
            '/' if at(i + 1) == Some('*') => return Lexed::Unspecified,
            '{' | '}' | '(' | ')' | '!' | ';' | ',' | '|' | '^' | '<' | '>' | '=' | '/' => {
                let k = match ch { '{' => LCurly, '}' => RCurly, '(' => LRound, ')' => RRound, '!' => Bang, ';' => Semi, ',' => Comma, '|' => Bar, '^' => Caret, '<' => Less, _ => Other };
                if k == Other { strict = false }
                push(k, ch.to_string());
                i += 1;
            }
            '\u{a0}' => return Lexed::Unspecified,
            _ => return Lexed::Invalid,
        }
    }
    Lexed::Items { strict, items }
}

/// What the implementation returned, read from the Debug form of its tokens.
pub struct Real { pub ty: String, pub line: usize, pub col: usize, pub text_debug: String }
fn num_after(s: &str, pat: &str) -> Option<usize> { let p = s.find(pat)? + pat.len(); let e = s[p..].find(|c: char| !c.is_ascii_digit()).unwrap_or(s.len() - p); s[p..p + e].parse().ok() }
pub fn read_debug(s: &str) -> Option<Real> {
    let p = s.find("type: ")? + 6;
    let e = p + s[p..].find(',')?;
    let ty = s[p..e].to_string();
    let st = &s[s.find("start: ")?..];
    let t = s.find("text: ")? + 6;
    let text = s[t..].trim_end().trim_end_matches('}').trim_end();
    Some(Real { ty, line: num_after(st, "line: ")?, col: num_after(st, "column: ")?, text_debug: text.to_string() })
}

pub struct Names { pub of: HashMap<Kind, String>, comment: String }
/// Learn the names of the token types from one unmistakable example of each.
pub fn calibrate() -> Result<Names, String> {
    let ex: &[(Kind, &str)] = &[(LCurly, "{"), (RCurly, "}"), (LRound, "("), (RRound, ")"), (Bang, "!"), (LSquare, "[ "), (RSquare, "] "), (LGroup, "[["), (RGroup, "]]"), (Ellipsis, "..."), (Range, ".. "), (Assign, "::="), (Colon, ": "), (Semi, ";"), (Ident, "foo "), (Keyword, "SEQUENCE "), (And, "&foo "), (Num, "12 "), (BStr, "'01'B "), (HStr, "'0F'H "), (CStr, "\"x\" "), (Dot, ". "), (Comma, ","), (Bar, "|"), (Caret, "^"), (At, "@foo "), (Less, "<")];
    let one = |t: &str| -> Result<String, String> {
        let r = asn1_compiler::tokenizer::tokenize(t.as_bytes()).map_err(|e| format!("{:?} is refused: {}", t, e))?;
        if r.len() != 1 { return Err(format!("{:?} gives {} tokens", t, r.len())) }
        let d = format!("{:?}", r[0]);
        read_debug(&d).map(|x| x.ty).ok_or_else(|| format!("cannot read token {}", d))
    };
    let mut of = HashMap::new();
    let comment = one("-- foo ")?;
    let mut back: HashMap<String, &str> = HashMap::new();
    back.insert(comment.clone(), "-- foo");
    for (k, t) in ex {
        let n = one(t)?;
        if let Some(o) = back.insert(n.clone(), t) { return Err(format!("{:?} and {:?} give the same kind of token ({})", o, t, n)) }
        of.insert(*k, n);
    }
    of.insert(Other, String::new());
    Ok(Names { of, comment })
}

pub fn check_text(c: &Check, names: &Names, text: &str) {
    let got = guarded(u64::MAX, || format!("tokenize {:?}", text), || asn1_compiler::tokenizer::tokenize(text.as_bytes()));
    let key = || format!("tokenize {:?}", text);
    let got = match got { Outcome::Done(g) => g, Outcome::Panicked(p) => { c.violation(key(), p); return } };
    match (lex(text), got) {
        (Lexed::Unspecified, _) | (Lexed::Invalid, Err(_)) | (Lexed::Items { strict: false, .. }, Err(_)) => {}
        (Lexed::Invalid, Ok(t)) => c.violation(key(), format!("not a sequence of ASN.1 lexical items, but accepted as {} tokens {:?}", t.len(), t)),
        (Lexed::Items { strict: true, .. }, Err(e)) => c.violation(key(), format!("valid lexical items refused: {}", e)),
        (Lexed::Items { items, .. }, Ok(toks)) => {
            let mut real = vec![];
            let mut b = String::new();
            for t in &toks {
                use std::fmt::Write;
                b.clear();
                let _ = write!(b, "{:?}", t);
                match read_debug(&b) { Some(r) => if r.ty != names.comment { real.push(r) }, None => { c.violation(key(), format!("unreadable token {}", b)); return } }
            }
            let same = real.len() == items.len() && real.iter().zip(&items).all(|(r, i)| {
                (i.kind == Other || r.ty == names.of[&i.kind]) && r.line == i.line && r.col == i.col && r.text_debug == format!("{:?}", i.text)
            });
            if !same {
                let want: Vec<String> = items.iter().map(|i| format!("{:?} {:?} at {}:{}", i.kind, i.text, i.line, i.col)).collect();
                let have: Vec<String> = real.iter().map(|i| format!("{} {} at {}:{}", i.ty, i.text_debug, i.line, i.col)).collect();
                c.violation(key(), format!("expected [{}]\n     got [{}]", want.join(", "), have.join(", ")));
            }
        }
    }
}

/// All texts of exactly `n` symbols of the alphabet.
fn texts(c: &Check, names: &Names, alpha: &[&str], n: usize) {
    let total = alpha.len().pow(n as u32);
    let chunk = (total / 256).max(1);
    let starts: Vec<usize> = (0..total).step_by(chunk).collect();
    mc_model::par::for_each(&starts, |k, _| {
        if c.stopped() { return }
        let (a, b) = (starts[k], (starts[k] + chunk).min(total));
        mark(format!("texts {}..{} of {} symbols over {:?}", a, b, n, alpha));
        let mut s = String::new();
        for mut x in a..b {
            s.clear();
            for _ in 0..n { s.push_str(alpha[x % alpha.len()]); x /= alpha.len() }
            check_text(c, names, &s);
        }
    });
    c.add_states(total as u64);
    c.add_transitions(total as u64 * n as u64);
    c.add_traces(total as u64);
}

/// Delivers a text in pieces; an event stands before a piece, or at the end.
struct Pieces<'a> { text: &'a [u8], cuts: u64, step: usize, at: usize, event: Option<(usize, std::io::ErrorKind)> }
impl std::io::Read for Pieces<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if let Some((p, k)) = self.event { if p <= self.at { if k == std::io::ErrorKind::Interrupted { self.event = None } return Err(k.into()) } }
        let mut n = 0;
        while n < buf.len() && self.at < self.text.len() {
            buf[n] = self.text[self.at];
            n += 1; self.at += 1;
            if self.step > 0 { if self.at % self.step == 0 { break } } else if self.cuts >> (self.at - 1) & 1 == 1 { break }
            if matches!(self.event, Some((p, _)) if p == self.at) { break }
        }
        Ok(n)
    }
}

/// The reader: every division of short texts into pieces, an interruption or a failure at every position; long texts in pieces of every size of a list.
fn readers(c: &Check) {
    use std::io::ErrorKind::*;
    let short = ["A ::= NULL", "é€𝄞", "-- é --A", "\"a\"\"é\"", "'0F'H 'é", "a--b\r\n-c", "[[1..2]]", "{a 1,b}", "&Aé @.b", "\u{feff}A B"];
    let mut n = 0u64;
    let show = |r: &Result<String, String>| match r { Ok(t) => t.clone(), Err(_) => "an error".to_string() };
    let toks = |p: Pieces| asn1_compiler::tokenizer::tokenize(p).map(|t| format!("{:?}", t)).map_err(|e| e.to_string());
    let mut one = |text: &[u8], cuts: u64, step: usize, event: Option<(usize, std::io::ErrorKind)>, whole: &Result<String, String>| {
        let key = || format!("read {:?} pieces {:x} {} event {:?}", String::from_utf8_lossy(&text[..text.len().min(40)]), cuts, step, event);
        let fails = matches!(event, Some((_, k)) if k != Interrupted);
        match guarded(u64::MAX, key, || toks(Pieces { text, cuts, step, at: 0, event })) {
            Outcome::Panicked(p) => c.violation(key(), p),
            Outcome::Done(r) => if fails { if let Ok(t) = r { c.violation(key(), format!("the input cannot be read to its end, the answer is {:.300}", t)) } } else if r.is_ok() != whole.is_ok() || r.is_ok() && r != *whole { c.violation(key(), format!("in one piece: {:.300}\ngot: {:.300}", show(whole), show(&r))) },
        }
        n += 1;
    };
    for t in short {
        let b = t.as_bytes();
        let whole = asn1_compiler::tokenizer::tokenize(b).map(|t| format!("{:?}", t)).map_err(|e| e.to_string());
        for cuts in 0..1u64 << (b.len() - 1) {
            one(b, cuts, 0, None, &whole);
            if c.stopped() { return }
        }
        for p in 0..=b.len() { for k in [Interrupted, UnexpectedEof, Other, WouldBlock, BrokenPipe, InvalidData] { for step in [0, 1, 3] { one(b, 0, step, Some((p, k)), &whole) } } }
    }
    // long ones, around the sizes of buffers
    for (i, unit) in ["a ::= 'é B\n", "-- é€𝄞 --\nA ", "Abc-d ::= SEQUENCE { a [0] INTEGER (0..10) }\n"].iter().enumerate() {
        let t: String = unit.repeat(140_000 / unit.len());
        for len in [1023usize, 4096, 8191, 8192, 8193, 16384, 32768, 65535, 65536, 65537, 131072] {
            let b = &t.as_bytes()[i..(len + i).min(t.len())];
            let whole = asn1_compiler::tokenizer::tokenize(b).map(|t| format!("{:?}", t)).map_err(|e| e.to_string());
            for step in [1usize, 7, 512, 1000, 4095, 4096, 8191, 8192, 8193, 65536] { if len > 8193 && step < 512 { continue } one(b, 0, step, None, &whole) }
            for p in [0, 1, 4095, 4096, 8192, 65536, b.len() - 1, b.len()] { if p <= b.len() { for k in [Interrupted, Other] { one(b, 0, 4096, Some((p, k)), &whole) } } }
        }
    }
    c.count("divisions of the input by its reader", n);
    c.add_traces(n);
}

pub fn k01(c: &'static Check) {
    let names = match calibrate() { Ok(n) => n, Err(e) => { c.violation("one token of each kind", e); return } };
    let full = ["a", "A", "Z", "0", "1", "9", "F", "-", ".", ":", "=", "{", "}", "(", ")", "[", "]", "'", "\"", "B", "H", "&", "@", " ", "\t", "\n", "\r\n", "é", "٣", ";", ",", "!", "|", "^", "<", "_", "*", "b", "\u{feff}", "\u{c}"];
    let mid = ["a", "A", "0", "1", "-", ".", ":", "=", "{", "[", "]", "'", "\"", "B", "H", "&", "@", " ", "\n", "é"];
    let t = c.thorough;
    for n in 0..=if t { 5 } else { 4 } { texts(c, &names, &full, n) }
    texts(c, &names, &mid, 5);
    if t { texts(c, &names, &mid, 6) }
    // comments, identifiers and numbers
    let d = if t { 9 } else { 8 };
    for n in 6..=d { texts(c, &names, &["a", "-", "0", " ", "\n", "\"", "B"], n) }
    // strings, with everything that may stand in one
    for n in 6..=d { texts(c, &names, &["\"", "'", "\n", " ", "1", "é", "H"], n) }
    for n in 6..=d { texts(c, &names, &["[", "]", ".", ":", "=", "1", "a"], n) }
    for n in 6..=if t { 8 } else { 7 } { texts(c, &names, &["@", "&", ".", "a", "-", "A", "1", " "], n) }
    for n in 6..=if t { 8 } else { 7 } { texts(c, &names, &["'", "\r\n", "\t", "0", "F", "H", "B", "-"], n) }
    // reserved words: each one, everything one edit away from it, each pair
    let near = ["", " ", "-", "--", "A", "a", "1", ".", "\n", ",", "{", "é", "(", "'"];
    let mut n = 0u64;
    for w in RESERVED {
        for a in near { for b in near { check_text(c, &names, &format!("{}{}{}", a, w, b)); n += 1 } }
        for (p, _) in w.char_indices() {
            let (x, y) = w.split_at(p);
            let mut ch = y.chars();
            let f = ch.next().unwrap();
            let sw = if f.is_ascii_lowercase() { f.to_ascii_uppercase() } else { f.to_ascii_lowercase() };
            for t in [format!("{}{}{}", x, sw, ch.as_str()), format!("{}{}", x, ch.as_str()), x.to_string(), y.to_string(), format!("{} {}", x, y), format!("{}-{}", x, y)] { check_text(c, &names, &t); n += 1 }
        }
        for v in RESERVED { for s in [" ", "\n", "-", ""] { check_text(c, &names, &format!("{}{}{}", w, s, v)); n += 1 } }
    }
    // bytes that are not text
    for a in 0u8..=255 { for b in [&[][..], &[b' '], &[0x80], &[0xbf, 0xbf], &[b'A']] {
        let mut v = b"a ".to_vec(); v.push(a); v.extend_from_slice(b);
        n += 1;
        match std::str::from_utf8(&v) {
            Ok(s) => check_text(c, &names, s),
            Err(_) => match guarded(u64::MAX, || format!("tokenize {:x?}", v), || asn1_compiler::tokenizer::tokenize(&v[..]).is_ok()) {
                Outcome::Panicked(p) => c.violation(format!("tokenize {:x?}", v), p),
                Outcome::Done(true) => c.violation(format!("tokenize {:x?}", v), "invalid UTF-8 accepted"),
                Outcome::Done(false) => {}
            }
        }
    } }
    readers(c);
    // long items, and items far away
    for n in [100usize, 127, 128, 129, 254, 255, 256, 257, 1000, 4095, 4096, 4097, 8191, 8192, 65534, 65535, 65536, 65537, 100_000] {
        let m = n / 2;
        for t in [format!("{}A b", "\n".repeat(n)), format!("{}A b\n 'A'H c", "\r\n".repeat(n)), format!("{}A b\nc", " ".repeat(n)), format!("{}A--x\n b", "\t".repeat(n)), format!("{} A", "a".repeat(n)), format!("A{} b", "-b".repeat(m)), format!("{} a", "7".repeat(n)),
            format!("\"{}\" a", "x".repeat(n)), format!("\"{}\" a\n b", "\"\"".repeat(m)), format!("a --{}-- A", " x".repeat(m)), format!("--{}\n A", " é".repeat(m)), format!("'{}'B a", "01".repeat(m)), format!("'{}'H a", "9F".repeat(m)), format!("{}::= a", "A ".repeat(m)), format!("{}a", "{".repeat(n)), format!("&{} b", "A".repeat(n)), format!("@a{} b", ".a".repeat(m)), format!("\"{}\" a\n b", "x\n".repeat(m)), format!("a \"é{}", "\n".repeat(n)), format!("'{}'H a\n b", "9F\n".repeat(m)),
            format!("{} a", "BIT ".repeat(m)), format!("{}...a", ". ".repeat(m)), format!("{}a", "[[".repeat(m)), format!("a{}b", "\u{b}".repeat(n))] { check_text(c, &names, &t) }
    }
    // the real specifications: every token against the model
    let mut specs = 0u64;
    if let Ok(rd) = std::fs::read_dir("/repo/specs") {
        for d in rd.flatten() { if let Ok(fs) = std::fs::read_dir(d.path()) { for f in fs.flatten() {
            if f.path().extension().map_or(false, |e| e == "asn" || e == "asn1") {
                if let Ok(s) = std::fs::read_to_string(f.path()) {
                    let got = guarded(u64::MAX, || format!("tokenize {}", f.path().display()), || asn1_compiler::tokenizer::tokenize(s.as_bytes()));
                    let _ = &got;
                    check_file(c, &names, &f.path().display().to_string(), &s);
                    specs += 1;
                }
            }
        } } }
    }
    c.add_states(n); c.add_traces(n + specs); c.add_transitions(n);
    c.count("texts around reserved words", n);
    c.count("specification files", specs);
    for s in ["a--b", "a --b-- c", "'01\n'B a", "\"x\"\"y\" z"] { c.sample(format!("{:?} -> {}", s, match lex(s) { Lexed::Items { items, .. } => format!("{:?}", items.iter().map(|i| (i.kind, i.text.clone(), i.line, i.col)).collect::<Vec<_>>()), _ => "not lexical".into() })); }
    c.assume("positions are 1-based lines and 0-based columns counted in characters; real numbers come out as their parts; block comments are outside the space");
}

fn check_file(c: &Check, names: &Names, name: &str, text: &str) {
    let got = match guarded(u64::MAX, || format!("tokenize {}", name), || asn1_compiler::tokenizer::tokenize(text.as_bytes())) { Outcome::Done(g) => g, Outcome::Panicked(p) => { c.violation(format!("tokenize {}", name), p); return } };
    match (lex(text), got) {
        (Lexed::Items { items, .. }, Ok(t)) => {
            let real: Vec<Real> = t.iter().filter_map(|t| read_debug(&format!("{:?}", t))).filter(|r| r.ty != names.comment).collect();
            for (r, i) in real.iter().zip(&items) {
                if (i.kind != Other && r.ty != names.of[&i.kind]) || r.line != i.line || r.col != i.col || r.text_debug != format!("{:?}", i.text) { c.violation(format!("tokenize {} line {}", name, i.line), format!("expected {:?}, got {} {} at {}:{}", i, r.ty, r.text_debug, r.line, r.col)); return }
            }
            if real.len() != items.len() { c.violation(format!("tokenize {}", name), format!("{} tokens, expected {}", real.len(), items.len())) }
        }
        (Lexed::Items { strict: true, .. }, Err(e)) => c.violation(format!("tokenize {}", name), format!("refused: {}", e)),
        _ => {}
    }
}
