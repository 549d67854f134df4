//! Reference model: an independent, hand-written reading of a TOML 0.4 document in tomllib's dialect.
//! It knows nothing about the implementation: it maps a text to (a) how much of it is well formed, (b) the
//! set of errors a reader must be told about, (c) the index path -> value / children.
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum ST { Basic, MLBasic, Lit, MLLit }

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum RV {
    Int(String),
    Float(String),
    Bool(bool),
    DT(String),
    Str(String, ST),
    Arr(Vec<RNode>),
    Inl(Vec<(String, RNode)>),
}
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct RNode { pub v: RV, pub span: (usize, usize) }

/// A span-free value, used for comparisons with the implementation.
#[derive(Clone, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum PV {
    Int(String),
    Float(String),
    Bool(bool),
    DT(String),
    Str(String, ST),
    Arr(Vec<PV>),
    Inl(Vec<(String, PV)>),
}

impl RNode {
    pub fn pv(&self) -> PV {
        match &self.v {
            RV::Int(s) => PV::Int(s.clone()),
            RV::Float(s) => PV::Float(s.clone()),
            RV::Bool(b) => PV::Bool(*b),
            RV::DT(s) => PV::DT(s.clone()),
            RV::Str(s, t) => PV::Str(s.clone(), *t),
            RV::Arr(a) => PV::Arr(a.iter().map(|n| n.pv()).collect()),
            RV::Inl(t) => PV::Inl(t.iter().map(|(k, n)| (k.clone(), n.pv())).collect()),
        }
    }
    pub fn kind(&self) -> u8 {
        match self.v { RV::Int(_) => 0, RV::Float(_) => 1, RV::Bool(_) => 2, RV::DT(_) => 3, RV::Str(..) => 4, RV::Arr(_) => 5, RV::Inl(_) => 6 }
    }
}

impl PV {
    pub fn text(&self) -> String {
        match self {
            PV::Int(s) | PV::Float(s) | PV::DT(s) => s.clone(),
            PV::Bool(b) => b.to_string(),
            PV::Str(s, t) => match t {
                ST::Basic => format!("\"{}\"", s),
                ST::MLBasic => format!("\"\"\"{}\"\"\"", s),
                ST::Lit => format!("'{}'", s),
                ST::MLLit => format!("'''{}'''", s),
            },
            PV::Arr(a) => format!("[{}]", a.iter().map(|x| x.text()).collect::<Vec<_>>().join(", ")),
            PV::Inl(a) => format!("{{{}}}", a.iter().map(|(k, x)| format!("{} = {}", k, x.text())).collect::<Vec<_>>().join(", ")),
        }
    }
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Kids { Count(usize), Keys(Vec<String>) }

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Item { pub val: Option<PV>, pub span: Option<(usize, usize)>, pub kids: Kids, pub node: Option<RNode> }

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum EK { Mixed, Dup, Table, Date }

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct RErr {
    pub kind: EK,
    /// None: the path is not specified (inside a rejected table).
    pub key: Option<String>,
    pub lines: (usize, usize),
    pub val: Option<PV>,
    pub raw: Option<String>,
    /// direct key/values of a rejected table; second = keys given twice (payload unspecified)
    pub body: Vec<(String, PV)>,
}

#[derive(Clone, Debug)]
pub struct RefDoc {
    pub full: bool,
    /// offset where the well-formed prefix ends (maximal reading)
    pub stop: usize,
    /// earliest acceptable end of the parsed prefix
    pub min_stop: usize,
    pub errors: Vec<RErr>,
    pub index: BTreeMap<String, Item>,
    /// acceptance/meaning of some construct in the text is not specified
    pub gray: bool,
    pub exprs: usize,
}

pub fn line_of(text: &str, off: usize) -> usize { 1 + text.as_bytes()[..off].iter().filter(|&&b| b == b'\n').count() }

#[derive(Clone, Debug)]
pub enum EKind { Blank, Head { keys: Vec<String>, aot: bool }, KV { key: String, val: RNode } }
#[derive(Clone, Debug)]
pub struct Expr { pub kind: EKind, pub start: usize, pub end: usize }

pub struct Lex<'a> { pub s: &'a str, pub b: &'a [u8], pub gray: bool }

type P<T> = Option<(T, usize)>;

fn is_bare(c: u8) -> bool { c.is_ascii_alphanumeric() || c == b'-' || c == b'_' }

impl<'a> Lex<'a> {
    pub fn new(s: &'a str) -> Lex<'a> { Lex { s, b: s.as_bytes(), gray: false } }
    fn at(&self, i: usize) -> u8 { if i < self.b.len() { self.b[i] } else { 0 } }
    fn has(&self, i: usize, p: &str) -> bool { self.s.as_bytes()[i.min(self.b.len())..].starts_with(p.as_bytes()) }
    pub fn ws(&self, mut i: usize) -> usize { while i < self.b.len() && (self.b[i] == b' ' || self.b[i] == b'\t') { i += 1 } i }
    pub fn nl(&self, i: usize) -> Option<usize> { if self.has(i, "\r\n") { Some(i + 2) } else if self.has(i, "\n") { Some(i + 1) } else { None } }
    fn ch(&self, i: usize) -> Option<char> { self.s[i..].chars().next() }
    fn comment(&self, i: usize) -> Option<usize> {
        if self.at(i) != b'#' || i >= self.b.len() { return None }
        let mut j = i + 1;
        while j < self.b.len() {
            let c = self.ch(j).unwrap();
            if c == '\t' || c as u32 >= 0x20 { j += c.len_utf8() } else { break }
        }
        Some(j)
    }
    /// one basic-string character (ml: newlines and quotes allowed), returns next offset
    fn basic_char(&mut self, i: usize, ml: bool) -> Option<usize> {
        let c = self.ch(i)?;
        if c == '\\' {
            let e = self.at(i + 1);
            if i + 1 >= self.b.len() { return None }
            match e {
                b'"' | b'\\' | b'/' | b'b' | b'f' | b'n' | b'r' | b't' => Some(i + 2),
                b'u' | b'U' => {
                    let n = if e == b'u' { 4 } else { 8 };
                    let mut v: u64 = 0;
                    for k in 0..n {
                        let d = self.at(i + 2 + k);
                        if i + 2 + k >= self.b.len() || !d.is_ascii_hexdigit() { return None }
                        v = v * 16 + (d as char).to_digit(16).unwrap() as u64;
                    }
                    if v > 0x10FFFF || (0xD800..=0xDFFF).contains(&v) { self.gray = true }
                    Some(i + 2 + n)
                }
                _ => {
                    if ml {
                        if let Some(j) = self.nl(i + 1) { return Some(j) }
                        let w = self.ws(i + 1);
                        if w > i + 1 && self.nl(w).is_some() { self.gray = true }
                    }
                    None
                }
            }
        } else if c == '"' {
            if ml { Some(i + 1) } else { None }
        } else if c == '\t' {
            self.gray = true;
            None
        } else if (c as u32) < 0x20 {
            if ml { self.nl(i) } else { None }
        } else { Some(i + c.len_utf8()) }
    }
    fn quoted_key(&mut self, i: usize) -> P<String> {
        if !self.has(i, "\"") { return None }
        let mut j = i + 1;
        loop {
            if j >= self.b.len() { return None }
            if self.at(j) == b'"' { break }
            j = self.basic_char(j, false)?;
        }
        if j == i + 1 { return None }
        Some((self.s[i..j + 1].to_string(), j + 1))
    }
    pub fn key(&mut self, i: usize) -> P<String> {
        if let Some(r) = self.quoted_key(i) { return Some(r) }
        let mut j = i;
        while j < self.b.len() && is_bare(self.b[j]) { j += 1 }
        if j > i { Some((self.s[i..j].to_string(), j)) } else { None }
    }
    fn string(&mut self, i: usize) -> P<RV> {
        if self.has(i, "'''") {
            let mut j = i + 3;
            let mut ok = false;
            while j < self.b.len() {
                if self.has(j, "'''") { ok = true; break }
                let c = self.ch(j).unwrap();
                if c == '\t' || c as u32 >= 0x20 { j += c.len_utf8() } else if let Some(n) = self.nl(j) { j = n } else { break }
            }
            if ok { return Some((RV::Str(self.s[i + 3..j].to_string(), ST::MLLit), j + 3)) }
        }
        if self.has(i, "\"\"\"") {
            let mut j = i + 3;
            let mut ok = false;
            while j < self.b.len() {
                if self.has(j, "\"\"\"") { ok = true; break }
                match self.basic_char(j, true) {
                    Some(n) => j = n,
                    None => if self.at(j) == b'\t' { j += 1; self.gray = true } else { break },
                }
            }
            if ok { return Some((RV::Str(self.s[i + 3..j].to_string(), ST::MLBasic), j + 3)) }
        }
        if self.has(i, "\"") {
            let mut j = i + 1;
            while j < self.b.len() && self.at(j) != b'"' {
                match self.basic_char(j, false) { Some(n) => j = n, None => return None }
            }
            if j >= self.b.len() { return None }
            return Some((RV::Str(self.s[i + 1..j].to_string(), ST::Basic), j + 1));
        }
        if self.has(i, "'") {
            let mut j = i + 1;
            while j < self.b.len() && self.at(j) != b'\'' {
                let c = self.ch(j).unwrap();
                if c == '\t' || c as u32 >= 0x20 { j += c.len_utf8() } else { return None }
            }
            if j >= self.b.len() { return None }
            return Some((RV::Str(self.s[i + 1..j].to_string(), ST::Lit), j + 1));
        }
        None
    }
    fn digits(&self, i: usize, n: usize) -> Option<usize> {
        for k in 0..n { if i + k >= self.b.len() || !self.b[i + k].is_ascii_digit() { return None } }
        Some(i + n)
    }
    fn date_time(&mut self, i: usize) -> Option<usize> {
        let j = self.digits(i, 4)?;
        if self.at(j) != b'-' { return None }
        let j = self.digits(j + 1, 2)?;
        if self.at(j) != b'-' { return None }
        let j = self.digits(j + 1, 2)?;
        if let Some(k) = self.time(j) { return Some(k) }
        Some(j)
    }
    fn time(&mut self, i: usize) -> Option<usize> {
        if self.at(i) != b'T' { return None }
        let j = self.digits(i + 1, 2)?;
        if self.at(j) != b':' { return None }
        let j = self.digits(j + 1, 2)?;
        if self.at(j) != b':' { return None }
        let mut j = self.digits(j + 1, 2)?;
        if self.at(j) == b'.' {
            let mut k = j + 1;
            while k < self.b.len() && self.b[k].is_ascii_digit() { k += 1 }
            if k > j + 1 { j = k }
        }
        if self.at(j) == b'Z' { return Some(j + 1) }
        if self.at(j) == b'+' || self.at(j) == b'-' {
            if let Some(k) = self.digits(j + 1, 2) {
                if self.at(k) == b':' {
                    if let Some(m) = self.digits(k + 1, 2) { return Some(m) }
                }
            }
        }
        Some(j)
    }
    /// [1-9](_?\d)+ | \d : longest prefix
    fn intpart(&self, i: usize) -> Option<usize> {
        if i >= self.b.len() || !self.b[i].is_ascii_digit() { return None }
        if self.b[i] == b'0' { return Some(i + 1) }
        Some(self.digs(i + 1))
    }
    fn digs(&self, mut j: usize) -> usize {
        loop {
            if j < self.b.len() && self.b[j].is_ascii_digit() { j += 1 }
            else if self.at(j) == b'_' && j + 1 < self.b.len() && self.b[j + 1].is_ascii_digit() { j += 2 }
            else { return j }
        }
    }
    fn sign(&self, i: usize) -> usize { if self.at(i) == b'+' || self.at(i) == b'-' { i + 1 } else { i } }
    fn exp(&self, i: usize) -> Option<usize> {
        if self.at(i) == b'e' || self.at(i) == b'E' { self.intpart(self.sign(i + 1)) } else { None }
    }
    pub fn float(&self, i: usize) -> Option<usize> {
        let j = self.intpart(self.sign(i))?;
        if self.at(j) == b'.' && j + 1 < self.b.len() && self.b[j + 1].is_ascii_digit() {
            let k = self.digs(j + 2);
            return Some(self.exp(k).unwrap_or(k));
        }
        self.exp(j)
    }
    pub fn int(&self, i: usize) -> Option<usize> { self.intpart(self.sign(i)) }

    pub fn val(&mut self, i: usize, depth: usize) -> P<RNode> {
        let mk = |v: RV, j: usize| Some((RNode { v, span: (i, j) }, j));
        if i >= self.b.len() { return None }
        match self.b[i] {
            b'[' => { let (v, j) = self.array(i, depth)?; mk(v, j) }
            b'{' => { let (v, j) = self.inline(i, depth)?; mk(v, j) }
            b'"' | b'\'' => { let (v, j) = self.string(i)?; mk(v, j) }
            _ => {
                if let Some(j) = self.date_time(i) {
                    let raw = self.s[i..j].to_string();

                    return mk(RV::DT(raw), j);
                }
                if let Some(j) = self.float(i) { return mk(RV::Float(self.s[i..j].to_string()), j) }
                if let Some(j) = self.int(i) { return mk(RV::Int(self.s[i..j].to_string()), j) }
                if self.has(i, "true") { return mk(RV::Bool(true), i + 4) }
                if self.has(i, "false") { return mk(RV::Bool(false), i + 5) }
                None
            }
        }
    }
    /// whitespace, newlines and comments; (next, saw_newline_or_comment)
    fn filler(&self, mut i: usize) -> (usize, bool) {
        let mut nl = false;
        loop {
            let w = self.ws(i);
            if let Some(n) = self.nl(w) { i = n; nl = true; continue }
            if let Some(n) = self.comment(w) { i = n; nl = true; continue }
            return (w, nl);
        }
    }
    fn array(&mut self, i: usize, depth: usize) -> P<RV> {
        let mut out = vec![];
        let (mut j, _) = self.filler(i + 1);
        if self.at(j) == b']' && j < self.b.len() { return Some((RV::Arr(out), j + 1)) }
        loop {
            let (v, k) = self.val(j, depth + 1)?;
            out.push(v);
            let w = self.ws(k);
            if self.at(w) == b',' {
                let (n, _) = self.filler(w + 1);
                if self.at(n) == b']' { return Some((RV::Arr(out), n + 1)) }
                j = n;
                continue;
            }
            let (n, _) = self.filler(k);
            if self.at(n) == b']' { return Some((RV::Arr(out), n + 1)) }
            if self.at(n) == b',' { self.gray = true }
            return None;
        }
    }
    fn inline(&mut self, i: usize, depth: usize) -> P<RV> {
        let mut out: Vec<(String, RNode)> = vec![];
        let mut j = self.ws(i + 1);
        if self.at(j) == b'}' { return Some((RV::Inl(out), j + 1)) }
        loop {
            let (k, n) = self.key(j)?;
            let n = self.ws(n);
            if self.at(n) != b'=' { return None }
            let n = self.ws(n + 1);
            let (v, n) = self.val(n, depth + 1)?;
            out.push((k, v));
            let w = self.ws(n);
            if self.at(w) == b',' {
                let (f, _) = self.filler(w + 1);
                if self.at(f) == b'}' { self.gray = true; return Some((RV::Inl(out), f + 1)) }
                j = f;
                continue;
            }
            let (f, nl) = self.filler(n);
            if self.at(f) == b'}' { if nl { self.gray = true } return Some((RV::Inl(out), f + 1)) }
            if self.at(f) == b',' { self.gray = true }
            return None;
        }
    }
    fn header(&mut self, i: usize) -> P<(Vec<String>, bool)> {
        let aot = self.has(i, "[[");
        let mut j = i + if aot { 2 } else { 1 };
        let mut keys = vec![];
        loop {
            let (k, n) = self.key(self.ws(j))?;
            keys.push(k);
            let w = self.ws(n);
            if self.at(w) == b'.' { j = w + 1; continue }
            if aot { if self.has(w, "]]") { return Some(((keys, true), w + 2)) } return None }
            if self.has(w, "]") { return Some(((keys, false), w + 1)) }
            return None;
        }
    }
    fn keyval(&mut self, i: usize) -> P<(String, RNode)> {
        let (k, n) = self.key(i)?;
        let n = self.ws(n);
        if self.at(n) != b'=' { return None }
        let (v, n) = self.val(self.ws(n + 1), 0)?;
        Some(((k, v), n))
    }
    /// whole document: expressions, maximal stop, minimal stop
    pub fn doc(&mut self) -> (Vec<Expr>, usize, usize) {
        let mut out = vec![];
        let mut i = 0;
        loop {
            let start = i;
            let w = self.ws(i);
            let mut end = w;
            let mut kind = EKind::Blank;
            if w < self.b.len() {
                let mut done = false;
                if self.b[w] == b'[' {
                    if let Some(((keys, aot), n)) = self.header(w) {
                        kind = EKind::Head { keys, aot };
                        end = self.ws(n);
                        done = true;
                    }
                } else if let Some(((key, val), n)) = self.keyval(w) {
                    kind = EKind::KV { key, val };
                    end = self.ws(n);
                    done = true;
                }
                let _ = done;
                if let Some(c) = self.comment(end) { end = c }
            }
            let failed = end < self.b.len() && self.nl(end).is_none();
            out.push(Expr { kind, start, end });
            if end >= self.b.len() { return (out, end, end) }
            if failed {
                // leftover may start anywhere from the end of the previous line's expression
                let min = if out.len() >= 2 { out[out.len() - 2].end } else { 0 };
                return (out, end, min);
            }
            i = self.nl(end).unwrap();
        }
    }
}

/// Is the calendar/clock content of this lexeme valid? (lexical shape already known)
pub fn dt_valid(raw: &str) -> bool {
    let b = raw.as_bytes();
    let num = |i: usize, n: usize| raw[i..i + n].parse::<u32>().unwrap();
    let (y, m, d) = (num(0, 4), num(5, 2), num(8, 2));
    if y == 0 || m < 1 || m > 12 { return false }
    let leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
    let dim = [31, if leap { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][(m - 1) as usize];
    if d < 1 || d > dim { return false }
    if b.len() == 10 { return true }
    if num(11, 2) > 23 || num(14, 2) > 59 || num(17, 2) > 59 { return false }
    let mut j = 19;
    if j < b.len() && b[j] == b'.' { j += 1; while j < b.len() && b[j].is_ascii_digit() { j += 1 } }
    if j < b.len() && (b[j] == b'+' || b[j] == b'-') {
        if num(j + 1, 2) > 23 || num(j + 4, 2) > 59 { return false }
    }
    true
}
/// Full lexical recogniser for a date-time string
pub fn is_dt(s: &str) -> bool { let mut l = Lex::new(s); l.date_time(0) == Some(s.len()) }
pub fn is_int(s: &str) -> bool { let l = Lex::new(s); l.int(0) == Some(s.len()) }
pub fn is_float(s: &str) -> bool { let l = Lex::new(s); l.float(0) == Some(s.len()) }
/// (valid, unspecified): s is the body of a string literal of type t
pub fn is_str_body(s: &str, t: ST) -> (bool, bool) {
    let text = PV::Str(s.to_string(), t).text();
    let mut l = Lex::new(&text);
    let r = l.string(0);
    let ok = matches!(&r, Some((RV::Str(b, tt), n)) if b == s && *tt == t && *n == text.len());
    (ok, l.gray)
}
pub fn is_key(s: &str) -> (bool, bool) { let mut l = Lex::new(s); let r = l.key(0); (matches!(r, Some((_, n)) if n == s.len()), l.gray) }

/// Is this value expressible in a document at all? (valid, unspecified)
pub fn pv_valid(v: &PV) -> (bool, bool) {
    match v {
        PV::Int(s) => (is_int(s), false),
        PV::Float(s) => (is_float(s), false),
        PV::Bool(_) => (true, false),
        PV::DT(s) => (is_dt(s) && dt_valid(s), false),
        PV::Str(s, t) => is_str_body(s, *t),
        PV::Arr(a) => a.iter().map(pv_valid).fold((true, false), |x, y| (x.0 && y.0, x.1 || y.1)),
        PV::Inl(a) => {
            let mut r = (true, false);
            let mut seen = BTreeSet::new();
            for (k, v) in a {
                let kv = is_key(k);
                let vv = pv_valid(v);
                r = (r.0 && kv.0 && vv.0 && seen.insert(k.clone()), r.1 || kv.1 || vv.1);
            }
            r
        }
    }
}

// ---------------------------------------------------------------- semantics

enum Node { Table(Tab), Aot(Vec<Tab>), Val(RNode) }
#[derive(Default)]
struct Tab { explicit: bool, order: Vec<String>, kids: BTreeMap<String, Node> }

pub fn join(p: &str, k: &str) -> String { if p.is_empty() { k.to_string() } else { format!("{}.{}", p, k) } }

struct Sem<'a> { text: &'a str, errors: Vec<RErr>, gray: bool }

impl<'a> Sem<'a> {
    fn lines(&self, a: usize, b: usize) -> (usize, usize) { (line_of(self.text, a), line_of(self.text, b)) }
    /// nested errors of a value: mixed arrays, invalid date-times, duplicate inline keys
    fn scan(&mut self, n: &RNode, path: Option<String>) {
        match &n.v {
            RV::DT(raw) => if !dt_valid(raw) {
                let lines = self.lines(n.span.0, n.span.1);
                self.errors.push(RErr { kind: EK::Date, key: path, lines, val: None, raw: Some(raw.clone()), body: vec![] });
            },
            RV::Arr(a) => {
                if a.windows(2).any(|w| w[0].kind() != w[1].kind()) {
                    let lines = self.lines(n.span.0, n.span.1);
                    self.errors.push(RErr { kind: EK::Mixed, key: path.clone(), lines, val: None, raw: None, body: vec![] });
                }
                for (i, x) in a.iter().enumerate() { self.scan(x, path.as_ref().map(|p| format!("{}[{}]", p, i))) }
            }
            RV::Inl(t) => {
                let mut seen: BTreeSet<&str> = BTreeSet::new();
                for (k, x) in t {
                    let p = path.as_ref().map(|p| join(p, k));
                    if !seen.insert(k) {
                        let lines = self.lines(n.span.0, n.span.1);
                        self.errors.push(RErr { kind: EK::Dup, key: p.clone(), lines, val: Some(x.pv()), raw: None, body: vec![] });
                    }
                    self.scan(x, p);
                }
                if same_name_clash(seen.iter().copied()) { self.gray = true }
            }
            _ => {}
        }
    }
}

/// both `a` and `"a"` in one table: TOML says same key, the dialect's paths say different ones: unspecified
fn same_name_clash<'b, I: Iterator<Item = &'b str>>(it: I) -> bool {
    let v: Vec<&str> = it.collect();
    v.iter().any(|k| k.starts_with('"') && v.contains(&&k[1..k.len() - 1]))
}

pub fn ref_parse(text: &str) -> RefDoc {
    let mut lx = Lex::new(text);
    let (exprs, stop, min_stop) = lx.doc();
    let mut sem = Sem { text, errors: vec![], gray: lx.gray };
    let mut root = Tab::default();
    root.explicit = true;
    // current table: path of (key, elem index) from root; None = inside a rejected table (index into errors)
    let mut cur: Vec<(String, Option<usize>)> = vec![];
    let mut bad: Option<usize> = None;
    for e in &exprs {
        match &e.kind {
            EKind::Blank => {}
            EKind::Head { keys, aot } => {
                match place(&mut root, keys, *aot) {
                    Some(p) => { cur = p; bad = None }
                    None => {
                        bad = Some(sem.errors.len());
                        let lines = sem.lines(e.start, e.end);
                        sem.errors.push(RErr { kind: EK::Table, key: Some(head_path(&root, keys)), lines, val: None, raw: None, body: vec![] });
                    }
                }
            }
            EKind::KV { key, val } => {
                if let Some(b) = bad {
                    sem.errors[b].body.push((key.clone(), val.pv()));
                    sem.scan(val, None);
                    continue;
                }
                let mut path = String::new();
                for (k, i) in &cur { path = join(&path, k); if let Some(i) = i { path = format!("{}[{}]", path, i) } }
                let full = join(&path, key);
                let t = cur_tab(&mut root, &cur);
                if t.kids.contains_key(key) {
                    let lines = sem.lines(e.start, val.span.1);
                    sem.errors.push(RErr { kind: EK::Dup, key: Some(full.clone()), lines, val: Some(val.pv()), raw: None, body: vec![] });
                } else {
                    t.order.push(key.clone());
                    t.kids.insert(key.clone(), Node::Val(val.clone()));
                }
                sem.scan(val, Some(full));
            }
        }
    }
    let mut index = BTreeMap::new();
    let mut gray = sem.gray;
    flat_tab(&root, "", &mut index, &mut gray);
    RefDoc { full: stop == text.len(), stop, min_stop, errors: sem.errors, index, gray, exprs: exprs.len() }
}

fn cur_tab<'t>(root: &'t mut Tab, cur: &[(String, Option<usize>)]) -> &'t mut Tab {
    let mut t = root;
    for (k, i) in cur {
        t = match t.kids.get_mut(k) {
            Some(Node::Table(x)) => x,
            Some(Node::Aot(v)) => &mut v[i.unwrap()],
            _ => unreachable!(),
        };
    }
    t
}

/// the full path a header names: every array of tables on the way stands for its last element (the last key without index)
fn head_path(root: &Tab, keys: &[String]) -> String {
    let mut t = Some(root);
    let mut p = String::new();
    for (n, k) in keys.iter().enumerate() {
        p = join(&p, k);
        if n + 1 == keys.len() { break }
        t = match t.and_then(|t| t.kids.get(k)) {
            Some(Node::Table(x)) => Some(x),
            Some(Node::Aot(v)) => { p = format!("{}[{}]", p, v.len() - 1); v.last() }
            _ => None,
        };
    }
    p
}

fn place(root: &mut Tab, keys: &[String], aot: bool) -> Option<Vec<(String, Option<usize>)>> {
    // validate first: a rejected header has no effect
    {
        let mut t: Option<&Tab> = Some(root);
        let mut in_elem = true; // root and elements of arrays of tables are exempt from the parent rule
        for (n, k) in keys.iter().enumerate() {
            let last = n + 1 == keys.len();
            let Some(tab) = t else { break };
            if last && !aot && !in_elem && tab.kids.values().any(|x| matches!(x, Node::Val(_))) { return None }
            match tab.kids.get(k) {
                None => t = None,
                Some(Node::Val(_)) => return None,
                Some(Node::Table(x)) => {
                    if last && (aot || x.explicit) { return None }
                    t = Some(x);
                    in_elem = false;
                }
                Some(Node::Aot(v)) => {
                    if last && !aot { return None }
                    t = v.last();
                    in_elem = true;
                }
            }
        }
    }
    let mut out = vec![];
    let mut t = root;
    for (n, k) in keys.iter().enumerate() {
        let last = n + 1 == keys.len();
        if !t.kids.contains_key(k) {
            t.order.push(k.clone());
            t.kids.insert(k.clone(), if last && aot { Node::Aot(vec![]) } else { Node::Table(Tab::default()) });
        }
        match t.kids.get_mut(k).unwrap() {
            Node::Table(x) => { if last { x.explicit = true } out.push((k.clone(), None)); t = x }
            Node::Aot(v) => {
                if last { v.push(Tab { explicit: true, ..Default::default() }) }
                let i = v.len() - 1;
                out.push((k.clone(), Some(i)));
                t = &mut v[i];
            }
            Node::Val(_) => unreachable!(),
        }
    }
    Some(out)
}

fn flat_tab(t: &Tab, path: &str, ix: &mut BTreeMap<String, Item>, gray: &mut bool) {
    if same_name_clash(t.order.iter().map(|s| s.as_str())) { *gray = true }
    ix.insert(path.to_string(), Item { val: None, span: None, kids: Kids::Keys(t.order.clone()), node: None });
    for (k, n) in &t.kids {
        let p = join(path, k);
        match n {
            Node::Table(x) => flat_tab(x, &p, ix, gray),
            Node::Aot(v) => {
                ix.insert(p.clone(), Item { val: None, span: None, kids: Kids::Count(v.len()), node: None });
                for (i, x) in v.iter().enumerate() { flat_tab(x, &format!("{}[{}]", p, i), ix, gray) }
            }
            Node::Val(v) => flat_val(v, &p, ix),
        }
    }
}

pub fn flat_val(v: &RNode, path: &str, ix: &mut BTreeMap<String, Item>) {
    let kids = match &v.v {
        RV::Arr(a) => Kids::Count(a.len()),
        RV::Inl(t) => {
            let mut ks: Vec<String> = vec![];
            for (k, _) in t { if !ks.contains(k) { ks.push(k.clone()) } }
            Kids::Keys(ks)
        }
        _ => Kids::Count(0),
    };
    ix.insert(path.to_string(), Item { val: Some(v.pv()), span: Some(v.span), kids, node: Some(v.clone()) });
    match &v.v {
        RV::Arr(a) => for (i, x) in a.iter().enumerate() { flat_val(x, &format!("{}[{}]", path, i), ix) },
        RV::Inl(t) => {
            let mut seen = BTreeSet::new();
            for (k, x) in t { if seen.insert(k) { flat_val(x, &join(path, k), ix) } }
        }
        _ => {}
    }
}
