//! Observation of the implementation through its public API only.
use crate::refm::{Kids, EK, PV, ST};
use std::borrow::Cow;
use std::rc::Rc;
use tomllib::types::{Children, Date, DateTime, ParseError, ParseResult, PosNeg, StrType, Time, TimeOffset, TimeOffsetAmount, Value};
use tomllib::TOMLParser;

pub fn st(t: StrType) -> ST { match t { StrType::Basic => ST::Basic, StrType::MLBasic => ST::MLBasic, StrType::Literal => ST::Lit, StrType::MLLiteral => ST::MLLit } }
pub fn st_back(t: ST) -> StrType { match t { ST::Basic => StrType::Basic, ST::MLBasic => StrType::MLBasic, ST::Lit => StrType::Literal, ST::MLLit => StrType::MLLiteral } }

pub fn dt_text(d: &DateTime) -> String {
    let mut s = format!("{}-{}-{}", d.date.year, d.date.month, d.date.day);
    if let Some(t) = &d.time {
        s.push_str(&format!("T{}:{}:{}", t.hour, t.minute, t.second));
        if let Some(f) = &t.fraction { s.push('.'); s.push_str(f) }
        match &t.offset {
            Some(TimeOffset::Zulu) => s.push('Z'),
            Some(TimeOffset::Time(a)) => {
                s.push(match a.pos_neg { PosNeg::Pos => '+', PosNeg::Neg => '-' });
                s.push_str(&format!("{}:{}", a.hour, a.minute));
            }
            None => {}
        }
    }
    s
}
pub fn pv(v: &Value) -> PV {
    match v {
        Value::Integer(s) => PV::Int(s.to_string()),
        Value::Float(s) => PV::Float(s.to_string()),
        Value::Boolean(b) => PV::Bool(*b),
        Value::DateTime(d) => PV::DT(dt_text(d)),
        Value::String(s, t) => PV::Str(s.to_string(), st(*t)),
        Value::Array(a) => PV::Arr(a.iter().map(pv).collect()),
        Value::InlineTable(t) => PV::Inl(t.iter().map(|(k, x)| (k.to_string(), pv(x))).collect()),
    }
}
/// Build an API value. Date-times are split by position, so arbitrary (also invalid) shapes can be expressed.
pub fn val(p: &PV) -> Value<'static> {
    match p {
        PV::Int(s) => Value::Integer(Cow::Owned(s.clone())),
        PV::Float(s) => Value::Float(Cow::Owned(s.clone())),
        PV::Bool(b) => Value::Boolean(*b),
        PV::DT(s) => Value::DateTime(dt_build(s)),
        PV::Str(s, t) => Value::String(Cow::Owned(s.clone()), st_back(*t)),
        PV::Arr(a) => Value::Array(Rc::new(a.iter().map(val).collect())),
        PV::Inl(a) => Value::InlineTable(Rc::new(a.iter().map(|(k, x)| (Cow::Owned(k.clone()), val(x))).collect())),
    }
}
fn own(s: &str) -> Cow<'static, str> { Cow::Owned(s.to_string()) }
/// `Y-M-D[Th:m:s[.f][Z|+h:m|-h:m]]`, fields taken verbatim
pub fn dt_build(s: &str) -> DateTime<'static> {
    let (d, t) = match s.find('T') { Some(i) => (&s[..i], Some(&s[i + 1..])), None => (s, None) };
    let p: Vec<&str> = d.splitn(3, '-').collect();
    let g = |i: usize| own(p.get(i).copied().unwrap_or(""));
    let date = Date { year: g(0), month: g(1), day: g(2) };
    let time = t.map(|t| {
        let (body, off) = if let Some(i) = t.find(|c| c == 'Z' || c == '+' || c == '-') {
            let o = &t[i..];
            (&t[..i], Some(if o.starts_with('Z') { TimeOffset::Zulu } else {
                let q: Vec<&str> = o[1..].splitn(2, ':').collect();
                TimeOffset::Time(TimeOffsetAmount { pos_neg: if o.starts_with('+') { PosNeg::Pos } else { PosNeg::Neg }, hour: own(q[0]), minute: own(q.get(1).copied().unwrap_or("")) })
            }))
        } else { (t, None) };
        let (hms, frac) = match body.find('.') { Some(i) => (&body[..i], Some(own(&body[i + 1..]))), None => (body, None) };
        let q: Vec<&str> = hms.splitn(3, ':').collect();
        let g = |i: usize| own(q.get(i).copied().unwrap_or(""));
        Time { hour: g(0), minute: g(1), second: g(2), fraction: frac, offset: off }
    });
    DateTime { date, time }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct OErr { pub kind: Option<EK>, pub key: String, pub line: usize, pub val: Option<PV>, pub raw: Option<String>, pub body: Vec<(String, PV)>, pub dbg: String }

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct ORes { pub full: bool, pub failure: bool, pub leftover: Option<String>, pub line: usize, pub errors: Vec<OErr>, pub has_err: bool, pub col: usize }

/// the largest column reported anywhere in a result
fn col(r: &ParseResult) -> usize {
    let of = |e: &std::cell::RefCell<Vec<ParseError>>| e.borrow().iter().map(|e| match e { ParseError::MixedArray(_, _, c) | ParseError::DuplicateKey(_, _, c, _) | ParseError::InvalidTable(_, _, c, _) | ParseError::InvalidDateTime(_, _, c, _) => *c, _ => 0 }).max().unwrap_or(0);
    match r { ParseResult::Full => 0, ParseResult::FullError(e) => of(e), ParseResult::Partial(_, _, c) | ParseResult::Failure(_, c) => *c, ParseResult::PartialError(_, _, c, e) => (*c).max(of(e)) }
}
pub fn res(r: &ParseResult) -> ORes { ORes { col: col(r), ..res0(r) } }
fn res0(r: &ParseResult) -> ORes {
    let errs = |e: &std::cell::RefCell<Vec<ParseError>>| e.borrow().iter().map(oerr).collect::<Vec<_>>();
    match r {
        ParseResult::Full => ORes { full: true, failure: false, leftover: None, line: 0, errors: vec![], has_err: false, col: 0 },
        ParseResult::FullError(e) => ORes { full: true, failure: false, leftover: None, line: 0, errors: errs(e), has_err: true, col: 0 },
        ParseResult::Partial(l, n, _) => ORes { full: false, failure: false, leftover: Some(l.to_string()), line: *n, errors: vec![], has_err: false, col: 0 },
        ParseResult::PartialError(l, n, _, e) => ORes { full: false, failure: false, leftover: Some(l.to_string()), line: *n, errors: errs(e), has_err: true, col: 0 },
        ParseResult::Failure(n, _) => ORes { full: false, failure: true, leftover: None, line: *n, errors: vec![], has_err: false, col: 0 },
    }
}
fn oerr(e: &ParseError) -> OErr {
    let z = |kind, key: &str, line| OErr { kind, key: key.to_string(), line, val: None, raw: None, body: vec![], dbg: String::new() };
    match e {
        ParseError::MixedArray(k, l, _) => z(Some(EK::Mixed), k, *l),
        ParseError::DuplicateKey(k, l, _, v) => OErr { val: Some(pv(v)), ..z(Some(EK::Dup), k, *l) },
        ParseError::InvalidTable(k, l, _, m) => {
            let mut body: Vec<(String, PV)> = m.borrow().iter().map(|(k, v)| (k.clone(), pv(v))).collect();
            body.sort();
            OErr { body, ..z(Some(EK::Table), k, *l) }
        }
        ParseError::InvalidDateTime(k, l, _, r) => OErr { raw: Some(r.to_string()), ..z(Some(EK::Date), k, *l) },
        other => OErr { dbg: format!("{:?}", other), ..z(None, "", 0) },
    }
}
pub fn kids(c: &Children) -> Kids {
    match c { Children::Count(n) => Kids::Count(n.get()), Children::Keys(k) => Kids::Keys(k.borrow().clone()) }
}
pub fn get(p: &TOMLParser, k: &str) -> Option<PV> { p.get_value(k).as_ref().map(pv) }
pub fn ch(p: &TOMLParser, k: &str) -> Option<Kids> { p.get_children(k).map(kids) }
