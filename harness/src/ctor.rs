//! Value and date/time constructors, validation, display and equality.
use crate::engine::{Case, Fam, Outcome};
use crate::fam::{pow_sum, seq};
use crate::judge::fnv;
use crate::obs;
use crate::refm::*;
use std::borrow::Cow;
use tomllib::types::*;
use tomllib::TOMLParser;

fn own(s: &str) -> String { s.to_string() }
fn u(s: &str) -> usize { s.parse().unwrap() }
fn z4(s: &str) -> String { format!("{:0>4}", u(s)) }
fn z2(s: &str) -> String { format!("{:0>2}", u(s)) }

/// the text of a value must be exactly `want` and reading it back must give the value
fn expect(out: &mut Outcome, what: &str, got: Result<Value<'static>, TOMLError>, want: Option<PV>) {
    out.steps += 1;
    match (got, want) {
        (Err(e), None) => { let _ = format!("{} {:?}", e, e); }
        (Err(e), Some(w)) => out.fails.push(format!("{} failed ({}), expected {}", what, e, w.text())),
        (Ok(v), None) => out.fails.push(format!("{} gave {:?}, expected an error", what, v)),
        (Ok(v), Some(w)) => {
            let g = obs::pv(&v);
            if g != w { out.fails.push(format!("{} gave {:?}, expected {:?}", what, g, w)); return }
            roundtrip(out, what, &v, &w);
        }
    }
}
fn roundtrip(out: &mut Outcome, what: &str, v: &Value, w: &PV) {
    out.steps += 3;
    let t = format!("{}", v);
    if !matches!(w, PV::Inl(_) | PV::Arr(_)) && t != w.text() { out.fails.push(format!("{} displays as {:?}, expected {:?}", what, t, w.text())); return }
    if !v.validate() { out.fails.push(format!("{}: validate() is false for {}", what, t)) }
    let doc = format!("a = {}\nz = 1", t);
    let (p, r) = TOMLParser::new().parse(&doc);
    let back = p.get_value("a");
    match back {
        Some(ref b) if obs::pv(b) == *w => {
            if *b != *v || *v != *b { out.fails.push(format!("{}: reading {} back gives an unequal value", what, t)) }
        }
        ref b => out.fails.push(format!("{}: reading {} back gives {:?} ({})", what, t, b, matches!(r, ParseResult::Full))),
    }
    if p.get_value("z").is_none() { out.fails.push(format!("{}: {} swallows the next line", what, t)) }
}

fn str_of(k: &str) -> ST { match k { "basic" => ST::Basic, "ml_basic" => ST::MLBasic, "literal" => ST::Lit, _ => ST::MLLit } }

pub fn run(f: &str, a: &[String]) -> Outcome {
    let mut out = Outcome { state: fnv(&format!("{}{:?}", f, a)), ..Default::default() };
    let x = |n: usize| a[n].as_str();
    let call = format!("{}({})", f, a.join(", "));
    match f {
        "int" => { let n: i64 = x(0).parse().unwrap(); expect(&mut out, &call, Ok(Value::int(n)), Some(PV::Int(n.to_string()))) }
        "int_from_str" => {
            let ok = is_int(x(0));
            expect(&mut out, &call, Value::int_from_str(own(x(0))), if ok { Some(PV::Int(own(x(0)))) } else { None });
            if Value::Integer(Cow::Owned(own(x(0)))).validate() != ok { out.fails.push(format!("Integer({:?}).validate() is {}", x(0), !ok)) }
        }
        "float" => {
            let n: f64 = f64::from_bits(u64::from_str_radix(x(0), 16).unwrap());
            out.steps += 1;
            let v = Value::float(n);
            match obs::pv(&v) {
                PV::Float(t) => {
                    if !v.validate() || !is_float(&t) { out.fails.push(format!("Value::float({:?}) is {} which is not a TOML float", n, t)) }
                    else {
                        if t.replace('_', "").parse::<f64>().map(|b| b.to_bits() != n.to_bits()).unwrap_or(true) { out.fails.push(format!("Value::float({:?}) is {} which is another number", n, t)) }
                        roundtrip(&mut out, &call, &v, &PV::Float(t));
                    }
                }
                o => out.fails.push(format!("Value::float({:?}) is {:?}", n, o)),
            }
        }
        "float_from_str" => {
            let ok = is_float(x(0));
            expect(&mut out, &call, Value::float_from_str(own(x(0))), if ok { Some(PV::Float(own(x(0)))) } else { None });
            if Value::Float(Cow::Owned(own(x(0)))).validate() != ok { out.fails.push(format!("Float({:?}).validate() is {}", x(0), !ok)) }
        }
        "bool" => { let b = x(0) == "true"; expect(&mut out, &call, Ok(Value::bool(b)), Some(PV::Bool(b))) }
        "bool_from_str" => {
            let l = x(0).to_ascii_lowercase();
            let w = if l == "true" { Some(PV::Bool(true)) } else if l == "false" { Some(PV::Bool(false)) } else { None };
            expect(&mut out, &call, Value::bool_from_str(own(x(0))), w)
        }
        // date-time constructors: arguments in declaration order
        "from_int" => {
            // variant, y, m, d, h, mi, s, frac, sign, oh, om
            let d = format!("{}-{}-{}", z4(x(1)), z2(x(2)), z2(x(3)));
            let t = format!("T{}:{}:{}", z2(x(4)), z2(x(5)), z2(x(6)));
            let fr = format!(".{}", x(7));
            let off = format!("{}{}:{}", x(8), z2(x(9)), z2(x(10)));
            let c = x(8).chars().next().unwrap();
            let (y, m, dd, h, mi, s, oh, om) = (u(x(1)), u(x(2)), u(x(3)), u(x(4)), u(x(5)), u(x(6)), u(x(9)), u(x(10)));
            let (got, text) = match x(0) {
                "date" => (Value::date_from_int(y, m, dd), d),
                "datetime" => (Value::datetime_from_int(y, m, dd, h, mi, s), d + &t),
                "frac" => (Value::datetime_frac_from_int(y, m, dd, h, mi, s, u(x(7))), d + &t + &fr),
                "offset" => (Value::datetime_offset_from_int(y, m, dd, h, mi, s, c, oh, om), d + &t + &off),
                "zulu" => (Value::datetime_zulu_from_int(y, m, dd, h, mi, s), d + &t + "Z"),
                "full_zulu" => (Value::datetime_full_zulu_from_int(y, m, dd, h, mi, s, x(7).parse().unwrap()), d + &t + &fr + "Z"),
                _ => (Value::datetime_full_from_int(y, m, dd, h, mi, s, x(7).parse().unwrap(), c, oh, om), d + &t + &fr + &off),
            };
            let ok = is_dt(&text) && dt_valid(&text);
            expect(&mut out, &call, got, if ok { Some(PV::DT(text)) } else { None });
        }
        "from_str" => {
            let o = |n: usize| own(x(n));
            let d = format!("{}-{}-{}", x(1), x(2), x(3));
            let t = format!("T{}:{}:{}", x(4), x(5), x(6));
            let fr = format!(".{}", x(7));
            let off = format!("{}{}:{}", x(8), x(9), x(10));
            let (got, text, uses_time, uses_fr, uses_off) = match x(0) {
                "date" => (Value::date_from_str(o(1), o(2), o(3)), d, false, false, false),
                "datetime" => (Value::datetime_from_str(o(1), o(2), o(3), o(4), o(5), o(6)), d + &t, true, false, false),
                "frac" => (Value::datetime_frac_from_str(o(1), o(2), o(3), o(4), o(5), o(6), o(7)), d + &t + &fr, true, true, false),
                "offset" => (Value::datetime_offset_from_str(o(1), o(2), o(3), o(4), o(5), o(6), o(8), o(9), o(10)), d + &t + &off, true, false, true),
                "zulu" => (Value::datetime_zulu_from_str(o(1), o(2), o(3), o(4), o(5), o(6)), d + &t + "Z", true, false, false),
                "full_zulu" => (Value::datetime_full_zulu_from_str(o(1), o(2), o(3), o(4), o(5), o(6), o(7)), d + &t + &fr + "Z", true, true, false),
                _ => (Value::datetime_full_from_str(o(1), o(2), o(3), o(4), o(5), o(6), o(7), o(8), o(9), o(10)), d + &t + &fr + &off, true, true, true),
            };
            // every field on its own must have its shape; a concatenation that happens to look right is not enough
            let dg = |n: usize, k: usize| x(n).len() == k && x(n).bytes().all(|b| b.is_ascii_digit());
            let mut ok = dg(1, 4) && dg(2, 2) && dg(3, 2);
            if uses_time { ok &= dg(4, 2) && dg(5, 2) && dg(6, 2) }
            if uses_fr { ok &= !x(7).is_empty() && x(7).bytes().all(|b| b.is_ascii_digit()) }
            if uses_off { ok &= (x(8) == "+" || x(8) == "-") && dg(9, 2) && dg(10, 2) }
            ok = ok && dt_valid(&text);
            expect(&mut out, &call, got, if ok { Some(PV::DT(text)) } else { None });
        }
        "parts" => {
            // Date / Time / TimeOffsetAmount / DateTime built from parts: y m d h mi s frac|- off(-|Z|+|minus) oh om
            let dg = |n: usize, k: usize| x(n).len() == k && x(n).bytes().all(|b| b.is_ascii_digit());
            let num = |n: usize| x(n).parse::<u32>().unwrap_or(9999);
            let date_ok = dg(0, 4) && dg(1, 2) && dg(2, 2) && dt_valid(&format!("{}-{}-{}", x(0), x(1), x(2)));
            let d = Date::from_str(x(0), x(1), x(2));
            out.steps += 4;
            if d.is_ok() != date_ok { out.fails.push(format!("Date::from_str({},{},{}) ok={}", x(0), x(1), x(2), d.is_ok())) }
            let draw = Date { year: Cow::Borrowed(x(0)), month: Cow::Borrowed(x(1)), day: Cow::Borrowed(x(2)) };
            if draw.validate() != date_ok { out.fails.push(format!("Date{{{}}}.validate() is {}", draw, !date_ok)) }
            let off_ok = dg(8, 2) && dg(9, 2) && num(8) <= 23 && num(9) <= 59;
            let amount = if x(7) == "+" || x(7) == "-" { Some(TimeOffsetAmount { pos_neg: if x(7) == "+" { PosNeg::Pos } else { PosNeg::Neg }, hour: Cow::Borrowed(x(8)), minute: Cow::Borrowed(x(9)) }) } else { None };
            let fo = TimeOffsetAmount::from_str(x(7), x(8), x(9));
            if fo.is_ok() != (amount.is_some() && off_ok) { out.fails.push(format!("TimeOffsetAmount::from_str({},{},{}) ok={}", x(7), x(8), x(9), fo.is_ok())) }
            if let Some(am) = &amount { if am.validate() != off_ok { out.fails.push(format!("TimeOffsetAmount{{{}}}.validate() is {}", am, !off_ok)) } }
            let offset = match x(7) { "Z" => Some(TimeOffset::Zulu), _ => amount.map(TimeOffset::Time) };
            let o_ok = match &offset { Some(TimeOffset::Time(_)) => off_ok, _ => true };
            if let Some(o) = &offset { if o.validate() != o_ok { out.fails.push(format!("TimeOffset {} validate() is {}", o, !o_ok)) } }
            let frac = if x(6) == "-" { None } else { Some(x(6)) };
            let f_ok = frac.map(|f| !f.is_empty() && f.bytes().all(|b| b.is_ascii_digit())).unwrap_or(true);
            let time_ok = dg(3, 2) && dg(4, 2) && dg(5, 2) && num(3) <= 23 && num(4) <= 59 && num(5) <= 59 && f_ok && o_ok;
            let t = Time::from_str(x(3), x(4), x(5), frac, offset.clone());
            if t.is_ok() != time_ok { out.fails.push(format!("Time::from_str({},{},{},{:?},{:?}) ok={}", x(3), x(4), x(5), frac, offset, t.is_ok())) }
            let traw = Time { hour: Cow::Borrowed(x(3)), minute: Cow::Borrowed(x(4)), second: Cow::Borrowed(x(5)), fraction: frac.map(Cow::Borrowed), offset };
            if traw.validate() != time_ok { out.fails.push(format!("Time{{{}}}.validate() is {}", traw, !time_ok)) }
            let dt = DateTime::new(draw, Some(traw));
            if dt.validate() != (date_ok && time_ok) { out.fails.push(format!("DateTime{{{}}}.validate() is {}", dt, dt.validate())) }
            let v = Value::DateTime(dt.clone());
            if v.validate() != (date_ok && time_ok) { out.fails.push(format!("Value::DateTime({}).validate() is {}", dt, v.validate())) }
            if date_ok && time_ok { let w = obs::pv(&v); roundtrip(&mut out, &call, &v, &w) }
        }
        "datetime_parse" => {
            let s: &'static str = Box::leak(own(x(0)).into_boxed_str());
            let ok = is_dt(s) && dt_valid(s);
            expect(&mut out, &call, Value::datetime_parse(s), if ok { Some(PV::DT(own(s))) } else { None });
            unsafe { drop(Box::from_raw(s as *const str as *mut str)) }
        }
        "string" => {
            let t = str_of(x(0));
            let (ok, gray) = is_str_body(x(1), t);
            if gray { out.gray = true; return out }
            let b = own(x(1));
            let got = match t { ST::Basic => Value::basic_string(b), ST::MLBasic => Value::ml_basic_string(b), ST::Lit => Value::literal_string(b), ST::MLLit => Value::ml_literal_string(b) };
            expect(&mut out, &call, got, if ok { Some(PV::Str(own(x(1)), t)) } else { None });
            let raw = Value::String(Cow::Owned(own(x(1))), obs::st_back(t));
            if raw.validate() != ok { out.fails.push(format!("String({:?}, {:?}).validate() is {}", x(1), t, !ok)) }
        }
        "value" => {
            // a value of any shape: validate, display, read back
            let v = pv_from(x(0));
            let (ok, gray) = pv_valid(&v);
            if gray { out.gray = true; return out }
            let val = obs::val(&v);
            out.steps += 1;
            if val.validate() != ok { out.fails.push(format!("validate() of {} is {}, expected {}", v.text(), !ok, ok)) }
            else if ok { roundtrip(&mut out, &v.text(), &val, &v) }
        }
        "eq" => {
            let (v, w) = (pv_from(x(0)), pv_from(x(1)));
            out.steps += 2;
            let (a, b) = (obs::val(&v), obs::val(&w));
            if (a == b) != (v == w) { out.fails.push(format!("({:?} == {:?}) is {}", v, w, a == b)) }
            if (a != b) != (v != w) { out.fails.push(format!("({:?} != {:?}) is {}", v, w, a != b)) }
            if let (Value::DateTime(p), Value::DateTime(q)) = (&a, &b) {
                if (p == q) != (v == w) { out.fails.push(format!("DateTime {} == {} is {}", p, q, p == q)) }
                if (p.date == q.date) != (format!("{}", p.date) == format!("{}", q.date)) { out.fails.push(format!("Date {} == {} is {}", p.date, q.date, p.date == q.date)) }
                if let (Some(s), Some(t)) = (&p.time, &q.time) { if (s == t) != (format!("{}", s) == format!("{}", t)) { out.fails.push(format!("Time {} == {} is {}", s, t, s == t)) } }
            }
        }
        "combine" => {
            // Children::combine_keys / _index / _child_keys on arbitrary text
            let want = if x(0).is_empty() { own(x(1)) } else { format!("{}.{}", x(0), x(1)) };
            out.steps += 4;
            let g = Children::combine_keys(x(0), x(1));
            if g != want { out.fails.push(format!("combine_keys({:?}, {:?}) = {:?}", x(0), x(1), g)) }
            let n = x(2).parse::<usize>().unwrap();
            let g = Children::combine_keys_index(x(0), n);
            if g != format!("{}[{}]", x(0), n) { out.fails.push(format!("combine_keys_index({:?}, {}) = {:?}", x(0), n, g)) }
            let c = Children::Count(std::cell::Cell::new(n.min(300)));
            let g = c.combine_child_keys(x(0));
            let w: Vec<String> = (0..n.min(300)).map(|i| format!("{}[{}]", x(0), i)).collect();
            if g != w { out.fails.push(format!("combine_child_keys({:?}) of {} elements = {:?}", x(0), n, g)) }
            let subs = vec![own(x(1)), "k".to_string(), own(x(1))];
            let c = Children::Keys(std::cell::RefCell::new(subs.clone()));
            let g = c.combine_child_keys(x(0));
            let w: Vec<String> = subs.iter().map(|s| if x(0).is_empty() { s.clone() } else { format!("{}.{}", x(0), s) }).collect();
            if g != w { out.fails.push(format!("combine_child_keys({:?}) of {:?} = {:?}", x(0), subs, g)) }
        }
        _ => panic!("unknown constructor {}", f),
    }
    out
}

/// values travel through replay files as one text line each
pub fn pv_to(v: &PV) -> String { Case::Hist(String::new(), vec![(String::new(), v.clone())]).ser() }
pub fn pv_from(s: &str) -> PV { match Case::de(s) { Case::Hist(_, o) => o[0].1.clone(), _ => unreachable!() } }

fn list(name: &str, bound: &str, v: Vec<(String, Vec<String>)>) -> Fam {
    Fam { name: name.into(), bound: bound.into(), n: v.len() as u64, gen: Box::new(move |i| { let (f, a) = &v[i as usize]; Case::Ctor(f.clone(), a.clone()) }) }
}
fn texts(name: &str, f: &'static str, bound: &str, al: Vec<&'static str>, n: u32, pre: Vec<&'static str>) -> Fam {
    let k = al.len() as u64;
    let m = pre.len().max(1) as u64;
    Fam { name: name.into(), bound: format!("{}: every text of <= {} symbols out of {}", bound, n, k), n: pow_sum(k, 0, n) * m,
        gen: Box::new(move |i| {
            let b: String = seq(i / m, k, 0, n).iter().map(|x| al[*x]).collect();
            let mut a = vec![];
            if !pre.is_empty() { a.push(pre[(i % m) as usize].to_string()) }
            a.push(b);
            Case::Ctor(f.into(), a)
        }) }
}
pub fn numbers(n: u32) -> Vec<Fam> {
    let al = vec!["0", "1", "9", "_", "+", "-", ".", "e", "E", " ", "x", "\u{661}", "\n"];
    let mut ints: Vec<i64> = vec![0, 1, -1, 9, 10, i64::MAX, i64::MIN, i64::MAX - 1, i64::MIN + 1];
    for b in 0..63 { ints.push(1 << b); ints.push(-(1 << b)); ints.push((1 << b) - 1); ints.push(-(1i64 << b) - 1) }
    for d in 0..19 { let p = 10i64.pow(d); ints.push(p); ints.push(-p); ints.push(p - 1); ints.push(p.wrapping_mul(9)) }
    let mut fl: Vec<f64> = vec![0.5, -0.5, 0.1, -0.1, 300.3, 1e-7, 1.5e-10, 123456789.125, f64::MIN_POSITIVE, 5e-324, 1.0 / 3.0, std::f64::consts::PI, 0.30000000000000004, 1e15 + 0.5, -2.2250738585072014e-308];
    for e in -300..16 { fl.push(1.5 * 10f64.powi(e)); fl.push(-7.25 * 2f64.powi(e)) }
    fl.retain(|x| x.fract() != 0.0);
    // integral floats are a known finding of C13; a few of them stand for it
    fl.extend(vec![0.0, -0.0, 1.0, -1.0, 2.0, 100.0, 1e15, 1e16, 1e21, -1e22, 1e300, f64::MAX, f64::MIN]);
    // every pair of edits of longer numbers, and long numbers
    let mut ned: Vec<(String, Vec<String>)> = vec![];
    {
        let al: Vec<char> = (0u32..128).filter_map(char::from_u32).chain(['\u{661}', '\u{ff11}', '\u{2212}', '\u{a0}', '\u{b2}', '\u{bd}', '\u{1d7d8}']).collect();
        let small: Vec<char> = "0_+-.eE x".chars().collect();
        for b in ["1_000_000", "-9223372036854775808", "+99", "0", "12.5", "-1_2.3_4e+5_6", "6.626E-34", "1e10", "0.0", "-0"] {
            let c: Vec<char> = b.chars().collect();
            let mut set: Vec<String> = vec![];
            for p in 0..=c.len() {
                for e in &al { let mut t = c.clone(); t.insert(p, *e); set.push(t.iter().collect()); if p < c.len() { let mut t = c.clone(); t[p] = *e; set.push(t.iter().collect()) } }
                if p < c.len() { let mut t = c.clone(); t.remove(p); set.push(t.iter().collect()) }
                for q in 0..=c.len() { for e in &small { for f in &small {
                    let mut t = c.clone(); t.insert(p, *e); t.insert(q, *f); set.push(t.iter().collect());
                    if p < c.len() && q < c.len() { let mut t = c.clone(); t[p] = *e; t[q] = *f; set.push(t.iter().collect()) }
                    if p < c.len() { let mut t = c.clone(); t[p] = *e; t.insert(q, *f); set.push(t.iter().collect()); let mut t = c.clone(); t.remove(p); if q <= t.len() { t.insert(q, *f) } set.push(t.iter().collect()) }
                } } }
            }
            for k in [1usize, 2, 17, 18, 19, 20, 21, 38, 39, 40, 77, 100, 308, 309, 310, 400, 1000] { for x in ["1", "9", "0", "1_1", "123"] { for s in ["", "+", "-"] { for y in ["", ".5", "e9", ".0", "_", "e", ".", "e99999", "e-99999"] { set.push(format!("{}{}{}", s, x.repeat(k), y)) } } } }
            set.sort(); set.dedup();
            for t in set { ned.push(("int_from_str".into(), vec![t.clone()])); ned.push(("float_from_str".into(), vec![t])) }
        }
        ned.sort(); ned.dedup();
    }
    let mut bools: Vec<String> = vec![];
    // every edit of the two words
    for w in ["true", "false", "TRUE"] { let c: Vec<char> = w.chars().collect(); for p in 0..=c.len() { for e in (0u32..0x250).chain([0x131, 0x130, 0x17f, 0x2c6f, 0xfb01]).filter_map(char::from_u32) { let mut t = c.clone(); t.insert(p, e); bools.push(t.iter().collect()); if p < c.len() { let mut t = c.clone(); t[p] = e; bools.push(t.iter().collect()) } } if p < c.len() { let mut t = c.clone(); t.remove(p); bools.push(t.iter().collect()) } } }
    for w in ["true", "false"] { for m in 0..(1u32 << w.len()) { bools.push(w.chars().enumerate().map(|(i, c)| if m >> i & 1 == 1 { c.to_ascii_uppercase() } else { c }).collect()) } }
    for w in ["", " true", "true ", "truee", "tru", "t", "1", "0", "yes", "no", "False\n", "\"true\"", "falsetrue", "TRUE1", "nil", "fa1se"] { bools.push(w.into()) }
    // bit patterns: every upper half word over several lower parts; every short decimal
    let low: Vec<u64> = if n > 6 { vec![0, 1, 0xffff_ffff_ffff, 0x5555_5555_5555, 0x8000_0000_0000, 0x0001_0000_0000, 0xfffe_0000_0000, 0x1234_5678_9abc, 0x7fff_ffff_ffff, 0x3333_3333_3333] } else { vec![0, 1, 0xffff_ffff_ffff, 0x5555_5555_5555] };
    let k = low.len() as u64;
    let l2 = low.clone();
    let bits_int = Fam { name: "int-bits".into(), bound: format!("Value::int on every upper 16 bits x {} lower parts and every integer of up to five digits", k), n: 65536 * k + 200_001,
        gen: Box::new(move |i| Case::Ctor("int".into(), vec![if i < 65536 * k { ((((i / k) << 48) | low[(i % k) as usize]) as i64).to_string() } else { (i as i64 - 65536 * k as i64 - 100_000).to_string() }])) };
    let bits_float = Fam { name: "float-bits".into(), bound: format!("Value::float on every finite fractional number with any upper 16 bits x {} lower parts and every decimal of up to five digits with a point anywhere", k), n: 65536 * k + 1_000_000,
        gen: Box::new(move |i| {
            let f = if i < 65536 * k { f64::from_bits(((i / k) << 48) | l2[(i % k) as usize]) } else { let j = i - 65536 * k; (j % 100_000) as f64 / 10f64.powi((j / 100_000 % 5) as i32 + 1) * if j >= 500_000 { -1.0 } else { 1.0 } };
            // integral numbers are the known finding, see the family "float"
            let f = if f.is_finite() && f.fract() != 0.0 { f } else { 0.5 };
            Case::Ctor("float".into(), vec![format!("{:x}", f.to_bits())])
        }) };
    vec![
        bits_int, bits_float,
        texts("int-from-str", "int_from_str", "Value::int_from_str and Integer validation", al.clone(), n, vec![]),
        texts("float-from-str", "float_from_str", "Value::float_from_str and Float validation", al, n, vec![]),
        list("number-edits", "every edit of 10 numbers by any ASCII character and every pair of edits by 9 characters, numbers of up to 3000 digits; Integer and Float", ned),
        list("int", "Value::int on every power of two and ten, their neighbours and the extremes", ints.iter().map(|i| ("int".into(), vec![i.to_string()])).collect()),
        list("float", "Value::float on every decimal and binary exponent", fl.iter().map(|f| ("float".into(), vec![format!("{:x}", f.to_bits())])).collect()),
        list("bool", "Value::bool, Value::bool_from_str in every capitalisation, and near misses", vec![("bool".to_string(), vec!["true".to_string()]), ("bool".to_string(), vec!["false".to_string()])].into_iter().chain(bools.into_iter().map(|b| ("bool_from_str".into(), vec![b]))).collect()),
    ]
}
const VARIANTS: [&str; 7] = ["date", "datetime", "frac", "offset", "zulu", "full_zulu", "full"];
/// 0: within C02, 1: quick, 2: thorough
pub fn dates(level: u8) -> Vec<Fam> {
    let th = level > 0;
    let deep = level > 1;
    let mut v = vec![];
    // every month/day pair in years of every leap class
    let years: Vec<usize> = if th { (0..=9999).collect() } else { vec![0, 1, 4, 100, 200, 300, 400, 1600, 1700, 1800, 1900, 1996, 1999, 2000, 2001, 2004, 2010, 2012, 2100, 2400, 9996, 9999, 10000, 99999] };
    let mut cal = vec![];
    for y in &years { for m in 0..=13usize { for d in if deep { (0..=32usize).collect() } else { vec![0usize, 1, 2, 27, 28, 29, 30, 31, 32, 99, 100] } {
        cal.push((*y, m, d));
    } } }
    let n = cal.len() as u64;
    v.push(Fam { name: "calendar".into(), bound: format!("{} years x months 0..=13 x {} days, from_int and from_str", years.len(), if deep { 33 } else { 11 }), n: n * 2,
        gen: Box::new(move |i| {
            let (y, m, d) = cal[(i / 2) as usize];
            if i % 2 == 0 { Case::Ctor("from_int".into(), vec!["date".into(), y.to_string(), m.to_string(), d.to_string(), "0".into(), "0".into(), "0".into(), "0".into(), "+".into(), "0".into(), "0".into()]) }
            else { Case::Ctor("from_str".into(), vec!["date".into(), format!("{:0>4}", y), format!("{:0>2}", m), format!("{:0>2}", d), "00".into(), "00".into(), "00".into(), "0".into(), "+".into(), "00".into(), "00".into()]) }
        }) });
    // field products, integer constructors: each field over boundary values, all 7 variants, pairs of deviating fields
    let dims: Vec<Vec<&'static str>> = vec![
        vec!["2012", "0", "1", "1900", "9999", "10000"], vec!["2", "0", "1", "12", "13"], vec!["29", "0", "1", "28", "30", "31", "32"],
        vec!["7", "0", "23", "24", "99", "100"], vec!["32", "0", "59", "60", "100"], vec!["5", "0", "59", "60", "61", "100"], vec!["5432", "0", "7", "18446744073709551615", "100"], vec!["+", "-", "Z", "x", "\u{2212}"], vec!["8", "0", "23", "24", "100"], vec!["30", "0", "59", "60", "100"]];
    v.push(pairs("datetime-from-int", "from_int", "every *_from_int constructor, up to {} fields off their default", dims, if deep { 5 } else if th { 4 } else { 3 }));
    let dims: Vec<Vec<&'static str>> = vec![
        vec!["2012", "0000", "0001", "1900", "9999", "", "012", "02012", "2O12", "+012", "\u{661}\u{661}", "201 "], vec!["02", "00", "12", "13", "2", "", "002", "-2", "+2", "2 ", "\u{662}"], vec!["29", "00", "01", "28", "30", "31", "32", "1", "", "029", "+9", "\u{663}"],
        vec!["07", "00", "23", "24", "7", "", "007", "+7", "-1", "\u{660}"], vec!["32", "00", "59", "60", "5", "", "059", "+5", "5\n"], vec!["05", "00", "59", "60", "61", "5", "", "005", "+5", ".5"], vec!["5432", "0", "000", "007", "", "x", "1x", " 1", "+1", "-1", "18446744073709551616", "99999999999999999999999999999999999999999", "\u{661}", "1Z"], vec!["+", "-", "Z", "", "++", "+-", "\u{2212}", " +"], vec!["08", "00", "23", "24", "8", "", "008", "+8", "\u{660}"], vec!["30", "00", "59", "60", "3", "", "030", "-3"]];
    v.push(pairs("datetime-from-str", "from_str", "every *_from_str constructor, up to {} fields off their default", dims.clone(), if deep { 4 } else if th { 3 } else { 2 }));
    // parts
    let mut dims2 = dims;
    dims2[6].insert(1, "-");
    dims2[7] = vec!["+", "-", "Z", "none"];
    let parts = pairs("datetime-parts", "parts", "Date, Time, TimeOffset, TimeOffsetAmount and DateTime built from text parts and validated, up to {} fields off their default", dims2, if deep { 4 } else if th { 3 } else { 2 });
    v.push(parts);
    // every one-character edit, by every ASCII character and a few others, of each text field
    let mut fe: Vec<(String, Vec<String>)> = vec![];
    let base = ["2012", "02", "29", "07", "32", "05", "5432", "+", "08", "30"];
    for (k, b) in base.iter().enumerate() {
        let c: Vec<char> = b.chars().collect();
        let mut set: Vec<String> = vec![];
        for p in 0..=c.len() {
            for e in (0u32..0x100).chain([0x661, 0x6f5, 0x966, 0x2212, 0xff11, 0x1d7ce]).filter_map(char::from_u32) {
                let mut t = c.clone(); t.insert(p, e); set.push(t.iter().collect());
                if p < c.len() { let mut t = c.clone(); t[p] = e; set.push(t.iter().collect()) }
            }
            if p < c.len() { let mut t = c.clone(); t.remove(p); set.push(t.iter().collect()) }
        }
        for e in (0u32..0x80).filter_map(char::from_u32) { for f in (0u32..0x80).filter_map(char::from_u32) { if c.len() == 2 { set.push([e, f].iter().collect()) } } }
        set.sort(); set.dedup();
        for t in set {
            let mut a: Vec<String> = base.iter().map(|x| x.to_string()).collect(); a[k] = t.clone();
            if k != 7 || ["+", "-"].contains(&t.as_str()) { fe.push(("parts".into(), a.clone())) }
            for w in VARIANTS { let mut b = a.clone(); b.insert(0, w.into()); fe.push(("from_str".into(), b)) }
        }
    }
    v.push(list("datetime-field-edits", "every one-character edit of each text field by the characters below U+0100 and six other digits and signs, and every pair of ASCII characters for the two-digit fields, through every *_from_str constructor and the parts", fe));
    // datetime_parse
    v.push(texts("datetime-parse-fragments", "datetime_parse", "Value::datetime_parse on every sequence of fragments", vec!["2012-02-29", "1985-13-01", "0000-01-01", "T", "t", " ", "23:59:59", "24:00:00", "00:00:60", "07:32", ".", "5", "000", "18446744073709551616", "Z", "z", "+", "-", "08:00", "24:00", "\n", "#"], if deep { 6 } else if th { 5 } else { 4 }, vec![]));
    // every single-character edit of valid date-times
    let base = ["1979-05-27", "1979-05-27T07:32:00", "1979-05-27T07:32:00Z", "1979-05-27T00:32:00.999999", "1979-05-27T00:32:00-07:00", "2000-02-29T23:59:59.5+14:59", "1979-05-27T07:32:00.123Z"];
    let ed: Vec<char> = "0123456789-+:.TZtz _eE\n#\u{661}\u{ff11}".chars().collect();
    let mut edits = vec![];
    for b in base {
        let c: Vec<char> = b.chars().collect();
        for p in 0..=c.len() {
            for e in &ed {
                let mut t = c.clone(); t.insert(p, *e); edits.push(t.iter().collect::<String>());
                if p < c.len() { let mut t = c.clone(); t[p] = *e; edits.push(t.iter().collect()) }
            }
            if p < c.len() { let mut t = c.clone(); t.remove(p); edits.push(t.iter().collect()); edits.push(c[..p].iter().collect()); edits.push(c[p..].iter().collect()) }
            if p + 1 < c.len() { let mut t = c.clone(); t.swap(p, p + 1); edits.push(t.iter().collect()) }
        }
        if th { let one = edits.clone(); let _ = one; for p in 0..c.len() { for q in p + 1..c.len() { for e in &ed { for f in &ed { let mut t = c.clone(); t[p] = *e; t[q] = *f; edits.push(t.iter().collect()) } } } } }
    }
    v.push(list("datetime-parse-edits", &format!("Value::datetime_parse on every {}-character edit of 7 date-times", if th { "one- and two" } else { "single" }), edits.into_iter().map(|e| ("datetime_parse".into(), vec![e])).collect()));
    v
}
/// all assignments in which at most `dev` fields differ from their first value
fn pairs(name: &str, f: &'static str, bound: &str, dims: Vec<Vec<&'static str>>, dev: usize) -> Fam {
    let mut all: Vec<Vec<u8>> = vec![];
    let mut cur = vec![0u8; dims.len()];
    fn rec(k: usize, left: usize, dims: &Vec<Vec<&'static str>>, cur: &mut Vec<u8>, all: &mut Vec<Vec<u8>>) {
        if k == dims.len() { all.push(cur.clone()); return }
        rec(k + 1, left, dims, cur, all);
        if left > 0 { for x in 1..dims[k].len() { cur[k] = x as u8; rec(k + 1, left - 1, dims, cur, all) } cur[k] = 0 }
    }
    rec(0, dev, &dims, &mut cur, &mut all);
    let nv = if f == "parts" { 1 } else { VARIANTS.len() as u64 };
    let is_int = f == "from_int";
    Fam { name: name.into(), bound: bound.replace("{}", &dev.to_string()), n: all.len() as u64 * nv,
        gen: Box::new(move |i| {
            let a = &all[(i / nv) as usize];
            let mut args: Vec<String> = a.iter().enumerate().map(|(k, x)| dims[k][*x as usize].to_string()).collect();
            if f != "parts" { args.insert(0, VARIANTS[(i % nv) as usize].into()) }
            if is_int { if args[7].parse::<u64>().is_err() { args[7] = "0".into() } }
            Case::Ctor(f.into(), args)
        }) }
}
pub fn strings(n: u32) -> Vec<Fam> {
    let kinds = vec!["basic", "ml_basic", "literal", "ml_literal"];
    let mut uni = vec![];
    for c in (0u32..=0x10FFFF).filter_map(char::from_u32) {
        if (c as u32) < 0x300 || (c as u32) % 97 == 0 || (c as u32) & 0xffff >= 0xfff0 || ((c as u32) > 0x1fff && (c as u32) < 0x2070) || ((c as u32) > 0xd780 && (c as u32) < 0xe080) { for k in &kinds { uni.push(("string".to_string(), vec![k.to_string(), format!("x{}y", c)])) } }
    }
    let mut escs = vec![];
    for c in (0x20u32..0x17f).filter_map(char::from_u32) { for k in &kinds { escs.push(("string".to_string(), vec![k.to_string(), format!("\\{}", c)])); escs.push(("string".to_string(), vec![k.to_string(), format!("\\u00{}9", c)])); escs.push(("string".to_string(), vec![k.to_string(), format!("\\U0001F60{}", c)])); escs.push(("string".to_string(), vec![k.to_string(), format!("a\\\\{}b", c)])) } }
    // longer bodies: every edit by every ASCII character, pairs of edits by the special ones, and sizes
    let mut sed: Vec<(String, Vec<String>)> = vec![];
    let special: Vec<char> = "\"'\\\n\r\t u0".chars().collect();
    for b in ["it's", "C:\\\\dir\\n", "\\u00e9\\U0001F600\\t", "line\nline\r\nend", "say \\\"hi\\\"", "''quoted''", "\u{e9}\u{1F600}z", "a\\\n  b"] {
        let c: Vec<char> = b.chars().collect();
        let mut set: Vec<String> = vec![b.to_string()];
        for p in 0..=c.len() {
            for e in (0u32..0xa2).filter_map(char::from_u32) { let mut t = c.clone(); t.insert(p, e); set.push(t.iter().collect()); if p < c.len() { let mut t = c.clone(); t[p] = e; set.push(t.iter().collect()) } }
            if p < c.len() { let mut t = c.clone(); t.remove(p); set.push(t.iter().collect()) }
            for q in 0..=c.len() { for e in &special { for f in &special { let mut t = c.clone(); t.insert(p, *e); t.insert(q, *f); set.push(t.iter().collect()); if p < c.len() && q < c.len() { let mut t = c.clone(); t[p] = *e; t[q] = *f; set.push(t.iter().collect()) } } } }
        }
        set.sort(); set.dedup();
        for t in set { for k in &kinds { sed.push(("string".into(), vec![k.to_string(), t.clone()])) } }
    }
    for n in [15usize, 16, 17, 63, 64, 65, 127, 128, 255, 256, 257, 1023, 1024, 1025, 4096, 65536] { for x in ["a", "\\n", "\u{e9}", "\n", "'x", "\\\"", "\\\\"] { for k in &kinds { sed.push(("string".into(), vec![k.to_string(), x.repeat(n)])) } } }
    vec![
        list("string-edits", "every edit of 8 longer bodies by every character below U+00A2, pairs of edits by 9 characters, and bodies of up to 65536 repetitions, in the four kinds of string", sed),
        texts("string-bodies", "string", "basic_string, ml_basic_string, literal_string, ml_literal_string and String validation", vec!["a", "\"", "'", "\\", "n", "u00e9", "U0001F600", "\n", "\r", " ", "\t", "#", "\u{e9}", "\u{0}", "\u{7f}"], n, kinds.clone()),
        texts("string-quotes", "string", "the four string constructors on quotes and escapes", vec!["\"", "'", "\\", "a", "\n"], n + 3, kinds.clone()),
        list("string-unicode", "every character below U+0300, around the plane and surrogate edges, and every 97th one, in the four kinds of string", uni),
        list("string-escapes", "backslash followed by every character below U+017F, and every such character as a hex digit of an escape", escs),
    ]
}
/// composite values: every array / inline table of at most 2 elements over a pool, nested to depth 2
pub fn values(th: bool) -> Vec<Fam> {
    let base = crate::hist::v_all();
    let mut pool: Vec<PV> = base.clone();
    let few: Vec<PV> = base.iter().enumerate().filter(|(i, _)| i % 3 == 0 || th).map(|x| x.1.clone()).collect();
    let keys = ["a", "b", "\"q k\"", "-", "", "a b", "\"", "\"\"", "a.b", "\u{e9}", "1"];
    let mut lvl1 = vec![];
    for x in &base { lvl1.push(PV::Arr(vec![x.clone()])); for k in keys { lvl1.push(PV::Inl(vec![(k.into(), x.clone())])) } }
    for x in &few { for y in &few { lvl1.push(PV::Arr(vec![x.clone(), y.clone()])); for (k, l) in [("a", "b"), ("a", "a"), ("\"a\"", "\"b\"")] { lvl1.push(PV::Inl(vec![(k.into(), x.clone()), (l.into(), y.clone())])) } } }
    for k in keys { for l in keys { for m in ["a", "", "z"] { lvl1.push(PV::Inl(vec![(k.into(), PV::Bool(true)), (l.into(), PV::Bool(true)), (m.into(), PV::Bool(false))])) } } }
    pool.extend(lvl1.iter().cloned());
    let mut lvl2 = vec![];
    for x in lvl1.iter().take(if th { usize::MAX } else { 4000 }) { lvl2.push(PV::Arr(vec![x.clone()])); lvl2.push(PV::Inl(vec![("k".into(), x.clone())])); lvl2.push(PV::Arr(vec![PV::Inl(vec![("k".into(), PV::Arr(vec![])), ("l".into(), x.clone())]), x.clone()])) }
    pool.extend(lvl2);
    let ser: Vec<String> = pool.iter().map(pv_to).collect();
    let mut eqv: Vec<PV> = base;
    for d in ["2010-02-28", "2011-02-28", "2010-03-28", "2010-02-27", "2010-02-28T01:02:03", "2010-02-28T02:02:03", "2010-02-28T01:03:03", "2010-02-28T01:02:04", "2010-02-28T01:02:03.5", "2010-02-28T01:02:03.50", "2010-02-28T01:02:03Z", "2010-02-28T01:02:03+00:00", "2010-02-28T01:02:03-00:00", "2010-02-28T01:02:03+01:00", "2010-02-28T01:02:03+00:01", "2010-02-28T01:02:03.5Z", "2010-02-28T01:02:03.5+01:00"] { eqv.push(PV::DT(d.into())) }
    for t in [ST::Basic, ST::MLBasic, ST::Lit, ST::MLLit] { for b in ["", "a", "b", "7"] { eqv.push(PV::Str(b.into(), t)) } }
    eqv.push(PV::Float("7".into())); eqv.push(PV::Float("2.50".into())); eqv.push(PV::Inl(vec![("l".into(), PV::Int("1".into()))]));
    let es: Vec<String> = eqv.iter().map(pv_to).collect();
    let lvl1s: Vec<String> = lvl1.iter().map(pv_to).collect();
    let eqv2 = eqv;
    let k = es.len() as u64;
    vec![
        Fam { name: "composite-values".into(), bound: format!("{} values: a pool of {} scalars and composites, every array/inline table of one or two of them, nested once more; validate, display and read back", ser.len(), k), n: ser.len() as u64, gen: Box::new(move |i| Case::Ctor("value".into(), vec![ser[i as usize].clone()])) },
        { let es = es.clone(); 
          let (mut pool, mut j) = (es.clone(), 0); while j < lvl1s.len() { pool.push(lvl1s[j].clone()); j += if th { 2 } else { 7 } }
          let q = pool.len() as u64;
          Fam { name: "equality-composites".into(), bound: format!("every ordered pair of {} scalars, arrays and inline tables of up to three elements", q), n: q * q, gen: Box::new(move |i| Case::Ctor("eq".into(), vec![pool[(i / q) as usize].clone(), pool[(i % q) as usize].clone()])) } },
        { let eqv = eqv2.clone(); let wr: Vec<Box<dyn Fn(&PV) -> PV + Send + Sync>> = vec![
            Box::new(|x| PV::Arr(vec![PV::Int("1".into()), x.clone()])), Box::new(|x| PV::Arr(vec![x.clone(), PV::Int("1".into())])), Box::new(|x| PV::Inl(vec![("k".into(), PV::Int("1".into())), ("l".into(), x.clone())])),
            Box::new(|x| PV::Arr(vec![PV::Arr(vec![]), PV::Inl(vec![("k".into(), PV::Arr(vec![x.clone()])), ("z".into(), PV::Bool(true))])])), Box::new(|x| PV::Arr(vec![PV::Arr(vec![PV::Arr(vec![x.clone()])])])), Box::new(|x| PV::Inl(vec![("k".into(), PV::Inl(vec![("k".into(), x.clone()), ("l".into(), x.clone())]))]))];
          let w = wr.len() as u64;
          Fam { name: "equality-nested".into(), bound: format!("every ordered pair of {} values inside {} composites", k, w), n: k * k * w, gen: Box::new(move |i| { let f = &wr[(i % w) as usize]; let i = i / w; Case::Ctor("eq".into(), vec![pv_to(&f(&eqv[(i / k) as usize])), pv_to(&f(&eqv[(i % k) as usize]))]) }) } },
        Fam { name: "equality".into(), bound: format!("every ordered pair of {} values", k), n: k * k, gen: Box::new(move |i| Case::Ctor("eq".into(), vec![es[(i / k) as usize].clone(), es[(i % k) as usize].clone()])) },
    ]
}
pub fn combine() -> Fam {
    let b = ["", "a", "a.b", "a[0]", "a[0].b", "\"q.k\"", "$Root$", ".", " ", "\u{e9}", "a.", "a[10]", "[1]"];
    let n = ["0", "1", "2", "9", "10", "11", "99", "100", "101", "18446744073709551615"];
    let mut v = vec![];
    for x in b { for y in b { for k in n { v.push(("combine".to_string(), vec![x.to_string(), y.to_string(), k.to_string()])) } } }
    list("combine-keys", "combine_keys, combine_keys_index and combine_child_keys over 13 x 13 key texts x 10 counts", v)
}
