//! Histories of set operations: execution against the model, and their enumeration.
use crate::engine::{Case, Fam, Outcome};
use crate::fam;
use crate::judge::{self, fnv};
use crate::obs;
use crate::refm::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use tomllib::types::Value;
use tomllib::TOMLParser;

/// set_value returned the wrong answer
pub const RET: u32 = 1;
/// get_value/get_children of the live document after an accepted set (values)
pub const LIVEV: u32 = 2;
pub const LIVEK: u32 = 4;
/// bytes outside the replaced value, or the replaced value itself, as printed
pub const FRAME: u32 = 8;
/// a new parse of the printed text reads the same as the live document
pub const REPARSE: u32 = 16;
/// a rejected set changed something
pub const NOOP: u32 = 32;
/// values obtained before the set, or results of the parse, changed
pub const SNAP: u32 = 64;
/// get_value of the very path that was set
pub const GETP: u32 = 128;

fn same_structure(n: &RNode, v: &PV) -> bool {
    match (&n.v, v) {
        (RV::Arr(a), PV::Arr(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same_structure(x, y)),
        (RV::Inl(a), PV::Inl(b)) => a.len() == b.len() && a.iter().zip(b).all(|((k, x), (l, y))| k == l && same_structure(x, y)),
        (RV::Arr(_), _) | (RV::Inl(_), _) | (_, PV::Arr(_)) | (_, PV::Inl(_)) => false,
        _ => true,
    }
}
fn leaf_edits(n: &RNode, v: &PV, out: &mut Vec<((usize, usize), String)>) {
    match (&n.v, v) {
        (RV::Arr(a), PV::Arr(b)) => for (x, y) in a.iter().zip(b) { leaf_edits(x, y, out) },
        (RV::Inl(a), PV::Inl(b)) => for ((_, x), (_, y)) in a.iter().zip(b) { leaf_edits(x, y, out) },
        _ => out.push((n.span, v.text())),
    }
}
pub enum Eff { Reject, Gray, Exact(String), Frame { pre: usize, suf: usize, simulated: String } }
/// what a set must do to the document text
pub fn effect(text: &str, ix: &BTreeMap<String, Item>, path: &str, v: &PV) -> Eff {
    let Some(Item { node: Some(n), .. }) = ix.get(path) else { return Eff::Reject };
    let (ok, gray) = pv_valid(v);
    if gray { return Eff::Gray }
    if !ok { return Eff::Reject }
    if same_structure(n, v) {
        let mut e = vec![];
        leaf_edits(n, v, &mut e);
        e.sort();
        let mut t = text.to_string();
        for ((a, b), s) in e.into_iter().rev() { t.replace_range(a..b, &s) }
        Eff::Exact(t)
    } else {
        let mut t = text.to_string();
        t.replace_range(n.span.0..n.span.1, &v.text());
        Eff::Frame { pre: n.span.0, suf: text.len() - n.span.1, simulated: t }
    }
}
pub fn sim(text: &str, path: &str, v: &PV) -> String {
    let r = ref_parse(text);
    match effect(text, &r.index, path, v) { Eff::Exact(t) | Eff::Frame { simulated: t, .. } => t, _ => text.to_string() }
}

pub fn exec(doc: &str, ops: &[(String, PV)], mask: u32, light: bool) -> Outcome {
    let mut out = Outcome::default();
    let mut fails: Vec<String> = vec![];
    let (mut p, result) = TOMLParser::new().parse(doc);
    let first = obs::res(&result);
    let mut text = doc.to_string();
    if first.leftover.is_some() { text = format!("{}", p) }
    let mut r = ref_parse(&text);
    out.state = judge::index_hash(&r);
    if r.gray || !r.full { out.gray = true; return out }
    let mut known: HashMap<PV, Value> = HashMap::new();
    let mut gone: BTreeSet<String> = BTreeSet::new();
    for (n, (path, v)) in ops.iter().enumerate() {
        let snaps: Vec<(Value, PV)> = if mask & SNAP != 0 { r.index.iter().filter_map(|(k, it)| it.val.as_ref().and_then(|pv| p.get_value(k.as_str()).map(|g| (g, pv.clone())))).collect() } else { vec![] };
        for (g, pv) in &snaps { known.entry(pv.clone()).or_insert_with(|| g.clone()); }
        let eff = effect(&text, &r.index, path, v);
        if matches!(eff, Eff::Gray) { out.gray = true; return out }
        let value = known.entry(v.clone()).or_insert_with(|| obs::val(v)).clone();
        let before = text.clone();
        let ret = p.set_value(path.as_str(), value);
        let shown = format!("{}", p);
        out.steps += 2;
        let at = format!("set #{} of {:?}", n + 1, path);
        let want = !matches!(eff, Eff::Reject);
        if ret != want && mask & RET != 0 { fails.push(format!("{} to {} returned {}, expected {}", at, v.text(), ret, want)) }
        let mut lost = false;
        if !ret {
            // a rejected set must leave everything as it was, whether or not it should have been accepted
            if shown != before && mask & NOOP != 0 { fails.push(format!("{}: returned false but the document now prints {:?}, before {:?}", at, shown, before)) }
            if shown != before { lost = true }
        } else {
            match &eff {
                Eff::Exact(t) => {
                    if shown != *t { if mask & FRAME != 0 { fails.push(format!("{}: printed {:?}, expected {:?}", at, shown, t)) } lost = true }
                    text = t.clone();
                }
                Eff::Frame { pre, suf, .. } => {
                    let okf = shown.len() >= pre + suf && shown.is_char_boundary(*pre) && shown.is_char_boundary(shown.len() - suf) && shown[..*pre] == before[..*pre] && shown[shown.len() - suf..] == before[before.len() - suf..];
                    let mut okm = false;
                    if okf { if let Some((node, e)) = Lex::new(&shown).val(*pre, 0) { okm = e == shown.len() - suf && node.pv() == *v } }
                    if !okf || !okm { if mask & FRAME != 0 { fails.push(format!("{}: printed {:?} for {:?}, {}", at, shown, before, if okf { "the new value does not read back as the requested one" } else { "text outside of the replaced value changed" })) } lost = true }
                    text = shown.clone();
                }
                _ => {
                    // accepted although it had to be rejected
                    lost = true;
                }
            }
        }
        for (g, pv) in &snaps { if obs::pv(g) != *pv { fails.push(format!("{}: a value read before the set changed from {} to {}", at, pv.text(), obs::pv(g).text())); break } }
        if mask & SNAP != 0 && obs::res(&result) != first { fails.push(format!("{}: the result of the parse changed", at)) }
        if ret && want && mask & GETP != 0 {
            out.steps += 1;
            let g = obs::get(&p, path);
            if g.as_ref() != Some(v) { fails.push(format!("{}: get_value afterwards is {:?}, expected {}", at, g.map(|x| x.text()), v.text())) }
        }
        if !fails.is_empty() || lost { break }
        let old = std::mem::replace(&mut r, ref_parse(&text));
        gone.extend(old.index.into_keys().filter(|k| !r.index.contains_key(k)));
        out.extra_states.push(judge::index_hash(&r));
        if r.gray { out.gray = true; break }
        if light && n + 1 < ops.len() { continue }
        let jm = if mask & LIVEV != 0 || (!ret && mask & NOOP != 0) { judge::VALUE } else { 0 } | if mask & LIVEK != 0 || (!ret && mask & NOOP != 0) { judge::KIDS } else { 0 };
        if jm != 0 {
            let (c, f) = judge::judge_index(&r.index, &p, jm, false);
            out.steps += c;
            fails.extend(f.into_iter().map(|x| format!("after {}: {}", at, x.1)));
            // nothing answers any more under the paths that existed before
            for k in gone.iter().filter(|k| !r.index.contains_key(*k)) {
                out.steps += 2;
                if jm & judge::VALUE != 0 { if let Some(g) = obs::get(&p, k) { fails.push(format!("after {}: get_value({:?}) = {}, but that path is gone", at, k, g.text())); break } }
                if jm & judge::KIDS != 0 { if let Some(g) = obs::ch(&p, k) { fails.push(format!("after {}: get_children({:?}) = {:?}, but that path is gone", at, k, g)); break } }
            }
            if !fails.is_empty() { break }
        }
    }
    if fails.is_empty() && mask & REPARSE != 0 && !out.gray {
        let shown = format!("{}", p);
        let v = judge::judge(&shown, judge::LOSSLESS | judge::VALUE | judge::KIDS | judge::GRAMMAR | judge::DUPTAB | judge::MIXDATE, false);
        out.steps += v.calls;
        fails.extend(v.fails.into_iter().map(|x| format!("reparsing the printed document: {}", x.1)));
    }
    out.fails = fails;
    out
}

// ------------------------------------------------------------------ enumeration

fn s(x: &str, t: ST) -> PV { PV::Str(x.into(), t) }
fn i(x: &str) -> PV { PV::Int(x.into()) }
fn inl(v: Vec<(&str, PV)>) -> PV { PV::Inl(v.into_iter().map(|(k, x)| (k.to_string(), x)).collect()) }

/// one value per behaviour: scalars, arrays, inline tables, nested ones, and one invalid value
pub fn v_small() -> Vec<PV> {
    vec![i("7"), s("x, ]", ST::Basic), PV::Arr(vec![i("1"), i("2")]), PV::Arr(vec![]), inl(vec![("k", i("1"))]), inl(vec![]),
        PV::Arr(vec![inl(vec![("k", i("1")), ("l", PV::Arr(vec![i("2")]))]), inl(vec![])]), i("0x")]
}
pub fn v_tiny() -> Vec<PV> { vec![i("7"), PV::Arr(vec![i("1"), inl(vec![("b", i("2"))])]), inl(vec![("b", PV::Arr(vec![i("3")])), ("c", i("4"))]), PV::Arr(vec![])] }
pub fn v_all() -> Vec<PV> {
    let mut v = v_small();
    v.extend(vec![
        i("-0"), i("+1_000"), PV::Float("2.5".into()), PV::Float("-1e+6".into()), PV::Bool(true), PV::Bool(false), PV::DT("2010-02-28".into()), PV::DT("2012-02-29T23:59:59.001-08:30".into()), PV::DT("1999-12-31T00:00:00Z".into()),
        s("", ST::Basic), s("\\\"q\\\\", ST::Basic), s("p\nq \"r\"", ST::MLBasic), s("", ST::MLBasic), s("l\"\\", ST::Lit), s("", ST::Lit), s("m'\r\n'n", ST::MLLit), s("\u{e9}\u{1F600}", ST::Basic),
        PV::Arr(vec![PV::Arr(vec![i("1")]), PV::Arr(vec![])]), PV::Arr(vec![i("1"), i("2"), i("3")]), PV::Arr(vec![s("a", ST::Lit), s("b", ST::MLBasic)]), PV::Arr(vec![i("1"), s("mixed", ST::Basic)]),
        inl(vec![("b", i("1")), ("a", i("2"))]), inl(vec![("\"q k\"", PV::Bool(true)), ("n", inl(vec![("m", PV::Arr(vec![i("1"), i("2")]))]))]), PV::Arr(vec![inl(vec![("a", i("1"))]), inl(vec![("a", i("2"))])]),
        // not writable
        s("a\"b", ST::Basic), s("a\nb", ST::Basic), s("a'b", ST::Lit), s("a\"\"\"b", ST::MLBasic), s("a'''b", ST::MLLit), s("x\"", ST::MLBasic), s("\\q", ST::Basic), PV::Float("1".into()), PV::Float("1.".into()), i("01"), i(""), i("1 "), PV::DT("2010-02-30".into()), PV::DT("2010-2-3".into()), PV::DT("2010-02-28T24:00:00".into()),
        PV::Arr(vec![i("1"), i("x")]), inl(vec![("bad key", i("1"))]), inl(vec![("k", i("1")), ("k", i("2"))]), inl(vec![("", i("1"))]), inl(vec![("k", PV::Arr(vec![inl(vec![("k", s("\n", ST::Lit))])]))]),
    ]);
    v
}

fn probes(ix: &BTreeMap<String, Item>) -> Vec<String> { judge::negative_probes(ix).into_iter().collect() }
/// paths with a value, in order
fn valued(text: &str) -> Vec<String> { ref_parse(text).index.iter().filter(|x| x.1.val.is_some()).map(|x| x.0.clone()).collect() }
/// every path: with a value, tables, arrays of tables, and near misses
fn every(text: &str) -> Vec<String> {
    let r = ref_parse(text);
    let mut v: Vec<String> = r.index.keys().cloned().collect();
    v.extend(probes(&r.index));
    v
}

/// every single set: documents x paths x values
pub fn single(name: &str, bound: &str, docs: Vec<String>, vals: Vec<PV>, all_paths: bool) -> Fam {
    let docs: Vec<String> = docs.into_iter().filter(|d| !ref_parse(d).gray).collect();
    let mut at: Vec<(u64, usize)> = vec![];
    let mut n = 0u64;
    let paths: Vec<Vec<String>> = docs.iter().map(|d| if all_paths { every(d) } else { valued(d) }).collect();
    for (k, p) in paths.iter().enumerate() { at.push((n, k)); n += (p.len() * vals.len()) as u64 }
    Fam { name: name.into(), bound: format!("{} ({} documents x every path{} x {} values)", bound, docs.len(), if all_paths { ", tables and near misses included" } else { " with a value" }, vals.len()), n,
        gen: Box::new(move |j| {
            let k = at.partition_point(|x| x.0 <= j) - 1;
            let (b, d) = at[k];
            // several documents may share an offset when they have no paths; the last one has them
            let r = (j - b) as usize;
            Case::Hist(docs[d].clone(), vec![(paths[d][r / vals.len()].clone(), vals[r % vals.len()].clone())])
        }) }
}

/// every sequence of exactly `depth` sets, each on a path that exists at that point (or is a table / missing, for `neg`)
pub fn deep(name: &str, bound: &str, docs: Vec<String>, vals: Vec<PV>, depth: usize, neg: bool) -> Fam {
    // prefixes: all histories of depth-1 with the paths available after them
    struct Pre { doc: usize, ops: Vec<(String, PV)>, text: String }
    let vals2 = vals.clone();
    let avail = move |t: &str| -> Vec<String> {
        let mut v = valued(t);
        if neg { let r = ref_parse(t); if let Some(x) = r.index.iter().find(|x| x.1.val.is_none() && !x.0.is_empty()) { v.push(x.0.clone()) } v.push("nope".into()) }
        v
    };
    let mut pres: Vec<Pre> = docs.iter().enumerate().map(|(n, d)| Pre { doc: n, ops: vec![], text: d.clone() }).collect();
    for _ in 1..depth {
        let mut next = vec![];
        for p in &pres { for path in avail(&p.text) { for v in &vals2 {
            let t = sim(&p.text, &path, v);
            let mut o = p.ops.clone();
            o.push((path.clone(), v.clone()));
            next.push(Pre { doc: p.doc, ops: o, text: t });
        } } }
        pres = next;
    }
    let mut at = vec![];
    let mut n = 0u64;
    let mut lasts = vec![];
    for p in &pres { let a = avail(&p.text); at.push(n); n += (a.len() * vals2.len()) as u64; lasts.push(a) }
    let nd = docs.len();
    Fam { name: name.into(), bound: format!("{} ({} documents, every sequence of {} sets over the paths then existing{} x {} values)", bound, nd, depth, if neg { ", one table and one missing path" } else { "" }, vals2.len()), n,
        gen: Box::new(move |j| {
            let k = at.partition_point(|x| *x <= j) - 1;
            let r = (j - at[k]) as usize;
            let mut ops = pres[k].ops.clone();
            ops.push((lasts[k][r / vals2.len()].clone(), vals2[r % vals2.len()].clone()));
            Case::Hist(docs[pres[k].doc].clone(), ops)
        }) }
}

/// values close to a given one: the same, each leaf or all leaves changed, elements and keys added, removed, renamed, swapped, kinds changed
pub fn neighbours(v: &PV) -> Vec<PV> {
    let mut out = vec![v.clone()];
    fn leaf(v: &PV) -> Vec<PV> {
        match v {
            PV::Int(n) => vec![i("9"), s(n, ST::Basic), PV::Float(format!("{}.0", n)), i("99999999999999999999")],
            PV::Float(n) => vec![PV::Float("9.5".into()), s(n, ST::Lit), i("9")],
            PV::Bool(b) => vec![PV::Bool(!b), s(if *b { "true" } else { "false" }, ST::Basic), i("9")],
            PV::Str(b, t) => {
                let mut v = vec![s("w", *t)];
                for k in [ST::Basic, ST::MLBasic, ST::Lit, ST::MLLit] { if k != *t && is_str_body(b, k) == (true, false) { v.push(s(b, k)) } }
                v.push(s("w\nw", ST::MLLit)); v.push(i("9"));
                v
            }
            PV::DT(d) => vec![PV::DT("2012-02-29".into()), PV::DT("2012-02-29T01:02:03.5-07:59".into()), s(d, ST::Basic), i("2012")],
            _ => vec![i("9"), PV::Bool(false), PV::DT("2012-02-29".into())],
        }
    }
    fn all(v: &PV) -> PV { match v { PV::Arr(a) => PV::Arr(a.iter().map(all).collect()), PV::Inl(a) => PV::Inl(a.iter().map(|(k, x)| (k.clone(), all(x))).collect()), x => leaf(x)[0].clone() } }
    out.push(all(v));
    match v {
        PV::Arr(a) => {
            for n in 0..a.len() {
                for x in neighbours(&a[n]) { let mut b = a.clone(); b[n] = x; out.push(PV::Arr(b)) }
                let mut b = a.clone(); b.remove(n); out.push(PV::Arr(b));
                let mut b = a.clone(); b.insert(n, a[n].clone()); out.push(PV::Arr(b));
                if n > 0 { let mut b = a.clone(); b.swap(n - 1, n); out.push(PV::Arr(b)) }
            }
            let mut b = a.clone(); b.push(inl(vec![("new", PV::Arr(vec![]))])); out.push(PV::Arr(b));
            out.push(PV::Arr(vec![])); out.push(PV::Arr(vec![v.clone()])); out.push(inl(vec![("x", v.clone())])); out.push(i("9"));
        }
        PV::Inl(a) => {
            for n in 0..a.len() {
                for x in neighbours(&a[n].1) { let mut b = a.clone(); b[n].1 = x; out.push(PV::Inl(b)) }
                for k in ["zz", "x", "\"x y\""] { let mut b = a.clone(); b[n].0 = k.into(); out.push(PV::Inl(b)) }
                let mut b = a.clone(); b.remove(n); out.push(PV::Inl(b));
                if n > 0 { let mut b = a.clone(); b.swap(n - 1, n); out.push(PV::Inl(b)); let mut b = a.clone(); let t = b[n].1.clone(); b[n].1 = b[n - 1].1.clone(); b[n - 1].1 = t; out.push(PV::Inl(b)) }
            }
            let mut b = a.clone(); b.push(("new".into(), PV::Arr(vec![i("1")]))); out.push(PV::Inl(b));
            let mut b = a.clone(); b.insert(0, ("new".into(), i("1"))); out.push(PV::Inl(b));
            out.push(inl(vec![])); out.push(PV::Arr(vec![v.clone()])); out.push(inl(vec![("x", v.clone())])); out.push(i("9"));
        }
        x => { out.extend(leaf(x)); out.push(PV::Arr(vec![])); out.push(inl(vec![])); out.push(PV::Arr(vec![x.clone()])); out.push(inl(vec![("x", x.clone())])) }
    }
    let mut seen = std::collections::HashSet::new();
    out.retain(|x| seen.insert(x.clone()));
    out
}
/// formatted composites: every one is replaced by its neighbours
pub fn shaped_docs() -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for x in ["[ {b=1} ]", "{ a = [ 1 ,2 ] , b = 'x' }", "[\n [1, 2 ] , # c\n [ 3,4]\n]", "[ { x = 1 } , { x = 2,y=[ 3 ] } ]", "{x={ y = { z = [ [ 1 ] ] } }}", "[\r\n  \"a\", # one\r\n  'b' # two\r\n]", "[ [ ] , [\n] , [ {} ] ]", "{ a=1 , \"a b\" = 2 , c = { } }", "[ 1 , 2 , 3 , ]", "[ 2010-01-01 , 2011-01-01T00:00:00Z ]", "[{a=1,b=2},{b=1,a=2}]", "{ \"x\" = [ {x=[ 1 ] } ] }"] {
        v.push(format!("k = {}\n", x));
        v.push(format!("  k\t=  {} # c\nl = 1\n", x));
        v.push(format!("[[t]]\nk = {}\n\n[[t]] # c\nk = {}\nl = 2\n", x, x));
    }
    v
}
/// every sequence of `depth` sets, each replacing a value by a neighbour of what it is at that point
pub fn near(name: &str, bound: &str, docs: Vec<String>, depth: usize) -> Fam {
    let mut cases: Vec<(u32, Vec<(String, PV)>)> = vec![];
    let docs: Vec<String> = docs.into_iter().filter(|d| !ref_parse(d).gray).collect();
    let mut cur: Vec<(u32, Vec<(String, PV)>, String)> = docs.iter().enumerate().map(|(n, d)| (n as u32, vec![], d.clone())).collect();
    for step in 0..depth {
        let mut next = vec![];
        for (d, ops, text) in &cur {
            let r = ref_parse(text);
            if r.gray || (step == 0 && !r.full) { continue }
            for (path, it) in &r.index {
                let Some(v) = &it.val else { continue };
                for x in neighbours(v) {
                    let mut o = ops.clone();
                    let t = if step + 1 < depth { sim(text, path, &x) } else { String::new() };
                    o.push((path.clone(), x));
                    if step + 1 < depth { next.push((*d, o, t)) } else { cases.push((*d, o)) }
                }
            }
        }
        cur = next;
    }
    Fam { name: name.into(), bound: format!("{} ({} documents, every sequence of {} sets over the values then existing)", bound, docs.len(), depth), n: cases.len() as u64,
        gen: Box::new(move |j| { let (d, o) = &cases[j as usize]; Case::Hist(docs[*d as usize].clone(), o.clone()) }) }
}

/// values that are long, wide or deep
pub fn v_long(th: bool) -> Vec<PV> {
    let mut v = vec![];
    let lens: &[usize] = if th { &[31, 33, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 1023, 1024, 1025, 4096, 4097, 65535, 65536, 65537] } else { &[64, 65, 128, 255, 256, 257, 1025, 65537] };
    for &n in lens {
        v.push(s(&"x".repeat(n), ST::Basic)); v.push(s(&"\u{e9}".repeat(n), ST::Lit)); v.push(s(&"\\\"\u{1F600}".repeat(n), ST::Basic)); v.push(s(&"y\n".repeat(n), ST::MLBasic)); v.push(s(&"z'\r\n".repeat(n), ST::MLLit)); v.push(s(&"w".repeat(n), ST::MLLit));
        v.push(i(&"9".repeat(n))); v.push(i(&format!("-1{}", "_0".repeat(n)))); v.push(PV::Float(format!("{}.{}", "1".repeat(n), "0".repeat(n)))); v.push(PV::Float(format!("1e-{}", "1".repeat(n)))); v.push(PV::DT(format!("2000-01-01T00:00:00.{}-08:00", "1".repeat(n))));
        // not writable
        v.push(s(&format!("{}\n", "x".repeat(n)), ST::Basic)); v.push(s(&format!("{}'", "x".repeat(n)), ST::Lit)); v.push(i(&format!("{}_", "9".repeat(n)))); v.push(PV::Float(format!("{}.", "1".repeat(n)))); v.push(PV::DT(format!("2000-01-01T00:00:00.{}x", "1".repeat(n)))); v.push(s(&format!("{}\"\"\"{}", "x".repeat(n), "x".repeat(n)), ST::MLBasic));
    }
    let counts: &[usize] = if th { &[7, 8, 9, 10, 11, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 300] } else { &[9, 10, 11, 16, 17, 33, 65, 129, 256, 257] };
    for &n in counts {
        let ints: Vec<PV> = (0..n).map(|x| i(&x.to_string())).collect();
        let keys = |w: fn(usize) -> PV| PV::Inl((0..n).map(|x| (format!("k{}", x), w(x))).collect());
        v.push(PV::Arr(ints.clone()));
        v.push(PV::Arr(ints.iter().map(|x| PV::Arr(vec![x.clone(), x.clone()])).collect()));
        v.push(PV::Arr((0..n).map(|x| inl(vec![("b", i(&x.to_string())), ("c", PV::Arr(vec![]))])).collect()));
        v.push(keys(|x| i(&x.to_string())));
        v.push(keys(|x| PV::Arr(vec![s(&x.to_string(), ST::Lit)])));
        v.push(PV::Arr({ let mut a = ints.clone(); a.push(s("mixed", ST::Basic)); a }));
        // not writable
        v.push(PV::Arr({ let mut a = ints.clone(); a.push(i("01")); a }));
        v.push(PV::Inl({ let mut a: Vec<(String, PV)> = (0..n).map(|x| (format!("k{}", x), i("1"))).collect(); a.push(("k0".into(), i("2"))); a }));
    }
    for n in 2..=if th { 40 } else { 14 } {
        let mut a = i("1"); let mut b = i("1"); let mut c = PV::Arr(vec![]); let mut bad = i("x");
        for _ in 0..n { a = PV::Arr(vec![a]); b = inl(vec![("b", b)]); c = PV::Arr(vec![inl(vec![("a", i("0")), ("b", c)])]); bad = PV::Arr(vec![inl(vec![("b", bad)])]) }
        v.extend([a, b, c, bad]);
    }
    v
}
/// a long, wide or deep value is set, and then something in it or the whole of it is set again
pub fn long(name: &str, th: bool) -> Fam {
    let docs: Vec<String> = ["a = 1\n", "[t]\nk = [ 1 , 'x' ] # c\nl = 2\n", "a = {b = [ 1 ],c=2}\nz = 1", "[[s]]\r\nk = 1\r\n[[s]]\r\nk = [\r\n]\r\n[u]\r\n"].iter().map(|x| x.to_string()).collect();
    let vals = v_long(th);
    let mut at: Vec<(u32, String, u32)> = vec![];
    for (n, d) in docs.iter().enumerate() { for p in valued(d) { for v in 0..vals.len() { at.push((n as u32, p.clone(), v as u32)) } } }
    let k = 11u64;
    Fam { name: name.into(), bound: format!("{} documents x every path with a value x {} long, wide or deep values x {} second sets (on the whole or on the first, second, middle or last path in it)", docs.len(), vals.len(), k), n: at.len() as u64 * k,
        gen: Box::new(move |j| {
            let (d, p, v) = &at[(j / k) as usize];
            let (doc, val) = (&docs[*d as usize], vals[*v as usize].clone());
            let mut ops = vec![(p.clone(), val)];
            let which = (j % k) as usize;
            if which > 0 {
                let text = sim(doc, p, &ops[0].1);
                let (q, w) = ((which - 1) % 5, (which - 1) / 5);
                let path = if q == 0 { p.clone() } else {
                    let inner: Vec<String> = valued(&text).into_iter().filter(|x| x.starts_with(p.as_str()) && x != p).collect();
                    if inner.is_empty() { format!("{}[0]", p) } else { inner[match q { 1 => 0, 2 => 1.min(inner.len() - 1), 3 => inner.len() / 2, _ => inner.len() - 1 }].clone() }
                };
                ops.push((path, if w == 0 { i("7") } else { PV::Arr(vec![inl(vec![("b", s("q", ST::Lit))]), inl(vec![])]) }));
            }
            Case::Hist(doc.clone(), ops)
        }) }
}

pub fn docs_of(f: Fam) -> Vec<String> { (0..f.n).map(|j| match (f.gen)(j) { Case::Doc(d) => d, _ => unreachable!() }).collect() }

pub fn base_docs() -> Vec<String> {
    let v: Vec<String> = vec![
        "a = 1\nb = [1, 2]\n".into(),
        "a = {x = 1, y = [1]} # c\n\nb='s'".into(),
        "[t.u]\r\nk = [ # c\r\n 1,\r\n]\r\n[t]\r\nk = 2 # d\r\n".into(),
        "[[s]]\nk = {x = 1}\n[[s]]\nk = [[1], [2]]\n[[s.r]]\nq = 1\n".into(),
        "a = [{x = 1}, {x = {y = 2}}]".into(),
        "\"q k\" = 1\n[t.\"a.b\"]\nz = [\"x\", 'y']\n".into(),
        "a = 1\nab = 2\na-b = 3\n[a1]\na = 4".into(),
    ];
    for d in &v { let r = ref_parse(d); assert!(r.full && !r.gray && r.errors.is_empty(), "{:?}", d) }
    v
}
pub fn odd_docs() -> Vec<String> {
    vec![
        "a = 1\na = [2]\nb = 3\n".into(),
        "[t]\r\nk = [ # c\r\n 1,\r\n]\r\n[t.u]\r\nk = 2 # d\r\n".into(),
        "a = [1, 'x']\nb = 2010-02-30\n".into(),
        "[t]\nx = 1\n[t]\ny = 2\n[u]\nx = {k = 1}".into(),
        "a = 1\nb = [1]\n!!".into(),
        "  a\t=\t1\t\r\n\r\n[ t . u ] # c\r\n  k=[\t]\r\n".into(),
        "".into(),
        "# only\n".into(),
        "a = [\n  [ 1 , 2 ] , # x\n  [ 3 ] # y\n]\n".into(),
        "a = { b = { c = { d = 1 } } }\n".into(),
        "a = [[[[1]]]]".into(),
        "[[x]]\n[[x.y]]\n[[x.y.z]]\nk = 1\n[x.y.z.w]\nk = [2]\n[[x]]\nk = 3\n".into(),
        "a = \"\"\"m\nn\"\"\"\nb = '''o\np'''\nc = 1.5\nd = true\ne = 2010-01-01T00:00:00Z\n".into(),
    ]
}

/// the four string kinds with every body over a small alphabet, numbers and dates as arbitrary text
pub fn char_values(n: u32) -> Fam {
    let al = ["a", "\"", "'", "\\", "n", "u00e9", "\n", "\r\n", "\t", " ", "#", "\u{e9}", "\u{1}", "\u{7f}"];
    let k = al.len() as u64;
    let per = fam::pow_sum(k, 0, n);
    Fam { name: "set-strings".into(), bound: format!("set a scalar, an array element and an inline value to a string of each of 4 kinds with every body of <= {} symbols out of {}", n, k), n: per * 4 * 2,
        gen: Box::new(move |mut j| {
            let wrap = j % 2; j /= 2;
            let t = [ST::Basic, ST::MLBasic, ST::Lit, ST::MLLit][(j % 4) as usize];
            let b: String = fam::seq(j / 4, k, 0, n).iter().map(|x| al[*x]).collect();
            if wrap == 0 { Case::Hist("a = 1 # c\nb = 2\n".into(), vec![("a".into(), PV::Str(b, t))]) }
            else { Case::Hist("a = [{k = 1}] # c\nb = 2\n".into(), vec![("a[0].k".into(), PV::Str(b.clone(), t)), ("b".into(), PV::Arr(vec![PV::Str(b, t)]))]) }
        }) }
}
pub fn char_numbers(n: u32) -> Fam {
    let al = ["0", "1", "9", "_", "+", "-", ".", "e", "E", " ", "x", "\u{661}"];
    let k = al.len() as u64;
    Fam { name: "set-numbers".into(), bound: format!("set to an Integer / a Float holding every text of <= {} symbols out of {}", n, k), n: fam::pow_sum(k, 0, n) * 2,
        gen: Box::new(move |j| {
            let b: String = fam::seq(j / 2, k, 0, n).iter().map(|x| al[*x]).collect();
            let v = if j % 2 == 0 { PV::Int(b) } else { PV::Float(b) };
            if b_len(&v) % 2 == 0 { Case::Hist("a = 1 # c\nb = [2]\n".into(), vec![("a".into(), v)]) } else { Case::Hist("a = 1 # c\nb = [ 2 ]\n".into(), vec![("b[0]".into(), v)]) }
        }) }
}
fn b_len(v: &PV) -> usize { match v { PV::Int(s) | PV::Float(s) => s.len(), _ => 0 } }
/// inline-table keys as arbitrary text
pub fn char_keys(n: u32) -> Fam {
    let al = ["a", "\"", "'", "\\", ".", " ", "-", "=", "\n", "#", "\u{e9}", "["];
    let k = al.len() as u64;
    Fam { name: "set-keys".into(), bound: format!("set to an inline table whose key is every text of <= {} symbols out of {}", n, k), n: fam::pow_sum(k, 0, n),
        gen: Box::new(move |j| {
            let b: String = fam::seq(j, k, 0, n).iter().map(|x| al[*x]).collect();
            Case::Hist("a = 1 # c\nb = 2\n".into(), vec![("a".into(), PV::Inl(vec![("z".into(), i("1")), (b, i("2"))]))])
        }) }
}

pub fn hash_case(c: &Case) -> u64 { fnv(&c.ser()) }

/// set on every path string
pub fn paths(name: &str, n: u32) -> Fam {
    let f = fam::paths(n);
    Fam { name: name.into(), bound: format!("set_value on {}", f.bound), n: f.n, gen: Box::new(move |j| match (f.gen)(j) { Case::Probe(d, p) => Case::Hist(d, vec![(p[0].clone(), i("7"))]), _ => unreachable!() }) }
}

/// date-times of every validity, assembled field by field
pub fn dates(dev: usize) -> Fam {
    let dims: Vec<Vec<&'static str>> = vec![
        vec!["2012", "0000", "1900", "9999", "", "012", "02012", "2O12", "201 "], vec!["02", "00", "12", "13", "2", "", "002", "2 ", "\u{662}"], vec!["29", "00", "01", "30", "31", "32", "1", "", "029", "\u{663}"],
        vec!["none", "07", "00", "23", "24", "25", "7", "", "007", "\u{660}"], vec!["32", "00", "59", "60", "5", "", "059", "5\n"], vec!["05", "00", "59", "60", "61", "5", "", "005"],
        vec!["none", "5432", "0", "", "x", "1x", " 1", "99999999999999999999999999999999999999999", "\u{661}"], vec!["none", "Z", "+", "-"], vec!["08", "00", "23", "24", "8", "", "\u{660}"], vec!["30", "00", "59", "60", "3", "", "030"]];
    let mut all: Vec<String> = vec![];
    fn rec(k: usize, left: usize, dims: &[Vec<&'static str>], cur: &mut Vec<&'static str>, all: &mut Vec<String>) {
        if k == dims.len() {
            let mut s = format!("{}-{}-{}", cur[0], cur[1], cur[2]);
            if cur[3] != "none" {
                s += &format!("T{}:{}:{}", cur[3], cur[4], cur[5]);
                if cur[6] != "none" { s += &format!(".{}", cur[6]) }
                match cur[7] { "none" => {} "Z" => s.push('Z'), x => s += &format!("{}{}:{}", x, cur[8], cur[9]) }
            }
            all.push(s);
            return;
        }
        // the choices that decide which fields there are do not count as deviations
        let free = k == 3 || k == 6 || k == 7;
        for x in 0..dims[k].len() {
            let c = if x == 0 || (free && x <= 1) || k == 7 { 0 } else { 1 };
            if c <= left { cur.push(dims[k][x]); rec(k + 1, left - c, dims, cur, all); cur.pop(); }
        }
    }
    rec(0, dev, &dims, &mut vec![], &mut all);
    all.sort();
    all.dedup();
    Fam { name: "set-dates".into(), bound: format!("set a scalar, an array element and part of an inline table to {} date-times with up to {} unusual fields", all.len(), dev), n: all.len() as u64 * 3,
        gen: Box::new(move |j| {
            let v = PV::DT(all[(j / 3) as usize].clone());
            match j % 3 { 0 => Case::Hist("a = 1 # c\nb = 2\n".into(), vec![("a".into(), v)]), 1 => Case::Hist("a = [ 1979-05-27 ]\nb = 2\n".into(), vec![("a[0]".into(), v)]), _ => Case::Hist("a = {k = 1}\nb = 2\n".into(), vec![("a".into(), PV::Inl(vec![("k".into(), i("1")), ("l".into(), PV::Arr(vec![v]))]))]) }
        }) }
}

/// long histories: the sets walk over the paths then existing and over the values, in every combination of two starts and two strides
pub fn walks(name: &str, len: usize, th: bool) -> Fam {
    let docs: Vec<String> = base_docs().into_iter().chain(odd_docs()).filter(|d| !ref_parse(d).gray).collect();
    let vals = v_small();
    let (starts, strides): (Vec<usize>, Vec<usize>) = (vec![0, 1, 2, 5], if th { vec![0, 1, 2, 3, 5, 7] } else { vec![0, 1, 3] });
    let mut all = vec![];
    for d in 0..docs.len() { for s in &starts { for st in &strides { for v in 0..vals.len() { for vst in if th { vec![0usize, 1, 2, 3, 5] } else { vec![0, 1, 3] } { all.push((d, *s, *st, v, vst)) } } } } }
    Fam { name: name.into(), bound: format!("{} documents x {} sets each, walking the paths then existing and {} values with every combination of {} starts, {} strides and {} value orders", docs.len(), len, vals.len(), starts.len(), strides.len(), vals.len() * if th { 5 } else { 3 }), n: all.len() as u64,
        gen: Box::new(move |j| {
            let (d, s, st, v, vst) = all[j as usize];
            let mut text = docs[d].clone();
            let mut ops = vec![];
            for n in 0..len {
                let ps = valued(&text);
                if ps.is_empty() || text.len() > 3000 { break }
                let path = ps[(s + n * st) % ps.len()].clone();
                let val = vals[(v + n * vst) % vals.len()].clone();
                text = sim(&text, &path, &val);
                ops.push((path, val));
            }
            Case::Hist(docs[d].clone(), ops)
        }) }
}

/// composites that are writable but for one entry
pub fn bad_entry(th: bool) -> Fam {
    let good_v = |j: usize| match j % 4 { 0 => i("1"), 1 => s("x", ST::Basic), 2 => PV::Arr(vec![i("1")]), _ => PV::Inl(vec![("n".into(), i("1"))]) };
    let bad_v = vec![i("01"), i("x"), PV::Float("1".into()), PV::Float("1.".into()), s("\n", ST::Basic), s("'", ST::Lit), s("\"\"\"", ST::MLBasic), s("'''", ST::MLLit), PV::DT("2010-02-30".into()), PV::DT("2010-01-01T24:00:00".into()),
        PV::Arr(vec![i("1"), s("a", ST::Basic)]), PV::Arr(vec![i("1"), i("2"), PV::Float("1.5".into())]), PV::Arr(vec![PV::Arr(vec![i("1"), PV::Bool(true)])]), PV::Inl(vec![("a b".into(), i("1"))]), PV::Inl(vec![("a".into(), i("1")), ("a".into(), i("1"))]), PV::Arr(vec![PV::Inl(vec![("".into(), i("1"))])])];
    // keys: not a key at all, or the same as another one
    let bad_k: Vec<String> = ["", " ", "a b", " a", "a ", "a.b", "\"", "\"a", "a\"", "\"a\"b", "\"\\q\"", "\"\n\"", "'", "\u{e9}", "a=1", "#", "a\n"].iter().map(|x| x.to_string()).collect();
    let mut vals: Vec<PV> = vec![];
    for n in if th { vec![1usize, 2, 3, 4, 5, 6, 7, 8, 9, 10, 16, 17, 33, 65] } else { vec![1usize, 2, 3, 4, 5, 6, 9, 17, 33] } {
        for p in 0..n {
            if n > 10 && p > 2 && p + 3 < n && p % 5 != 0 { continue }
            let tab = |kb: Option<&String>, vb: Option<&PV>| PV::Inl((0..n).map(|j| (if j == p && kb.is_some() { kb.unwrap().clone() } else { format!("k{}", j) }, if j == p && vb.is_some() { vb.unwrap().clone() } else { good_v(j) })).collect());
            let mut now = vec![];
            for k in &bad_k { now.push(tab(Some(k), None)) }
            for q in 0..n { if q != p && (q < 3 || q + 2 > n || q + 1 == p) { now.push(tab(Some(&format!("k{}", q)), None)) } }
            for b in &bad_v {
                now.push(tab(None, Some(b)));
                now.push(PV::Arr((0..n).map(|j| if j == p { b.clone() } else { match b { PV::Int(_) => i("1"), PV::Float(_) => PV::Float("1.5".into()), PV::Str(_, _) => s("x", ST::Basic), PV::DT(_) => PV::DT("2010-02-28".into()), PV::Arr(_) => PV::Arr(vec![i("1")]), _ => PV::Inl(vec![("n".into(), i("1"))]) } }).collect()));
            }
            for (m, v) in now.into_iter().enumerate() { vals.push(match m % 4 { 0 | 1 => v, 2 => PV::Arr(vec![v]), _ => PV::Inl(vec![("z".into(), i("1")), ("y".into(), v), ("x".into(), i("1"))]) }) }
        }
    }
    let docs = ["a = 1 # c\nb = 2\n", "a = [ [1] , [2, 3] ] # c\nb = 2\n", "a = [ {n = 1}, { n = 2 } ]\nb = 2\n", "a = { k0 = 1 , k1 = 2 , k2 = 3 } # c\nb = 2\n"];
    let nd = docs.len() as u64;
    Fam { name: "set-bad-entry".into(), bound: format!("set to each of {} arrays and inline tables, of up to {} entries, with one entry not writable, out of {} values and {} keys and every repeated key, on {} documents", vals.len(), if th { 65 } else { 33 }, bad_v.len(), bad_k.len(), nd), n: vals.len() as u64 * nd,
        gen: Box::new(move |j| { let v = vals[(j / nd) as usize].clone(); let d = docs[(j % nd) as usize]; Case::Hist(d.into(), vec![("a".into(), v.clone()), ("a".into(), i("7")), ("b".into(), v)]) }) }
}
