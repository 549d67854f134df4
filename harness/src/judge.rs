//! Comparison of one document as the implementation reads it with the reference reading.
use crate::obs;
use crate::refm::*;
use std::collections::{BTreeMap, BTreeSet};
use tomllib::TOMLParser;

pub const LOSSLESS: u32 = 1;
pub const VALUE: u32 = 2;
pub const KIDS: u32 = 4;
pub const GRAMMAR: u32 = 8;
pub const DUPTAB: u32 = 16;
pub const MIXDATE: u32 = 32;
pub const LINES: u32 = 64;
pub const NAV: u32 = 128;
pub const PANIC: u32 = 256;
pub const ORDER: u32 = 512;
/// what was read out can be printed, compared, cloned and validated, and reads back from its printed text
pub const SELF: u32 = 1024;
/// the same, only looking for panics
pub const PRINT: u32 = 2048;

pub struct Verdict { pub fails: Vec<(u32, String)>, pub calls: u64, pub state: u64, pub gray: bool }

pub fn fnv(s: &str) -> u64 { let mut h = 0xcbf29ce484222325u64; for b in s.bytes() { h ^= b as u64; h = h.wrapping_mul(0x100000001b3) } h ^= h >> 29; h.wrapping_mul(0x9E3779B97F4A7C15) }
fn mix(h: u64, x: u64) -> u64 { (h ^ x).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(23) }

/// without an index at the very end: whether a refused header's own array index is part of its path is unspecified
fn strip_last_ix(s: &str) -> &str {
    match s.strip_suffix(']').and_then(|x| x.rfind('[').map(|i| (&x[i + 1..], i))) {
        Some((d, i)) if !d.is_empty() && d.bytes().all(|b| b.is_ascii_digit()) => &s[..i],
        _ => s,
    }
}
pub fn strip_ix(s: &str) -> String {
    // remove [digits]
    let b = s.as_bytes();
    let mut o = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'[' {
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_digit() { j += 1 }
            if j > i + 1 && j < b.len() && b[j] == b']' { i = j + 1; continue }
        }
        o.push(b[i]);
        i += 1;
    }
    String::from_utf8(o).unwrap()
}

pub fn index_hash(d: &RefDoc) -> u64 {
    let mut h = 7u64;
    for (k, it) in &d.index {
        h = mix(h, fnv(k));
        if let Some(v) = &it.val { h = mix(h, fnv(&v.text())) }
        match &it.kids { Kids::Count(n) => h = mix(h, *n as u64 + 1), Kids::Keys(v) => for k in v { h = mix(h, fnv(k) | 1) } }
    }
    for e in &d.errors { h = mix(h, e.kind as u64); if let Some(k) = &e.key { h = mix(h, fnv(k)) } }
    mix(h, d.full as u64)
}

/// paths that are *not* in the index but look like neighbours of it
pub fn negative_probes(ix: &BTreeMap<String, Item>) -> BTreeSet<String> {
    let mut out = BTreeSet::new();
    let mut cand = |s: String| { if !ix.contains_key(&s) { out.insert(s); } };
    for (k, it) in ix {
        if k.is_empty() { cand("zz".into()); cand("[0]".into()); continue }
        cand(format!("{}.zz", k));
        let n = match &it.kids { Kids::Count(n) => *n, Kids::Keys(_) => 0 };
        cand(format!("{}[{}]", k, n));
        cand(format!("{}[{}]", k, n + 1));
        cand(format!("{}.", k));
        cand(format!("{}[00]", k));
        cand(strip_ix(k));
        if let Some(p) = k.rfind('.') { cand(k[p + 1..].to_string()); }
        cand(format!("{}[0].{}", k, k));
    }
    for s in ["$Root$", "$Table", "$Root$.a", ".a", "."] { if !ix.contains_key(s) { out.insert(s.into()); } }
    out
}

/// small-path universe over a handful of keys (used with the line families, whose keys are a..c)
pub fn universe() -> &'static Vec<String> {
    use std::sync::OnceLock;
    static U: OnceLock<Vec<String>> = OnceLock::new();
    U.get_or_init(|| {
        let segs: Vec<String> = ["a", "b", "c", "x"].iter().flat_map(|k| vec![k.to_string(), format!("{}[0]", k), format!("{}[1]", k)]).collect();
        let mut v: Vec<String> = segs.clone();
        let mut last = segs.clone();
        for _ in 0..1 {
            let mut next = vec![];
            for p in &last { for s in &segs { next.push(format!("{}.{}", p, s)) } }
            v.extend(next.iter().cloned());
            last = next;
        }
        v
    })
}

pub fn judge(text: &str, mask: u32, small_paths: bool) -> Verdict {
    let r = ref_parse(text);
    let (p, result) = TOMLParser::new().parse(text);
    let o = obs::res(&result);
    let mut v = Verdict { fails: vec![], calls: 1, state: index_hash(&r), gray: r.gray };
    judge_parsed(text, &r, &p, &o, mask, small_paths, &mut v);
    v
}

/// Compare an already parsed document.
pub fn judge_parsed(text: &str, r: &RefDoc, p: &TOMLParser, o: &obs::ORes, mask: u32, small_paths: bool, v: &mut Verdict) {
    let mut fail = |a: u32, m: String| if mask & a != 0 { v.fails.push((a, m)) };
    let shown = format!("{}", p);
    v.calls += 1;
    if o.failure { fail(LOSSLESS | GRAMMAR, "parse reported Failure".into()); return }
    // lossless: printed text + leftover == input (holds for every input, also unspecified ones)
    let left = o.leftover.clone().unwrap_or_default();
    if format!("{}{}", shown, left) != text {
        if o.full { fail(LOSSLESS, format!("Full, but printed {:?}", shown)) }
        else { fail(LOSSLESS | GRAMMAR, format!("printed {:?} + leftover {:?} differs from the input", shown, left)) }
    }
    if o.full != (o.leftover.is_none()) || (!o.full && left.is_empty() && shown == text) { fail(GRAMMAR, "Partial without leftover".into()) }
    if r.gray { return }
    // acceptance
    if o.full != r.full { fail(GRAMMAR, format!("expected {} got {}", if r.full { "Full" } else { "Partial" }, if o.full { "Full" } else { "Partial" })); }
    let consumed = text.len().saturating_sub(left.len());
    if !o.full && !r.full && text.ends_with(&left) && !left.is_empty() && (consumed > r.stop || consumed < r.min_stop) {
        fail(GRAMMAR, format!("leftover {:?} does not start at the first malformed expression (expected start in {}..={})", left, r.min_stop, r.stop));
    }
    if !o.full && !r.full {
        let hi = line_of(text, r.stop);
        let lo = line_of(text, r.min_stop);
        let ok = if text.ends_with(&left) && !left.is_empty() && consumed >= r.min_stop && consumed <= r.stop { o.line == line_of(text, consumed) } else { o.line >= lo && o.line <= hi };
        if !ok { fail(LINES, format!("partial parse reported at line {}, expected line {}", o.line, if lo == hi || consumed >= r.min_stop { line_of(text, consumed.min(r.stop)) } else { hi })); }
    }
    if o.col != 0 { fail(LINES, format!("a column of {} is reported, columns are documented to be 0", o.col)) }
    // errors
    if o.has_err && o.errors.is_empty() { fail(DUPTAB, "error result with an empty error list".into()) }
    let mut used = vec![false; o.errors.len()];
    // errors that can be told apart only by their lines: the earliest end takes the earliest report
    let mut want: Vec<_> = r.errors.iter().collect();
    want.sort_by_key(|e| (e.key.is_none(), e.lines.1, std::cmp::Reverse(e.lines.0)));
    for e in want {
        let keyed = |x: &obs::OErr| match (&e.key, e.kind) {
            (None, _) => true,
            (Some(k), EK::Table) => strip_last_ix(&x.key) == *k,
            (Some(k), _) => x.key == *k,
        };
        let payload = |x: &obs::OErr| match e.kind {
            EK::Mixed => true,
            EK::Dup => x.val == e.val,
            EK::Date => x.raw == e.raw,
            EK::Table => {
                let names: BTreeSet<&String> = e.body.iter().map(|b| &b.0).collect();
                let got: BTreeSet<&String> = x.body.iter().map(|b| &b.0).collect();
                names == got && names.iter().all(|n| {
                    let vs: Vec<&PV> = e.body.iter().filter(|b| &b.0 == *n).map(|b| &b.1).collect();
                    x.body.iter().filter(|b| &b.0 == *n).all(|b| vs.contains(&&b.1))
                })
            }
        };
        let inl = |x: &obs::OErr| x.line >= e.lines.0 && x.line <= e.lines.1;
        let mut cands: Vec<usize> = (0..used.len()).filter(|&i| !used[i] && o.errors[i].kind == Some(e.kind)).collect();
        cands.sort_by_key(|&i| o.errors[i].line);
        let a = if e.kind == EK::Dup || e.kind == EK::Table { DUPTAB } else { MIXDATE };
        let best = cands.iter().copied().find(|&i| keyed(&o.errors[i]) && payload(&o.errors[i]) && inl(&o.errors[i]))
            .or_else(|| cands.iter().copied().find(|&i| keyed(&o.errors[i]) && payload(&o.errors[i])))
            .or_else(|| cands.iter().copied().find(|&i| keyed(&o.errors[i])));
        match best {
            None => fail(a, format!("missing error {:?} {} line {}; reported: {:?}", e.kind, e.key.clone().unwrap_or("?".into()), e.lines.0, brief(o))),
            Some(i) => {
                used[i] = true;
                let x = &o.errors[i];
                if !payload(x) { fail(a, format!("wrong payload in {:?} {}: {:?} {:?} {:?}", e.kind, x.key, x.val, x.raw, x.body)) }
                if !inl(x) { fail(LINES, format!("error {:?} {} reported at line {}, expected {}..={}", e.kind, x.key, x.line, e.lines.0, e.lines.1)) }
            }
        }
    }
    for (i, x) in o.errors.iter().enumerate() {
        if !used[i] {
            let a = match x.kind { Some(EK::Dup) | Some(EK::Table) => DUPTAB, _ => MIXDATE };
            fail(a, format!("unexpected error {:?} {} line {} {}", x.kind, x.key, x.line, x.dbg));
        }
    }
    if mask & (VALUE | KIDS | NAV | SELF | PRINT) == 0 { return }
    let (c, f) = judge_index(&r.index, p, mask, small_paths);
    v.calls += c;
    v.fails.extend(f);
}

fn brief(o: &obs::ORes) -> Vec<String> { o.errors.iter().map(|e| format!("{:?} {} @{}", e.kind, e.key, e.line)).collect() }

/// the paths, as asked: exactly the indexed ones have an answer
pub fn probe(text: &str, paths: &[String], mask: u32) -> Verdict {
    let r = ref_parse(text);
    let (p, _) = TOMLParser::new().parse(text);
    let mut v = Verdict { fails: vec![], calls: 1, state: index_hash(&r), gray: r.gray };
    for k in paths {
        let (g, c) = (obs::get(&p, k), obs::ch(&p, k));
        v.calls += 2;
        if r.gray { continue }
        let (wg, wc) = match r.index.get(k) { Some(it) => (it.val.clone(), Some(it.kids.clone())), None => (None, None) };
        if mask & VALUE != 0 && g != wg { v.fails.push((VALUE, format!("get_value({:?}) = {:?}, expected {:?}", k, g, wg))) }
        if mask & KIDS != 0 && c != wc { v.fails.push((KIDS, format!("get_children({:?}) = {:?}, expected {:?}", k, c, wc))) }
    }
    v
}

pub fn judge_index(ix: &BTreeMap<String, Item>, p: &TOMLParser, mask: u32, small_paths: bool) -> (u64, Vec<(u32, String)>) {
    let mut calls = 0;
    let mut out = vec![];
    let mut fail = |a: u32, m: String| if mask & a != 0 { out.push((a, m)) };
    for (k, it) in ix {
        if mask & VALUE != 0 {
            calls += 1;
            let g = obs::get(p, k);
            if g != it.val { fail(VALUE, format!("get_value({:?}) = {:?}, expected {:?}", k, g, it.val)) }
        }
        if mask & (SELF | PRINT) != 0 && it.val.is_some() {
            calls += 4;
            if let Some(v) = p.get_value(k.as_str()) {
                let t = format!("{}", v);
                let ok = v.validate();
                let c = v.clone();
                let _ = format!("{:?}", c);
                if c != v { fail(SELF, format!("the value at {:?} differs from its clone", k)) }
                if mask & SELF != 0 {
                    let w = it.val.as_ref().unwrap();
                    let (want, gray) = crate::refm::pv_valid(w);
                    if !gray {
                        if ok != want { fail(SELF, format!("validate() of {:?} = {} is {}", k, t, ok)) }
                        let doc = format!("a = {}\nz = 1", t);
                        let (q, _) = TOMLParser::new().parse(&doc);
                        match q.get_value("a") {
                            Some(ref b) if b == &v && obs::pv(b) == *w => {}
                            ref b if want => fail(SELF, format!("the value at {:?} prints as {}, which reads back as {:?}", k, t, b)),
                            _ => {}
                        }
                    }
                }
            }
        }
        if mask & KIDS != 0 {
            calls += 1;
            let c = obs::ch(p, k);
            if c.as_ref() != Some(&it.kids) { fail(KIDS, format!("get_children({:?}) = {:?}, expected {:?}", k, c, it.kids)) }
        }
    }
    let mut neg = |k: &str, calls: &mut u64| {
        if mask & VALUE != 0 { *calls += 1; if let Some(g) = obs::get(p, k) { fail(VALUE, format!("get_value({:?}) = {:?}, expected nothing", k, g)) } }
        if mask & KIDS != 0 { *calls += 1; if let Some(g) = obs::ch(p, k) { fail(KIDS, format!("get_children({:?}) = {:?}, expected nothing", k, g)) } }
    };
    if mask & (VALUE | KIDS) != 0 { for k in negative_probes(ix) { neg(&k, &mut calls) } }
    if small_paths { for k in universe() { if !ix.contains_key(k) { neg(k, &mut calls) } } }
    if mask & NAV != 0 {
        // walk from the root by the three key-combining helpers; must reach exactly the indexed paths
        use tomllib::types::Children;
        let mut seen: BTreeSet<String> = BTreeSet::new();
        let mut todo = vec![String::new()];
        while let Some(k) = todo.pop() {
            if !seen.insert(k.clone()) { fail(NAV, format!("path {:?} is reached twice", k)); continue }
            if seen.len() > 20000 { break }
            calls += 1;
            let Some(c) = p.get_children(k.as_str()) else { fail(NAV, format!("path {:?}, built from its parent's children, has no children entry", k)); continue };
            let all = c.combine_child_keys(k.as_str());
            let one: Vec<String> = match c {
                Children::Count(n) => (0..n.get()).map(|i| Children::combine_keys_index(k.as_str(), i)).collect(),
                Children::Keys(v) => v.borrow().iter().map(|x| Children::combine_keys(k.as_str(), x.as_str())).collect(),
            };
            if all != one { fail(NAV, format!("combine_child_keys({:?}) = {:?} but one by one {:?}", k, all, one)) }
            for x in &all {
                let leaf = ix.get(x).map(|i| i.val.is_some()).unwrap_or(false);
                calls += 1;
                if p.get_value(x.as_str()).is_some() != leaf { fail(NAV, format!("combined path {:?}: value present = {}, expected {}", x, !leaf, leaf)) }
            }
            todo.extend(all);
        }
        let want: BTreeSet<String> = ix.keys().cloned().collect();
        if seen != want {
            let miss: Vec<_> = want.difference(&seen).collect();
            let extra: Vec<_> = seen.difference(&want).collect();
            fail(NAV, format!("walk misses {:?}, has extra {:?}", miss, extra));
        }
    }
    (calls, out)
}
