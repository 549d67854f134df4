//! The properties: which families are explored and what is compared.
use crate::engine::*;
use crate::judge::{self, *};
use crate::{cli, ctor, fam, hist, obs, refm};
use tomllib::types::ParseResult;
use tomllib::TOMLParser;

pub const IDS: &[&str] = &["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21"];

fn doc_case(fam: &str, t: &str, mask: u32) -> Outcome {
    let v = judge::judge(t, mask, fam.starts_with("lines"));
    Outcome { fails: v.fails.into_iter().map(|f| f.1).collect(), state: v.state, steps: v.calls, gray: v.gray, extra_states: vec![] }
}
const ALLDOC: u32 = LOSSLESS | VALUE | KIDS | GRAMMAR | DUPTAB | MIXDATE | LINES | NAV;
const ALLHIST: u32 = hist::RET | hist::LIVEV | hist::LIVEK | hist::FRAME | hist::REPARSE | hist::NOOP | hist::SNAP | hist::GETP;

/// masks for (documents, histories, reuse, tomlkit)
fn check(doc: u32, hmask: u32, cmask: u32) -> Check {
    Box::new(move |fam, c| match c {
        Case::Doc(t) => doc_case(fam, t, doc),
        Case::Hist(d, ops) => hist::exec(d, ops, hmask, false),
        Case::Reuse(ds) => reuse(fam, ds),
        Case::Probe(t, ps) => { let v = judge::probe(t, ps, doc); Outcome { fails: v.fails.into_iter().map(|f| f.1).collect(), state: v.state, steps: v.calls, gray: v.gray, extra_states: vec![] } }
        Case::Deep(k, n) => fam::deep_run(k, *n),
        Case::Ctor(f, a) => ctor::run(f, a),
        Case::Cli { files, args, stdin } => cli::run(files, args, stdin, cmask),
    })
}
/// only crashes and hangs count
fn silent(inner: Check) -> Check { Box::new(move |f, c| { let mut o = inner(f, c); if !matches!(c, Case::Deep(..)) { o.fails.clear() } o }) }

/// One parser object parses the documents in turn; what it says about each must be what a fresh parser says, also when the
/// previous document was modified, and documents living side by side must not influence each other.
fn reuse(fam: &str, ds: &[String]) -> Outcome {
    let mut out = Outcome::default();
    let vals = hist::v_tiny();
    if fam.contains("interleaved") {
        let parsed: Vec<_> = ds.iter().map(|d| TOMLParser::new().parse(d)).collect();
        let mut ps = vec![];
        for ((p, r), d) in parsed.into_iter().zip(ds) { ps.push((p, obs::res(&r), d.clone())) }
        let n = ps.len();
        // set in one, then compare all of them with their own models
        for step in 0..n {
            let text = ps[step].2.clone();
            let rd = refm::ref_parse(&text);
            if let (false, true, Some(path)) = (rd.gray, rd.full, rd.index.iter().find(|x| x.1.val.is_some()).map(|x| x.0.clone())) {
                let v = &vals[(step + text.len()) % vals.len()];
                ps[step].0.set_value(path.as_str(), obs::val(v));
                ps[step].2 = match hist::effect(&text, &rd.index, &path, v) { hist::Eff::Exact(t) => t, _ => format!("{}", ps[step].0) };
            }
            for (p, o, d) in &ps {
                let r = refm::ref_parse(d);
                out.steps += 1;
                if !r.gray && r.full && format!("{}", p) != *d { out.fails.push(format!("a document living beside another one prints {:?}, expected {:?}", format!("{}", p), d)) }
                if !r.gray && r.full && o.full { let (c, f) = judge::judge_index(&r.index, p, VALUE | KIDS, false); out.steps += c; out.fails.extend(f.into_iter().map(|x| x.1)) }
            }
        }
        return out;
    }
    if fam.contains("same-buffer") {
        // the documents stand one after another at the same address
        let mut buf = String::with_capacity(ds.iter().map(|d| d.len()).max().unwrap_or(0));
        for (n, d) in ds.iter().enumerate() {
            buf.clear();
            buf.push_str(d);
            let mut v = judge::judge(&buf, ALLDOC & !NAV, false);
            out.steps += v.calls;
            out.extra_states.push(v.state);
            out.gray |= v.gray;
            out.fails.extend(v.fails.drain(..).map(|x| format!("document #{} in a reused buffer: {}", n + 1, x.1)));
            let vals: Vec<refm::PV> = refm::ref_parse(d).index.values().filter_map(|x| x.val.clone()).collect();
            for x in vals { let y = obs::val(&x); if !y.validate() && refm::pv_valid(&x) == (true, false) { out.fails.push(format!("document #{}: its value {} does not validate", n + 1, x.text())) } }
            if !out.fails.is_empty() { break }
        }
        return out;
    }
    let touch = fam.contains("modified");
    let mut p = TOMLParser::new();
    let mut old: Vec<(ParseResult, obs::ORes)> = vec![];
    for (n, d) in ds.iter().enumerate() {
        let (mut q, res) = p.parse(d);
        let o = obs::res(&res);
        for (k, (r, was)) in old.iter().enumerate() { out.steps += 1; if obs::res(r) != *was { out.fails.push(format!("the result of document #{} changed when document #{} was parsed: {:?}, before {:?}", k + 1, n + 1, obs::res(r), was)) } }
        old.push((res, o.clone()));
        let (fresh, fres) = TOMLParser::new().parse(d);
        let fo = obs::res(&fres);
        out.steps += 3;
        let strip = |o: &obs::ORes| format!("{:?}", o);
        if strip(&o) != strip(&fo) { out.fails.push(format!("document #{} parsed by a used parser: {:?}; by a fresh one: {:?}", n + 1, o, fo)) }
        if format!("{}", q) != format!("{}", fresh) { out.fails.push(format!("document #{} parsed by a used parser prints {:?}; by a fresh one {:?}", n + 1, format!("{}", q), format!("{}", fresh))) }
        let r = refm::ref_parse(d);
        let mut v = Verdict { fails: vec![], calls: 0, state: judge::index_hash(&r), gray: r.gray };
        judge::judge_parsed(d, &r, &q, &o, ALLDOC & !NAV, false, &mut v);
        // keys of the documents before must be gone
        for e in ds[..n].iter() { for k in refm::ref_parse(e).index.keys() { if !r.gray && !r.index.contains_key(k) { out.steps += 1; if obs::get(&q, k).is_some() || obs::ch(&q, k).is_some() { v.fails.push((1, format!("{:?} of an earlier document is still there", k))) } } } }
        out.steps += v.calls;
        out.extra_states.push(v.state);
        out.gray |= v.gray;
        out.fails.extend(v.fails.into_iter().map(|x| format!("document #{}: {}", n + 1, x.1)));
        if !out.fails.is_empty() { break }
        if touch {
            let paths: Vec<String> = r.index.iter().filter(|x| x.1.val.is_some()).map(|x| x.0.clone()).collect();
            for (j, path) in paths.iter().enumerate() { q.set_value(path.as_str(), obs::val(&vals[j % vals.len()])); out.steps += 1; }
            q.set_value("zz", obs::val(&vals[0]));
        }
        p = q;
    }
    out
}

fn reuse_docs() -> Vec<String> {
    ["a = 1\n", "a = {b = 1, c = [1, 2]}", "[a]\nx = 1\n[a.b]\nx = 2", "[[a]]\nx = 1\n[[a]]\nx = 2\n[[a.b]]\nx = 3\n", "a = 1\na = 2\n[b]\n[b]\nx = 1", "a = [1,\n 'x']\nd = 2010-02-30\n", "a = 1\n\n!!", "", "# c\n\n\na = \"\"\"\n\n\"\"\"\n!", "a = [1, [", "b = 2\r\n[a]\r\na = 3\r\n", "x = [{x = 1}, {x = 2}]\n[b.a]\nx = 1", "[a\n", "a = [[1, 2], ['x']]\nx = 1", "[[b]]\n[b.a]\nx = 1\n[[b]]\n[b.a]\nx = 2\nx = 3", "x = {a = 1, a = 2}\n[x]\nb = 1", "# c\n\n# d", "\n\n", "!!\n", " \t", "#\n\na.b", "\n[a]\n[a", "\n\"\"\"\n\n"].iter().map(|s| s.to_string()).collect()
}
fn reuse_fams(th: bool) -> Vec<Fam> {
    let mk = |name: &str, docs: Vec<String>, lo: u32, hi: u32| {
        let k = docs.len() as u64;
        Fam { name: name.into(), bound: format!("every sequence of {}..={} documents out of {}", lo, hi, k), n: fam::pow_sum(k, lo, hi), gen: Box::new(move |i| Case::Reuse(fam::seq(i, k, lo, hi).into_iter().map(|x| docs[x].clone()).collect())) }
    };
    let lines: Vec<String> = hist::docs_of(fam::lines(if th { 14 } else { 10 }, 2));
    let errs: Vec<String> = hist::docs_of(fam::err_lines(16, if th { 2 } else { 1 }));
    // the same few documents over and over
    let ds = reuse_docs();
    let long: Vec<Vec<String>> = (0..ds.len() * ds.len()).flat_map(|i| { let (x, y) = (ds[i / ds.len()].clone(), ds[i % ds.len()].clone()); vec![(0..24).map(|j| if j % 2 == 0 { x.clone() } else { y.clone() }).collect(), (0..24).map(|j| if j < 23 { x.clone() } else { y.clone() }).collect::<Vec<String>>()] }).collect();
    let long_fam = Fam { name: "reuse-long".into(), bound: format!("every pair of {} documents, 24 parses by one parser: alternating, and 23 times the first then the second", ds.len()), n: long.len() as u64, gen: Box::new(move |i| Case::Reuse(long[i as usize].clone())) };
    let texts: Vec<String> = hist::docs_of(fam::short_texts(if th { 4 } else { 3 }));
    vec![long_fam, mk("reuse-texts", texts, 2, 2), mk("reuse", reuse_docs(), 2, if th { 5 } else { 4 }), mk("reuse-modified", reuse_docs(), 2, if th { 4 } else { 3 }), mk("interleaved", reuse_docs(), 2, if th { 4 } else { 3 }), mk("same-buffer", reuse_docs(), 2, if th { 4 } else { 3 }), mk("same-buffer-lines", lines.clone(), 2, 2), mk("reuse-lines", lines.clone(), 2, 2), mk("reuse-errors", errs, 2, if th { 2 } else { 3 }), mk("interleaved-lines", lines, 2, 2)]
}

fn hist_fams(th: bool, which: &str) -> Vec<Fam> {
    let mut v = vec![];
    let all: Vec<String> = hist::base_docs().into_iter().chain(hist::odd_docs()).collect();
    let small = hist::v_small();
    let sub = |n: usize| -> Vec<String> { hist::docs_of(fam::values(false)).into_iter().enumerate().filter(|(i, _)| th || i % n == 0).map(|x| x.1).collect() };
    v.push(hist::single("set-values", "representative documents, every kind of value, valid and invalid", all.clone(), hist::v_all(), true));
    v.push(hist::single("set-formats", "every shape and formatting of a value", sub(if which == "reject" { 4 } else { 1 }), if th { small.clone() } else { vec![small[0].clone(), small[1].clone(), small[2].clone(), small[4].clone(), small[6].clone()] }, false));
    v.push(hist::single("set-tables", "every sequence of header / key-value lines", hist::docs_of(fam::lines(if th { 16 } else { 12 }, 3)), vec![small[0].clone(), small[2].clone(), small[4].clone()], which == "reject"));
    v.push(hist::single("set-tables-deep", "every sequence over nested arrays of tables", hist::docs_of(fam::lines_deep(if th { 6 } else { 5 })), vec![small[1].clone(), small[6].clone()], false));
    v.push(hist::single("set-quoted", "every sequence over quoted, prefixed and index-like names", hist::docs_of(fam::lines_quoted(if th { 4 } else { 3 })), vec![small[0].clone(), small[4].clone()], true));
    v.push(hist::single("set-erroneous", "documents with duplicate keys, invalid tables, mixed arrays and invalid dates", hist::docs_of(fam::err_lines(16, if th { 3 } else { 2 })), vec![small[0].clone(), small[2].clone(), small[4].clone(), small[7].clone()], which == "reject"));
    v.push(hist::single("set-near-keys", "keys of every pair of similar names", hist::docs_of(fam::near_keys(th)), vec![small[0].clone(), small[4].clone()], th));
    v.push(hist::paths("set-paths", if th { 5 } else { 4 }));
    let mut fm = vec![];
    let f = fam::format_slots();
    let mut i = 0;
    while i < f.n { if let Case::Doc(d) = (f.gen)(i) { fm.push(d) } i += 1 }
    v.push(hist::single("set-slots", "whitespace, comments and newlines in every slot", fm, vec![small[0].clone(), small[2].clone()], false));
    v.push(hist::single("set-scale", "long and deep documents", hist::docs_of(fam::scale(if th { 24 } else { 13 }, if th { 16 } else { 9 })).into_iter().filter(|d| d.len() < 900).collect(), vec![small[0].clone(), small[6].clone()], false));
    v.push(hist::single("set-sizes", "long documents", hist::docs_of(fam::sizes(false)).into_iter().filter(|d| d.len() < 4000).step_by(if th { 1 } else { 5 }).collect(), vec![small[0].clone(), small[6].clone()], false));
    v.push(hist::near("set-near", "composites in several formattings, representative and odd documents: each value replaced by each of its neighbours", hist::shaped_docs().into_iter().chain(all.clone()).collect(), 1));
    v.push(hist::near("set-near-formats", "every shape and formatting of a value: each value replaced by each of its neighbours", sub(if which == "reject" { 8 } else { 2 }), 1));
    v.push(hist::near("set-near-twice", "each value replaced by each of its neighbours, twice", hist::shaped_docs().into_iter().chain(all.clone()).filter(|d| th || d.len() < 34).collect(), 2));
    if th { v.push(hist::near("set-near-thrice", "each value replaced by each of its neighbours, three times", ["k = [ 1 ]\n", "k = { a=1 } # c\n"].iter().map(|x| x.to_string()).collect(), 3)) }
    v.push(hist::long("set-long", th));
    v.push(hist::bad_entry(th));
    v.push(hist::walks("set-walks", if th { 40 } else { 24 }, th));
    v.push(hist::deep("set-twice", "pairs of sets", hist::base_docs(), small.clone(), 2, true));
    v.push(hist::deep("set-twice-odd", "pairs of sets in unusual documents", hist::odd_docs(), if th { small.clone() } else { hist::v_tiny() }, 2, true));
    v.push(hist::deep("set-thrice", "triples of sets", hist::base_docs().into_iter().take(if th { 7 } else { 4 }).collect(), hist::v_tiny(), 3, th));
    if th || which == "history" { v.push(hist::deep("set-four", "sequences of four sets", vec!["a = [1]\nb = 2\n".into(), "[t]\na = {b = 1}\n".into()], hist::v_tiny()[1..if th { 4 } else { 3 }].to_vec(), 4, false)) }
    v.push(hist::dates(if th { 3 } else { 2 }));
    if which == "reject" || th { v.push(hist::char_values(if th { 4 } else { 3 })); v.push(hist::char_numbers(if th { 6 } else { 5 })); v.push(hist::char_keys(if th { 5 } else { 4 })) }
    v
}

/// documents whose values are read out and then printed, compared, validated and read back
fn read_out_fams(th: bool) -> Vec<Fam> {
    let x = |a: u32, b: u32| if th { b } else { a };
    vec![fam::values(th), fam::format_slots(), fam::tokens(x(3, 4)), fam::array_chars(x(4, 5)), fam::inline_chars(x(4, 5)), fam::dates_chars(x(3, 4)), fam::string_chars(x(3, 4), false), fam::string_chars(x(3, 4), true), fam::value_chars(x(3, 4)), fam::edits(th), fam::unicode(), fam::array_comments(x(5, 6)), fam::inline_comments(x(5, 6)), fam::lines(18, x(3, 4)), fam::sizes(th), fam::calendar()]
}

fn doc_fams(id: &str, th: bool) -> Vec<Fam> {
    let x = |a: u32, b: u32| if th { b } else { a };
    let struct_heavy = matches!(id, "C03" | "C04" | "C06" | "C17");
    let char_heavy = matches!(id, "C01" | "C02" | "C05");
    let mut v = vec![];
    v.push(fam::values(th));
    v.push(fam::format_slots());
    v.push(fam::line_count(x(if id == "C08" { 4 } else { 3 }, 5)));
    v.push(fam::err_lines(16, x(if matches!(id, "C06" | "C07" | "C08") { 5 } else { 4 }, 6)));
    v.push(fam::lines(18, x(if struct_heavy { 5 } else { 4 }, 6)));
    v.push(fam::lines_deep(x(if struct_heavy { 7 } else { 6 }, 8)));
    v.push(fam::lines_quoted(x(if struct_heavy { 6 } else { 5 }, 7)));
    v.push(fam::tokens(x(4, 5)));
    v.push(fam::array_chars(x(5, 6)));
    v.push(fam::inline_chars(x(5, 6)));
    v.push(fam::dates_chars(x(4, 5)));
    v.push(fam::string_chars(x(4, 5), false));
    v.push(fam::string_chars(x(4, 5), true));
    v.push(fam::value_chars(x(4, 5)));
    v.push(fam::chars(x(if char_heavy { 6 } else { 5 }, 7)));
    v.push(fam::unicode());
    if id != "C17" { v.push(fam::unicode_digits()) }
    v.push(fam::scale(x(40, 80) as usize, 64));
    v.push(fam::sizes(th));
    v.push(fam::crowds(th));
    v.push(fam::recall(th));
    v.push(fam::lengths(th));
    if th || matches!(id, "C02" | "C07" | "C08") { v.push(fam::tall()) }
    v.push(fam::near_keys(th || struct_heavy));
    v.push(fam::edits(th || id == "C05"));
    v.push(fam::edit_pairs(if th || id == "C05" { 3 } else { 1 }));
    v.push(fam::calendar());
    v.push(fam::escapes());
    v.push(fam::nest(th));
    v.push(fam::array_comments(x(7, 9)));
    v.push(fam::inline_comments(x(6, 8)));
    v.push(fam::doc_comments(x(6, 8)));
    if matches!(id, "C02" | "C03" | "C04") { v.push(fam::paths(x(4, 5))) }
    v
}

pub fn build(id: &str, tier: &str) -> Option<Prop> {
    let th = tier == "thorough";
    let id: &'static str = IDS.iter().find(|x| **x == id)?;
    let doc_assume = || vec!["The reference reading of the dialect (harness/src/refm.rs) states what the property means; texts containing a construct whose meaning the documentation and tests leave open are only checked for losslessness and for not crashing".to_string(), "inputs are UTF-8 text (the API takes &str)".to_string(), "texts outside the enumerated families and bounds are not covered".to_string()];
    let cli_assume = || vec!["the real tomlkit binary built from /repo/src/bin/tomlkit.rs runs in a scratch directory; keys and values containing commas are not enumerated (the command line cannot express them)".to_string(), "exit status after a failed command, wording of messages and output of --strip-quotes on strings with quotes at their edges are not specified".to_string()];
    let p = |fams: Vec<Fam>, check: Check, assumptions: Vec<String>| Some(Prop { id, fams, check, assumptions, setup: None });
    match id {
        "C01" => p(doc_fams(id, th), check(LOSSLESS, 0, 0), doc_assume()),
        "C02" => {
            let mut f = doc_fams(id, th);
            f.extend(hist_fams(th, "reject"));
            f.extend(ctor::numbers(if th { 5 } else { 4 }));
            f.extend(ctor::dates(0));
            f.extend(ctor::strings(3));
            f.extend(ctor::values(false));
            f.push(ctor::combine());
            f.extend(reuse_fams(false).into_iter().take(3));
            f.push(fam::deep());
            p(f, silent(check(ALLDOC | PRINT, ALLHIST, 0)), doc_assume())
        }
        "C03" => p(doc_fams(id, th), check(VALUE, 0, 0), doc_assume()),
        "C04" => p(doc_fams(id, th), check(KIDS, 0, 0), doc_assume()),
        "C05" => p(doc_fams(id, th), check(GRAMMAR, 0, 0), doc_assume()),
        "C06" => p(doc_fams(id, th), check(DUPTAB | VALUE | KIDS, 0, 0), doc_assume()),
        "C07" => p(doc_fams(id, th), check(MIXDATE | VALUE, 0, 0), doc_assume()),
        "C08" => p(doc_fams(id, th), check(LINES, 0, 0), doc_assume()),
        "C09" => p(hist_fams(th, "get"), check(0, hist::RET | hist::GETP | hist::LIVEV | hist::SNAP, 0), doc_assume()),
        "C10" => p(hist_fams(th, "frame"), check(0, hist::FRAME, 0), doc_assume()),
        "C11" => p(hist_fams(th, "history"), check(0, hist::LIVEV | hist::LIVEK | hist::REPARSE | hist::GETP, 0), doc_assume()),
        "C12" => p(hist_fams(th, "reject"), check(0, hist::RET | hist::NOOP | hist::REPARSE, 0), doc_assume()),
        "C13" => p(ctor::numbers(if th { 8 } else { 6 }), check(0, 0, 0), doc_assume()),
        "C14" => p(ctor::dates(if th { 2 } else { 1 }), check(0, 0, 0), doc_assume()),
        "C15" => { let mut f = ctor::strings(if th { 6 } else { 5 }); f.extend(ctor::values(th)); f.extend(read_out_fams(th)); p(f, check(SELF, 0, 0), doc_assume()) }
        "C16" => p(reuse_fams(th), check(0, 0, 0), doc_assume()),
        "C17" => { let mut f = doc_fams(id, th); f.push(ctor::combine()); p(f, check(NAV, 0, 0), doc_assume()) }
        "C18" => p(cli::queries(th), check(0, 0, cli::OUT | cli::STATUS), cli_assume()),
        "C19" => p(cli::sets(th), check(0, 0, cli::OUT | cli::FILES | cli::STATUS), cli_assume()),
        "C20" => { let mut f = cli::refusals(th); f.extend(cli::queries(false).into_iter().filter(|x| x.name == "cli-one-key")); p(f, check(0, 0, cli::OUT | cli::FILES | cli::STATUS), cli_assume()) }
        "C21" => p(cli::stdin(th), check(0, 0, cli::OUT | cli::FILES | cli::STATUS), cli_assume()),
        _ => None,
    }
}
