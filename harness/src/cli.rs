//! tomlkit: a model of the command line tool, and the execution of the real binary in a scratch directory.
use crate::engine::{Case, Fam, Outcome};
use crate::hist::{effect, Eff};
use crate::judge::{fnv, index_hash, negative_probes};
use crate::refm::*;
use std::collections::BTreeMap;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub const OUT: u32 = 1;
pub const FILES: u32 = 2;
pub const STATUS: u32 = 4;

#[derive(Clone, Debug)]
pub enum Tok { Lit(String), Line(String) , Rest }
#[derive(Default)]
pub struct Exp { pub out: Vec<Tok>, pub fails: Option<bool>, pub files: BTreeMap<String, String>, pub gray: bool, pub state: u64, pub torn: Option<String> }

/// a name in the scratch directory that leads to a device on which every write fails
const FULL: &str = "full";
/// U+10FFFF in a file's text or in a list of names stands for the byte 0xFF (not UTF-8)
const BADBYTE: char = '\u{10FFFF}';
fn bytes_of(t: &str) -> Vec<u8> { let mut o = vec![]; for c in t.chars() { if c == BADBYTE { o.push(0xff) } else { let mut b = [0; 4]; o.extend_from_slice(c.encode_utf8(&mut b).as_bytes()) } } o }

/// the i-th file is called f<i>, unless its first line names it
fn fname(i: usize, t: &str) -> String { match t.strip_prefix("#name ") { Some(r) => r.lines().next().unwrap_or("").to_string(), None => format!("f{}", i) } }

fn lit(o: &mut Vec<Tok>, s: &str) { if let Some(Tok::Lit(l)) = o.last_mut() { l.push_str(s) } else { o.push(Tok::Lit(s.into())) } }

fn has(args: &[String], f: &[&str]) -> bool { args.iter().any(|a| f.contains(&a.as_str())) }
fn opt<'a>(args: &'a [String], f: &[&str]) -> Option<&'a String> { args.iter().position(|a| f.contains(&a.as_str())).and_then(|i| args.get(i + 1)) }
fn csv(s: &str) -> Vec<String> { if s.is_empty() { vec![] } else { s.split(',').map(|x| x.to_string()).collect() } }

/// a first argument of this form is not handed over: the tool runs with this limit to the size of a file, beyond which writes fail
fn fsize(args: &[String]) -> Option<u64> { args.first().and_then(|a| a.strip_prefix("%fsize=")).map(|n| n.parse().unwrap()) }
extern "C" { fn signal(n: i32, h: usize) -> usize; fn setrlimit(r: i32, l: *const [u64; 2]) -> i32; }

enum R { Ok(String), Err(String), Gray }

fn typed(v: &str, t: &str) -> Result<PV, bool> {
    // Err(true): unspecified
    let pv = match t {
        "basic-string" | "bs" => PV::Str(v.into(), ST::Basic),
        "ml-basic-string" | "mbs" => PV::Str(v.into(), ST::MLBasic),
        "literal-string" | "ls" => PV::Str(v.into(), ST::Lit),
        "ml-literal-string" | "mls" => PV::Str(v.into(), ST::MLLit),
        "integer" | "int" => PV::Int(v.into()),
        "float" | "flt" => PV::Float(v.into()),
        "boolean" | "bool" => match v.to_ascii_lowercase().as_str() { "true" => PV::Bool(true), "false" => PV::Bool(false), _ => return Err(false) },
        "datetime" | "dt" => PV::DT(v.into()),
        _ => return Err(false),
    };
    let (ok, gray) = pv_valid(&pv);
    if gray { return Err(true) }
    if ok { Ok(pv) } else { Err(false) }
}

fn nth(l: &[String], n: usize) -> Option<&String> { if l.len() > 1 { l.get(n) } else { l.first() } }

/// one document; returns false when the program must stop
fn one(name: &str, disk: &mut BTreeMap<String, String>, dirs_ok: &dyn Fn(&str) -> bool, args: &[String], e: &mut Exp) -> bool {
    let err = |o: &mut Vec<Tok>, must: &str| { lit(o, &format!("Error \"{}\": ", name)); o.push(Tok::Line(must.into())); };
    let text = match disk.get(name.trim_start_matches("./")) {
        Some(t) if !t.contains(BADBYTE) => t.clone(),
        _ => { err(&mut e.out, ""); lit(&mut e.out, "\n"); e.fails = Some(true); return false }
    };
    let r = ref_parse(&text);
    e.state = e.state.wrapping_mul(31).wrapping_add(index_hash(&r));
    if r.gray { e.gray = true; return false }
    if !r.full || !r.errors.is_empty() { err(&mut e.out, ""); lit(&mut e.out, "\n"); e.fails = Some(true); return false }
    let d = |n: &str, z: &str| -> String { opt(args, &[n]).cloned().unwrap_or(z.to_string()) };
    let (tv, fv) = (csv(&d("--set-true", "true")), csv(&d("--set-false", "false")));
    let sep = opt(args, &["-p", "--separator"]).cloned().unwrap_or(", ".into());
    let (ab, ae, asep) = (d("--array-begin", "["), d("--array-end", "]"), d("--array-separator", ", "));
    let (alen, strip, quiet, pdoc) = (has(args, &["--array-length"]), has(args, &["--strip-quotes"]), has(args, &["-q", "--quiet"]), has(args, &["--print-doc"]));
    let mut res: Vec<R> = vec![];
    let mut cur = text.clone();
    let mut hv = 0;
    let bad = |res: &Vec<R>| matches!(res.last(), Some(R::Err(_)));
    let nokeys = |c: &str| R::Err(if c.is_empty() { String::new() } else { c.to_string() });
    if let Some(c) = opt(args, &["-g", "--get-value"]) {
        let ks = csv(c);
        let mut parts = vec![];
        let mut fail = None;
        for k in &ks {
            match r.index.get(k).and_then(|i| i.val.as_ref()) {
                None => { fail = Some(R::Err(k.clone())); break }
                Some(v) => {
                    if strip {
                        match v {
                            PV::Str(s, _) => { let q = |c: char| c == '"' || c == '\''; if s.starts_with(q) || s.ends_with(q) { fail = Some(R::Gray); break } parts.push(s.clone()) }
                            PV::Arr(_) | PV::Inl(_) if v.text().contains(|c| c == '"' || c == '\'') => { fail = Some(R::Gray); break }
                            v => parts.push(v.text()),
                        }
                    } else { parts.push(v.text()) }
                }
            }
        }
        res.push(if ks.is_empty() { nokeys(c) } else { fail.unwrap_or_else(|| R::Ok(parts.join(&sep))) });
    }
    if !bad(&res) { if let Some(c) = opt(args, &["--has-value"]) {
        let ks = csv(c);
        hv = ks.len();
        let mut parts = vec![];
        let mut fail = None;
        for (n, k) in ks.iter().enumerate() {
            match (nth(&tv, n), nth(&fv, n)) { (Some(t), Some(f)) => parts.push(if r.index.get(k).map(|i| i.val.is_some()).unwrap_or(false) { t.clone() } else { f.clone() }), _ => { fail = Some(R::Err(String::new())); break } }
        }
        res.push(if ks.is_empty() { nokeys(c) } else { fail.unwrap_or_else(|| R::Ok(parts.join(&sep))) });
    } }
    if !bad(&res) { if let Some(c) = opt(args, &["-c", "--get-children"]) {
        let ks = csv(c);
        let mut parts = vec![];
        let mut fail = None;
        for k in &ks {
            match r.index.get(k).map(|i| &i.kids) {
                None => { fail = Some(R::Err(k.clone())); break }
                Some(Kids::Count(0)) => { fail = Some(R::Err(k.clone())); break }
                Some(Kids::Count(n)) => parts.push(n.to_string()),
                Some(Kids::Keys(v)) => {
                    if alen { if v.is_empty() { fail = Some(R::Gray); break } parts.push(format!("{}{}{}", v.len(), asep, v.join(&asep))) }
                    else { parts.push(format!("{}{}{}", ab, v.join(&asep), ae)) }
                }
            }
        }
        res.push(if ks.is_empty() { nokeys(c) } else { fail.unwrap_or_else(|| R::Ok(parts.join(&sep))) });
    } }
    if !bad(&res) { if let Some(c) = opt(args, &["--has-children"]) {
        let ks = csv(c);
        let mut parts = vec![];
        let mut fail = None;
        for (n, k) in ks.iter().enumerate() {
            let h = match r.index.get(k).map(|i| &i.kids) { None => false, Some(Kids::Count(n)) => *n > 0, Some(Kids::Keys(v)) => !v.is_empty() };
            match (nth(&tv, n + hv), nth(&fv, n + hv)) { (Some(t), Some(f)) => parts.push(if h { t.clone() } else { f.clone() }), _ => { fail = Some(R::Err(String::new())); break } }
        }
        res.push(if ks.is_empty() { nokeys(c) } else { fail.unwrap_or_else(|| R::Ok(parts.join(&sep))) });
    } }
    let mut setfail = false;
    if !bad(&res) { if let Some(c) = opt(args, &["-s", "--set-value"]) {
        let f = csv(c);
        let mut fail = None;
        if f.is_empty() || f.len() % 3 != 0 { fail = Some(R::Err(String::new())) }
        else {
            for k in f.chunks(3) {
                let ix = ref_parse(&cur);
                if ix.gray { e.gray = true; return false }
                match typed(&k[1], &k[2]) {
                    Err(true) => { e.gray = true; return false }
                    Err(false) => { fail = Some(R::Err(k[0].clone())); break }
                    Ok(v) => match effect(&cur, &ix.index, &k[0], &v) {
                        Eff::Exact(t) | Eff::Frame { simulated: t, .. } => cur = t,
                        Eff::Reject => { fail = Some(R::Err(k[0].clone())); break }
                        Eff::Gray => { e.gray = true; return false }
                    },
                }
            }
        }
        setfail = fail.is_some();
        if fail.is_none() {
            let target = opt(args, &["-o", "--output-file"]).cloned().unwrap_or(name.to_string());
            if !dirs_ok(&target) { err(&mut e.out, &target); lit(&mut e.out, "\n"); e.fails = Some(true); return false }
            if fsize(args).map(|n| cur.len() as u64 > n).unwrap_or(false) { err(&mut e.out, &target); lit(&mut e.out, "\n"); e.fails = Some(true); e.torn = Some(target.trim_start_matches("./").to_string()); return false }
            disk.insert(target.trim_start_matches("./").to_string(), cur.clone());
        }
        if quiet && !res.is_empty() { e.gray = true }
        res.push(fail.unwrap_or_else(|| R::Ok(if quiet { String::new() } else { vec!["Success"; f.len() / 3].join(&sep) })));
    } }
    if res.is_empty() { e.gray = true; return false }
    let n = res.len();
    for (i, x) in res.into_iter().enumerate() {
        match x {
            R::Gray => { e.gray = true; return false }
            R::Ok(s) => lit(&mut e.out, &s),
            R::Err(k) => { err(&mut e.out, &k); if e.fails.is_none() { e.fails = None } }
        }
        if i + 1 < n { lit(&mut e.out, &sep) }
    }
    lit(&mut e.out, "\n");
    if pdoc { if setfail { e.out.push(Tok::Rest) } else { lit(&mut e.out, &cur); lit(&mut e.out, "\n") } }
    true
}

pub fn model(files: &[Option<String>], args: &[String], stdin: &Option<String>) -> Exp {
    let mut e = Exp { fails: Some(false), ..Default::default() };
    let mut disk: BTreeMap<String, String> = BTreeMap::new();
    for (i, f) in files.iter().enumerate() { if let Some(t) = f { disk.insert(fname(i, t), t.clone()); } }
    // the scratch directory holds the files and one directory called "d"
    let ok = |t: &str| { let t = t.trim_start_matches("./"); !t.is_empty() && t != "." && t != "d" && t != FULL && (!t.contains('/') || t.starts_with("d/") && !t[2..].contains('/')) };
    let mut rest = false;
    if has(args, &["-h", "--help"]) { e.gray = true }
    if let Some(f) = opt(args, &["-i", "--input-file"]) { one(f, &mut disk, &ok, args, &mut e); }
    else if let Some(s) = stdin {
        for l in s.split_inclusive('\n') {
            // a name that is not text cannot be the name of a file
            if l.contains(BADBYTE) { e.out.push(Tok::Line(String::new())); lit(&mut e.out, "\n"); e.fails = Some(true); break }
            if !one(l.trim(), &mut disk, &ok, args, &mut e) { break } if matches!(e.out.last(), Some(Tok::Rest)) { rest = true } }
        if rest && s.lines().count() > 1 { e.gray = true }
    } else { e.gray = true }
    // the exit status after a failed command is not specified
    if e.fails == Some(false) && e.out.iter().any(|t| !matches!(t, Tok::Lit(_))) { e.fails = None }
    e.files = disk;
    e
}

fn matches(out: &str, toks: &[Tok]) -> bool {
    let Some(t) = toks.first() else { return out.is_empty() };
    match t {
        Tok::Lit(l) => out.starts_with(l.as_str()) && matches(&out[l.len()..], &toks[1..]),
        Tok::Line(must) => { let n = out.find('\n').unwrap_or(out.len()); n > 0 && out[..n].contains(must.as_str()) && matches(&out[n..], &toks[1..]) }
        Tok::Rest => true,
    }
}
fn pat(toks: &[Tok]) -> String { toks.iter().map(|t| match t { Tok::Lit(l) => l.clone(), Tok::Line(m) => format!("<message naming {:?}>", m), Tok::Rest => "<rest>".into() }).collect() }

pub fn scratch_root() -> PathBuf { PathBuf::from(std::env::var("MC_SCRATCH").unwrap_or_else(|_| std::env::temp_dir().join(format!("mc-cli-{}", std::process::id())).to_string_lossy().to_string())) }
thread_local! { static DIR: PathBuf = { let d = scratch_root().join(format!("{:?}", std::thread::current().id()).replace(|c: char| !c.is_alphanumeric(), "")); std::fs::create_dir_all(d.join("d")).unwrap(); d } }

pub fn kit() -> String { std::env::var("MC_KIT").unwrap_or_else(|_| format!("{}/release/tomlkit", std::env::var("MC_TARGET").unwrap_or("/verif/target".into()))) }

fn listing(dir: &Path, pre: &str, out: &mut BTreeMap<String, Vec<u8>>) {
    for f in std::fs::read_dir(dir).unwrap() {
        let f = f.unwrap();
        let n = format!("{}{}", pre, f.file_name().to_string_lossy());
        if f.file_type().unwrap().is_symlink() { out.insert(n, b"<link>".to_vec()); }
        else if f.file_type().unwrap().is_dir() { if pre.is_empty() && n == "d" { listing(&f.path(), "d/", out) } else { out.insert(n, b"<directory>".to_vec()); } }
        else { out.insert(n, std::fs::read(f.path()).unwrap()); }
    }
}

pub fn run(files: &[Option<String>], args: &[String], stdin: &Option<String>, mask: u32) -> Outcome {
    let e = model(files, args, stdin);
    let mut o = Outcome { state: fnv(&format!("{}{:?}{:?}", e.state, args, stdin)), gray: e.gray, steps: 1, ..Default::default() };
    DIR.with(|dir| {
        // clean directory
        let mut now = BTreeMap::new();
        listing(dir, "", &mut now);
        for n in now.keys() { let p = dir.join(n); if p.is_dir() && !p.is_symlink() { std::fs::remove_dir_all(&p).ok(); } else { std::fs::remove_file(&p).ok(); } }
        let mut before = BTreeMap::new();
        for (i, f) in files.iter().enumerate() { if let Some(t) = f { let b = bytes_of(t); std::fs::write(dir.join(fname(i, t)), &b).unwrap(); before.insert(fname(i, t), b); } }
        if args.iter().any(|a| a == FULL) { std::os::unix::fs::symlink("/dev/full", dir.join(FULL)).unwrap(); before.insert(FULL.into(), b"<link>".to_vec()); }
        // next to the directory, not in it
        let outp = dir.with_extension("out");
        let mut c = Command::new(kit());
        c.current_dir(dir).args(&args[fsize(args).iter().count()..]).env_clear().stdin(if stdin.is_some() { Stdio::piped() } else { Stdio::null() }).stdout(std::fs::File::create(&outp).unwrap()).stderr(Stdio::piped());
        if let Some(n) = fsize(args) {
            use std::os::unix::process::CommandExt;
            // 25: SIGXFSZ, 1: SIG_IGN and RLIMIT_FSIZE; both calls are safe between fork and exec
            unsafe { c.pre_exec(move || { signal(25, 1); setrlimit(1, &[n, n]); Ok(()) }); }
        }
        let mut ch = c.spawn().expect("tomlkit cannot be started");
        if let Some(s) = stdin { ch.stdin.take().unwrap().write_all(&bytes_of(s)).ok(); }
        // stdout goes to a file and stderr is small, so waiting first is safe; a hanging tool is killed
        let t = Instant::now();
        let mut spin = 0;
        loop {
            if ch.try_wait().unwrap().is_some() { break }
            if t.elapsed() > Duration::from_secs(15) { ch.kill().ok(); o.fails.push("tomlkit did not return within 15 s".into()); break }
            spin += 1;
            std::thread::sleep(Duration::from_micros(if spin < 40 { 150 } else { 2000 }));
        }
        let r = ch.wait_with_output().unwrap();
        let out = String::from_utf8_lossy(&std::fs::read(&outp).unwrap_or_default()).to_string();
        let errs = String::from_utf8_lossy(&r.stderr).to_string();
        if errs.contains("panicked") || r.status.code().is_none() || r.status.code() == Some(101) { o.fails.push(format!("tomlkit crashed: {} {}", r.status, errs.lines().take(2).collect::<Vec<_>>().join(" "))) ; return }
        let mut after = BTreeMap::new();
        listing(dir, "", &mut after);
        if mask & FILES != 0 {
            if e.gray && !has(args, &["-s", "--set-value"]) {
                if after != before { o.fails.push("a command that only reads changed the files".into()) }
            }
            if !e.gray {
                let mut want: BTreeMap<String, Vec<u8>> = e.files.iter().map(|(k, v)| (k.clone(), bytes_of(v))).collect();
                if let Some(l) = before.get(FULL) { want.insert(FULL.into(), l.clone()); }
                if let Some(t) = &e.torn { want.remove(t); after.remove(t); }
                if want != after {
                    let show = |m: &BTreeMap<String, Vec<u8>>| m.iter().map(|(k, v)| format!("{}={:?}", k, String::from_utf8_lossy(v))).collect::<Vec<_>>().join(" ");
                    o.fails.push(format!("files afterwards: {} -- expected: {}", show(&after), show(&want)))
                }
            }
        }
        if e.gray { return }
        if mask & OUT != 0 && !matches(&out, &e.out) { o.fails.push(format!("printed {:?}, expected {:?}", out, pat(&e.out))) }
        if mask & STATUS != 0 { if let Some(f) = e.fails { if (r.status.code() != Some(0)) != f { o.fails.push(format!("exit status {:?}, expected {}", r.status.code(), if f { "a failure" } else { "0" })) } } }
    });
    o
}

// ------------------------------------------------------------------ enumeration
fn sv(a: &[&str]) -> Vec<String> { a.iter().map(|s| s.to_string()).collect() }
fn list(name: &str, bound: &str, v: Vec<(Vec<Option<String>>, Vec<String>, Option<String>)>) -> Fam {
    Fam { name: name.into(), bound: format!("{} ({} invocations of the real tomlkit)", bound, v.len()), n: v.len() as u64, gen: Box::new(move |i| { let (f, a, s) = &v[i as usize]; Case::Cli { files: f.clone(), args: a.clone(), stdin: s.clone() } }) }
}
pub fn docs() -> Vec<String> {
    let v: Vec<String> = vec![
        "a = 1\nb = [1, 2]\n\n[t.u]\ny = {p = 1, q = [2]}\n[t]\nx = \"s\"\n[[s]]\nn = 'l'\n[[s]]\n[e]\n".into(),
        "a = 1".into(),
        "".into(),
        "# c\n".into(),
        "\"q k\" = [[1], []]\r\nd = 1979-05-27T07:32:00.5-07:00\r\nz = {}\r\n".into(),
        "a = \"\"\"m\nn\"\"\" # c\nf = -1.5e3\ng = true\nl = '''o'p'''\nb = [{k = 1}, {k = 2, j = 3}]".into(),
    ];
    // a document the tool refuses would make everything built on it vacuous
    for d in &v { let r = ref_parse(d); assert!(r.full && !r.gray && r.errors.is_empty(), "{:?}", d) }
    v
}
fn keys(d: &str) -> Vec<String> {
    let r = ref_parse(d);
    let mut k: Vec<String> = r.index.keys().filter(|k| !k.is_empty()).cloned().collect();
    k.extend(negative_probes(&r.index).into_iter().filter(|x| !x.is_empty() && !x.contains(',')).enumerate().filter(|x| x.0 % 3 == 0).map(|x| x.1));
    k
}
fn plain_key(k: &str) -> bool { !k.is_empty() && !k.starts_with('-') && !k.contains(|c: char| c == ',' || c == '"' || c.is_control()) }
/// documents of the families used for the library, in one list
fn many_docs(th: bool) -> Vec<String> {
    let mut v = crate::hist::docs_of(crate::fam::values(th));
    if !th { v = v.into_iter().step_by(6).collect() }
    v.extend(crate::hist::docs_of(crate::fam::lines(if th { 18 } else { 12 }, 3)));
    v.extend(crate::hist::docs_of(crate::fam::lines_quoted(if th { 4 } else { 3 })));
    v.extend(crate::hist::docs_of(crate::fam::lines_deep(if th { 5 } else { 4 })));
    v.extend(crate::hist::docs_of(crate::fam::scale(30, 20)));
    v.extend(crate::hist::docs_of(crate::fam::calendar()).into_iter().step_by(if th { 1 } else { 7 }));
    v.retain(|d| d.len() < 3000 && !ref_parse(d).gray);
    v
}
/// every document, asked for everything it holds at once
fn whole_queries(th: bool) -> Fam {
    let mut v = vec![];
    for d in many_docs(th) {
        let r = ref_parse(&d);
        let ks: Vec<&String> = r.index.keys().filter(|k| plain_key(k)).take(60).collect();
        let vals: Vec<&str> = ks.iter().filter(|k| r.index[**k].val.is_some()).map(|k| k.as_str()).collect();
        let kids: Vec<&str> = ks.iter().filter(|k| match &r.index[**k].kids { Kids::Count(0) => false, _ => true }).map(|k| k.as_str()).collect();
        let near: Vec<String> = negative_probes(&r.index).into_iter().filter(|k| plain_key(k)).take(20).collect();
        let all: Vec<&str> = ks.iter().map(|k| k.as_str()).chain(near.iter().map(|k| k.as_str())).collect();
        let mut a = sv(&["-i", "f0"]);
        if !vals.is_empty() { a.extend(sv(&["-g", &vals.join(",")])) }
        if !all.is_empty() { a.extend(sv(&["--has-value", &all.join(",")])) }
        if !kids.is_empty() { a.extend(sv(&["-c", &kids.join(",")])) }
        if !all.is_empty() { a.extend(sv(&["--has-children", &all.join(",")])) } else { a.extend(sv(&["--has-children", "a"])) }
        v.push((vec![Some(d)], a, None));
    }
    list("cli-documents", "documents taken from the value, table, quoted-name, nested and date families (all of them in the thorough tier), asked for everything it holds and for near-misses in one invocation", v)
}
fn printable() -> Vec<String> { (33u8..127).filter(|b| *b != b',').map(|b| (b as char).to_string()).chain([" ", "\u{7f}", "\u{e9}", "\u{2028}", "\u{feff}"].iter().map(|s| s.to_string())).collect() }
/// every printable character, alone and in pairs, as a value handed over on the command line
fn set_chars(th: bool) -> Fam {
    let d = "a = 1 # c\nb = 'x'\n";
    let p = printable();
    let mut v = vec![];
    let mut put = |val: &str, t: &str, tail: &str| v.push((vec![Some(d.to_string())], sv(&["-i", "f0", "-s", &format!("a,{},{}{}", val, t, tail)]), None));
    for x in &p {
        for t in ["bs", "ls", "mbs", "mls", "int", "flt", "bool", "dt"] { for f in [format!("{}", x), format!("x{}", x), format!("{}x", x), format!("x{}y", x), format!("{}7", x), format!("7{}", x), format!("{}{}{}", x, x, x)] { put(&f, t, ""); } }
        for t in [format!("{}bs", x), format!("bs{}", x), x.clone()] { put("1", &t, "") }
        // a following setting is not swallowed
        for t in ["bs", "ls"] { for f in [format!("{}", x), format!("{}x", x), format!("x{}", x), format!("{}x{}", x, x)] { put(&f, t, ",b,9,int") } }
        for y in &p { put(&format!("{}{}", x, y), "ls", ""); if th { put(&format!("{}{}", x, y), "bs", ""); put(&format!("{}x{}", x, y), "ls", ",b,9,int") } }
    }
    list("cli-set-chars", "99 characters (all printable ASCII except the comma, and 5 others) alone, beside other text and in every ordered pair as value, type name or both", v)
}
/// every printable character in a key
fn key_chars(th: bool) -> Fam {
    let p = printable();
    let mut v = vec![];
    for (n, x) in p.iter().enumerate() {
        let mut ds = vec![];
        for f in [format!("{}", x), format!("x{}", x), format!("{}x", x), format!("{}x{}", x, x)] { ds.push(format!("\"{}\" = 1\nb = 2\n", f)); ds.push(format!("[\"{}\"]\nx = 1\nb = [1]\n", f)); ds.push(format!("t = {{\"{}\" = 1}}\nb = 2\n", f)) }
        for (m, y) in p.iter().enumerate() { if th || (n * 7 + m * 3) % 11 == 0 { ds.push(format!("\"{}{}\" = 1\nb = 2\n", x, y)) } }
        for d in ds {
            let r = ref_parse(&d);
            if r.gray || !r.full || !r.errors.is_empty() { continue }
            let ks: Vec<String> = r.index.keys().filter(|k| !k.is_empty()).cloned().collect();
            let all = ks.join(",");
            let vals: Vec<&str> = ks.iter().filter(|k| r.index[*k].val.is_some()).map(|k| k.as_str()).collect();
            v.push((vec![Some(d.clone())], sv(&["-i", "f0", "-g", &vals.join(","), "--has-value", &all, "--has-children", &all]), None));
            for k in &vals { v.push((vec![Some(d.clone())], sv(&["-i", "f0", "--print-doc", "-s", &format!("{},7,int", k)]), None)) }
        }
    }
    list("cli-key-chars", "99 characters in quoted keys, table names and inline table keys, queried and set", v)
}
/// documents around the sizes of buffers, long lists of keys, long words
fn big(kind: u8, th: bool) -> Fam {
    let mut sizes: Vec<usize> = vec![];
    for b in [512usize, 1024, 4096, 8192, 16384, 32768, 65536, 131072] { if b < 60000 || th || kind != 1 { for x in [b - 2, b - 1, b, b + 1, b + 2] { sizes.push(x) } } }
    sizes.push(300_000);
    let mut v = vec![];
    for &n in &sizes { for fill in ["#", "# \u{e9}", "# \u{20ac}", "# x\u{1F600}", "a"] { for tail in ["\nz = 1\n", "\nz = '\u{20ac}'", "\nz = 1 !", "\nz = 1\nz = 2\n"] {
        // the document is filled up to the size with a comment, a string, or many lines
        let mut d = String::from("k = 'v'\nt = {x = [1, 2]}\n");
        if fill == "a" { d.push_str("s = \"") } else { d.push('#') }
        let end = if fill == "a" { format!("\"{}", tail) } else { tail.to_string() };
        let ch = fill.chars().last().unwrap();
        let pad = fill.chars().nth(2);
        if let (Some(p), true) = (pad, fill.chars().count() > 3) { d.push(p) }
        while d.len() + ch.len_utf8() + end.len() <= n { d.push(ch) }
        while d.len() + end.len() < n { d.push('.') }
        d.push_str(&end);
        let f = vec![Some(d)];
        match kind {
            0 => for c in [vec!["-g", "k,t.x[1]", "--has-value", "z,y", "-c", "t"], vec!["-g", "z", "--print-doc"], vec!["--has-children", "t", "--print-doc", "-g", "s"]] { let mut a = sv(&["-i", "f0"]); a.extend(sv(&c)); v.push((f.clone(), a, None)) },
            1 => for c in [vec!["-s", "k,7,int"], vec!["-s", "k,7,int", "-o", "full"], vec!["-s", "z,longer text,bs", "-o", "out"], vec!["-s", "t.x[1],2.5,flt,z,q,ls", "--print-doc"]] { let mut a = sv(&["-i", "f0"]); a.extend(sv(&c)); v.push((f.clone(), a, None)) },
            2 => if tail.contains('!') || tail.contains("2\n") { for c in [vec!["-g", "k"], vec!["-s", "k,7,int"], vec!["-s", "k,7,int", "-o", "out", "--print-doc"]] { let mut a = sv(&["-i", "f0"]); a.extend(sv(&c)); v.push((f.clone(), a, None)) } },
            _ => { let g = vec![Some("k = 1\nz = 2\n".to_string()), f[0].clone(), Some("k = 3\nz = 4\n".to_string())]; v.push((g.clone(), sv(&["-g", "k", "--print-doc"]), Some("f0\nf1\nf2\n".into()))); v.push((g, sv(&["-s", "z,5,int"]), Some("f0\nf1\nf2\n".into()))) }
        }
    } } }
    // many keys in one command, long words, many files
    let wide = |n: usize| -> String { (0..n).map(|i| format!("k{} = {}\n", i, i)).collect::<String>() };
    for n in [100usize, 127, 128, 129, 255, 256, 257, 300, 1000] {
        let d = wide(n);
        let ks: Vec<String> = (0..n).map(|i| format!("k{}", i)).collect();
        let st: Vec<String> = (0..n).map(|i| format!("k{},x{},bs", n - 1 - i, i)).collect();
        let mut bad = st.clone(); bad[n - 1] = "nokey,1,int".into();
        match kind {
            0 => { for q in ["-g", "--has-value", "--has-children"] { v.push((vec![Some(d.clone())], sv(&["-i", "f0", q, &ks.join(",")]), None)); v.push((vec![Some(d.clone())], sv(&["-i", "f0", q, &format!("{},nokey", ks.join(","))]), None)) }
                v.push((vec![Some(format!("[t]\n{}", d))], sv(&["-i", "f0", "-c", "t,t"]), None)); v.push((vec![Some(format!("[t]\n{}", d))], sv(&["-i", "f0", "--array-length", "-c", "t"]), None));
                v.push((vec![Some("[[s]]\n".repeat(n))], sv(&["-i", "f0", "-c", "s", "--has-children", "s"]), None)); v.push((vec![Some(format!("a = [{}]\n", ks.iter().map(|_| "1").collect::<Vec<_>>().join(", ")))], sv(&["-i", "f0", "-c", "a", "-g", &format!("a,a[{}]", n - 1), "--has-value", &format!("a[{}]", n)]), None)) }
            1 => { for o in [vec![], vec!["-o", "out"], vec!["--print-doc"]] { for s in [&st, &bad] { let mut a = sv(&["-i", "f0", "-s", &s.join(",")]); a.extend(sv(&o)); v.push((vec![Some(d.clone())], a, None)) } } }
            2 => { for c in [vec!["-g", "k0"], vec!["-s", "k0,x,bs"]] { let mut a = sv(&["-i", "f0"]); a.extend(sv(&c)); v.push((vec![Some(format!("{}k0 = 1\n", d))], a.clone(), None)); v.push((vec![Some(format!("{}k0 =", d))], a, None)) } }
            _ => if n <= 300 { for bad in [None, Some(n - 1), Some(n / 2)] {
                let fs: Vec<Option<String>> = (0..n).map(|j| if Some(j) == bad { Some("k = 1\nk = 2\n".to_string()) } else { Some(format!("k = {}\n", j)) }).collect();
                let names: String = (0..n).map(|j| format!("f{}\n", j)).collect();
                v.push((fs.clone(), sv(&["-g", "k"]), Some(names.clone()))); v.push((fs, sv(&["-s", "k,7,int"]), Some(names)))
            } },
        }
    }
    for n in [100usize, 255, 256, 257, 1000, 4096, 20000, 100_000] { for c in ["w", "\u{20ac}", "w "] {
        let w = c.repeat(n);
        if w.len() > 120_000 { continue }
        match kind {
            0 => { let d = format!("k = '{}'\n\"{}\" = 1\n", w, w); v.push((vec![Some(d.clone())], sv(&["-i", "f0", "-g", "k,k", "-p", &w]), None)); v.push((vec![Some(d.clone())], sv(&["-i", "f0", "-g", "k", "--strip-quotes"]), None)); v.push((vec![Some(d.clone())], sv(&["-i", "f0", "--has-value", &format!("k,{}", w), "--set-true", &w, "--set-false", "no"]), None)) }
            1 => { for t in ["bs", "ls", "mbs", "int"] { v.push((vec![Some("k = 1\nz = 2\n".to_string())], sv(&["-i", "f0", "-s", &format!("k,{},{},z,3,int", w, t)]), None)) } }
            _ => {}
        }
    } }
    list("cli-big", "documents of 510 ... 131074 and 300000 bytes around powers of two with multi-byte characters at the boundaries, up to 1000 keys and settings in a command, words of up to 100000 characters, up to 300 files", v)
}
/// queries with every option that matters to a set only
fn read_only(_th: bool) -> Fam {
    let mut v = vec![];
    let outs: Vec<Vec<&str>> = vec![vec!["-o", "out"], vec!["-o", "f1"], vec!["-o", "f0"], vec!["--output-file", "d/out"], vec!["-o", "nodir/out"], vec!["-o", "d"], vec!["-q"], vec!["-q", "-o", "out"], vec!["--print-doc", "-o", "f1"], vec!["-p", ";", "-o", "out"]];
    let ds = docs();
    for d in &ds { let ks = keys(d); for q in QUERY { for k in ks.iter().step_by(3).chain(ks.first()) { for o in &outs { for st in [false, true] {
        let mut a = if st { vec![] } else { sv(&["-i", "f0"]) };
        a.extend(sv(&[q, k]));
        a.extend(sv(o));
        let f = vec![Some(d.clone()), Some("other = 1\n".into())];
        v.push((f, a, if st { Some("f0\nf1\n".into()) } else { None }));
    } } } } }
    for o in &outs { for (x, y) in [("-g", "-c"), ("--has-value", "--has-children"), ("-g", "--has-value"), ("-c", "--has-children"), ("-g", "--has-children")] {
        let mut a = sv(&["-i", "f0", x, "t,b", y, "t,b"]); a.extend(sv(o)); v.push((vec![Some(ds[0].clone()), Some("other = 1\n".into())], a.clone(), None));
        let mut a = sv(&["-i", "f0", x, "b", y, "t"]); a.extend(sv(o)); v.push((vec![Some(ds[0].clone()), Some("other = 1\n".into())], a, None));
    } }
    list("cli-read-only", "queries of 6 documents with each option that only concerns a set (output file, quiet), by name and through standard input: no file may change", v)
}
/// every document, all of its values set in one invocation, and the last one to something refused
fn whole_sets(th: bool) -> Fam {
    let mut v = vec![];
    let to = ["7,int", "w x,bs", "2.5,flt", "TRUE,bool", "2012-02-29,dt", "it \"is\",ls"];
    for (n, d) in many_docs(th).into_iter().enumerate() {
        let r = ref_parse(&d);
        // values that are not inside another one, so that no set removes the path of a later one
        let top: Vec<&String> = r.index.iter().filter(|(k, i)| i.val.is_some() && plain_key(k)).map(|x| x.0).filter(|k| !r.index.iter().any(|(p, i)| i.val.is_some() && k.len() > p.len() && k.starts_with(p.as_str()) && (k[p.len()..].starts_with('.') || k[p.len()..].starts_with('[')))).take(40).collect();
        if top.is_empty() { continue }
        let l: Vec<String> = top.iter().enumerate().map(|(j, k)| format!("{},{}", k, to[(j + n) % 6])).collect();
        v.push((vec![Some(d.clone())], sv(&["-i", "f0", "-s", &l.join(",")]), None));
        if n % 3 == 0 || th { v.push((vec![Some(d.clone())], sv(&["-i", "f0", "--print-doc", "-s", &l.join(",")]), None)); v.push((vec![Some(d)], sv(&["-i", "f0", "-s", &format!("{},nokey,1,int", l.join(","))]), None)) }
    }
    list("cli-set-documents", "documents taken from the value, table, quoted-name, nested and date families (all of them in the thorough tier), all outermost values set in one invocation; also with one refused setting at the end", v)
}
/// documents one edit away from well-formed ones, and all short sequences of erroneous lines
fn edited(th: bool) -> Fam {
    let mut docs = crate::hist::docs_of(crate::fam::edits(false));
    if !th { docs = docs.into_iter().step_by(9).collect() }
    docs.extend(crate::hist::docs_of(crate::fam::err_lines(16, if th { 3 } else { 2 })));
    let v = docs.into_iter().filter(|d| !ref_parse(d).gray).enumerate().map(|(n, d)| {
        let r = ref_parse(&d);
        let k = r.index.iter().filter(|(k, i)| plain_key(k) && i.val.is_some()).map(|x| x.0.clone()).nth(n % 3).unwrap_or("a".into());
        let a = match n % 4 { 0 => sv(&["-i", "f0", "-g", &k]), 1 => sv(&["-i", "f0", "--has-children", "a"]), _ => sv(&["-i", "f0", "-s", &format!("{},7,int", k)]) };
        (vec![Some(d)], a, None)
    }).collect();
    list("cli-edits", "documents one edit away from sample documents (every ninth in the quick tier) and every short sequence of erroneous lines, read or set", v)
}
const QUERY: [&str; 4] = ["-g", "--has-value", "-c", "--has-children"];
/// every query command on every key and every pair of keys; every combination of commands; every output option
pub fn queries(th: bool) -> Vec<Fam> {
    let mut one = vec![];
    let mut two = vec![];
    for d in docs() {
        let ks = keys(&d);
        for q in QUERY { for k in &ks { one.push((vec![Some(d.clone())], sv(&["-i", "f0", q, k]), None)); } }
        for q in ["--get-value", "--get-children"] { for k in ks.iter().take(4) { one.push((vec![Some(d.clone())], sv(&["--input-file", "f0", q, k]), None)) } }
        let r = ref_parse(&d);
        let pos: Vec<&String> = r.index.keys().filter(|k| !k.is_empty()).take(if th { 40 } else { 12 }).collect();
        let mut small: Vec<String> = pos.into_iter().cloned().collect();
        small.push("nope".into());
        for q in QUERY { for x in &small { for y in &small { two.push((vec![Some(d.clone())], sv(&["-i", "f0", q, &format!("{},{}", x, y)]), None)) } } }
    }
    let d0 = docs()[0].clone();
    let mut combo = vec![];
    let sel: [&[&str]; 4] = [&["", "a", "t.x,b", "a,nope", "t", ""], &["", "a", "a,t,nope"], &["", "t", "b,s", "a", "s[0],e"], &["", "t", "a,e,t.u"]];
    let opts: Vec<Vec<&str>> = vec![vec![], vec!["-p", " | "], vec!["--set-true", "1", "--set-false", "0"], vec!["--set-true", "A,B,C,D,E,F", "--set-false", "u,v,w,x,y,z"], vec!["--set-true", "A,B"], vec!["--set-false", "u,v,w"], vec!["--array-begin", "<", "--array-end", ">", "--array-separator", ";"], vec!["--array-length"], vec!["--strip-quotes"], vec!["--print-doc"], vec!["-p", "", "--strip-quotes", "--print-doc"], vec!["-q"], vec!["-o", "out"]];
    for g in 0..6 { for h in 0..3 { for c in 0..5 { for hc in 0..3 { for o in opts.iter() {
        let mut a = sv(&["-i", "f0"]);
        let mut any = false;
        if g > 0 { a.extend(sv(&["-g", sel[0][g]])); any = true }
        if h > 0 { a.extend(sv(&["--has-value", sel[1][h]])); any = true }
        if c > 0 { a.extend(sv(&["-c", sel[2][c]])); any = true }
        if hc > 0 { a.extend(sv(&["--has-children", sel[3][hc]])); any = true }
        if !any { continue }
        a.extend(sv(o));
        combo.push((vec![Some(d0.clone())], a, None));
    } } } } }
    // long key lists, odd separators, odd words
    let wide: String = (0..30).map(|i| format!("k{} = {}\n", i, i)).collect::<String>() + &(0..12).map(|i| format!("[[s]]\nn = [{}]\n", (0..i).map(|x| x.to_string()).collect::<Vec<_>>().join(", "))).collect::<String>();
    let mut long = vec![];
    for n in [9usize, 10, 11, 12, 16, 17, 29, 30] { for q in QUERY {
        let ks: Vec<String> = (0..n).map(|i| format!("k{}", i)).collect();
        long.push((vec![Some(wide.clone())], sv(&["-i", "f0", q, &ks.join(",")]), None));
        let ks: Vec<String> = (0..n).map(|i| format!("s[{}]", i % 12)).collect();
        long.push((vec![Some(wide.clone())], sv(&["-i", "f0", q, &ks.join(",")]), None));
        let ks: Vec<String> = (0..n).map(|i| format!("s[{}].n", i % 14)).collect();
        long.push((vec![Some(wide.clone())], sv(&["-i", "f0", q, &ks.join(",")]), None));
        let ks: Vec<String> = (0..n).map(|i| if i % 3 == 2 { format!("no{}", i) } else { format!("k{}", i) }).collect();
        let words: Vec<String> = (0..n + 2).map(|i| format!("w{}", i)).collect();
        for w in [n - 1, n, n + 1] { long.push((vec![Some(wide.clone())], sv(&["-i", "f0", "--set-true", &words[..w].join(","), q, &ks.join(",")]), None)); long.push((vec![Some(wide.clone())], sv(&["-i", "f0", "--set-false", &words[..w].join(","), "--set-true", &words[..w].join(","), q, &ks.join(",")]), None)) }
    } }
    for p in [", ", "", " ", "\n", "\t", "%s", "{}", "\\n", "--", "-", "\u{e9}", "\"", "'", "0", ",", "a long separator of many words, really"] { for q in QUERY { for ks in ["a,b", "t.x,a,b", "t,s,b", "a", "e,t.u.y", "e,e,b", "b,e", "e,t"] {
        long.push((vec![Some(d0.clone())], sv(&["-i", "f0", "-p", p, q, ks]), None));
        long.push((vec![Some(d0.clone())], sv(&["-i", "f0", "--separator", p, q, ks]), None));
        for q2 in ["", "--array-length"] { let mut a = sv(&["-i", "f0", "--array-begin", "", "--array-end", "", "-p", p, q, ks]); if !q2.is_empty() { a.push(q2.into()) } long.push((vec![Some(d0.clone())], a, None)) }
        for o in ["--array-begin", "--array-end", "--array-separator"] { long.push((vec![Some(d0.clone())], sv(&["-i", "f0", o, p, q, ks]), None)) }
        if !p.contains(',') && !p.contains('\n') && !p.is_empty() { for o in ["--set-true", "--set-false"] { long.push((vec![Some(d0.clone())], sv(&["-i", "f0", o, p, q, ks]), None)) } }
    } } }
    // every combination of the formatting options
    let mut fmt = vec![];
    let keys0: Vec<String> = ref_parse(&d0).index.keys().cloned().collect();
    for k in &keys0 { for q in ["-g", "-c"] { for tail in ["", "b", "s"] { for al in [false, true] { for b in [None, Some(""), Some("<<")] { for e in [None, Some(""), Some(">")] { for se in [None, Some(""), Some(" | ")] { for p in [None, Some("; ")] { for st in [false, true] {
                if k.is_empty() || (st && q == "-c" && !tail.is_empty()) { continue }
        let ks = if tail.is_empty() { k.clone() } else { format!("{},{}", k, tail) };
        let mut a = sv(&["-i", "f0", q, &ks]);
        if al { a.push("--array-length".into()) }
        if st { a.push("--strip-quotes".into()) }
        for (o, v) in [("--array-begin", b), ("--array-end", e), ("--array-separator", se), ("-p", p)] { if let Some(v) = v { a.push(o.into()); a.push(v.into()) } }
        fmt.push((vec![Some(d0.clone())], a, None));
    } } } } } } } } }
    let strs = "a = \"it's\"\nb = 'say \"hi\" now'\nc = \"\"\"x\ny\"\"\"\nd = '''p'q'''\ne = \"\"\nf = ''\ng = [1, 2]\nh = \"\\u00e9 \\t\"\ni = 1.50\nj = \" pad \"\nk = 1979-05-27T07:32:00.50Z\nl = \"#\"\nm = {x = 1, y = [true]}\n";
    for q in ["", "--strip-quotes"] { for x in "abcdefghijklm".chars() { for y in ["", ",a", ",d,m"] { let mut a = sv(&["-i", "f0", "-g", &format!("{}{}", x, y)]); if !q.is_empty() { a.push(q.into()) } long.push((vec![Some(strs.to_string())], a, None)) } } }
    vec![arg_forms(0), whole_queries(th), key_chars(th), big(0, th), list("cli-format", "every key of a document with every combination of array length, begin, end and separator, key separator and quote stripping, for values and children", fmt), list("cli-long", "key lists of up to 30 keys with word lists of neighbouring lengths; 16 texts as separators, brackets and words; every kind of string with and without --strip-quotes", long), list("cli-one-key", "6 documents x every key and near-miss x 4 query commands", one), list("cli-two-keys", "6 documents x every ordered pair of keys x 4 query commands", two), list("cli-combinations", "every combination of the four query commands with up to 5 key lists each x 13 option sets", combo)]
}
fn typed_values() -> Vec<(&'static str, &'static str)> {
    vec![("7", "int"), ("-0", "integer"), ("1_0", "int"), ("01", "int"), ("", "int"), ("x", "int"), ("2.5", "flt"), ("1e3", "float"), ("2", "flt"), ("true", "bool"), ("FALSE", "boolean"), ("tru", "bool"),
        ("hi there", "bs"), ("", "basic-string"), ("\\\"q\\\"", "bs"), ("a\"b", "bs"), ("#", "bs"), ("m", "mbs"), ("m\"n", "ml-basic-string"), ("\"\"\"", "mbs"), ("l\\", "ls"), ("l'", "literal-string"), ("o'p", "mls"), ("'''", "ml-literal-string"),
        ("2010-02-28", "dt"), ("2010-02-30", "dt"), ("2012-02-29T01:02:03Z", "datetime"), ("2012-02-29T01:02:03.50-08:30", "dt"), ("2012-02-29T01:02:03.001", "dt"), ("2012-02-29T01:02:03+00:00", "dt"), ("2012-02-29T01:02:03.9Z", "dt"), ("2012-02-29T24:02:03", "dt"), ("7", "nothing"), ("7", ""), ("\u{e9}\u{1F600}", "bs")]
}
pub fn sets(th: bool) -> Vec<Fam> {
    let mut one = vec![];
    let mut ds = docs();
    ds.push("  k\t=\t[ 1 , # c\n 2 ,]\t# d\r\n[ t ]\r\n'z".replace("'z", "z = 'z'"));
    for d in &ds {
        let ks = keys(d);
        for k in &ks { for (v, t) in typed_values() { one.push((vec![Some(d.clone())], sv(&["-i", "f0", "-s", &format!("{},{},{}", k, v, t)]), None)) } }
    }
    // sequences of sets: every combination of good and bad ones
    let good = ["a,7,int", "b,x,bs", "t.x,2010-02-28,dt", "b[0],true,bool", "s[0].n,1.5,flt", "t.u.y,3,int", "t.u.y.q[0],9,int", "nope,1,int", "a,x,int", "t,1,int", "a,1,what", "a", "a,1"];
    let mut seqs: Vec<String> = vec![];
    for x in good { seqs.push(x.into()); for y in good { seqs.push(format!("{},{}", x, y)); } }
    for x in good.iter().take(if th { 13 } else { 8 }) { for y in good.iter().take(if th { 13 } else { 8 }) { for z in good.iter().take(if th { 13 } else { 8 }) { seqs.push(format!("{},{},{}", x, y, z)) } } }
    seqs.push("".into());
    let mut multi = vec![];
    for s in &seqs { multi.push((vec![Some(ds[0].clone())], sv(&["-i", "f0", "--set-value", s]), None)) }
    // where the result goes
    let mut to = vec![];
    let outs: Vec<Vec<&str>> = vec![vec![], vec!["-o", "out"], vec!["-o", "f1"], vec!["--output-file", "d/out"], vec!["-o", "nodir/out"], vec!["-o", "d"], vec!["-o", "f0"], vec!["-o", "."], vec!["-o", "full"]];
    let extra: Vec<Vec<&str>> = vec![vec![], vec!["-q"], vec!["--print-doc"], vec!["-p", ";"], vec!["-g", "a"], vec!["-g", "nope"], vec!["--has-value", "a,t", "-c", "t", "--has-children", "e,b"], vec!["-c", "a"], vec!["-q", "--print-doc"], vec!["--strip-quotes", "-p", "", "--print-doc"], vec!["--quiet", "-g", "a"]];
    for s in seqs.iter().take(13 + 13 * 13).step_by(if th { 1 } else { 3 }) { for o in &outs { for x in &extra {
        if !th && (s.len() + o.len() + x.len()) % 2 == 0 && !x.is_empty() && !o.is_empty() { continue }
        let mut a = sv(&["-i", "f0"]);
        a.extend(sv(x));
        a.extend(sv(&["-s", s]));
        a.extend(sv(o));
        to.push((vec![Some(ds[0].clone()), Some("other = 1\n# a longer file than the one that will replace it\n# ......................................................................................................\n".into())], a, None));
    } } }
    // a disk that becomes full in the middle of writing the document
    let long: String = (0..600).map(|i| format!("k{} = {}\n", i, i)).collect();
    let mut torn = vec![];
    for lim in [1000usize, 4096, long.len() - 2, long.len() - 1, long.len(), long.len() + 1, long.len() + 2, 8192, 100000] { for st in ["k1,7,int", "k1,77,int", "k1,777,int", "k1,7,int,k599,longer,bs", "nope,1,int"] { for o in [vec![], vec!["-o", "out"], vec!["-o", "f1"], vec!["-o", "d/out"], vec!["-q"], vec!["-p", ";", "-o", "out"]] { for list in [None, Some("f0\n"), Some("f1\nf0\nf1\n"), Some("f0\nf1\n")] {
        let mut a = vec![format!("%fsize={}", lim)];
        if list.is_none() { a.extend(sv(&["-i", "f0"])) }
        a.extend(sv(&["-s", st])); a.extend(sv(&o));
        torn.push((vec![Some(long.clone()), Some("k1 = 1\nk599 = 2\n".into())], a, list.map(|s| s.to_string())));
    } } } }
    // many settings in one command, also with one bad one at each position
    let wide: String = (0..14).map(|i| format!("k{} = {} # c{}\n", i, i, i)).collect();
    for n in 1..=14usize {
        let ok: Vec<String> = (0..n).map(|i| format!("k{},v{},bs", (i * 5) % 14, i)).collect();
        multi.push((vec![Some(wide.clone())], sv(&["-i", "f0", "-s", &ok.join(",")]), None));
        for b in 0..n { for bad in ["zz,1,int", "k1,x,int", "k1,1,odd"] { let mut t = ok.clone(); t[b] = bad.into(); multi.push((vec![Some(wide.clone())], sv(&["-i", "f0", "-s", &t.join(",")]), None)) } }
    }
    vec![arg_forms(1), whole_sets(th), set_chars(th), big(1, th), list("cli-full-disk", "9 limits to the size of a file around the size of the result x 5 settings x 6 targets x 4 ways to name the files: a write that stops in the middle is reported", torn), list("cli-set-one", "7 documents x every key and near-miss x 35 typed values", one), list("cli-set-many", "every sequence of up to 3 settings out of good and bad ones", multi), list("cli-set-output", "settings x 9 output targets (one of them a full device) x 11 further options", to)]
}
/// short and long names of options in every order, empty arguments
fn arg_forms(kind: u8) -> Fam {
    let d = docs();
    let mut v = vec![];
    let alias = |o: &str| -> Vec<&'static str> { match o { "i" => vec!["-i", "--input-file"], "g" => vec!["-g", "--get-value"], "c" => vec!["-c", "--get-children"], "s" => vec!["-s", "--set-value"], "p" => vec!["-p", "--separator"], "o" => vec!["-o", "--output-file"], "q" => vec!["-q", "--quiet"], "hv" => vec!["--has-value"], "hc" => vec!["--has-children"], "pd" => vec!["--print-doc"], "sq" => vec!["--strip-quotes"], "al" => vec!["--array-length"], "as" => vec!["--array-separator"], "st" => vec!["--set-true"], "sf" => vec!["--set-false"], _ => panic!("{}", o) } };
    let reads: Vec<Vec<(&str, &str)>> = vec![vec![("i", "f0"), ("g", "a,b"), ("p", ";")], vec![("i", "f0"), ("c", "t,b"), ("as", "|"), ("al", "")], vec![("i", "f0"), ("hv", "a,t"), ("st", "1"), ("sf", "0")], vec![("i", "f0"), ("hc", "a,t"), ("sf", "no"), ("pd", "")], vec![("i", "f0"), ("g", "t.x,a"), ("hv", "a,q"), ("sq", "")], vec![("i", "f0"), ("g", "a"), ("c", "t"), ("hc", "t")], vec![("i", "f0"), ("hv", "a"), ("c", "b"), ("g", "nope")]];
    let writes: Vec<Vec<(&str, &str)>> = vec![vec![("i", "f0"), ("s", "a,7,int"), ("q", "")], vec![("i", "f0"), ("s", "a,7,int"), ("o", "out"), ("pd", "")], vec![("i", "f0"), ("s", "a,7,int,t.x,y z,ls"), ("p", "+"), ("o", "f1")], vec![("i", "f0"), ("s", "a,x,int"), ("o", "out"), ("q", "")], vec![("i", "f0"), ("s", "a,7,int"), ("g", "a"), ("hv", "a")]];
    for c in if kind == 0 { &reads } else { &writes } {
        let n = c.len();
        let mut perms: Vec<Vec<usize>> = vec![vec![]];
        for _ in 0..n { perms = perms.iter().flat_map(|p| (0..n).filter(|i| !p.contains(i)).map(|i| { let mut q = p.clone(); q.push(i); q }).collect::<Vec<_>>()).collect() }
        for p in &perms { for m in 0..1u32 << n {
            let mut a = vec![];
            if (0..n).any(|i| m >> i & 1 == 1 && alias(c[i].0).len() < 2) { continue }
            for &i in p { let al = alias(c[i].0); a.push(al[(m >> i & 1) as usize].to_string()); if !["q", "pd", "sq", "al"].contains(&c[i].0) { a.push(c[i].1.to_string()) } }
            v.push((vec![Some(d[0].clone()), Some("other = 1\n".into())], a, None));
        } }
    }
    // empty arguments
    let some: [Option<&str>; 3] = [None, Some(""), Some("a,t")];
    for i in 1..81usize { for x in [vec![], vec!["-p", ";"], vec!["--print-doc"]] {
        let mut a = sv(&["-i", "f0"]);
        for (j, q) in QUERY.iter().enumerate() { if let Some(k) = some[i / 3usize.pow(j as u32) % 3] { let k = match (k, *q) { ("a,t", "-g") => "a", ("a,t", "-c") => "t", (k, _) => k }; a.extend(sv(&[q, k])) } }
        if kind == 1 { a.extend(sv(&["-s", if i % 2 == 0 { "" } else { "a,7,int" }])) }
        a.extend(sv(&x));
        v.push((vec![Some(d[0].clone())], a, None));
    } }
    list("cli-arguments", "7 reading (5 writing) invocations with their options in every order and under every name; every combination of the query commands with empty and non-empty key lists", v)
}
/// files with unusual names, as input, as output and in a list
fn odd_names(_th: bool) -> Fam {
    let mut v = vec![];
    let long = "n".repeat(200);
    for n in ["\u{e9}.toml", "\u{1F600}", "a b", "a  b c", "x#y", "#x", "-dash", "--", "d/in dir.toml", "d/#", "..hidden", ".toml", "a,b", "UPPER.TOML", "q\"q", "\"q\"", "'q'", "%s", "{}", "\\n", "*", "?", "[a]", "f0.bak", "f", "f00", "~", "$HOME", "${x}", "a\tb", "a=b", "a:b", "a;b", "a|b", "&", "`x`", "!", "@x", "0", "-", "out", "stdin", "a\\", "\u{feff}x", "a\u{2028}b", long.as_str()] {
        for body in ["a = 1\nt = {x = 2}\n", "a = !", "a = 1\na = 2\n"] {
            let f = |x: &str| -> Vec<Option<String>> { vec![Some("a = 'f0'\n".into()), Some(format!("#name {}\n{}", x, body)), Some("a = 'f2'\n".into())] };
            let cmds: [&[&str]; 4] = [&["-g", "a"], &["-s", "a,7,int"], &["--has-children", "t", "--print-doc"], &["-s", "a,7,int", "-o", "d/res"]];
            for c in cmds {
                if !n.starts_with('-') { let mut a = sv(&["-i", n]); a.extend(sv(c)); v.push((f(n), a.clone(), None)); a[1] = format!("./{}", n); v.push((f(n), a, None)) }
                for s in [format!("{}\n", n), format!("f0\n{}\nf2\n", n), format!("./{}\r\nf0", n), format!("f2\n{}", n)] { v.push((f(n), sv(c), Some(s))) }
            }
            if !n.starts_with('-') { for i in ["f0", "f2"] { v.push((f(n), sv(&["-i", i, "-s", "a,longer than it was,bs", "-o", n]), None)); v.push((vec![f(n)[0].clone(), None, f(n)[2].clone()], sv(&["-i", i, "-s", "a,longer than it was,bs", "-o", n]), None)) } }
        }
    }
    list("cli-names", "46 unusual file names as input file, output file and in lists on standard input", v)
}
fn bad_docs() -> Vec<Option<String>> {
    let mut v: Vec<Option<String>> = vec![];
    for l in crate::fam::ERRLINES { v.push(Some(l.to_string())); v.push(Some(format!("a = 1\n{}\n", l))); v.push(Some(format!("{}\n[z]\na = 1", l))) }
    for d in ["a = 1\na = 2", "a = [1, 'x']", "[t]\n[t]\n", "a = 2010-02-30\n", "a = 1\n!!", "!", "a = ", "a = [1,", "a = \"x", "[t", "a = 1 b = 2", "a = {k = 1, k = 2}\n", "\u{10FFFF}", "a = \"\u{10FFFF}\"", "a = 1\n[a.b]\nc = 1\n",
        "a = 1\r", "a = 1\n\u{c}", "a = 1\n\r", "a = 1 \u{b}", "a = 1\n \u{a0}", "\u{feff}a = 1\n", "a = 1\n\u{2028}", "a = 1\u{0}", "a = 1\n\u{0}\n", "a = 1\n# \u{1}\n", "[t]\nx = 1\n[t.u]\ny = 1\na = 1\n", "a = [1,\n2\n", "a = 1\n[[a]]\n", "[[a]]\n[a]\n", "a = \"\\q\"\n", "a = 1\n= 2\n", "a = 1\na.b = 2\n", "\n\n\n,", "a = 1\nb\n", "a = 1\nb =\n", "[]\n", "a = 1e\n", "a = \u{27}\u{27}\u{27}x\n", "a = {b = 1\n}\n", "a = 1 # c\rb = 2\n"] { v.push(Some(d.into())) }
    v.push(None);
    v
}
pub fn refusals(th: bool) -> Vec<Fam> {
    let cmds: Vec<Vec<&str>> = vec![vec!["-g", "a"], vec!["--has-value", "a"], vec!["-c", "t"], vec!["--has-children", "a"], vec!["-s", "a,7,int"], vec!["-s", "a,7,int", "-o", "out"], vec!["-g", "a", "--print-doc"], vec!["-q", "-s", "a,7,int"], vec!["-s", "a,7,int", "-o", "f1"], vec!["-g", "a", "-s", "a,x,bs", "--print-doc"], vec![], vec!["-h"]];
    let mut v = vec![];
    for d in bad_docs() { for c in &cmds { let mut a = sv(&["-i", "f0"]); a.extend(sv(c)); v.push((vec![d.clone(), Some("other = 1\n".into())], a, None)) } }
    // names that lead to no file
    for n in ["d", ".", "..", "", "nodir/f0", "f0/x", "d/x", "f0 ", "F0"] { for c in &cmds { let mut a = sv(&["-i", n]); a.extend(sv(c)); v.push((vec![Some("a = 1\n[t]\n".into()), Some("other = 1\n".into())], a, None)) } }
    // read-only invocations leave well-formed files alone, whatever their formatting
    let fs = crate::fam::format_slots();
    let step = if th { 97 } else { 1511 };
    let mut ro = vec![];
    let mut i = 0;
    while i < fs.n { if let Case::Doc(d) = (fs.gen)(i) { for c in [0usize, 3, 6, 10] { let mut a = sv(&["-i", "f0"]); a.extend(sv(&cmds[c])); ro.push((vec![Some(d.clone())], a, None)) } for c in ["k,7,int", "t.k,x,bs", "k.a,1.5,flt"] { ro.push((vec![Some(d.clone())], sv(&["-i", "f0", "-s", c]), None)) } } i += step }
    vec![edited(th), read_only(th), big(2, th), odd_names(th), list("cli-refusals", "malformed, erroneous, unreadable and good documents x 12 commands", v), list("cli-formatting", "documents with varied whitespace, comments and newlines x read-only and set commands", ro)]
}
pub fn stdin(th: bool) -> Vec<Fam> {
    let kinds: Vec<Option<String>> = vec![Some("a = 1\nt = {x = 2}\n".into()), Some("a = 'two'\n[t]\nx = [1]\n".into()), Some("[t]\n".into()), Some("a = 1\na = 2\n".into()), Some("a = !".into()), None, Some("".into())];
    let cmds: Vec<Vec<&str>> = vec![vec!["-g", "a"], vec!["--has-value", "a,t.x"], vec!["-c", "t"], vec!["--has-children", "t,a"], vec!["-s", "a,7,int"], vec!["-s", "t.x,q,ls,a,1.5,flt", "--print-doc"], vec!["-g", "a", "-s", "a,x,bs"], vec!["-s", "a,7,int", "-o", "out"], vec!["-q", "-s", "a,false,bool"], vec!["-g", "a", "--print-doc", "-p", ";"], vec!["-s", "a,7,int", "-o", "f1"], vec!["-s", "a,7,int", "-o", "full", "--print-doc"]];
    let mut v = vec![];
    let k = kinds.len();
    for c in &cmds { for n in 1..=3usize { for i in 0..k.pow(n as u32) {
        let fs: Vec<Option<String>> = (0..n).map(|j| kinds[(i / k.pow(j as u32)) % k].clone()).collect();
        let nl: &[&str] = if n < 3 || th { &["\n", "\r\n", " \n"] } else { &["\n"] };
        for s in nl {
            let names: Vec<String> = (0..n).map(|j| format!("f{}", j)).collect();
            v.push((fs.clone(), sv(c), Some(format!("{}{}", names.join(s), if i % 2 == 0 { s.to_string() } else { String::new() }))));
            if n == 2 && *s == "\n" { v.push((fs.clone(), sv(c), Some("f0\nf1\nf0\n".into()))); v.push((fs.clone(), sv(c), Some("f1\nf1\nf0".into()))) }
        }
    } } }
    // unusual name lists: empty lines, blanks, missing and repeated names, names around a refused file
    let al = ["f0", "f1", "f2", "", " ", "nofile", " f0", "f1\t", "./f0", "d", "f0 f1", "f1\u{10FFFF}"];
    let ka = al.len();
    let kd: Vec<Option<String>> = vec![kinds[0].clone(), kinds[1].clone(), kinds[4].clone()];
    let mut names = vec![];
    for n in 0..=(if th { 4 } else { 3 }) { for i in 0..ka.pow(n as u32) { for (e, t) in [("\n", true), ("\n", false), ("\r\n", true)] {
        if e == "\r\n" && n > 2 && !th { continue }
        let s: Vec<&str> = (0..n).map(|j| al[(i / ka.pow(j as u32)) % ka]).collect();
        for c in [0usize, 4] { names.push((kd.clone(), sv(&cmds[c]), Some(format!("{}{}", s.join(e), if t { e } else { "" })))) }
    } } }
    for n in [9usize, 10, 16, 17, 32, 33] { for bad in [usize::MAX, 0, n / 2, n - 1] { for c in &cmds {
        let fs: Vec<Option<String>> = (0..n).map(|j| if j == bad { kinds[4].clone() } else { Some(format!("a = {}\nt = {{x = {}}}\n{}", j, j, "# c\n".repeat(if j == 1 { 900 } else { j }))) }).collect();
        names.push((fs, sv(c), Some((0..n).map(|j| format!("f{}\n", j)).collect::<String>())));
    } } }
    vec![big(3, th), odd_names(th), list("cli-stdin-names", "every list of up to 3 (4) lines out of 12 (names, empty and blank lines, missing files, padded names, names that are not UTF-8) x line ends x a reading and a writing command", names), list("cli-stdin", "every sequence of up to 3 files out of 7 kinds named on standard input x 12 commands", v)]
}
