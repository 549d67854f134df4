//! Exhaustive enumeration engine: index-addressed families, worker threads, crash/hang containment,
//! known findings, replay files, evidence.
use crate::judge::fnv;
use crate::refm::{PV, ST};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Debug, PartialEq)]
pub enum Case {
    /// a document
    Doc(String),
    /// a document and a sequence of set operations (path, value)
    Hist(String, Vec<(String, PV)>),
    /// documents parsed one after the other by one parser
    Reuse(Vec<String>),
    /// a document and path strings to ask it about
    Probe(String, Vec<String>),
    /// a document of the given shape nested this deep, parsed in a process of its own
    Deep(String, u64),
    /// a constructor call: function name and arguments
    Ctor(String, Vec<String>),
    /// a tomlkit invocation: file contents (None: file missing), arguments ("@0", "@1", ... stand for the files), stdin
    Cli { files: Vec<Option<String>>, args: Vec<String>, stdin: Option<String> },
}

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '\n' => o.push_str("\\n"), '\r' => o.push_str("\\r"), '\t' => o.push_str("\\t"), '\\' => o.push_str("\\\\"), '"' => o.push_str("\\\""),
            c if (c as u32) < 0x20 || c as u32 == 0x7f || (c as u32) > 0x2fff => { let _ = write!(o, "\\u{{{:x}}}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn unesc(s: &str) -> String {
    let mut o = String::new();
    let t = &s[1..s.len() - 1];
    let mut it = t.chars();
    while let Some(c) = it.next() {
        if c != '\\' { o.push(c); continue }
        match it.next() {
            Some('n') => o.push('\n'), Some('r') => o.push('\r'), Some('t') => o.push('\t'),
            Some('u') => { it.next(); let h: String = it.by_ref().take_while(|c| *c != '}').collect(); o.push(char::from_u32(u32::from_str_radix(&h, 16).unwrap()).unwrap()) }
            Some(c) => o.push(c),
            None => {}
        }
    }
    o
}
fn pv_lines(v: &PV, o: &mut Vec<String>) {
    match v {
        PV::Int(s) => o.push(format!("int {}", esc(s))),
        PV::Float(s) => o.push(format!("float {}", esc(s))),
        PV::Bool(b) => o.push(format!("bool \"{}\"", b)),
        PV::DT(s) => o.push(format!("dt {}", esc(s))),
        PV::Str(s, t) => o.push(format!("{} {}", match t { ST::Basic => "bs", ST::MLBasic => "mbs", ST::Lit => "ls", ST::MLLit => "mls" }, esc(s))),
        PV::Arr(a) => { o.push(format!("arr \"{}\"", a.len())); for x in a { pv_lines(x, o) } }
        PV::Inl(a) => { o.push(format!("inl \"{}\"", a.len())); for (k, x) in a { o.push(format!("k {}", esc(k))); pv_lines(x, o) } }
    }
}
fn pv_read<'l>(it: &mut dyn Iterator<Item = &'l str>) -> PV {
    let l = it.next().unwrap();
    let (t, s) = l.split_once(' ').unwrap();
    let s = unesc(s);
    match t {
        "int" => PV::Int(s), "float" => PV::Float(s), "bool" => PV::Bool(s == "true"), "dt" => PV::DT(s),
        "bs" => PV::Str(s, ST::Basic), "mbs" => PV::Str(s, ST::MLBasic), "ls" => PV::Str(s, ST::Lit), "mls" => PV::Str(s, ST::MLLit),
        "arr" => PV::Arr((0..s.parse().unwrap()).map(|_| pv_read(it)).collect()),
        "inl" => PV::Inl((0..s.parse().unwrap()).map(|_| { let k = it.next().unwrap(); let k = unesc(k.split_once(' ').unwrap().1); (k, pv_read(it)) }).collect()),
        _ => panic!("bad value line {}", l),
    }
}
impl Case {
    pub fn ser(&self) -> String {
        let mut o = vec![];
        match self {
            Case::Doc(d) => o.push(format!("doc {}", esc(d))),
            Case::Hist(d, ops) => { o.push(format!("hist {}", esc(d))); for (p, v) in ops { o.push(format!("set {}", esc(p))); pv_lines(v, &mut o) } }
            Case::Reuse(ds) => { o.push(format!("reuse \"{}\"", ds.len())); for d in ds { o.push(format!("doc {}", esc(d))) } }
            Case::Probe(d, ps) => { o.push(format!("probe {}", esc(d))); for x in ps { o.push(format!("path {}", esc(x))) } }
            Case::Deep(k, n) => { o.push(format!("deep {}", esc(k))); o.push(format!("levels \"{}\"", n)) }
            Case::Ctor(f, a) => { o.push(format!("ctor {}", esc(f))); for x in a { o.push(format!("arg {}", esc(x))) } }
            Case::Cli { files, args, stdin } => {
                o.push(format!("cli \"{}\"", files.len()));
                for f in files { o.push(match f { Some(t) => format!("file {}", esc(t)), None => "nofile \"\"".into() }) }
                if let Some(s) = stdin { o.push(format!("stdin {}", esc(s))) }
                for a in args { o.push(format!("arg {}", esc(a))) }
            }
        }
        o.join("\n")
    }
    pub fn de(s: &str) -> Case {
        let mut it = s.lines().filter(|l| !l.is_empty() && !l.starts_with('#')).peekable();
        let (t, a) = it.next().unwrap().split_once(' ').unwrap();
        let a = unesc(a);
        match t {
            "doc" => Case::Doc(a),
            "hist" => { let mut ops = vec![]; while let Some(l) = it.next() { let p = unesc(l.split_once(' ').unwrap().1); ops.push((p, pv_read(&mut it))) } Case::Hist(a, ops) }
            "reuse" => Case::Reuse(it.map(|l| unesc(l.split_once(' ').unwrap().1)).collect()),
            "probe" => Case::Probe(a, it.map(|l| unesc(l.split_once(' ').unwrap().1)).collect()),
            "deep" => Case::Deep(a, it.map(|l| unesc(l.split_once(' ').unwrap().1)).next().unwrap().parse().unwrap()),
            "ctor" => Case::Ctor(a, it.map(|l| unesc(l.split_once(' ').unwrap().1)).collect()),
            "cli" => {
                let (mut files, mut args, mut stdin) = (vec![], vec![], None);
                for l in it {
                    let (t, s) = l.split_once(' ').unwrap();
                    let s = unesc(s);
                    match t { "file" => files.push(Some(s)), "nofile" => files.push(None), "stdin" => stdin = Some(s), _ => args.push(s) }
                }
                Case::Cli { files, args, stdin }
            }
            _ => panic!("unknown case kind {}", t),
        }
    }
    pub fn size(&self) -> usize {
        match self {
            Case::Doc(d) => d.len(),
            Case::Hist(d, o) => d.len() + 20 * o.len() + o.iter().map(|x| x.1.text().len()).sum::<usize>(),
            Case::Reuse(d) => d.iter().map(|x| x.len() + 5).sum(),
            Case::Probe(d, p) => d.len() + p.iter().map(|x| x.len() + 1).sum::<usize>(),
            Case::Deep(_, n) => *n as usize,
            Case::Ctor(_, a) => a.iter().map(|x| x.len() + 1).sum(),
            Case::Cli { files, args, .. } => files.iter().map(|f| f.as_ref().map(|x| x.len()).unwrap_or(0)).sum::<usize>() + args.iter().map(|x| x.len()).sum::<usize>(),
        }
    }
}

#[derive(Default)]
pub struct Outcome { pub fails: Vec<String>, pub state: u64, pub steps: u64, pub gray: bool, pub extra_states: Vec<u64> }

pub struct Fam { pub name: String, pub bound: String, pub n: u64, pub gen: Box<dyn Fn(u64) -> Case + Sync + Send> }
pub type Check = Box<dyn Fn(&str, &Case) -> Outcome + Sync + Send>;

pub struct Prop { pub id: &'static str, pub fams: Vec<Fam>, pub check: Check, pub assumptions: Vec<String>, pub setup: Option<Box<dyn Fn() -> Result<(), String> + Sync + Send>> }

extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
    fn _exit(c: i32) -> !;
}

/// address space limit in GB: runaway allocation ends as a failed allocation, not as a full machine
pub fn limit_memory(gb: u64) { unsafe { setrlimit(9, &[gb << 30, gb << 30]); } }

pub const NTHREADS: usize = 8;
const HANG: u64 = 25;

pub fn run_case(p: &Prop, fam: &str, c: &Case) -> Outcome {
    match catch_unwind(AssertUnwindSafe(|| (p.check)(fam, c))) {
        Ok(o) => o,
        Err(e) => {
            let m = if let Some(s) = e.downcast_ref::<String>() { s.clone() } else if let Some(s) = e.downcast_ref::<&str>() { s.to_string() } else { "panic".into() };
            let m = m.split(": PoisonError").next().unwrap().to_string();
            Outcome { fails: vec![format!("panicked: {}", m)], ..Default::default() }
        }
    }
}

pub struct Viol { pub fam: String, pub case: Case, pub msg: String }

pub struct Known { pub open: BTreeMap<String, String>, pub cases: HashMap<u64, (String, u64)> }
/// known-findings.txt:  `finding <ID> <name> <text>`  and  `case <ID> <name> <case hash> <failure hash> <the case>`
pub fn load_known(root: &str, id: &str) -> Known {
    let mut k = Known { open: BTreeMap::new(), cases: HashMap::new() };
    if let Ok(s) = std::fs::read_to_string(format!("{}/known-findings.txt", root)) {
        for l in s.lines() {
            let w: Vec<&str> = l.splitn(4, ' ').collect();
            if w.len() < 4 || w[1] != id { continue }
            if w[0] == "finding" { k.open.insert(w[2].into(), w[3].into()); }
            if w[0] == "case" {
                let x: Vec<&str> = w[3].split(' ').collect();
                k.cases.insert(u64::from_str_radix(x[0], 16).unwrap(), (w[2].into(), u64::from_str_radix(x[1], 16).unwrap()));
            }
        }
    }
    k
}
pub fn fail_hash(fails: &[String]) -> u64 { fnv(&fails.join("\u{1}")) }

pub fn shared_slots(path: &str) -> *mut u64 {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).open(path).unwrap();
    f.set_len(4096).unwrap();
    unsafe { mmap(std::ptr::null_mut(), 4096, 3, 1, f.as_raw_fd(), 0) as *mut u64 }
}

pub struct Opts { pub root: String, pub tier: String, pub seed: u64, pub learn: bool, pub only: Option<String>, pub max_viol: usize }

/// Runs in the child. Returns exit status.
pub fn explore(p: &Prop, o: &Opts, slots_path: &str) -> i32 {
    let t0 = Instant::now();
    let deadline = Duration::from_secs(if o.tier == "thorough" { 3 * 3600 } else { 720 });
    limit_memory(26);
    let known = load_known(&o.root, p.id);
    let slots = shared_slots(slots_path) as usize;
    let viols: Mutex<Vec<Viol>> = Mutex::new(vec![]);
    let nviol = AtomicU64::new(0);
    let hits: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());
    let (cases, steps, grays) = (AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0));
    let capped = AtomicBool::new(false);
    let states: Vec<Mutex<HashSet<u64>>> = (0..64).map(|_| Mutex::new(HashSet::new())).collect();
    let state_full = AtomicBool::new(false);
    let samples: Mutex<Vec<(String, String)>> = Mutex::new(vec![]);
    let mut fam_report = vec![];
    let beat: Vec<AtomicU64> = (0..NTHREADS).map(|_| AtomicU64::new(u64::MAX)).collect();
    let finished = AtomicBool::new(false);
    std::panic::set_hook(Box::new(|_| {}));

    std::thread::scope(|sc| {
        // watchdog: a case that does not come back is a violation
        let (beat, finished, p2, o2) = (&beat, &finished, p, o);
        sc.spawn(move || loop {
            std::thread::sleep(Duration::from_millis(200));
            if finished.load(SeqCst) { return }
            let now = t0.elapsed().as_millis() as u64;
            for (t, b) in beat.iter().enumerate() {
                let s = b.load(SeqCst);
                if s != u64::MAX && now > s + HANG * 1000 {
                    let (f, i) = unsafe { (*(slots as *const u64).add(2 * t), *(slots as *const u64).add(2 * t + 1)) };
                    if f == 0 { continue }
                    let fam = &p2.fams[(f - 1) as usize];
                    let c = (fam.gen)(i);
                    report(p2, o2, &[Viol { fam: fam.name.clone(), case: c, msg: format!("did not return within {} s", HANG) }]);
                    unsafe { _exit(1) }
                }
            }
        });
        for (fi, fam) in p.fams.iter().enumerate() {
            if let Some(only) = &o.only { if !fam.name.contains(only.as_str()) { continue } }
            let ft = Instant::now();
            let next = AtomicU64::new(0);
            let done = AtomicU64::new(0);
            let chunk = (fam.n / 4000).clamp(1, 256);
            std::thread::scope(|s2| {
                for t in 0..NTHREADS {
                    let (next, done, viols, nviol, hits, cases, steps, grays, capped, states, samples, known, beat, state_full) =
                        (&next, &done, &viols, &nviol, &hits, &cases, &steps, &grays, &capped, &states, &samples, &known, &beat, &state_full);
                    std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(s2, move || {
                        let sl = unsafe { (slots as *mut u64).add(2 * t) };
                        loop {
                            let a = next.fetch_add(chunk, SeqCst);
                            if a >= fam.n { break }
                            if capped.load(Relaxed) { break }
                            if t0.elapsed() > deadline { capped.store(true, SeqCst); break }
                            if nviol.load(Relaxed) as usize >= o.max_viol { capped.store(true, SeqCst); break }
                            for i in a..(a + chunk).min(fam.n) {
                                unsafe { *sl.add(1) = i; *sl = fi as u64 + 1; }
                                beat[t].store(t0.elapsed().as_millis() as u64, SeqCst);
                                let c = (fam.gen)(i);
                                let mut r = run_case(p, &fam.name, &c);
                                beat[t].store(u64::MAX, SeqCst);
                                cases.fetch_add(1, Relaxed);
                                done.fetch_add(1, Relaxed);
                                steps.fetch_add(r.steps, Relaxed);
                                if r.gray { grays.fetch_add(1, Relaxed); }
                                if !state_full.load(Relaxed) {
                                    r.extra_states.push(r.state);
                                    for s in &r.extra_states {
                                        let mut g = states[(s % 64) as usize].lock().unwrap();
                                        g.insert(*s);
                                        if g.len() > 400_000 { state_full.store(true, SeqCst) }
                                    }
                                }
                                if i == fam.n / 3 || i == fam.n - 1 - fam.n / 5 { samples.lock().unwrap().push((fam.name.clone(), c.ser())) }
                                if !r.fails.is_empty() {
                                    if !o.learn {
                                        if let Some((name, h)) = known.cases.get(&fnv(&c.ser())) {
                                            if *h == fail_hash(&r.fails) { *hits.lock().unwrap().entry(name.clone()).or_insert(0) += 1; continue }
                                        }
                                    }
                                    nviol.fetch_add(1, Relaxed);
                                    viols.lock().unwrap().push(Viol { fam: fam.name.clone(), case: c, msg: r.fails.join(" | ") });
                                }
                            }
                        }
                        unsafe { *sl = 0 }
                    }).unwrap();
                }
            });
            fam_report.push((fam.name.clone(), fam.bound.clone(), fam.n, done.load(SeqCst), ft.elapsed().as_secs_f64()));
        }
        finished.store(true, SeqCst);
    });
    let viols = viols.into_inner().unwrap();
    let nstates: usize = states.iter().map(|s| s.lock().unwrap().len()).sum();
    let hits = hits.into_inner().unwrap();
    for (n, t) in &known.open { println!("KNOWN-FINDING: property={} {} ({} explored inputs): {}", p.id, n, hits.get(n).unwrap_or(&0), t) }
    let complete = !capped.load(SeqCst) && o.only.is_none();
    // evidence
    let mut e = String::new();
    let _ = write!(e, "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n", json(p.id), json(&o.tier), o.seed);
    let _ = write!(e, "  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"exhaustive\": {},\n", nstates, steps.load(SeqCst), cases.load(SeqCst), complete);
    let _ = write!(e, "  \"states_meaning\": {},\n", json(&format!("distinct reference-model states reached (hash of index, errors, acceptance){}", if state_full.load(SeqCst) { "; counting stopped at the memory cap, so this is a lower bound" } else { "" })));
    let _ = write!(e, "  \"transitions_meaning\": \"implementation API calls whose result was compared with the model\",\n  \"traces_meaning\": \"enumerated cases executed on the implementation and compared with the model\",\n");
    let _ = write!(e, "  \"cases_with_unspecified_constructs\": {},\n", grays.load(SeqCst));
    let _ = write!(e, "  \"known_finding_cases\": {},\n", hits.values().sum::<u64>());
    e.push_str("  \"families\": [\n");
    for (i, f) in fam_report.iter().enumerate() {
        let _ = write!(e, "   {{\"name\": {}, \"bound\": {}, \"size\": {}, \"explored\": {}, \"seconds\": {:.2}}}{}\n", json(&f.0), json(&f.1), f.2, f.3, f.4, if i + 1 < fam_report.len() { "," } else { "" });
    }
    e.push_str("  ],\n  \"samples\": [\n");
    let sm = samples.into_inner().unwrap();
    for (i, (f, s)) in sm.iter().enumerate() {
        let mut s = s.clone();
        if s.len() > 600 { let mut k = 600; while !s.is_char_boundary(k) { k -= 1 } s.truncate(k); s.push_str("...") }
        let _ = write!(e, "   {{\"family\": {}, \"case\": {}}}{}\n", json(f), json(&s), if i + 1 < sm.len() { "," } else { "" });
    }
    e.push_str("  ]\n },\n \"assumptions\": [");
    for (i, a) in p.assumptions.iter().enumerate() { let _ = write!(e, "{}{}", if i > 0 { ", " } else { "" }, json(a)); }
    let _ = write!(e, "],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n", t0.elapsed().as_secs_f64(), viols.len());
    if o.only.is_none() && !o.learn {
        std::fs::create_dir_all(format!("{}/evidence", o.root)).ok();
        std::fs::write(format!("{}/evidence/{}.json", o.root, p.id), e).unwrap();
    }
    println!("{}: {} cases, {} model states, {} compared calls, {} with unspecified constructs, {} known, {} violations, {:.1} s, complete={}",
        p.id, cases.load(SeqCst), nstates, steps.load(SeqCst), grays.load(SeqCst), hits.values().sum::<u64>(), viols.len(), t0.elapsed().as_secs_f64(), complete);
    if std::env::var("MC_VERBOSE").is_ok() { for f in &fam_report { println!("   {:28} {:>10} of {:>10}  {:6.1} s   {}", f.0, f.3, f.2, f.4, f.1) } }
    if o.learn {
        let mut out = String::new();
        for v in &viols { let _ = write!(out, "{:016x} {:016x} {}\t{}\t{}\n", fnv(&v.case.ser()), fail_hash(&v.msg.split(" | ").map(|s| s.to_string()).collect::<Vec<_>>()), v.fam, v.case.ser().replace('\n', "  "), v.msg.replace('\n', "\\n")); }
        std::fs::write(format!("/tmp/learn.{}.txt", p.id), out).unwrap();
    }
    if viols.is_empty() { return 0 }
    report(p, o, &viols);
    1
}

pub fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\r' => o.push_str("\\r"), '\t' => o.push_str("\\t"), c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) } }
    o.push('"');
    o
}

pub fn report(p: &Prop, o: &Opts, viols: &[Viol]) {
    let mut v: Vec<&Viol> = viols.iter().collect();
    v.sort_by_key(|x| (x.case.size(), x.case.ser()));
    let dir = format!("{}/replays", o.root);
    std::fs::create_dir_all(&dir).ok();
    let shown = if std::env::var("MC_VERBOSE").is_ok() { 40 } else { 3 };
    let mut seen = HashSet::new();
    let mut n = 0;
    for x in v {
        // one report per failure shape
        let shape: String = x.msg.chars().filter(|c| !c.is_ascii_digit()).take(34).collect();
        if !seen.insert(shape) && n > 0 { continue }
        let path = format!("{}/{}-{:016x}.txt", dir, p.id, fnv(&x.case.ser()));
        std::fs::write(&path, format!("# property {}\n# family {}\n# {}\n# replay: /verif/check replay {} {}\n{}\n", p.id, x.fam, x.msg.replace('\n', "\\n"), p.id, path, x.case.ser())).ok();
        println!("VIOLATION property={} replay={}", p.id, path);
        let mut m = x.msg.clone();
        if m.len() > 700 { let mut k = 700; while !m.is_char_boundary(k) { k -= 1 } m.truncate(k) }
        println!("   [{}] {}\n   {}", x.fam, x.case.ser().replace('\n', "\n   "), m.replace('\n', "\\n"));
        n += 1;
        if n >= shown { break }
    }
}
