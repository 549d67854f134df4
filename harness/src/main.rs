mod cli;
mod ctor;
mod engine;
mod fam;
mod hist;
mod judge;
mod obs;
mod props;
mod refm;
use engine::*;
use std::io::Write;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

fn opts(a: &[String]) -> Opts {
    let mut o = Opts { root: std::env::var("MC_ROOT").unwrap_or("/verif".into()), tier: a.get(1).cloned().unwrap_or("quick".into()), seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1), learn: false, only: None, max_viol: 300 };
    let mut i = 2;
    while i < a.len() {
        match a[i].as_str() {
            "--learn" => { o.learn = true; o.max_viol = 3_000_000 }
            "--only" => { i += 1; o.only = Some(a[i].clone()) }
            "--max" => { i += 1; o.max_viol = a[i].parse().unwrap() }
            x => panic!("unknown option {}", x),
        }
        i += 1;
    }
    o
}

/// run a command with a time limit: Ok(status code), Err(()) when killed by signal or by us
fn limited(mut c: Command, secs: u64) -> Result<i32, String> {
    let mut ch = c.stdout(Stdio::null()).stderr(Stdio::null()).spawn().map_err(|e| e.to_string())?;
    let t = Instant::now();
    loop {
        if let Some(s) = ch.try_wait().unwrap() { return s.code().ok_or_else(|| format!("killed the process ({})", s)) }
        if t.elapsed() > Duration::from_secs(secs) { let _ = ch.kill(); let _ = ch.wait(); return Err(format!("did not return within {} s", secs)) }
        std::thread::sleep(Duration::from_millis(20));
    }
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let exe = std::env::current_exe().unwrap();
    match a[0].as_str() {
        "run" => {
            let id = a[1].clone();
            let o = opts(&a[1..].to_vec());
            let slots = std::env::temp_dir().join(format!("mc-slots-{}-{}", id, std::process::id()));
            // tomlkit runs in here; removed below
            let scratch = std::env::temp_dir().join(format!("mc-cli-{}-{}", id, std::process::id()));
            std::env::set_var("MC_SCRATCH", &scratch);
            let mut c = Command::new(&exe);
            c.arg("child").arg(&slots).args(&a[1..]);
            let st = c.status().unwrap();
            let code = match st.code() {
                Some(x) if x == 0 || x == 1 => x,
                other => {
                    // crashed: find the case(s) in flight
                    let p = props::build(&id, &o.tier).unwrap();
                    let sl = shared_slots(slots.to_str().unwrap());
                    let mut viols = vec![];
                    for t in 0..NTHREADS {
                        let (f, i) = unsafe { (*sl.add(2 * t), *sl.add(2 * t + 1)) };
                        if f == 0 { continue }
                        let mut c = Command::new(&exe);
                        c.arg("one").arg(&id).arg(&o.tier).arg((f - 1).to_string()).arg(i.to_string());
                        if let Err(m) = limited(c, 30) {
                            let fam = &p.fams[(f - 1) as usize];
                            viols.push(Viol { fam: fam.name.clone(), case: (fam.gen)(i), msg: m });
                        }
                    }
                    if viols.is_empty() {
                        println!("{}: the exploring process ended abnormally ({:?}, {}) and no single case reproduces it", id, other, st);
                        3
                    } else { report(&p, &o, &viols); 1 }
                }
            };
            std::fs::remove_file(&slots).ok();
            if scratch.exists() { std::fs::remove_dir_all(&scratch).ok(); }
            std::process::exit(code);
        }
        "child" => {
            let o = opts(&a[2..].to_vec());
            let p = match props::build(&a[2], &o.tier) { Some(p) => p, None => { println!("unknown property {}", a[2]); std::process::exit(3) } };
            if let Some(s) = &p.setup { if let Err(e) = s() { println!("{}", e); std::process::exit(3) } }
            let c = explore(&p, &o, &a[1]);
            std::io::stdout().flush().ok();
            std::process::exit(c);
        }
        "one" => {
            let p = props::build(&a[1], &a[2]).unwrap();
            std::panic::set_hook(Box::new(|_| {}));
            let f = &p.fams[a[3].parse::<usize>().unwrap()];
            let (c, name) = ((f.gen)(a[4].parse().unwrap()), f.name.clone());
            engine::limit_memory(8);
            let h = std::thread::Builder::new().stack_size(8 << 20).spawn(move || { run_case(&p, &name, &c); }).unwrap();
            h.join().ok();
        }
        "replay" => {
            let p = props::build(&a[1], "quick").unwrap();
            let text = std::fs::read_to_string(&a[2]).unwrap();
            let fam = text.lines().find_map(|l| l.strip_prefix("# family ")).unwrap_or("replay").to_string();
            let c = Case::de(&text);
            std::panic::set_hook(Box::new(|_| {}));
            let o = run_case(&p, &fam, &c);
            let scratch = cli::scratch_root();
            if scratch.exists() { std::fs::remove_dir_all(&scratch).ok(); }
            println!("{}", c.ser());
            if o.fails.is_empty() { println!("property {} holds on this case{}", a[1], if o.gray { " (contains an unspecified construct)" } else { "" }); std::process::exit(0) }
            for f in &o.fails { println!("FAIL {}", f) }
            println!("VIOLATION property={} replay={}", a[1], a[2]);
            std::process::exit(1);
        }
        "deep" => std::process::exit(fam::deep_child(&a[1], a[2].parse().unwrap())),
        "ref" => { println!("{:#?}", refm::ref_parse(&std::fs::read_to_string(&a[1]).unwrap())) }
        "list" => { for id in props::IDS { let p = props::build(id, a.get(1).map(|s| s.as_str()).unwrap_or("quick")).unwrap(); println!("{} {} cases", id, p.fams.iter().map(|f| f.n).sum::<u64>()) } }
        x => { println!("unknown command {}", x); std::process::exit(3) }
    }
}
