#![allow(dead_code, unexpected_cfgs)]
mod arc;
#[path = "../digest/src/digest.rs"]
mod digest;
mod fw;
mod img;
mod mem;
mod ms;
mod props;
mod px;
mod refs;

/// the lock the library uses
#[cfg(not(wz_sched))]
pub use std::sync::RwLock;
#[cfg(wz_sched)]
pub use wz_sched::RwLock;

use fw::*;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{exit, Command, Stdio};

#[global_allocator]
static ALLOC: mem::Counting = mem::Counting;

fn verif_root() -> PathBuf {
    std::env::var("WZPBT_ROOT").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

fn tier() -> Tier {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    }
}
fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}
fn scale(id: &str) -> f64 {
    std::env::var("WZPBT_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(match (tier(), id) {
        (Tier::Thorough, _) => 1.0,
        // cases of a few microseconds
        (_, "C05" | "C06" | "C07" | "C09" | "C10" | "C12" | "C13" | "C14" | "C15" | "C16" | "C17" | "C18" | "C20" | "C22" | "C24" | "C25") => 10.0,
        (_, "C01" | "C02" | "C04" | "C08") => 5.0,
        _ => 3.0,
    })
}

fn find(id: &str) -> Property {
    match props::all().into_iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {id}");
            exit(3)
        }
    }
}

#[derive(serde::Deserialize)]
struct Known {
    property: String,
    sub: String,
    what: String,
    case: serde_json::Value,
}

fn known_findings(id: &str) -> Vec<Known> {
    let p = verif_root().join("known_findings.jsonl");
    let Ok(s) = std::fs::read_to_string(p) else { return vec![] };
    s.lines()
        .filter(|l| l.trim_start().starts_with('{'))
        .filter_map(|l| serde_json::from_str::<Known>(l).ok())
        .filter(|k| k.property == id)
        .collect()
}

struct TempDir(PathBuf);
impl TempDir {
    fn new(tag: &str) -> TempDir {
        let base = std::env::temp_dir();
        let p = base.join(format!("wzpbt-{tag}-{}", std::process::id()));
        let _ = std::fs::remove_dir_all(&p);
        std::fs::create_dir_all(&p).expect("temp dir");
        TempDir(p)
    }
}
impl Drop for TempDir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

enum Outcome {
    Code(i32),
    Signal(i32),
    Timeout,
}

fn wait_limit(mut c: std::process::Child, secs: u64) -> Outcome {
    let t0 = std::time::Instant::now();
    loop {
        match c.try_wait() {
            Ok(Some(st)) => {
                use std::os::unix::process::ExitStatusExt;
                return match st.code() {
                    Some(c) => Outcome::Code(c),
                    None => Outcome::Signal(st.signal().unwrap_or(0)),
                };
            }
            Ok(None) => {}
            Err(e) => {
                eprintln!("wait: {e}");
                return Outcome::Timeout;
            }
        }
        if t0.elapsed().as_secs() > secs {
            let _ = c.kill();
            let _ = c.wait();
            return Outcome::Timeout;
        }
        std::thread::sleep(std::time::Duration::from_millis(20));
    }
}

fn run_child(args: &[&str], secs: u64) -> Outcome {
    let exe = std::env::current_exe().expect("exe");
    let c = Command::new(exe)
        .args(args)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(if std::env::var("WZPBT_TIMES").is_ok() { Stdio::inherit() } else { Stdio::null() })
        .spawn()
        .expect("spawn worker");
    wait_limit(c, secs)
}

fn replay_in_child(property: &str, sub: &str, case: &serde_json::Value, tmp: &Path) -> Result<(), String> {
    let v = Violation { property: property.into(), sub: sub.into(), message: String::new(), case: case.clone() };
    let f = tmp.join("replay-case.json");
    let out = tmp.join("replay-out.txt");
    let _ = std::fs::remove_file(&out);
    std::fs::write(&f, serde_json::to_vec(&v).unwrap()).unwrap();
    match run_child(&["replay-worker", f.to_str().unwrap(), out.to_str().unwrap()], 240) {
        Outcome::Code(0) => Ok(()),
        Outcome::Code(1) => Err(std::fs::read_to_string(&out).unwrap_or_default()),
        Outcome::Signal(s) if s == libc::SIGABRT || s == libc::SIGSEGV || s == libc::SIGBUS || s == libc::SIGILL => {
            Err(format!("process aborted by signal {s} (stack overflow, allocation failure or memory fault)"))
        }
        Outcome::Code(c) => Err(format!("HARNESS-ERROR replay worker exit {c}")),
        Outcome::Signal(s) => Err(format!("HARNESS-ERROR replay worker killed by signal {s}")),
        Outcome::Timeout => Err("no answer within 240 s (deadlock or endless loop)".into()),
    }
}

fn save_replay(v: &Violation, n: usize) -> PathBuf {
    let dir = verif_root().join("replays");
    std::fs::create_dir_all(&dir).expect("replays dir");
    let p = dir.join(format!("{}-{}-{}.json", v.property, v.sub, n));
    std::fs::write(&p, serde_json::to_vec_pretty(v).unwrap()).expect("write replay");
    p
}

fn cmd_run(id: &str) -> i32 {
    let t0 = std::time::Instant::now();
    let p = find(id);
    let tmp = TempDir::new(id);
    let report_path = tmp.0.join("report.json");
    let limit = if tier() == Tier::Quick { 840 } else { 6 * 3600 };
    let mut errors: Vec<String> = vec![];
    let mut violations: Vec<Violation> = vec![];
    let mut report = WorkerReport::default();
    let out = run_child(&["worker", id, tmp.0.to_str().unwrap(), report_path.to_str().unwrap()], limit);
    match out {
        Outcome::Code(0) => match std::fs::read(&report_path).ok().and_then(|b| from_json::<WorkerReport>(&b).ok()) {
            Some(r) => {
                violations = r.violations.clone();
                errors.extend(r.errors.clone());
                report = r;
            }
            None => errors.push("worker left no report".into()),
        },
        Outcome::Signal(s) if s == libc::SIGABRT || s == libc::SIGSEGV || s == libc::SIGBUS || s == libc::SIGILL => {
            // attribute the abort to a case by re-running each in-flight case alone
            for t in 0..p.threads.max(1) {
                if let Some((sub, case)) = Slot::read_file(&tmp.0.join(format!("slot{t}"))) {
                    match replay_in_child(id, &sub, &case, &tmp.0) {
                        Ok(()) => {}
                        Err(m) if m.contains("HARNESS-ERROR") => errors.push(m),
                        Err(m) => {
                            violations.push(Violation { property: id.into(), sub, message: m, case });
                            break;
                        }
                    }
                }
            }
            if violations.is_empty() {
                errors.push(format!("worker died with signal {s}, no in-flight case reproduces it alone"));
            } else {
                errors.clear();
            }
        }
        Outcome::Signal(s) => errors.push(format!("worker killed by signal {s}")),
        Outcome::Code(c) => errors.push(format!("worker exit code {c}")),
        Outcome::Timeout => errors.push("worker timed out (inconclusive)".into()),
    }

    // known findings: the listed case, and only that case, is reported without an alarm
    for k in known_findings(id) {
        match replay_in_child(id, &k.sub, &k.case, &tmp.0) {
            Ok(()) => println!("note: listed finding no longer reproduces: {}", k.what),
            Err(m) if m.contains("HARNESS-ERROR") => errors.push(m),
            Err(_) => println!("KNOWN-FINDING: property={} {}", id, k.what),
        }
    }

    let mut ev = 0u64;
    let mut dn = 0u64;
    let mut samples = vec![];
    let mut subs = serde_json::Map::new();
    let mut rules = vec![];
    for s in &p.subs {
        rules.push(format!("[{}] {}", s.name(), s.rule()));
        if let Some(st) = report.stats.get(s.name()) {
            ev += st.evaluations;
            dn += st.distinct_nontrivial;
            samples.extend(st.samples.iter().take(2).cloned());
            subs.insert(
                s.name().into(),
                serde_json::json!({"evaluations": st.evaluations, "nontrivial": st.nontrivial, "distinct_nontrivial": st.distinct_nontrivial, "classes": st.classes}),
            );
        }
    }
    let evidence = serde_json::json!({
        "property": id,
        "tier": if tier() == Tier::Quick {"quick"} else {"thorough"},
        "seed": seed(),
        "level": "exploration",
        "coverage": {
            "evaluations": ev,
            "distinct_nontrivial": dn,
            "rule": rules.join(" "),
            "samples": samples,
            "sub_checks": subs,
            "config": std::env::var("WZPBT_CONFIG").unwrap_or_else(|_| "default".into()),
        },
        "assumptions": p.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations.len(),
    });
    if std::env::var("WZPBT_NO_EVIDENCE").is_err() {
        let evdir = verif_root().join("evidence");
        let _ = std::fs::create_dir_all(&evdir);
        if let Err(e) = std::fs::write(evdir.join(format!("{id}.json")), serde_json::to_vec_pretty(&evidence).unwrap()) {
            errors.push(format!("evidence: {e}"));
        }
    }
    if !violations.is_empty() {
        for (n, v) in violations.iter().enumerate() {
            let path = save_replay(v, n);
            let mut m: String = v.message.chars().take(1500).collect();
            m = m.replace('\n', " | ");
            println!("{}/{}: {}", v.property, v.sub, m);
            println!("VIOLATION property={} replay={}", v.property, path.display());
        }
        return 1;
    }
    if !errors.is_empty() {
        for e in errors {
            println!("ERROR: {e}");
        }
        return 2;
    }
    println!(
        "OK property={} evaluations={} distinct_nontrivial={} wall={:.1}s",
        id,
        ev,
        dn,
        t0.elapsed().as_secs_f64()
    );
    0
}

fn limit_core() {
    unsafe {
        let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &l);
        // an absurd allocation fails instead of eating the machine
        let g = 24u64 << 30;
        let l = libc::rlimit { rlim_cur: g, rlim_max: g };
        libc::setrlimit(libc::RLIMIT_AS, &l);
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("run") => cmd_run(&args[2]),
        Some("list") => {
            for p in props::all() {
                for s in &p.subs {
                    println!("{} {}", p.id, s.name());
                }
            }
            0
        }
        Some("worker") => {
            limit_core();
            install_panic_hook();
            let state = PathBuf::from(&args[3]);
            let sc = state.join("scratch");
            std::fs::create_dir_all(&sc).unwrap();
            *SCRATCH_DIR.lock().unwrap() = Some(sc);
            let p = find(&args[2]);
            let only = std::env::var("WZPBT_ONLY").ok();
            let out = args[4].clone();
            let rep = run_worker(&p, seed(), tier(), only.as_deref(), &state, scale(p.id), &move |rep| {
                std::fs::write(&out, serde_json::to_vec(&rep).unwrap()).unwrap();
                exit(0)
            });
            std::fs::write(&args[4], serde_json::to_vec(&rep).unwrap()).unwrap();
            0
        }
        // hidden: paths of a resolved installation, for checks that depend on the current directory
        Some("resolve") => match wz_reader::util::resolve_base(&args[2], None) {
            Ok(n) => {
                let mut l = vec![];
                props::c20::listing(&n, "", &mut l);
                println!("{}", serde_json::to_string(&l).unwrap());
                0
            }
            Err(e) => {
                eprintln!("error: {e}");
                1
            }
        },
        Some("replay-worker") => {
            limit_core();
            install_panic_hook();
            let tmp = TempDir::new("rw");
            *SCRATCH_DIR.lock().unwrap() = Some(tmp.0.clone());
            let v: Violation = from_json(&std::fs::read(&args[2]).unwrap()).unwrap();
            let p = find(&v.property);
            let Some(s) = p.subs.into_iter().find(|s| s.name() == v.sub) else {
                exit(4);
            };
            let r = std::thread::Builder::new()
                .stack_size(STACK)
                .spawn(move || s.replay(&v.case))
                .unwrap()
                .join()
                .unwrap_or_else(|_| Err("HARNESS-ERROR replay thread".into()));
            match r {
                Ok(()) => 0,
                Err(m) => {
                    let mut f = std::fs::File::create(&args[3]).unwrap();
                    let _ = f.write_all(m.as_bytes());
                    if m.contains("HARNESS-ERROR") {
                        5
                    } else {
                        1
                    }
                }
            }
        }
        Some("replay") => {
            let tmp = TempDir::new("replay");
            let v: Violation = from_json(&std::fs::read(&args[2]).expect("replay file")).expect("replay json");
            match replay_in_child(&v.property, &v.sub, &v.case, &tmp.0) {
                Ok(()) => {
                    println!("replay passes: property={} sub={}", v.property, v.sub);
                    0
                }
                Err(m) => {
                    println!("replay fails: property={} sub={}: {}", v.property, v.sub, m);
                    1
                }
            }
        }
        _ => {
            eprintln!("usage: wzpbt run <ID> | replay <FILE> | list");
            3
        }
    };
    exit(code)
}
