mod cmd;
mod engine;
mod gen;
mod io;
mod logcap;
mod model;
mod props;
mod scratch;
mod supervise;

use std::path::{Path, PathBuf};
use std::time::Duration;

use engine::*;
use serde_json::Value;

#[global_allocator]
static ALLOC: supervise::Counting = supervise::Counting;

pub fn env_u64(name: &str, default: u64) -> u64 {
    std::env::var(name)
        .ok()
        .and_then(|s| s.trim().parse().ok())
        .unwrap_or(default)
}

pub fn verif_dir() -> PathBuf {
    std::env::var_os("PBT_VERIF_DIR").map_or_else(|| PathBuf::from("/verif"), PathBuf::from)
}

fn replay_file(prop: &Property, path: &Path) -> Result<CheckResult, String> {
    let text = std::fs::read_to_string(path).map_err(|e| format!("{path:?}: {e}"))?;
    let v: Value = serde_json::from_str(&text).map_err(|e| format!("{path:?}: {e}"))?;
    let sub = v["sub_check"].as_str().unwrap_or("");
    let s = prop
        .subs
        .iter()
        .find(|s| s.name() == sub)
        .ok_or_else(|| format!("{path:?}: no sub-check {sub:?}"))?;
    supervise::set_sub(sub);
    s.replay(&v["input"])
}

fn main() {
    install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let props: &'static [Property] = Box::leak(props::all().into_boxed_slice());
    match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for p in props {
                println!("{} {}", p.id, p.level);
            }
        }
        Some("run") | Some("run-here") => {
            let id = &args[2];
            let tier = args.get(3).map_or("quick", |s| s.as_str());
            let Some(prop) = props.iter().find(|p| p.id == id) else {
                eprintln!("unknown property {id}");
                std::process::exit(2);
            };
            if args[1] == "run" {
                supervised(prop, tier);
            }
            run(prop, tier == "thorough");
        }
        Some("replay") => match {
            let r = supervise::probe_file(Path::new(&args[2]), supervise::CASE_CPU_S);
            scratch::cleanup();
            r
        } {
            supervise::Probe::Holds => println!("holds"),
            supervise::Probe::Fails(m) => {
                println!("fails: {m}");
                std::process::exit(1)
            }
            supervise::Probe::Invalid => {
                eprintln!("cannot be replayed (pbt probe FILE says why)");
                std::process::exit(2)
            }
        },
        // one case, unsupervised, in this process
        Some("probe") => {
            let text = std::fs::read_to_string(&args[2]).expect("replay file");
            let v: Value = serde_json::from_str(&text).expect("json");
            let id = v["property"].as_str().unwrap_or("").to_string();
            let prop = props.iter().find(|p| p.id == id).expect("property");
            let r = supervise::on_case_thread(|| replay_file(prop, Path::new(&args[2])));
            scratch::cleanup();
            match r {
                Ok(Ok(())) => println!("holds"),
                Ok(Err(m)) => {
                    println!("fails: {m}");
                    std::process::exit(1)
                }
                Err(e) => {
                    eprintln!("{e}");
                    std::process::exit(2)
                }
            }
        }
        _ => {
            eprintln!("usage: pbt list | run ID [quick|thorough] | replay FILE");
            std::process::exit(2);
        }
    }
}

/// Runs the check in a child process, and reports a case that ended it or never returned.
fn supervised(prop: &Property, tier: &str) -> ! {
    use std::io::Read;
    use std::os::fd::FromRawFd;
    use std::os::unix::process::CommandExt;
    let started = std::time::Instant::now();
    let scratch = scratch::fresh("child");
    let mut fds = [0i32; 2];
    if unsafe { libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC) } != 0 {
        eprintln!("no pipe");
        std::process::exit(2);
    }
    let (r, w) = (fds[0], fds[1]);
    let mut cmd = std::process::Command::new(std::env::current_exe().expect("own path"));
    cmd.args(["run-here", prop.id, tier]);
    cmd.env("TMPDIR", &scratch).env("PBT_REPORT_FD", w.to_string());
    unsafe {
        cmd.pre_exec(move || {
            libc::fcntl(w, libc::F_SETFD, 0);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
    let mut child = match cmd.spawn() {
        Ok(c) => c,
        Err(e) => {
            eprintln!("cannot run myself: {e}");
            std::process::exit(2);
        }
    };
    unsafe { libc::close(w) };
    let mut text = String::new();
    let _ = unsafe { std::fs::File::from_raw_fd(r) }.read_to_string(&mut text);
    let status = child.wait();
    let code = status.as_ref().ok().and_then(|s| s.code());
    if code != Some(supervise::HANDED_OVER) {
        scratch::cleanup();
        if code.is_none() {
            eprintln!("the check was ended: {status:?}");
        }
        std::process::exit(code.unwrap_or(3));
    }
    let report_value: Value = serde_json::from_str(&text).unwrap_or(Value::Null);
    let found = supervise::investigate(prop.id, &report_value, &scratch::fresh("probe"));
    scratch::cleanup();
    match found {
        Err(e) => {
            eprintln!("{e}");
            std::process::exit(3)
        }
        Ok((sub, msg, input, begun)) => {
            // the run ended there: what it covered is the number of cases begun
            let evidence = serde_json::json!({
                "property": prop.id, "tier": tier, "seed": env_u64("VERIF_SEED", 1),
                "level": prop.level,
                "coverage": {
                    "evaluations": begun, "distinct_nontrivial": 0,
                    "rule": format!("{} (ended by a case that did not return)", prop.rule),
                    "samples": [{"sub_check": sub, "case": input}],
                },
                "assumptions": prop.assumptions,
                "wall_s": started.elapsed().as_secs_f64(),
                "violations": 1,
            });
            write_evidence(prop.id, &evidence);
            report(prop.id, &sub, &msg, &input)
        }
    }
}

fn write_evidence(id: &str, evidence: &Value) {
    let ev = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&ev);
    let text = serde_json::to_string_pretty(evidence).unwrap() + "\n";
    if let Err(e) = std::fs::write(ev.join(format!("{id}.json")), text) {
        eprintln!("cannot write evidence: {e}");
        std::process::exit(2);
    }
}

fn run(prop: &'static Property, thorough: bool) {
    let seed = env_u64("VERIF_SEED", 1);
    let cap = env_u64("PBT_CAP_S", 600);
    // Never an answer by clock: running out of time is an error exit, not a violation.
    let limit = Duration::from_secs(env_u64("PBT_WATCHDOG_S", 840));
    std::thread::spawn(move || {
        std::thread::sleep(limit);
        eprintln!("watchdog: no answer after {limit:?}");
        scratch::cleanup();
        std::process::exit(3);
    });
    let verif = verif_dir();
    if let Ok(fd) = std::env::var("PBT_REPORT_FD") {
        supervise::start(fd.parse().unwrap_or(2));
    }
    // 1. saved inputs first (regressions found earlier, each with its sub-check)
    let mut saved = 0;
    let mut violation: Option<(String, String, Value)> = None;
    let dir = verif.join("regressions").join(prop.id);
    let mut files: Vec<PathBuf> = std::fs::read_dir(&dir)
        .map(|d| d.filter_map(|e| e.ok().map(|e| e.path())).collect())
        .unwrap_or_default();
    files.sort();
    for f in files {
        match supervise::on_case_thread(|| replay_file(prop, &f)) {
            Ok(Ok(())) => saved += 1,
            Ok(Err(m)) => {
                let v: Value =
                    serde_json::from_str(&std::fs::read_to_string(&f).unwrap()).unwrap();
                violation = Some((
                    v["sub_check"].as_str().unwrap_or("").to_string(),
                    m,
                    v["input"].clone(),
                ));
                break;
            }
            Err(e) => {
                eprintln!("{e}");
                std::process::exit(2);
            }
        }
    }
    // 2. generated inputs
    let mut out = run_property(prop, seed, thorough, cap);
    out.evidence["coverage"]["saved_inputs_replayed"] = Value::from(saved);
    if violation.is_none() {
        violation = out.violation.take();
    }
    out.evidence["violations"] = Value::from(u32::from(violation.is_some()));
    write_evidence(prop.id, &out.evidence);
    scratch::cleanup();
    let c = &out.evidence["coverage"];
    println!(
        "{} {}: {} cases, {} distinct non-trivial, {} saved inputs, {:.1}s",
        prop.id,
        if thorough { "thorough" } else { "quick" },
        c["evaluations"],
        c["distinct_nontrivial"],
        saved,
        out.evidence["wall_s"].as_f64().unwrap_or(0.0)
    );
    if let Some((sub, msg, input)) = violation {
        report(prop.id, &sub, &msg, &input);
    }
}

/// Writes the replay file, prints the violation and ends the process.
fn report(id: &str, sub: &str, msg: &str, input: &Value) -> ! {
    let rdir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&rdir);
    let path = rdir.join(format!("{id}-{sub}.json"));
    let body = serde_json::json!({
        "property": id, "sub_check": sub, "message": msg, "input": input,
    });
    if let Err(e) = std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap() + "\n") {
        eprintln!("cannot write replay file: {e}");
    }
    println!("{id} [{sub}] {msg}");
    println!("VIOLATION property={id} replay={}", path.display());
    std::process::exit(1);
}
