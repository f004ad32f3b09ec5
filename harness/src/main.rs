mod engine;
mod models;
mod positional;
mod props;
mod words;

use engine::*;
use serde_json::json;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

fn verif() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

/// Lines `open: property=<id> case=<json string> <what>`.
fn known(id: &str) -> Vec<(String, String)> {
    let text = std::fs::read_to_string(format!("{}/known-findings.txt", verif())).unwrap_or_default();
    let mut out = vec![];
    for line in text.lines() {
        if let Some(rest) = line.strip_prefix(&format!("open: property={id} case=")) {
            let mut it = serde_json::Deserializer::from_str(rest).into_iter::<String>();
            if let Some(Ok(case)) = it.next() {
                out.push((case, rest[it.byte_offset()..].trim().to_string()));
            }
        }
    }
    out
}

fn report_violation(id: &str, v: &Violation) {
    let dir = format!("{}/replays", verif());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{id}.json");
    let j = json!({"property": id, "case": v.case, "message": v.message,
        "how": format!("./run.sh {id} replay {path}")});
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap());
    println!("{id}: case {:?}", v.case.chars().take(400).collect::<String>());
    println!("{id}: {}", v.message.chars().take(1500).collect::<String>());
    println!("VIOLATION property={id} replay={path}");
    let _ = std::io::stdout().flush();
}

fn write_evidence(id: &str, thorough: bool, r: &Report, bounds: &str, start: Instant, violations: usize) {
    let exhaustive = violations == 0 && r.spaces.iter().all(|s| s.complete);
    let spaces: Vec<_> = r
        .spaces
        .iter()
        .map(|s| json!({"space": s.name, "cases": s.cases, "completed": s.complete}))
        .collect();
    let j = json!({
        "property": id,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": std::env::var("VERIF_SEED").ok().and_then(|v| v.parse::<i64>().ok()).unwrap_or(0),
        "level": "model_checking",
        "coverage": {
            "states": r.states,
            "transitions": r.transitions,
            "traces_validated_against_impl": r.compared,
            "closed_executions": r.cases,
            "samples": r.samples,
            "exhaustive": exhaustive,
            "spaces": spaces,
            "bounds": bounds,
            "counting": "states: distinct canonical model states; transitions: distinct (state, symbol, next state); both are lower bounds counted in a 2^31 bit table (bitstate hashing). traces: executions of the implementation compared with the model. closed_executions: enumerated cases.",
        },
        "assumptions": ["the reference models in /verif/harness/src/models are right (they were compared with Apache commons-codec 1.17.1, see DESIGN.md)",
            "words outside of the enumerated spaces are not covered"],
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": violations,
    });
    let dir = format!("{}/evidence", verif());
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(format!("{dir}/{id}.json"), serde_json::to_string_pretty(&j).unwrap()).expect("evidence");
}

/// Seconds that making a property may last. Some compile the library in other ways.
const CONSTRUCTION_SECONDS: u64 = 300;

/// Execute `f`, or `late` if it lasts more than some seconds.
fn limited<R>(seconds: u64, late: impl FnOnce() + Send, f: impl FnOnce() -> R) -> R {
    let (over, wait) = std::sync::mpsc::channel::<()>();
    std::thread::scope(|s| {
        let watch = s.spawn(move || {
            if wait.recv_timeout(Duration::from_secs(seconds)) == Err(std::sync::mpsc::RecvTimeoutError::Timeout) {
                late();
            }
        });
        let r = f();
        drop(over);
        // The end of the scope only waits for the end of the closure, and some cases fork.
        let _ = watch.join();
        r
    })
}

/// The property and its bounds: both make encoders.
fn made(id: &str, thorough: bool) -> Option<(Box<dyn Prop>, String)> {
    let prop = props::get(id)?;
    let bounds = prop.bounds(thorough);
    Some((prop, bounds))
}

/// Runs in the child.
fn explore(id: &str, thorough: bool, slots: Slots) -> i32 {
    let start = Instant::now();
    let late = || {
        report_violation(
            id,
            &Violation {
                case: CONSTRUCTION.into(),
                message: format!("constructing the encoders with their documented constructors does not end within {CONSTRUCTION_SECONDS} s"),
            },
        );
        unsafe { libc::_exit(1) };
    };
    let (prop, bounds) = match limited(CONSTRUCTION_SECONDS, late, || catch_unwind(AssertUnwindSafe(|| made(id, thorough)))) {
        Ok(Some(p)) => p,
        Ok(None) => {
            eprintln!("unknown property {id}");
            return 2;
        }
        Err(_) => {
            report_violation(
                id,
                &Violation {
                    case: CONSTRUCTION.into(),
                    message: "constructing the encoders with their documented constructors panics".into(),
                },
            );
            return 1;
        }
    };
    let known = known(id);
    let budget = Duration::from_secs(if thorough { 3000 } else { 600 });
    let ctx = Ctx::new(&*prop, thorough, slots, known.iter().map(|v| v.0.clone()).collect(), budget);
    let on_hang = |ctx: &Ctx, case: &str| {
        let v = Violation {
            case: case.to_string(),
            message: format!("does not end within {} s", prop.hang_seconds()),
        };
        report_violation(id, &v);
        write_evidence(id, thorough, &ctx.report(), &bounds, start, 1);
        unsafe { libc::_exit(1) };
    };
    let mut r = ctx.run(&on_hang);
    for (case, what) in &known {
        if r.known_hit.contains(case) {
            println!("KNOWN-FINDING: property={id} {what}");
        }
    }
    r.violations.sort_by_key(|v| (v.case.len(), v.case.clone()));
    let violations = std::mem::take(&mut r.violations);
    write_evidence(id, thorough, &r, &bounds, start, violations.len());
    let first = violations.into_iter().next();
    let code = match first {
        None => {
            println!(
                "{id}: held on {} executions ({} cases, {} states, {} transitions) in {:.1} s",
                r.compared,
                r.cases,
                r.states,
                r.transitions,
                start.elapsed().as_secs_f64()
            );
            for s in &r.spaces {
                println!("  {} [{} cases{}]", s.name, s.cases, if s.complete { "" } else { ", NOT completed" });
            }
            0
        }
        Some(v) => {
            let first = Violation {
                case: v.case.clone(),
                message: v.message.clone(),
            };
            // A shorter case may not end.
            let late = || {
                report_violation(id, &first);
                unsafe { libc::_exit(1) };
            };
            report_violation(id, &limited(60, late, || ctx.shrink(v)));
            1
        }
    };
    let _ = std::io::stdout().flush();
    code
}

fn fork<F: FnOnce() -> i32>(f: F) -> i32 {
    unsafe {
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let lim = libc::rlimit {
                rlim_cur: 24 << 30,
                rlim_max: 24 << 30,
            };
            libc::setrlimit(libc::RLIMIT_AS, &lim);
            let none = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &none);
            let c = f();
            libc::_exit(c);
        }
        let mut status = 0;
        while libc::waitpid(pid, &mut status, 0) < 0 {}
        if libc::WIFEXITED(status) {
            libc::WEXITSTATUS(status)
        } else {
            128 + libc::WTERMSIG(status)
        }
    }
}

/// Run one case in this process. 0: conforms, 1: doesn't.
fn single(id: &str, case: &str) -> i32 {
    let case = case.to_string();
    let id = id.to_string();
    std::thread::Builder::new()
        .stack_size(2 << 20)
        .spawn(move || {
            let prop = props::get(&id).expect("property");
            if case == CONSTRUCTION {
                prop.bounds(false);
                return 0;
            }
            match guarded(&*prop, &case) {
                Ok(_) => 0,
                Err(m) => {
                    println!("{m}");
                    1
                }
            }
        })
        .unwrap()
        .join()
        .unwrap_or(1)
}

/// Directory where the checks write configurations. The parent process removes it, even if the child dies.
struct Scratch(std::path::PathBuf);

impl Scratch {
    fn new() -> Self {
        // A process of another check works in its directory.
        if let Ok(outer) = std::env::var("VERIF_SCRATCH") {
            if std::path::Path::new(&outer).is_dir() {
                return Scratch("".into());
            }
        }
        let base = if std::path::Path::new("/dev/shm").is_dir() {
            "/dev/shm".into()
        } else {
            std::env::temp_dir()
        };
        let dir = base.join(format!("rphonetic-verif-{}", std::process::id()));
        let dir = match std::fs::create_dir_all(&dir) {
            Ok(()) => dir,
            Err(_) => {
                let dir = std::env::temp_dir().join(format!("rphonetic-verif-{}", std::process::id()));
                std::fs::create_dir_all(&dir).expect("scratch directory");
                dir
            }
        };
        std::env::set_var("VERIF_SCRATCH", &dir);
        Scratch(dir)
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        if self.0.file_name().is_some_and(|n| n.to_string_lossy().starts_with("rphonetic-verif-")) {
            let _ = std::fs::remove_dir_all(&self.0);
        }
    }
}

fn hang_seconds(id: &str) -> u64 {
    if id == "C03" {
        props::threads::HANG
    } else {
        HANG_SECONDS
    }
}

fn exit(scratch: Scratch, code: i32) -> ! {
    drop(scratch);
    std::process::exit(code)
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).cloned().unwrap_or_default();
    let mode = args.get(2).cloned().unwrap_or_else(|| "quick".into());
    install_panic_hook();
    let slots = Slots::new();
    let scratch = Scratch::new();
    if id == "setup" {
        props::builds::prepare();
        exit(scratch, 0);
    }
    if mode == "replay" {
        let text = std::fs::read_to_string(&args[3]).expect("replay file");
        let j: serde_json::Value = serde_json::from_str(&text).expect("json");
        let case = j["case"].as_str().expect("case").to_string();
        if case == BETWEEN {
            exit(scratch, fork(|| explore(&id, false, slots)));
        }
        let c = fork(|| {
            unsafe { libc::alarm(2 * hang_seconds(&id) as u32) };
            single(&id, &case)
        });
        println!(
            "{}",
            if c == 0 {
                "conforms".to_string()
            } else {
                format!("VIOLATION property={id} replay={} (code {c})", args[3])
            }
        );
        exit(scratch, (c != 0) as i32);
    }
    if mode == "case" {
        exit(scratch, single(&id, &args[3]));
    }
    let thorough = mode == "thorough" || std::env::var("VERIF_TIER").as_deref() == Ok("thorough");
    let code = fork(|| explore(&id, thorough, slots));
    if code == 0 || code == 1 || code == 2 {
        exit(scratch, code);
    }
    // The child died: find out the case that kills it.
    println!("{id}: the exploration process died (code {code}), executing again the cases that were running");
    let _ = std::io::stdout().flush();
    let start = Instant::now();
    let mut cases = slots.in_flight();
    cases.push(CONSTRUCTION.into());
    for case in cases {
        let c = fork(|| {
            unsafe { libc::alarm(2 * hang_seconds(&id) as u32) };
            single(&id, &case)
        });
        if c != 0 {
            report_violation(
                &id,
                &Violation {
                    case,
                    message: format!("the process dies (code {c}: stack overflow, abort or out of memory)"),
                },
            );
            let r = Report {
                states: 0,
                transitions: 0,
                cases: 0,
                compared: 1,
                violations: vec![],
                known_hit: vec![],
                samples: vec![],
                spaces: vec![],
            };
            write_evidence(&id, thorough, &r, "died", start, 1);
            exit(scratch, 1);
        }
    }
    eprintln!("{id}: no single case reproduces the death of the exploration process");
    exit(scratch, 3);
}
