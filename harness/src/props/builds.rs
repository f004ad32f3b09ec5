//! C33: every set of features, with or without debug assertions, gives the same codes.
#[path = "../../../builds/src/codes.rs"]
mod codes;

use crate::engine::{obs, Ctx, Obs, PerThread, Prop};
use crate::words::{self, expand};
use codes::{codes, encoders, Encoders};
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

/// Name, features, profile.
const VARIANTS: [(&str, &str, &str); 5] = [
    ("none", "", "release"),
    ("bm", "bm", "release"),
    ("dm", "dm", "release"),
    ("all", "bm dm", "small"),
    ("debug", "bm dm", "dev"),
];

fn home() -> PathBuf {
    Path::new(concat!(env!("CARGO_MANIFEST_DIR"), "/../builds")).to_path_buf()
}

/// Build the library with a set of features: what gives the codes, or why it can't be built.
fn build((name, features, profile): (&str, &str, &str)) -> Result<PathBuf, String> {
    let target = home().join("target").join(name);
    let dir = if profile == "dev" { "debug" } else { profile };
    // As in run.sh: the library under test is always built again
    if let Ok(all) = std::fs::read_dir(target.join(dir).join(".fingerprint")) {
        for e in all.flatten() {
            if e.file_name().to_string_lossy().starts_with("rphonetic-") {
                let _ = std::fs::remove_dir_all(e.path());
            }
        }
    }
    let out = Command::new("cargo")
        .args(["build", "--offline", "-q", "--profile", profile, "--features", features, "--target-dir"])
        .arg(&target)
        .current_dir(home())
        .output()
        .expect("cargo");
    if !out.status.success() {
        return Err(String::from_utf8_lossy(&out.stderr).chars().take(1500).collect());
    }
    Ok(target.join(dir).join("builds"))
}

/// The process that runs a variant.
struct Runner {
    path: PathBuf,
    running: RefCell<Option<(Child, ChildStdin, BufReader<ChildStdout>)>>,
}

impl Runner {
    fn new(path: &Path) -> Self {
        Runner {
            path: path.to_path_buf(),
            running: RefCell::new(None),
        }
    }
    fn codes(&self, text: &str) -> Option<Vec<(String, String)>> {
        let mut running = self.running.borrow_mut();
        if running.is_none() {
            let mut command = Command::new(&self.path);
            command.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null());
            // If it never ends nobody waits for it
            unsafe {
                command.pre_exec(|| {
                    let hour = libc::rlimit { rlim_cur: 3600, rlim_max: 3600 };
                    libc::setrlimit(libc::RLIMIT_CPU, &hour);
                    Ok(())
                })
            };
            let mut c = command.spawn().expect("the variant starts");
            let (i, o) = (c.stdin.take().unwrap(), BufReader::new(c.stdout.take().unwrap()));
            *running = Some((c, i, o));
        }
        let (_, i, o) = running.as_mut().unwrap();
        let mut line = String::new();
        let asked = writeln!(i, "{}", serde_json::to_string(text).unwrap()).and_then(|_| i.flush());
        let read = asked.and_then(|_| o.read_line(&mut line));
        match (read, serde_json::from_str(&line)) {
            (Ok(_), Ok(v)) => Some(v),
            _ => {
                let (mut c, i, _) = running.take().unwrap();
                drop(i);
                let _ = c.kill();
                let _ = c.wait();
                None
            }
        }
    }
}

pub struct Builds {
    built: Vec<(&'static str, Result<PathBuf, String>)>,
    here: PerThread<(Encoders, Vec<(&'static str, Runner)>)>,
}

/// Compile the variants and their dependencies.
pub fn prepare() {
    for (name, b) in builds().built {
        println!("{name}: {}", if b.is_ok() { "built" } else { "can't be built" });
    }
}

pub fn builds() -> Builds {
    // The one with debug assertions is what the harness is, apart from optimisation: only when there's time.
    let thorough = std::env::args().any(|a| a == "thorough");
    let list = &VARIANTS[..if thorough { 5 } else { 4 }];
    let built: Vec<(&'static str, Result<PathBuf, String>)> = std::thread::scope(|s| {
        let t: Vec<_> = list.iter().map(|v| s.spawn(|| (v.0, build(*v)))).collect();
        t.into_iter().map(|t| t.join().expect("build")).collect()
    });
    let paths: Vec<(&'static str, PathBuf)> = built.iter().filter_map(|(n, p)| Some((*n, p.clone().ok()?))).collect();
    Builds {
        built,
        here: PerThread::new(move || (encoders(), paths.iter().map(|(n, p)| (*n, Runner::new(p))).collect())),
    }
}

impl Prop for Builds {
    fn check(&self, case: &str) -> Result<Obs, String> {
        for (name, b) in &self.built {
            if let Err(e) = b {
                return Err(format!("the library can't be built with these features ({name}): {e}"));
            }
        }
        let (e, others) = self.here.get();
        let text = expand(case);
        let expected = codes(e, &text);
        let mut n = 0;
        for (name, r) in others {
            let Some(got) = r.codes(&text) else {
                return Err(format!("the library built as {name} fails on {text:?}, but gives {expected:?} with all features and debug assertions"));
            };
            let mut it = expected.iter();
            for (k, v) in &got {
                // Those that need a feature are missing without it
                let Some((_, x)) = it.by_ref().find(|(e, _)| e == k) else {
                    return Err(format!("{name}: {k} isn't expected"));
                };
                n += 1;
                if v != x {
                    return Err(format!("{k} on {text:?}: {v:?} when built as {name}, {x:?} with all features and debug assertions"));
                }
            }
        }
        obs(&expected, n)
    }
    fn explore(&self, ctx: &Ctx) {
        let t = ctx.thorough;
        ctx.sequences("letters", &words::LETTERS, if t { 4 } else { 3 });
        let mut frag: Vec<&str> = words::LOWER.to_vec();
        frag.extend([
            "sch", "tsch", "ch", "cz", "sz", "rz", "gh", "gn", "kn", "ph", "pf", "tch", "ck", "mb", "tio", "sio", "dge", "mac", "ough", "wr", "wh", "mn", "nm", "ai",
            "ee", "ss", "x", "é", "ß", "ę", "ţ", " ", "-", "'", "d'", "van ", "de la ", "witz", "ski",
        ]);
        ctx.sequences("fragments", &frag, if t { 3 } else { 2 });
        let mut s: Vec<&str> = words::SPECIAL.to_vec();
        s.extend(words::PUNCT);
        s.extend(["a", "K", "sch"]);
        ctx.sequences("special characters", &s, 2);
        let few = ["c", "h", "g", "a", "n", "s", "m", "é"];
        ctx.sequences("few letters", &few, if t { 6 } else { 5 });
        ctx.indexed("every Unicode scalar value", if t { 0x110000 } else { 0x3100 }, 256, &|i| {
            Some(format!("a{}n", char::from_u32(i as u32)?))
        });
        let mut longs = vec![];
        for v in ["a", "b", "sch", "é", " ", "-", "tz", "w", "gh"] {
            for n in [5, 10, 20, 50, 300] {
                if n * v.len() <= 150 {
                    longs.push(words::rep("", v, n, ""));
                    longs.push(words::rep("M", v, n, "er"));
                }
            }
        }
        ctx.list("periodic long words", &longs);
    }
    fn bounds(&self, t: bool) -> String {
        format!("the four sets of features, without debug assertions nor overflow checks (all features: optimised for size, link time optimisation, panics that abort){}, against all features with both; all encoders on all words of up to {} letters, {} of 65 fragments, {} of 8 letters, pairs of special characters, Unicode scalar values up to {}", if t { ", and without optimisation" } else { "" }, if t { 4 } else { 3 }, if t { 3 } else { 2 }, if t { 6 } else { 5 }, if t { "U+10FFFF" } else { "U+3100" })
    }
}
