//! Calls don't depend on what was called before, whatever the encoder, the configuration and the word.
use super::bm::{build, engine, shipped_dir, shipped_model, Setup};
use super::bmcustom::{base, model, revealing, transparent, Disk, Files};
use super::encoders::{self, Imps};
use super::meta::{diff, same_place, IDS};
use super::{dm, SEP};
use crate::engine::{hash, obs, Ctx, Obs, Prop};
use crate::models::{bm as bm_model, dm as dm_model, mra, soundex};
use crate::words;
use rphonetic::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;

/// One call: which instance, with which argument, and what it must return.
pub struct Op {
    pub instance: usize,
    pub arg: String,
    pub expected: String,
}

pub struct Family {
    pub name: String,
    /// Instances. They are only made in forked processes.
    pub make: Box<dyn Fn() -> Imps + Sync>,
    /// What an instance must return.
    pub model: Box<dyn Fn(usize, &str) -> String + Sync>,
    pub ops: Vec<Op>,
    pub instances: usize,
    /// Longest words of the histories with words of all lengths.
    longest: usize,
}

impl Family {
    /// Words of n characters, each unlike the first one by one character, its case or its order. A comparison gets two of them.
    fn of_length(&self, n: usize) -> Vec<String> {
        let text = "Rosochowaciecowski mülleRgh schatzmbtczartjoknuchtpfistero'quaxverywhe";
        let first: Vec<char> = text.chars().cycle().take(n).collect();
        let mut all = vec![first.clone()];
        if n > 0 {
            for i in [0, n / 2, n - 1] {
                let mut w = first.clone();
                w[i] = if w[i] == 'm' { 'x' } else { 'm' };
                all.push(w);
            }
            let mut w = first.clone();
            w.reverse();
            all.push(w);
            all.push(first.iter().map(|c| c.to_ascii_uppercase()).collect());
            let mut w = first.clone();
            w[n - 1] = 'é';
            all.push(w);
            // Same beginning or same end
            for end in ["ski", "oux", "vich", "A", "ght"] {
                if end.len() < n {
                    all.push(first[..n - end.len()].iter().copied().chain(end.chars()).collect());
                    all.push(end.chars().chain(first[end.len()..].iter().copied()).collect());
                }
            }
        }
        let mut all: Vec<String> = all.into_iter().map(|w| w.into_iter().collect()).collect();
        all.push(all[0].clone());
        if self.name.ends_with("comparisons") {
            for i in 0..all.len() {
                all[i] = format!("{}{SEP}{}", all[i], all[0]);
            }
        }
        all
    }
}

/// Words that are easily taken for one another: same length, beginning, end, letters, folding, case...
const WORDS: &[&str] = &[
    "", "Ashcraft", "Ashcroft", "ashcraft", "tfarchsA", "Ash", "a", "é", "Müller", "Thumbs", "Schmidt", "12", "Éa Ch", "Knight", "ñaçą",
];

fn family(
    name: &str,
    instances: usize,
    words: &[&str],
    make: impl Fn() -> Imps + Sync + 'static,
    model: impl Fn(usize, &str) -> String + Sync + 'static,
) -> Family {
    let mut ops = vec![];
    for w in words {
        for i in 0..instances {
            ops.push(Op {
                instance: i,
                arg: w.to_string(),
                expected: model(i, w),
            });
        }
    }
    Family {
        name: name.into(),
        make: Box::new(make),
        model: Box::new(model),
        ops,
        instances,
        longest: match name {
            "BeiderMorse" | "all" => 26,
            "shipped Beider-Morse" => 5,
            _ => 140,
        },
    }
}

/// The custom configuration of the Beider-Morse families, without its files.
pub fn bm_files() -> Files {
    let mut f = transparent();
    for (k, v) in revealing() {
        if !k.starts_with("gen_rules") {
            f.insert(k, v);
        }
    }
    f.insert("gen_lang".into(), "^v la true\n^A lb true\n^a lb true\nki$ la true\nux$ lb true\nth la false\n".into());
    f.insert(
        "gen_rules_lb".into(),
        format!("{}{}", "\"a\" \"\" \"\" \"(a|o[lb])\"\n", base()["gen_rules_lb"].clone() + &f["gen_rules_lb"]),
    );
    f
}

const BM_SETUPS: [Setup; 6] = [
    Setup {
        t: "gen",
        kind: "approx",
        concat: true,
        max: 20,
    },
    Setup {
        t: "gen",
        kind: "exact",
        concat: true,
        max: 20,
    },
    Setup {
        t: "gen",
        kind: "approx",
        concat: false,
        max: 1,
    },
    Setup {
        t: "ash",
        kind: "approx",
        concat: true,
        max: 20,
    },
    Setup {
        t: "sep",
        kind: "approx",
        concat: true,
        max: 20,
    },
    Setup {
        t: "sep",
        kind: "exact",
        concat: false,
        max: 20,
    },
];

/// Put the configurations in a scratch directory: the usual one, and another one and a wrong one in directories inside.
pub fn put_configurations(disk: &Disk) {
    disk.put(&bm_files().into_iter().map(|(k, v)| (k, v.into_bytes())).collect());
    for (name, files) in other_files() {
        let dir = disk.dir.join(name);
        std::fs::create_dir_all(&dir).expect("scratch");
        for (k, v) in files {
            std::fs::write(dir.join(format!("{k}.txt")), v).expect("scratch");
        }
    }
}

/// Configurations that are loaded: name of the directory and content.
fn other_files() -> Vec<(&'static str, Files)> {
    let mut other = base();
    other.insert("gen_rules_any".into(), "\"a\" \"\" \"\" \"(o|u[lb])\"\n\"v\" \"\" \"\" \"w\"\n".into());
    other.insert("gen_rules_lb".into(), "\"a\" \"\" \"\" \"b\"\n".into());
    other.insert("gen_lang".into(), "b la false\n".into());
    let mut wrong = other.clone();
    wrong.insert("gen_rules_la".into(), "\"a\" \"\" \"\" \"x\"\n/* a\n*/\nx\n".into());
    let mut includes = other.clone();
    includes.insert("gen_rules_la".into(), "#include nothing\n".into());
    vec![("other", other), ("wrong", wrong), ("includes", includes)]
}

const MADE: Setup = Setup {
    t: "gen",
    kind: "approx",
    concat: true,
    max: 20,
};

fn loaded(dir: &std::path::Path, name: &str) -> String {
    match ConfigFiles::new(&dir.join(name)) {
        Ok(c) => build(&c, MADE).encode("ava ab"),
        Err(PhoneticError::ParseRuleError(e)) => format!("line {} {:?}", e.line_number, e.line_content),
        Err(_) => "error".into(),
    }
}

fn loaded_model(name: &str) -> String {
    let files = if name.is_empty() {
        Some(bm_files())
    } else {
        other_files().into_iter().find(|f| f.0 == name).map(|f| f.1)
    };
    match files.map(|f| model(&f)) {
        Some(Ok(c)) => engine(&c, MADE).encode("ava ab"),
        Some(Err(f)) => match f.line {
            Some((n, l)) if !f.inside => format!("line {n} {l:?}"),
            _ => "error".into(),
        },
        None => "error".into(),
    }
}

/// What makes encoders: the argument is a rule text, a mapping or a directory.
fn makers(dir: PathBuf) -> Imps {
    let made = |t: &str, folding: bool| match DaitchMokotoffSoundexBuilder::with_rules(t).ascii_folding(folding).build() {
        Ok(e) => e.soundex("aébm"),
        Err(PhoneticError::ParseRuleError(e)) => format!("line {} {:?}", e.line_number, e.line_content),
        Err(e) => format!("{e:?}"),
    };
    vec![
        ("DaitchMokotoffSoundexBuilder".into(), Box::new(move |t: &str| made(t, true)) as encoders::Imp),
        ("DaitchMokotoffSoundexBuilder without folding".into(), Box::new(move |t: &str| made(t, false))),
        (
            "Soundex from a mapping".into(),
            Box::new(|t: &str| t.parse::<Soundex>().map_or("refused".into(), |e| e.encode("ABHBWZ"))),
        ),
        (
            "RefinedSoundex from a mapping".into(),
            Box::new(|t: &str| t.parse::<RefinedSoundex>().map_or("refused".into(), |e| e.encode("ABHBWZ"))),
        ),
        ("ConfigFiles".into(), Box::new(move |t: &str| loaded(&dir, t))),
    ]
}

fn made_model(i: usize, t: &str) -> String {
    match i {
        0 | 1 => match dm_model::parse(t) {
            Ok(p) => dm_model::codes(&p, i == 0, "aébm", true).join("|"),
            Err(f) => format!("line {} {:?}", f.line, f.content),
        },
        2 | 3 => {
            let m: Vec<char> = t.chars().collect();
            if m.len() != 26 {
                "refused".into()
            } else if i == 2 {
                soundex::soundex(&m, !m.contains(&'-'), "ABHBWZ")
            } else {
                soundex::refined(&m, "ABHBWZ")
            }
        }
        _ => loaded_model(t),
    }
}

/// Arguments of the makers, the shortest ones first.
const MADE_OF: [&[&str]; 5] = [
    &[
        "\"a\" \"1\" \"2\" \"3\"\n",
        "x",
        "\"b\" \"1\" \"2\" \"3|4\"\né=b\n",
        "\"a\" \"5\" \"6\" \"7\"\n\"ab\" \"1\" \"2\" \"3\"\né=a\n",
        "/* a\n*/\n\"a\" \"1\" \"2\" \"3\"\n\"\" \"\" \"\" \"\"\n",
    ],
    &["\"a\" \"1\" \"2\" \"3\"\né=a\n", "é=", "\"é\" \"1\" \"2\" \"3\"\n"],
    &["A", soundex::US, soundex::GENEALOGY, "éèêëàâäîïôöùûüÿæœçñáíóúýþð", "012301200224550126230102"],
    &[soundex::US, "A", soundex::REFINED],
    &["", "nowhere", "other", "wrong", "includes"],
];

fn bm_imps(dir: PathBuf) -> Imps {
    let c: &'static ConfigFiles = Box::leak(Box::new(ConfigFiles::new(&dir).expect("a right configuration")));
    let mut v: Imps = vec![];
    let first = std::sync::Arc::new(build(c, BM_SETUPS[0]));
    for (i, s) in BM_SETUPS.into_iter().enumerate() {
        let b = if i == 0 { first.clone() } else { std::sync::Arc::new(build(c, s)) };
        v.push((format!("BeiderMorse {s:?}"), Box::new(move |w: &str| b.encode(w))));
    }
    let b = first;
    let (old, original) = ((*b).clone(), b.clone());
    v.push((
        "BeiderMorse with languages".into(),
        Box::new(move |w: &str| b.encode_with_languages(w, &LanguageSet::SomeLanguages(["la".to_string()].into()))),
    ));
    v.push(("a clone of the first BeiderMorse".into(), Box::new(move |w: &str| old.encode(w))));
    v.push((
        "a new clone of the first BeiderMorse, and its clone".into(),
        Box::new(move |w: &str| {
            let new = (*original).clone();
            both(new.encode(w), new.clone().encode(w))
        }),
    ));
    v
}

/// The same code twice.
fn both(a: String, b: String) -> String {
    if a == b {
        a
    } else {
        format!("{a} and {b}")
    }
}

fn chosen(id: &str) -> Vec<usize> {
    match id {
        "C04" => vec![0, 1, 3, 6],
        "C10" => vec![0, 1, 5, 1, 0],
        "C15" => vec![0, 3, 10],
        "C16" => vec![0, 2, 8],
        "C18" => vec![1, 4, 6],
        "C17" => vec![0, 1],
        "C05" => vec![0, 1],
        _ => vec![0],
    }
}

fn imps(id: &str) -> Imps {
    if id == "C10" {
        // One instance and its clones
        let e = std::sync::Arc::new(DaitchMokotoffSoundex::default());
        let (same, clone, original) = (e.clone(), (*e).clone(), e.clone());
        let f = DaitchMokotoffSoundexBuilder::default().ascii_folding(false).build().expect("built-in rules");
        return vec![
            ("DaitchMokotoffSoundex, encode".into(), Box::new(move |s: &str| e.encode(s)) as encoders::Imp),
            ("DaitchMokotoffSoundex, soundex".into(), Box::new(move |s: &str| same.soundex(s))),
            ("DaitchMokotoffSoundex without folding, soundex".into(), Box::new(move |s: &str| f.soundex(s))),
            ("a clone, soundex".into(), Box::new(move |s: &str| clone.soundex(s))),
            (
                "a new clone, encode, and its clone".into(),
                Box::new(move |s: &str| {
                    let new = (*original).clone();
                    both(new.encode(s), new.clone().inner_soundex(s, false).join("|"))
                }),
            ),
        ];
    }
    let all = encoders::imps(id);
    let keep = chosen(id);
    all.into_iter().enumerate().filter(|(i, _)| keep.contains(i)).map(|v| v.1).collect()
}

const SHIPPED: [Setup; 3] = [
    Setup {
        t: "gen",
        kind: "approx",
        concat: true,
        max: 20,
    },
    Setup {
        t: "gen",
        kind: "exact",
        concat: true,
        max: 20,
    },
    Setup {
        t: "ash",
        kind: "approx",
        concat: true,
        max: 10,
    },
];

const NAMES: [&str; 11] = [
    "Soundex",
    "RefinedSoundex",
    "Caverphone1",
    "Caverphone2",
    "Cologne",
    "DaitchMokotoffSoundex",
    "MatchRatingApproach",
    "Metaphone",
    "DoubleMetaphone",
    "Nysiis",
    "Phonex",
];

fn pair(s: &str) -> (&str, &str) {
    s.split_once(SEP).unwrap_or((s, ""))
}

/// `bm`: directory of the configuration.
pub fn families(bm: PathBuf, only: Option<&str>) -> Vec<Family> {
    let wanted = |name: &str| only.is_none_or(|o| o == name);
    let mut v = vec![];
    for (id, name) in IDS.iter().zip(NAMES) {
        if !wanted(name) {
            continue;
        }
        let m = diff(id).model;
        let keep = chosen(id);
        let n = keep.len();
        let mut words = WORDS.to_vec();
        if n == 1 {
            words.extend(["Peter", "Petra", "PETER", "Stevenson", "enough", "mb", "Ñandu", " "]);
        }
        v.push(family(name, n, &words, || imps(id), move |i, w| m(w)[keep[i]].clone()));
    }
    // Comparisons
    let us: Vec<char> = soundex::US.chars().collect();
    let ge: Vec<char> = soundex::GENEALOGY.chars().collect();
    let mut pairs = vec![];
    for a in ["Smith", "Smyth", "Ashcraft", "", "é"] {
        for b in ["Smith", "Schmidt", "Ashcroft", "Ash"] {
            pairs.push(format!("{a}{SEP}{b}"));
        }
    }
    let p: Vec<&str> = pairs.iter().map(|s| s.as_str()).collect();
    if wanted("comparisons") {
        v.push(family(
            "comparisons",
            3,
            &p,
            || {
                let (a, b, c) = (
                    Soundex::default(),
                    Soundex::from(DEFAULT_US_ENGLISH_GENEALOGY_MAPPING_SOUNDEX),
                    MatchRatingApproach,
                );
                vec![
                    (
                        "Soundex difference".into(),
                        Box::new(move |s: &str| a.difference(pair(s).0, pair(s).1).to_string()) as encoders::Imp,
                    ),
                    (
                        "Soundex genealogy equality".into(),
                        Box::new(move |s: &str| b.is_encoded_equals(pair(s).0, pair(s).1).to_string()),
                    ),
                    (
                        "MatchRatingApproach equality".into(),
                        Box::new(move |s: &str| c.is_encoded_equals(pair(s).0, pair(s).1).to_string()),
                    ),
                ]
            },
            move |i, s| {
                let (a, b) = pair(s);
                match i {
                    0 => same_place(&soundex::soundex(&us, true, a), &soundex::soundex(&us, true, b)).to_string(),
                    1 => (soundex::soundex(&ge, false, a) == soundex::soundex(&ge, false, b)).to_string(),
                    _ => mra::equals(a, b).to_string(),
                }
            },
        ));
    }
    if wanted("other comparisons") {
        let models: Vec<_> = ["C16", "C05", "C15", "C17", "C10"].iter().map(|id| diff(id).model).collect();
        let filip = format!("Filipowicz{SEP}Filipovich");
        let short: Vec<&str> = p.iter().step_by(2).copied().chain([filip.as_str()]).collect();
        v.push(family(
            "other comparisons",
            6,
            &short,
            || {
                let (all, two) = (DoubleMetaphone::new(None), DoubleMetaphone::new(Some(2)));
                let (re, me, ny, dm) = (
                    RefinedSoundex::default(),
                    Metaphone::new(None),
                    Nysiis::new(true),
                    DaitchMokotoffSoundex::default(),
                );
                let imp = |name: &str, f: Box<dyn Fn(&str, &str) -> String>| -> (String, encoders::Imp) {
                    (name.to_string(), Box::new(move |s: &str| f(pair(s).0, pair(s).1)))
                };
                vec![
                    imp("DoubleMetaphone alternate equality", Box::new(move |a, b| all.is_double_metaphone_equal(a, b, true).to_string())),
                    imp("DoubleMetaphone(2) primary equality", Box::new(move |a, b| two.is_double_metaphone_equal(a, b, false).to_string())),
                    imp("RefinedSoundex difference", Box::new(move |a, b| re.difference(a, b).to_string())),
                    imp("Metaphone equality", Box::new(move |a, b| me.is_encoded_equals(a, b).to_string())),
                    imp("Nysiis equality", Box::new(move |a, b| ny.is_encoded_equals(a, b).to_string())),
                    imp("DaitchMokotoffSoundex equality", Box::new(move |a, b| dm.is_encoded_equals(a, b).to_string())),
                ]
            },
            move |i, s| {
                let (a, b) = pair(s);
                // Model and configuration
                let (m, k) = [(0, 0), (0, 3), (1, 0), (2, 0), (3, 1), (4, 0)][i];
                let (x, y) = (models[m](a)[k].clone(), models[m](b)[k].clone());
                match i {
                    0 => (x.split_once('|').map(|v| v.1) == y.split_once('|').map(|v| v.1)).to_string(),
                    1 => (x.split_once('|').map(|v| v.0) == y.split_once('|').map(|v| v.0)).to_string(),
                    2 => same_place(&x, &y).to_string(),
                    _ => (x == y).to_string(),
                }
            },
        ));
    }
    // Beider-Morse
    let made = bm.clone();
    if wanted("BeiderMorse") {
        let m = model(&bm_files()).expect("a right configuration");
        let lb = m.set(&["la"]);
        let m: &'static bm_model::Config = Box::leak(Box::new(m));
        v.push(family(
            "BeiderMorse",
            9,
            &["", "ava", "va", "aba", "Aba", "van aba", "d'ava", "al-ab", "é", "o'b"],
            move || bm_imps(bm.clone()),
            move |i, w| {
                match i {
                    6 => engine(m, BM_SETUPS[0]).with(w, lb),
                    7 | 8 => engine(m, BM_SETUPS[0]).encode(w),
                    _ => engine(m, BM_SETUPS[i]).encode(w),
                }
            },
        ));
    }
    if wanted("makers") {
        let mut f = family("makers", 5, &[], move || makers(made.clone()), made_model);
        f.longest = 30;
        for (i, args) in MADE_OF.iter().enumerate() {
            for a in *args {
                f.ops.push(Op {
                    instance: i,
                    arg: a.to_string(),
                    expected: made_model(i, a),
                });
            }
        }
        v.push(f);
    }
    if wanted("shipped Beider-Morse") {
        v.push(family(
            "shipped Beider-Morse",
            3,
            &["Ostrowski", "Ostrovich", "d'Ortley", "van Ostade"],
            || {
                let c: &'static ConfigFiles = Box::leak(Box::new(ConfigFiles::new(&shipped_dir()).expect("the shipped rules")));
                SHIPPED
                    .into_iter()
                    .map(|s| {
                        let b = build(c, s);
                        (format!("BeiderMorse {s:?}, shipped rules"), Box::new(move |w: &str| b.encode(w)) as encoders::Imp)
                    })
                    .collect()
            },
            |i, w| engine(shipped_model(), SHIPPED[i]).encode(w),
        ));
    }
    if !wanted("all") {
        return v;
    }
    // All together
    let models: Vec<_> = IDS.iter().map(|id| diff(id).model).collect();
    v.push(family(
        "all",
        11,
        &["Ashcraft", "ashcroft", "é", "Schmidt", ""],
        || IDS.iter().map(|id| imps(id).remove(0)).collect(),
        move |i, w| models[i](w)[chosen(IDS[i])[0]].clone(),
    ));
    v
}

/// Lexicographically least sequence over 0..k where every word of length n is once (Fredricksen, Kessler, Maiorana).
pub fn de_bruijn(k: usize, n: usize) -> Vec<usize> {
    fn rec(t: usize, p: usize, k: usize, n: usize, a: &mut Vec<usize>, out: &mut Vec<usize>) {
        if t > n {
            if n % p == 0 {
                out.extend(&a[1..=p]);
            }
            return;
        }
        a[t] = a[t - p];
        rec(t + 1, p, k, n, a, out);
        for j in a[t - p] + 1..k {
            a[t] = j;
            rec(t + 1, t, k, n, a, out);
        }
    }
    let mut out = vec![];
    rec(1, 1, k, n, &mut vec![0; n + 1], &mut out);
    let head: Vec<usize> = out.iter().take(n - 1).copied().collect();
    out.extend(head);
    out
}

/// Run in a forked process: the library has never been used in it, as it is never used in this one.
pub fn isolated(f: &dyn Fn() -> Result<u64, String>) -> Result<u64, String> {
    const SIZE: usize = 1 << 14;
    unsafe {
        let shared = libc::mmap(
            std::ptr::null_mut(),
            SIZE,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        ) as *mut u8;
        assert!(shared as isize != -1, "mmap");
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let r = catch_unwind(AssertUnwindSafe(f)).unwrap_or_else(|_| Err(format!("panic: {}", crate::engine::last_panic())));
            let text = match r {
                Ok(n) => format!("+{n}"),
                Err(m) => format!("-{}", m.chars().take(3000).collect::<String>()),
            };
            std::ptr::copy_nonoverlapping(text.as_ptr(), shared, text.len().min(SIZE - 1));
            libc::_exit(0);
        }
        let mut status = 0;
        while libc::waitpid(pid, &mut status, 0) < 0 {}
        let bytes = std::slice::from_raw_parts(shared, SIZE);
        let n = bytes.iter().position(|b| *b == 0).unwrap_or(SIZE);
        let text = String::from_utf8_lossy(&bytes[..n]).to_string();
        libc::munmap(shared as *mut _, SIZE);
        match text.split_at_checked(1) {
            _ if status != 0 => Err(format!("the process dies (status {status})")),
            Some(("+", n)) => Ok(n.parse().unwrap_or(0)),
            Some((_, m)) => Err(m.to_string()),
            None => Err("the process says nothing".into()),
        }
    }
}

pub struct History {
    families: Vec<Family>,
    _dir: PathBuf,
}

pub fn history() -> History {
    let disk = Disk::new("history");
    put_configurations(&disk);
    History {
        families: families(disk.dir.clone(), None),
        _dir: disk.dir,
    }
}

struct Run<'a> {
    f: &'a Family,
    imps: Imps,
    past: Vec<usize>,
    n: u64,
}

impl<'a> Run<'a> {
    fn new(f: &'a Family) -> Self {
        Run {
            f,
            imps: (f.make)(),
            past: vec![],
            n: 0,
        }
    }
    fn describe(&self, op: usize) -> String {
        let o = &self.f.ops[op];
        format!("{}({:?})", self.imps[o.instance].0, o.arg)
    }
    fn call(&mut self, op: usize) -> Result<(), String> {
        let o = &self.f.ops[op];
        let got = (self.imps[o.instance].1)(&o.arg);
        self.n += 1;
        if got != o.expected {
            let past: Vec<String> = self.past.iter().rev().take(6).rev().map(|p| self.describe(*p)).collect();
            return Err(format!(
                "{} gives {got:?} instead of {:?} after {} calls, the last ones: {}",
                self.describe(op),
                o.expected,
                self.past.len(),
                past.join(", ")
            ));
        }
        self.past.push(op);
        Ok(())
    }
}

impl Prop for History {
    fn check(&self, case: &str) -> Result<Obs, String> {
        let p: Vec<&str> = case.split(SEP).collect();
        let [name, kind, a, b] = p[..] else { return obs("", 0) };
        let Some(f) = self.families.iter().find(|f| f.name == name) else {
            return obs("", 0);
        };
        let (a, b): (usize, usize) = (a.parse().unwrap_or(0), b.parse().unwrap_or(0));
        let k = f.ops.len();
        if kind != "order" && kind != "words" && kind != "lengths" && (a >= k || b >= k) {
            return obs("", 0);
        }
        let n = isolated(&|| {
            let mut run = Run::new(f);
            match kind {
                // a, b, then everything in both directions
                "calls" => {
                    run.call(a)?;
                    run.call(b)?;
                    for op in (0..k).chain((0..k).rev()) {
                        run.call(op)?;
                    }
                }
                // New instances for each call
                "instances" => {
                    run.call(a)?;
                    run.imps = (f.make)();
                    run.call(b)?;
                    let old = std::mem::replace(&mut run.imps, (f.make)());
                    run.call(a)?;
                    run.imps = old;
                    run.call(a)?;
                    run.call(b)?;
                }
                // Each call in its thread, one after the other
                "threads" => {
                    let order = [a, b, a, b, b];
                    for op in order {
                        struct Send<T>(T);
                        unsafe impl<T> std::marker::Send for Send<T> {}
                        let r = Send(&mut run);
                        std::thread::scope(|s| {
                            s.spawn(move || {
                                let r = r;
                                let Send(run) = r;
                                run.call(op)
                            })
                            .join()
                            .unwrap_or_else(|_| Err("panic".into()))
                        })?;
                    }
                }
                // All the words of n calls over the first ones
                "order" => {
                    for op in de_bruijn(b.min(k), a) {
                        run.call(op)?;
                    }
                }
                // The same words, and words that differ a little, given to two instances in turn, for all lengths
                "lengths" => {
                    for n in 0..=f.longest {
                        let words = f.of_length(n);
                        for w in &words {
                            for i in [a, b, a] {
                                let got = (run.imps[i].1)(w);
                                let exp = (f.model)(i, w);
                                run.n += 1;
                                if got != exp {
                                    return Err(format!(
                                        "{}({w:?}) gives {got:?} instead of {exp:?}, after calls of {} and {} with {words:?} and shorter words",
                                        run.imps[i].0, run.imps[a].0, run.imps[b].0
                                    ));
                                }
                            }
                        }
                    }
                }
                // Many words, in this order and in the other one
                "words" => {
                    let all = if a == 0 {
                        dm::words_over(&words::LOWER, 3)
                    } else {
                        dm::words_over(&["a", "B", "ch", "é", "S", " ", "g", "h", "n"], a)
                    };
                    for (turn, w) in all.iter().map(|w| (1, w)).chain(all.iter().rev().map(|w| (2, w))) {
                        let got = (run.imps[b].1)(w);
                        let exp = (f.model)(b, w);
                        run.n += 1;
                        if got != exp {
                            return Err(format!(
                                "{}({w:?}) gives {got:?} instead of {exp:?}, turn {turn}, after {} other calls",
                                run.imps[b].0, run.n
                            ));
                        }
                    }
                }
                _ => {}
            }
            Ok(run.n)
        })?;
        obs(&(name, kind, hash(&(f.ops[a.min(k - 1)].expected.as_str(), a, b))), n)
    }

    fn explore(&self, ctx: &Ctx) {
        let t = ctx.thorough;
        for f in &self.families {
            let k = f.ops.len();
            let case = |kind: &str, a: usize, b: usize| [&f.name, kind, &a.to_string(), &b.to_string()].join(&SEP.to_string());
            let slow = ["BeiderMorse", "DaitchMokotoffSoundex", "all"].contains(&f.name.as_str());
            let slowest = f.name == "shipped Beider-Morse";
            ctx.indexed(
                &format!("{}: all pairs of {k} calls in a new process, then all calls", f.name),
                k * k,
                8,
                &|i| Some(case("calls", i / k, i % k)),
            );
            let step = if t || !slow { 1 } else { 3 };
            let m = k.div_ceil(step);
            ctx.indexed(&format!("{}: pairs of {m} calls with new instances", f.name), m * m, 8, &|i| {
                Some(case("instances", i / m * step, i % m * step))
            });
            ctx.indexed(&format!("{}: pairs of {m} calls in new threads", f.name), m * m, 8, &|i| {
                Some(case("threads", i / m * step, i % m * step))
            });
            let n = f.instances;
            ctx.indexed(
                &format!("{}: pairs of {n} instances that encode in turn names of 0..={} characters, and others that differ by one", f.name, f.longest),
                n * n,
                1,
                &|i| Some(case("lengths", i / n, i % n)),
            );
            if slowest && !t {
                ctx.list(&format!("{}: long histories (all words of 2, 9 calls)", f.name), &[case("order", 2, k), case("order", 9, 2)]);
                continue;
            }
            let mut v = vec![case("order", 2, k)];
            v.push(case("order", 3, if t { k.min(80) } else { k.min(40) }));
            v.push(case("order", 4, if t { 24 } else { 14 }));
            v.push(case("order", 9, 4));
            v.push(case("order", 16, 2));
            for i in 0..f.instances {
                if !f.name.ends_with("comparisons") && !slowest {
                    v.push(case("words", 0, i));
                    v.push(case("words", if t { 6 } else { 4 }, i));
                }
            }
            ctx.list(
                &format!("{}: long histories (all words of 2, 3, 4, 9, 16 calls; all short words twice)", f.name),
                &v,
            );
        }
    }

    fn shrinkable(&self) -> bool {
        false
    }

    fn bits(&self) -> u32 {
        24
    }

    fn bounds(&self, t: bool) -> String {
        format!(
            "{} families of calls (one by encoder with up to 9 configurations, clones among them, comparisons, makers, all encoders together): every pair of calls is the first one of a process, followed by all the calls in both directions; pairs with new instances and with new threads; de Bruijn histories where all words of 2, 3 (over {}), 4, 9 and 16 calls are adjacent; all words of up to 3 letters twice in one process; all pairs of instances of a family that encode in turn names of 0 to 140 characters (26 for the families with Beider-Morse and with all encoders), and the same names with one character, the case or the order changed",
            self.families.len(), if t { 80 } else { 40 }
        )
    }
}
