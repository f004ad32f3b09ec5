//! Beider-Morse with configurations made by the checks: rule programs, language guessing, structure of names, faults.
use super::bm::{build, engine, pattern_words, read, shipped_dir, shipped_model, Setup, DATA};
use super::dm::words_over;
use super::SEP;
use crate::engine::{hash, obs, thread_index, Ctx, Obs, PerThread, Prop};
use crate::models::bm::{Config, Fault, Langs, TYPES};
use rphonetic::*;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};

/// Content of the files, by name without extension.
pub type Files = BTreeMap<String, String>;

/// A configuration where nothing is encoded: three languages for generic names, "any" for the others.
pub fn base() -> Files {
    let mut f = Files::new();
    for t in TYPES {
        let langs: &[&str] = if t == "gen" { &["any", "la", "lb"] } else { &["any"] };
        f.insert(format!("{t}_languages"), langs.iter().map(|l| format!("{l}\n")).collect());
        f.insert(format!("{t}_lang"), String::new());
        for l in langs {
            for k in ["rules", "approx", "exact"] {
                f.insert(format!("{t}_{k}_{l}"), String::new());
            }
        }
        for k in ["approx", "exact"] {
            f.insert(format!("{t}_{k}_common"), String::new());
        }
    }
    f
}

/// A directory that holds a configuration: only what differs from the last one is written.
pub struct Disk {
    pub dir: PathBuf,
    current: RefCell<BTreeMap<String, Vec<u8>>>,
}

impl Disk {
    pub fn new(name: &str) -> Self {
        let root = std::env::var("VERIF_SCRATCH").expect("VERIF_SCRATCH");
        let dir = Path::new(&root).join(format!("{name}-{}-{}", std::process::id(), thread_index()));
        std::fs::create_dir_all(&dir).expect("scratch directory");
        Disk {
            dir,
            current: RefCell::new(BTreeMap::new()),
        }
    }

    pub fn put(&self, files: &BTreeMap<String, Vec<u8>>) {
        let mut cur = self.current.borrow_mut();
        for k in cur.keys().filter(|k| !files.contains_key(*k)) {
            std::fs::remove_file(self.dir.join(format!("{k}.txt"))).expect("scratch");
        }
        for (k, v) in files {
            if cur.get(k) != Some(v) {
                std::fs::write(self.dir.join(format!("{k}.txt")), v).expect("scratch");
            }
        }
        *cur = files.clone();
    }

    pub fn load(&self, files: &Files) -> Result<ConfigFiles, PhoneticError> {
        self.put(&files.iter().map(|(k, v)| (k.clone(), v.clone().into_bytes())).collect());
        ConfigFiles::new(&self.dir)
    }
}

pub fn model(files: &Files) -> Result<Config, Fault> {
    Config::load(&|f| files.get(f).cloned())
}

/// Is it an error that tells what is wrong ?
fn diagnosed(e: &PhoneticError, f: &Fault) -> Result<(), String> {
    let Some((line, content)) = &f.line else {
        // The file that is missing (or that includes itself)
        let right = match e {
            PhoneticError::BMError(BMError::ParseConfiguration(_)) => f.file.ends_with("_lang"),
            PhoneticError::BMError(_) => !f.file.ends_with("_lang") && e.to_string().contains(&f.file),
            _ => false,
        };
        return if right { Ok(()) } else { Err(format!("got {e:?}, expected {f:?}")) };
    };
    if f.inside {
        let right = match e {
            PhoneticError::BMError(BMError::WrongPhoneme(_)) => f.phonemes,
            PhoneticError::BMError(BMError::BadContextRegex(_)) => !f.phonemes,
            _ => false,
        };
        return if right { Ok(()) } else { Err(format!("got {e:?}, expected {f:?}")) };
    }
    let PhoneticError::ParseRuleError(p) = e else {
        return Err(format!("got {e:?}, expected a parsing error for {f:?}"));
    };
    let stem = p
        .filename
        .as_deref()
        .map(|n| n.rsplit('/').next().unwrap().trim_end_matches(".txt").to_string());
    if stem.as_deref() != Some(&f.file) || p.line_number != *line || p.line_content != *content {
        return Err(format!("wrong diagnosis {e:?}, expected {f:?}"));
    }
    let shown = e.to_string();
    if !(shown.contains(&f.file) && shown.contains(&line.to_string()) && shown.contains(content)) {
        return Err(format!("the message {shown:?} doesn't tell the file and the line of {f:?}"));
    }
    Ok(())
}

/// Load in both, and compare all the codes.
fn compare(disk: &Disk, files: &Files, setups: &[Setup], words: &[String], sets: &[Option<&[&str]>]) -> Result<Obs, String> {
    let (c, m) = match (disk.load(files), model(files)) {
        (Ok(c), Ok(m)) => (c, m),
        (Err(e), Err(f)) => {
            diagnosed(&e, &f)?;
            return obs(&(f.file, f.line), 1);
        }
        (Err(e), Ok(_)) => return Err(format!("refused: {e:?}")),
        (Ok(_), Err(f)) => return Err(format!("accepted, expected an error because of {f:?}")),
    };
    let mut seen = vec![];
    if !m.usable() {
        return obs("no any", 1);
    }
    for s in setups {
        let b = build(&c, *s);
        let e = engine(&m, *s);
        for w in words {
            for set in sets {
                let (got, exp) = match set {
                    None => (b.encode(w), e.encode(w)),
                    Some(names) => both(&b, &e, w, names),
                };
                if got != exp {
                    return Err(format!("{s:?}, languages {set:?}, on {w:?}: got {got:?}, expected {exp:?}"));
                }
                seen.push(hash(&exp));
            }
        }
    }
    obs(&seen, seen.len() as u64)
}

const NOTHING: &[&str] = &["*none"];
const ANYTHING: &[&str] = &["*any"];

fn both(b: &BeiderMorse, e: &crate::models::bm::Engine, w: &str, names: &[&str]) -> (String, String) {
    if names == NOTHING {
        (b.encode_with_languages(w, &LanguageSet::NoLanguages), e.with(w, Langs::Some(0)))
    } else if names == ANYTHING {
        (b.encode_with_languages(w, &LanguageSet::Any), e.with(w, Langs::Any))
    } else {
        let set = LanguageSet::SomeLanguages(names.iter().map(|n| n.to_string()).collect());
        (b.encode_with_languages(w, &set), e.with(w, e.c.set(names)))
    }
}

/// Case: kind, then the files that differ from the base one.
fn case(kind: &str, files: &[(&str, &str)]) -> String {
    let mut s = kind.to_string();
    for (name, text) in files {
        s.push(SEP);
        s.push_str(name);
        s.push(SEP);
        s.push_str(text);
    }
    s
}

fn parse_case(case: &str) -> Option<(&str, Files)> {
    let mut it = case.split(SEP);
    let kind = it.next()?;
    let mut f = base();
    while let (Some(n), Some(t)) = (it.next(), it.next()) {
        if n.is_empty() || n.contains(['/', '.', '\0']) {
            return None;
        }
        f.insert(n.to_string(), t.to_string());
    }
    Some((kind, f))
}

const fn setup(t: &'static str, kind: &'static str, max: usize) -> Setup {
    Setup { t, kind, concat: true, max }
}

fn rule(p: &str, l: &str, r: &str, ph: &str) -> String {
    format!("\"{p}\" \"{l}\" \"{r}\" \"{ph}\"\n")
}

// ---------------------------------------------------------------- C21

pub struct Programs {
    disk: PerThread<Disk>,
    short: Vec<String>,
    words: Vec<String>,
    long: Vec<String>,
}

/// Texts of up to 261 characters where a short one comes again and again, with other ends.
fn long_words() -> Vec<String> {
    let mut v = vec![];
    for unit in words_over(&["a", "b", "é"], 2).into_iter().filter(|u| !u.is_empty()).chain(["ab b".into(), "aéb".into()]) {
        for n in [14, 45, 130] {
            v.push(unit.repeat(n));
        }
        v.push(format!("b{}a", unit.repeat(50)));
    }
    v
}

pub fn programs() -> Programs {
    let mut words = words_over(&["a", "b", "é", " "], 3);
    words.extend(words_over(&["a", "b"], 5).into_iter().filter(|w| w.len() > 3));
    Programs {
        disk: PerThread::new(|| Disk::new("programs")),
        short: words_over(&["a", "b"], 4),
        words,
        long: long_words(),
    }
}

const LEFT: &[&str] = &[
    "", "^", "a", "^a", "é", "ab", "^ab", "[ab]", "^[ab]", "[^a]", "^[^a]", "[é ]", "(a|b)", "(a|[b])", "(^|[b])", "[ab]b", "^[ab]b", "a[^b]", "[a-b]",
    "a[a-b]", "[b]+", "[b]*", "^[a]?", "[a]|[é]", ".[b]", "a.[b]", ".", " ", "^ ", "[^ ]", "[^é]", "a|b", "[", "[]", "[^]", "a[", "(", "([a]", "$", "a$", "^^",
];
const RIGHT: &[&str] = &[
    "", "$", "a", "a$", "é", "ab", "ab$", "[ab]", "[ab]$", "[^a]", "[^a]$", "[é ]", "(a|b)", "(a|[b])", "([b]|$)", "b[ab]", "b[ab]$", "[^b]a", "[a-b]",
    "[a-b]a", "[b]+", "[b]*a", "[a]?$", "[a]|[é]", "[b].", "[b].a", ".", " ", " $", "[^ ]", "[^é]", "a|b", "[", "[]", "[^]", "[a", ")", "[a])", "^", "^a",
    "$$",
];
/// Phonemes: alternatives, empty ones, languages, wrong ones.
const PHONEMES: &[&str] = &[
    "x",
    "",
    "(x|y)",
    "(x|)",
    "(x|x)",
    "(y|x|z)",
    "x[la]",
    "y[lb]",
    "(x[la]|y[lb])",
    "(x[la]|x[lb])",
    "(x[la+lb]|y)",
    "(x[zz]|y[any])",
    "(|)",
    "(x|y[la]|x[lb])",
    "é[la]",
    "([la]|[lb])",
    "xy",
    "(x",
    "x)",
    "x[la",
    "x[la]y",
    "x]",
    "(x[la|y)",
    "()",
];
/// Final rules: they see the phonemes.
const FINAL: &[&str] = &[
    "",
    "x|||y",
    "x|||(y|z)",
    "x||y|z",
    "x|y||(z|)",
    "x|^||y",
    "xy|||z",
    "x|||x[la]",
    "x|||(y[la]|z[lb])",
    "y|||",
    "y||$|x",
    "x|||(x|y)",
    "z|||(x[lb]|y)",
    "y|[x]||x",
    "x||[^y]|y[lb]",
    "z|||z",
    "y|||(z|z|x)",
    "é|||x",
];

fn final_rule(s: &str) -> String {
    if s.is_empty() {
        return String::new();
    }
    let mut it = s.splitn(4, '|');
    let (p, l, r, ph) = (it.next().unwrap(), it.next().unwrap(), it.next().unwrap(), it.next().unwrap());
    rule(p, l, r, ph)
}

const GUESS: &[&str] = &["", "a la true\n", "a la+lb true\n", "^b lb true\nb any false\n"];

impl Prop for Programs {
    fn check(&self, case: &str) -> Result<Obs, String> {
        let Some((kind, files)) = parse_case(case) else { return obs("", 0) };
        let disk = self.disk.get();
        match kind {
            "contexts" => compare(disk, &files, &[setup("gen", "approx", 20)], &self.words, &[None]),
            "long" => compare(disk, &files, &[setup("gen", "approx", 20)], &self.long, &[None]),
            "many" => {
                let s = [0, 1, 2, 20, 255, 256, 257, usize::MAX].map(|m| setup("gen", "approx", m));
                compare(disk, &files, &s, &["a", "b", "ab", "aa"].map(String::from), &[None, Some(&["lb"]), Some(&["lc", "lea", "zz"])])
            }
            "phonemes" => {
                let s = [0, 1, 2, 3, 5, 20].map(|m| setup("gen", "exact", m));
                compare(disk, &files, &s, &self.short, &[None])
            }
            "types" => {
                let mut s = vec![];
                for t in TYPES {
                    for k in ["approx", "exact"] {
                        s.push(setup(t, k, 20));
                    }
                }
                compare(disk, &files, &s, &self.short[..15], &[None])
            }
            _ => compare(
                disk,
                &files,
                &[setup("gen", "approx", 20), setup("gen", "approx", 3)],
                &self.short,
                &[None, Some(&["la"]), Some(&["lb"])],
            ),
        }
    }

    fn explore(&self, ctx: &Ctx) {
        let t = ctx.thorough;
        let (nl, nr) = (LEFT.len(), RIGHT.len());
        let pats = ["a", "b", "ab", "é", "ba", "aa", " ", "a "];
        let np = if t { pats.len() } else { 4 };
        // A rule with its contexts, and what happens without it.
        ctx.indexed("a rule with all pairs of contexts", nl * nr * np, 8, &|i| {
            let (p, l, r) = (pats[i % np], LEFT[i / np / nr], RIGHT[i / np % nr]);
            let text = format!("{}{}{}", rule(p, l, r, "x"), rule("a", "", "", "y"), rule("b", "", "", "z"));
            Some(case("contexts", &[("gen_rules_any", &text)]))
        });
        // Which rule comes first
        let mut rules = vec![];
        for p in ["a", "ab", "b", "ba", "aa", "é"] {
            for l in ["", "a", "[b]", "^"] {
                for r in ["", "b", "[^a]", "$"] {
                    rules.push((p, l, r));
                }
            }
        }
        let n = rules.len();
        let sub: &[&str] = &["x", "(x|y)"];
        ctx.indexed("all pairs of rules", n * n, 8, &|i| {
            let (a, b) = (rules[i / n], rules[i % n]);
            let text = format!("{}{}{}", rule(a.0, a.1, a.2, sub[i % 2]), rule(b.0, b.1, b.2, "z"), rule("b", "", "", "w"));
            Some(case("order", &[("gen_rules_any", &text)]))
        });
        let few: Vec<_> = rules
            .iter()
            .filter(|r| r.0 != "é" && r.1 != "a" && r.2 != "[^a]" && (t || (r.1 != "^" && r.2 != "$")))
            .collect();
        let n = few.len();
        ctx.indexed("all triples of rules", n * n * n, 8, &|i| {
            let (a, b, c) = (few[i / n / n], few[i / n % n], few[i % n]);
            let text = format!("{}{}{}", rule(a.0, a.1, a.2, "x"), rule(b.0, b.1, b.2, "(y|z)"), rule(c.0, c.1, c.2, "w"));
            Some(case("order", &[("gen_rules_any", &text)]))
        });
        // Phonemes
        let n = PHONEMES.len();
        let g = GUESS.len();
        ctx.indexed("phonemes of two rules and languages", n * n * g, 8, &|i| {
            let text = format!("{}{}", rule("a", "", "", PHONEMES[i / g / n]), rule("b", "", "", PHONEMES[i / g % n]));
            Some(case(
                "phonemes",
                &[("gen_rules_any", &text), ("gen_rules_la", &text), ("gen_lang", GUESS[i % g])],
            ))
        });
        // Final rules
        let n = FINAL.len();
        let firsts = ["(x|y)", "(y|x|z)", "(x[la]|y[lb])", "(x[la]|x[lb]|y)", "xy", "(z|zx)"];
        let k = firsts.len();
        ctx.indexed("final rules, common ones and those of the language", n * n * k * g, 8, &|i| {
            let (f, i) = (i % k, i / k);
            let (l, i) = (i % g, i / g);
            if !t && (f + l) % 2 == 1 {
                return None;
            }
            let text = format!("{}{}", rule("a", "", "", firsts[f]), rule("b", "", "", "(x|é)"));
            let (common, any) = (final_rule(FINAL[i / n]), final_rule(FINAL[i % n]));
            let of = |c: &str| format!("{any}{}", rule("é", "", "", c));
            Some(case(
                "final",
                &[
                    ("gen_rules_any", &text),
                    ("gen_rules_la", &text),
                    ("gen_lang", GUESS[l]),
                    ("gen_approx_common", &common),
                    ("gen_approx_any", &of("é")),
                    ("gen_approx_la", &of("L")),
                ],
            ))
        });
        let n3 = if t { n * n * n * n } else { n * n * n };
        ctx.indexed("two common final rules and two of the language", n3, 8, &|i| {
            let r = |k: usize| final_rule(FINAL[i / n.pow(k as u32) % n]);
            let text = format!("{}{}", rule("a", "", "", "(x|y[la]|z)"), rule("b", "", "", "(y|x[lb])"));
            Some(case(
                "final",
                &[
                    ("gen_rules_any", &text),
                    ("gen_approx_common", &format!("{}{}", r(0), r(1))),
                    ("gen_approx_any", &format!("{}{}", r(2), if t { r(3) } else { String::new() })),
                ],
            ))
        });
        // The same ones with more of everything: characters, rules, phonemes, languages.
        let pats = ["ab", "é"];
        ctx.indexed("a rule with all pairs of contexts, long texts", nl * nr * 2, 2, &|i| {
            let (p, l, r) = (pats[i % 2], LEFT[i / 2 / nr], RIGHT[i / 2 % nr]);
            if !t && i / 2 % 2 != i % 2 {
                return None;
            }
            let text = format!("{}{}{}", rule(p, l, r, "x"), rule("a", "", "", "y"), rule("b", "", "", "z"));
            Some(case("long", &[("gen_rules_any", &text)]))
        });
        let size = if t { 300 } else { 80 };
        let tails = ["", "b", "é", "ba", "bb", "aa"];
        ctx.indexed("many rules that begin with the same letter", size * tails.len() * 3, 8, &|i| {
            let (n, k, order) = (1 + i / 3 / tails.len(), i / 3 % tails.len(), i % 3);
            let mut rules: Vec<String> = (0..n)
                .map(|r| {
                    let first = if order == 1 { ["a", "b"][r / 3 % 2] } else { "a" };
                    let right = if r + 1 == n { "" } else { ["$", "b$", "[a]b", "é", "^z"][r % 5] };
                    rule(&format!("{first}{}", tails[(r * k + r) % tails.len()]), "", right, &format!("{r}"))
                })
                .collect();
            if order == 2 {
                rules.reverse();
            }
            Some(case("order", &[("gen_rules_any", &rules.concat())]))
        });
        let width = if t { 300 } else { 40 };
        ctx.indexed("many phonemes in a rule", width * 4 * 3, 2, &|i| {
            let (n, m, k) = (1 + i / 12, [1, 3, 7, 1000][i / 3 % 4], i % 3);
            let list = |f: &dyn Fn(usize) -> String| format!("({})", (0..n).map(f).collect::<Vec<_>>().join("|"));
            let c = match k {
                0 => list(&|v| format!("{}", v % m)),
                1 => list(&|v| format!("{}[la]", (n - v) % m)),
                _ => list(&|v| format!("{}{}", v % m, ["", "[la]", "[lb]", "[la+lb]"][v % 4])),
            };
            let text = format!("{}{}", rule("a", "", "", &c), rule("b", "", "", "(x[la]|y[lb]|z)"));
            Some(case("many", &[("gen_rules_any", &text), ("gen_approx_common", &rule("1", "", "", "(2|4)")), ("gen_approx_any", &rule("3", "", "", "1"))]))
        });
        let most = if t { 90 } else { 68 };
        ctx.indexed("many languages", most * 4, 1, &|i| {
            let (n, k) = (1 + i / 4, i % 4);
            let langs: Vec<String> = (0..n).map(|l| format!("l{}", if k == 0 { l } else { n - l })).map(|l| l + "x").collect();
            let mut files: Vec<(String, String)> = vec![];
            let mut list = "any\n".to_string();
            let (mut ph, mut guess) = (vec![], String::new());
            for (j, l) in langs.iter().enumerate() {
                let l: String = l.trim_end_matches('x').chars().map(|c| if c.is_ascii_digit() { (c as u8 - b'0' + b'a') as char } else { c }).collect();
                list += &format!("{l}\n");
                ph.push(format!("{j}[{l}{}]", if j % 3 == 0 { "+lb" } else { "" }));
                guess += &match k {
                    0 => String::new(),
                    1 => format!("a {l}+lb true\n"),
                    2 if j + 1 < n => format!("b {l} false\n"),
                    _ if j + 2 < n => format!("aa {l} false\n"),
                    _ => format!("^ab {l} true\n"),
                };
                files.push((format!("gen_rules_{l}"), rule("a", "", "", &format!("({j}|{})", ph.join("|")))));
                files.push((format!("gen_approx_{l}"), rule("b", "", "", "(c|d)")));
                files.push((format!("gen_exact_{l}"), String::new()));
            }
            files.push(("gen_rules_any".into(), format!("{}{}", rule("a", "", "", &format!("({})", ph.join("|"))), rule("b", "", "", "(x[la]|y[lb]|z)"))));
            files.push(("gen_languages".into(), list));
            files.push(("gen_lang".into(), guess));
            files.push(("gen_approx_common".into(), rule("1", "", "", "(2|4)")));
            let f: Vec<(&str, &str)> = files.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect();
            Some(case("many", &f))
        });
        // Include
        let lines = [
            "#include sub\n",
            "#include other // comment\n",
            "\"a\" \"\" \"\" \"x\"\n",
            "\"ab\" \"\" \"\" \"y\"\n",
            "\"b\" \"\" \"\" \"z\"\n",
            "// comment\n",
            "/* two\nlines */\n",
            "#include missing\n",
        ];
        let subs = [
            "",
            "\"a\" \"\" \"\" \"s\"\n",
            "\"a\" \"\" \"$\" \"s\"\n\"b\" \"\" \"\" \"t\"\n",
            "#include other\n\"b\" \"\" \"\" \"t\"\n",
            "x\n",
            "#include gen_rules_any\n",
            "#include sub\n",
            "\"a\" \"\" \"\" \"(\"\n",
        ];
        let others = ["\"a\" \"\" \"\" \"o\"\n", "\"b\" \"\" \"b\" \"o\"\n// end", "#include sub\n"];
        let depth = if t { 5 } else { 4 };
        let mut mains = words_over(&lines, depth);
        mains.retain(|m| m.contains("#include"));
        let k = subs.len() * others.len();
        ctx.indexed("included files", mains.len() * k, 8, &|i| {
            let (m, s) = (&mains[i / k], i % k);
            Some(case(
                "include",
                &[("gen_rules_any", m), ("sub", subs[s / others.len()]), ("other", others[s % others.len()])],
            ))
        });
        // Every table of every type is the one that is used.
        let tables: Vec<String> = base().into_keys().filter(|k| !k.contains("lang") || k.contains("_rules_")).collect();
        let n = tables.len();
        let fill = |extra: &[usize]| {
            let mut files: Vec<(String, String)> = vec![];
            for (k, name) in tables.iter().enumerate() {
                let changed = if extra.contains(&k) { "q" } else { "" };
                let text = if name.contains("_rules_") {
                    format!("{}{}", rule("a", "", "", &format!("x{changed}")), rule("b", "", "", "(x|y)"))
                } else if extra.contains(&k) {
                    format!("{}{}", rule("x", "", "", &format!("(x|{k})")), rule("q", "", "", "Q"))
                } else {
                    String::new()
                };
                files.push((name.clone(), text));
            }
            files.push(("gen_lang".into(), "^a la true\n^b lb true\n".into()));
            files
        };
        ctx.indexed("rules in one, two or three tables", n * n * n, 8, &|i| {
            let files = fill(&[i % n, i / n % n, i / n / n]);
            if !(i % n <= i / n % n && i / n % n <= i / n / n) || (!t && i % n != i / n % n) {
                return None;
            }
            let f: Vec<(&str, &str)> = files.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect();
            Some(case("types", &f))
        });
    }

    fn shrinkable(&self) -> bool {
        false
    }

    fn bounds(&self, t: bool) -> String {
        format!(
            "configurations with three languages: one rule with all {}x{} pairs of contexts (regular expressions, optimised forms and wrong ones) for {} patterns, all pairs of 96 rules, all triples of rules out of {}, pairs of rules with all {} phoneme forms with 4 language files and limits 0, 1, 2, 3, 5 and 20, final rules in the common and language tables ({} forms, sequences of up to {}), include lines in rule files of up to {} lines, rules in up to {} of the 27 tables, {}all pairs of contexts on {} texts of up to 390 characters, up to {size} rules that begin with the same letter, up to {width} phonemes in a rule and {most} languages with limits up to the largest; each one executed on all words of up to 4 or 5 letters over a, b and up to 3 characters over a, b, é, space",
            LEFT.len(), RIGHT.len(), if t { 8 } else { 4 }, if t { 45 } else { 20 }, PHONEMES.len(), FINAL.len(), if t { 4 } else { 3 }, if t { 5 } else { 4 }, if t { 3 } else { 2 },
            if t { "" } else { "half of " }, self.long.len(), size = if t { 300 } else { 80 }, width = if t { 300 } else { 40 }, most = if t { 90 } else { 68 }
        )
    }
}

// ---------------------------------------------------------------- C22

pub struct Guessing {
    disk: PerThread<Disk>,
    words: Vec<String>,
    long: Vec<String>,
    shipped: PerThread<&'static ConfigFiles>,
}

pub fn guessing() -> Guessing {
    let mut words = words_over(&["a", "b", "É"], 3);
    words.extend(["aaaa", "abab", "bbbb", "A", "aB", "a-b", " a", "b a", "d'a", "de b", "İ", "ab", "baab"].map(String::from));
    Guessing {
        disk: PerThread::new(|| Disk::new("guessing")),
        words,
        // They are guessed as a whole, the code of the first ones is enough to tell the languages
        long: long_words().into_iter().filter(|w| w.chars().count() <= 52).collect(),
        shipped: PerThread::new(|| &*Box::leak(Box::new(ConfigFiles::new(&shipped_dir()).expect("the shipped rules can be loaded")))),
    }
}

/// Language rules. Nothing, one, two, all languages; unknown languages; accept or refuse; anchors.
const LANG_RULES: &[&str] = &[
    "a la true",
    "b la true",
    "^a lb true",
    "b$ la+lb true",
    "a la false",
    "b lb false",
    "é la+lb false",
    "é any+la true",
    "(ab|bé) lb true",
    "[ab]$ zz true",
    "^b zz+la false",
    ". any false",
    "a any+la+lb false",
    "^$ lb true",
    "aa la+any true",
    "[^a] lb+la true",
];

/// Tables that reveal the languages that were guessed, and the table that was used.
pub fn revealing() -> Vec<(String, String)> {
    let mut f = vec![];
    for l in ["any", "la", "lb"] {
        let text = format!(
            "{}{}{}",
            rule("a", "", "", &format!("({l}a1[la]|{l}a2[lb]|{l}a3[any]|{l}a4)")),
            rule("b", "", "", "(b[la]|B[lb]|_[any+lb])"),
            rule("é", "", "", "(é|e[zz])")
        );
        f.push((format!("gen_rules_{l}"), text));
        f.push((format!("gen_approx_{l}"), rule("a", "", "", &format!("a{l}"))));
    }
    f.push(("gen_approx_common".into(), rule("b", "", "", "(b|c[la]|d[lb])")));
    f
}

impl Prop for Guessing {
    fn check(&self, c: &str) -> Result<Obs, String> {
        if let Some(rest) = c.strip_prefix("shipped") {
            // Type, kind, languages, word
            let p: Vec<&str> = rest.split(SEP).collect();
            let [_, t, k, langs, word] = p[..] else { return obs("", 0) };
            let Some(t) = TYPES.iter().find(|v| **v == t) else { return obs("", 0) };
            let s = setup(t, if k == "exact" { "exact" } else { "approx" }, 20);
            let names: Vec<&str> = langs.split('+').collect();
            let e = engine(shipped_model(), s);
            let b = build(self.shipped.get(), s);
            let (got, exp) = both(&b, &e, word, &names);
            if got != exp {
                return Err(format!("{s:?}, languages {names:?}, on {word:?}: got {got:?}, expected {exp:?}"));
            }
            return obs(&exp, 1);
        }
        let Some((kind, mut files)) = parse_case(c) else { return obs("", 0) };
        for (k, v) in revealing() {
            files.entry(k).and_modify(|old| {
                if old.is_empty() {
                    *old = v
                }
            });
        }
        let disk = self.disk.get();
        if kind == "sets" {
            let all: Vec<Vec<&str>> = (0..32usize)
                .map(|i| (0..5).filter(|k| i >> k & 1 == 1).map(|k| ["any", "la", "lb", "zz", "La"][k]).collect())
                .collect();
            let mut sets: Vec<Option<&[&str]>> = all.iter().filter(|s| !(s.contains(&"zz") && s.contains(&"La"))).map(|s| Some(&s[..])).collect();
            sets.extend([Some(NOTHING), Some(ANYTHING), None]);
            let mut s = vec![];
            for concat in [true, false] {
                for max in [1, 20] {
                    s.push(Setup {
                        concat,
                        ..setup("gen", "approx", max)
                    });
                }
            }
            s.push(setup("ash", "approx", 20));
            s.push(setup("gen", "exact", 20));
            return compare(disk, &files, &s, &self.words, &sets);
        }
        let words = if kind == "long" { &self.long } else { &self.words };
        compare(disk, &files, &[setup("gen", "approx", 20)], words, &[None])
    }

    fn explore(&self, ctx: &Ctx) {
        let t = ctx.thorough;
        let n = LANG_RULES.len();
        let depth = if t { 4 } else { 3 };
        let total = (0..=depth).map(|d| n.pow(d)).sum::<usize>();
        let files = ["any\nla\nlb\n", "lb // b\n/* comment\n*/\nany\nla", "any\nlc\nla\nlb\n"];
        let build = |mut i: usize, kind: &str, languages: &str| {
            let mut d = 0;
            while i >= n.pow(d) {
                i -= n.pow(d);
                d += 1;
            }
            let text: String = (0..d).map(|k| format!("{}\n", LANG_RULES[i / n.pow(k) % n])).collect();
            let extra = "\"a\" \"\" \"\" \"c\"\n";
            Some(case(
                kind,
                &[
                    ("gen_lang", &text),
                    ("gen_languages", languages),
                    ("gen_rules_lc", extra),
                    ("gen_approx_lc", ""),
                    ("gen_exact_lc", ""),
                ],
            ))
        };
        ctx.indexed("sequences of language rules", total, 8, &|i| build(i, "guess", files[0]));
        let two = 1 + n + n * n;
        ctx.indexed("languages files and sequences of two rules", two * files.len(), 8, &|i| {
            build(i / files.len(), "guess", files[i % files.len()])
        });
        ctx.indexed("long texts and sequences of two rules", two, 1, &|i| build(i, "long", files[0]));
        let most = if t { 300 } else { 70 };
        ctx.indexed("many language rules", most * n * 3, 8, &|i| {
            let (count, first, step) = (1 + i / n / 3, i / 3 % n, [0, 1, 5][i % 3]);
            let mut text: String = (1..count).map(|k| format!("{}\n", LANG_RULES[(first + k * step) % n])).collect();
            text += &format!("{}\n", LANG_RULES[(first + count) % n]);
            Some(case("guess", &[("gen_lang", &text)]))
        });
        let counts = [127usize, 128, 129, 255, 256, 257, 511, 512, 513, 700, 1023, 1024, 1025, 4097];
        ctx.indexed("hundreds of language rules", counts.len() * 2 * n, 1, &|i| {
            // All the same but the last
            let (count, same, last) = (counts[i / n / 2], i / n % 2, i % n);
            let first = ["zz la false\n", "//\n^a lb false\n"][same];
            Some(case("guess", &[("gen_lang", &format!("{}{}\n", first.repeat(count - 1), LANG_RULES[last]))]))
        });
        ctx.indexed("explicit languages", if t { two * 2 } else { 1 + n }, 1, &|i| {
            build(i % two, "sets", files[i / two * 2])
        });
        // Shipped rules
        let mut words = pattern_words();
        if !t {
            words = words.into_iter().enumerate().filter(|(i, _)| i % 7 == 0).map(|v| v.1).collect();
        }
        let names = [
            "Renault",
            "Mickiewicz",
            "Thompson",
            "Nuñez",
            "Carvalho",
            "Čapek",
            "Sjneijder",
            "Klausewitz",
            "Küçük",
            "Giacometti",
            "Nagy",
            "Ceauşescu",
            "Angelopoulos",
            "Αγγελόπουλος",
            "Пушкин",
            "כהן",
            "ácz",
            "átz",
            "d'ortley",
            "van helsing",
            "de la cruz",
            "ben david",
            "O'Brien",
            "",
        ];
        words.extend(names.map(String::from));
        let mut sets: Vec<(&str, String)> = vec![];
        for ty in TYPES {
            let text = read("cc-rules", &format!("{ty}_languages")).unwrap();
            let langs: Vec<&str> = text
                .lines()
                .map(|l| l.trim())
                .filter(|l| !l.is_empty() && l.chars().all(|c| c.is_ascii_lowercase()))
                .collect();
            for l in &langs {
                sets.push((ty, l.to_string()));
            }
            for w in langs.windows(2) {
                sets.push((ty, w.join("+")));
            }
            sets.push((ty, langs.join("+")));
            sets.push((ty, "klingon".into()));
            sets.push((ty, NOTHING[0].into()));
            sets.push((ty, ANYTHING[0].into()));
        }
        let k = sets.len() * 2;
        ctx.indexed("shipped rules with explicit languages", words.len() * k, 64, &|i| {
            let (ty, l) = &sets[i % k / 2];
            Some(format!("shipped{SEP}{ty}{SEP}{}{SEP}{l}{SEP}{}", ["approx", "exact"][i % 2], words[i / k]))
        });
    }

    fn shrinkable(&self) -> bool {
        false
    }

    fn bounds(&self, t: bool) -> String {
        format!(
            "all sequences of up to {} language rules out of {} (accepting or refusing none, one or more languages), up to {} rules out of them, and up to 4096 others before each, 3 languages files, on all words of up to 3 characters over a, b, É and 13 others (sequences of two, on {} texts of up to 52 characters), with tables that reveal the guessed languages; explicit sets: all subsets of any, la, lb and an unknown one, any, none; shipped rules: every language, adjacent pairs, all, unknown, any, none, for {} of the words made of the patterns of the rule files",
            if t { 4 } else { 3 },
            LANG_RULES.len(),
            if t { 300 } else { 70 },
            self.long.len(),
            if t { "all" } else { "a seventh" }
        )
    }
}

// ---------------------------------------------------------------- C23

/// A case is a name.
pub struct Names {
    config: PerThread<&'static ConfigFiles>,
    model: Config,
    setups: Vec<Setup>,
}

/// Every letter is itself, a space is visible, "v" changes the language.
pub fn transparent() -> Files {
    let mut f = base();
    let letters = "abcdefghijklmnopqrstuwxyzéß'";
    for t in TYPES {
        let mut text: String = letters.chars().map(|c| rule(&c.to_string(), "", "", &c.to_string())).collect();
        text.push_str(&rule(" ", "", "", "_"));
        text.push_str(&rule("v", "", "", "(v|w)"));
        f.insert(format!("{t}_rules_any"), text.clone());
        if t == "gen" {
            f.insert("gen_rules_la".into(), format!("{}{text}", rule("a", "", "", "A")));
            f.insert("gen_lang".into(), "^v la true\n".into());
            f.insert("gen_rules_lb".into(), text);
        }
    }
    f
}

pub fn names() -> Names {
    let mut setups = vec![];
    for t in TYPES {
        for concat in [true, false] {
            setups.push(Setup {
                t,
                kind: "approx",
                concat,
                max: 20,
            });
        }
    }
    for (t, max) in [("gen", 0), ("gen", 1), ("ash", 3), ("sep", usize::MAX)] {
        for concat in [true, false] {
            setups.push(Setup { t, kind: "exact", concat, max });
        }
    }
    Names {
        config: PerThread::new(|| {
            let d = Disk::new("names");
            &*Box::leak(Box::new(d.load(&transparent()).expect("a configuration with one rule by letter")))
        }),
        model: model(&transparent()).unwrap(),
        setups,
    }
}

const NAME_TOKENS: &[&str] = &[
    "a", "v", " ", "-", "'", "d'", "da ", "de ", "de la ", "van ", "bar ", "al ", "D'", "VAN ", "dal ", "del ", "dela ", "della ", "des ", "di ", "do ",
    "dos ", "du ", "von ", "ben ", "el ", "la ", "é", "O'", "dan ", "\t", "\u{a0}", "\u{3000}", "ß", "İ",
];

impl Prop for Names {
    fn check(&self, word: &str) -> Result<Obs, String> {
        let mut seen = vec![];
        for s in &self.setups {
            let got = build(self.config.get(), *s).encode(word);
            let exp = engine(&self.model, *s).encode(word);
            if got != exp {
                return Err(format!("{s:?} on {word:?}: got {got:?}, expected {exp:?}"));
            }
            seen.push(exp);
        }
        obs(&seen, seen.len() as u64)
    }

    fn explore(&self, ctx: &Ctx) {
        let t = ctx.thorough;
        ctx.sequences("parts of names", NAME_TOKENS, if t { 4 } else { 3 });
        ctx.sequences("common parts of names", &NAME_TOKENS[..14], if t { 6 } else { 4 });
        ctx.sequences("characters of prefixes", &["d", "e", "l", "a", " ", "'", "-", "v", "n"], if t { 7 } else { 6 });
        // The same ones again and again
        let units = words_over(NAME_TOKENS, 2);
        let times = [3, 8, 33];
        ctx.indexed("names of many parts", units.len() * times.len(), 8, &|i| {
            let (u, n) = (&units[i / times.len()], times[i % times.len()]);
            // "v" has two phonemes
            (!u.is_empty() && u.to_lowercase().matches('v').count() * n < 10).then(|| format!("{}{}", u.repeat(n), ["", "a", "b v"][i % 2 + n % 2]))
        });
        // Two words where each one may be a prefix, with all separators.
        let parts: Vec<&str> = NAME_TOKENS.iter().map(|t| t.trim_end_matches(' ')).collect();
        let seps = ["", " ", "-", "'", "d'", "  ", "- ", " -", "--", "\t", "\u{a0}", "\u{2003}", " d'", "-d'"];
        let outer = if t { &seps[..] } else { &seps[..4] };
        ctx.product("separators around parts", &[outer, &parts, &seps, &parts, outer]);
    }

    fn bounds(&self, t: bool) -> String {
        format!(
            "names made of up to {} of {} parts (all the prefixes, d', separators of all kinds, letters), up to {} of the 14 most common ones, up to {} characters of prefixes, one or two parts repeated 3, 8 and 33 times, two parts with all separators before, between and after; {} setups: 3 name types, joined or not, limits 0, 1, 3, 20 and the largest one",
            if t { 4 } else { 3 },
            NAME_TOKENS.len(),
            if t { 6 } else { 4 },
            if t { 7 } else { 6 },
            self.setups.len()
        )
    }
}

// ---------------------------------------------------------------- C24

/// Case: kind, SEP, arguments.
pub struct Faults {
    disk: PerThread<Disk>,
    small: Files,
    crlf: Files,
    shipped: Files,
    words: Vec<String>,
}

/// A small configuration with everything that rule files can have.
fn small() -> Files {
    let mut f = base();
    f.insert("gen_languages".into(), "// Languages\nany\n/* two\n   lines */\nla // a\r\nlb".into());
    f.insert("ash_languages".into(), "any".into());
    f.insert("sep_languages".into(), "\n\nany\n\n".into());
    f.insert("gen_lang".into(), "/* é */ // end\n^a la true // a\nb$ la+lb true\n[é] lb false\n".into());
    f.insert("sep_lang".into(), "// nothing".into());
    f.insert(
        "gen_rules_any".into(),
        format!(
            "// é\n{}/* a\nb\n*/\n{}#include extra\n{}",
            rule("a", "^", "", "(x|y[la])"),
            rule("b", "[a]", "[^é]|$", "z"),
            "\"é\" \"\" \"\" \"e\" // é"
        ),
    );
    f.insert("gen_rules_la".into(), "#include extra // all\r\n \t\n\"a\" \"\" \"\" \"l\"\r\n".into());
    f.insert("extra".into(), format!("{}\n{}", rule("b", "", "", "(b|)"), rule("c", "", "", "c")));
    f.insert("gen_approx_common".into(), format!("{}/*\n*/", rule("x", "", "", "(x|X[lb])")));
    f.insert("gen_approx_any".into(), "\"b\" \"\" \"\" \"B\"".into());
    f.insert("ash_rules_any".into(), "#include extra".into());
    f.insert("sep_exact_any".into(), "// end\n".into());
    f
}

const BAD_LINES: &[&str] = &[
    "\n",
    "x\n",
    "\"a\" \"\" \"\"\n",
    "\"\" \"\" \"\" \"x\"\n",
    "\"a\" \"\" \"\" \"x\" y\n",
    "\"a\" \"\" \"\" \"(x\"\n",
    "\"a\" \"\" \"\" \"x[la\"\n",
    "\"a\" \"[\" \"\" \"x\"\n",
    "\"a\" \"\" \"a[\" \"x\"\n",
    "\"a\" \"\" \"\n\" \"x\"\n",
    "#include\n",
    "#include nowhere\n",
    "#include gen_rules_any\n",
    "#include extra extra\n",
    "/*\n",
    "*/\n",
    "/* é\n\n*/ x\n",
    "/* a\r\n\r\n*/\r\n",
    "/*\r\n\r*/\n",
    "a la\n",
    "a la maybe\n",
    "a la true x\n",
    " a la true\n",
    "[ la true\n",
    "la lb\n",
    "é\n",
    "// fine\n",
    "/* fine\n\n*/\n",
    "la\n",
    "a la false\n",
    "\"a\" \"\" \"\" \"q\"\n",
    "#include extra\n",
    "\r",
];

pub fn faults() -> Faults {
    let mut shipped = Files::new();
    for e in std::fs::read_dir(format!("{DATA}/cc-rules")).unwrap() {
        let p = e.unwrap().path();
        if p.extension().is_some_and(|e| e == "txt") {
            shipped.insert(p.file_stem().unwrap().to_string_lossy().to_string(), std::fs::read_to_string(&p).unwrap());
        }
    }
    let mut words = words_over(&["a", "b", "é", "c"], 2);
    words.extend(["abé", "bab", "cab"].map(String::from));
    Faults {
        disk: PerThread::new(|| Disk::new("faults")),
        small: small(),
        crlf: small().into_iter().map(|(k, v)| (k, v.replace("\r\n", "\n").replace('\n', "\r\n"))).collect(),
        shipped,
        words,
    }
}

fn all_setups() -> Vec<Setup> {
    TYPES.iter().flat_map(|t| ["approx", "exact"].map(|k| setup(t, k, 20))).collect()
}

impl Faults {
    fn pick(&self, base: &str) -> Option<&Files> {
        match base {
            "small" => Some(&self.small),
            "crlf" => Some(&self.crlf),
            "shipped" => Some(&self.shipped),
            _ => None,
        }
    }
}

/// Names of files that aren't part of a configuration, `%` is a byte that isn't UTF-8.
const OTHERS: &[&str] = &[
    "README", "README.md", "notes.txt", "languages.txt", "_languages.txt", "any_languages.txt", "other_languages.txt", "GEN_languages.txt",
    "Gen_languages.txt", "gen_languages", "gen_languages.TXT", "gen_languages.txt~", "gen_languages.txt.bak", ".gen_languages.txt",
    "xgen_languages.txt", "gen_languages_.txt", "gen_lang.txt.orig", "gen_rules_zz.txt", "gen_approx_zz.txt", "gen_exact_lc.txt",
    "zz_rules_any.txt", "rules_any.txt", "%", "gen%_languages.txt", "é_languages.txt", " gen_languages.txt", "gen_languages.txt ",
];
/// What these entries are.
const ENTRIES: &[&str] = &["", "x y z\n", "any\nzz\n", "/*", "\"", "%", "*directory", "*dangling", "*loop"];

impl Faults {
    fn entry(&self, files: &Files, name: &str, what: &str) -> Result<Obs, String> {
        use std::os::unix::ffi::OsStringExt;
        let bytes = |s: &str| s.bytes().map(|b| if b == b'%' { 0xff } else { b }).collect::<Vec<u8>>();
        let disk = self.disk.get();
        disk.put(&files.iter().map(|(k, v)| (k.clone(), v.clone().into_bytes())).collect());
        let path = disk.dir.join(std::ffi::OsString::from_vec(bytes(name)));
        let side = disk.dir.with_extension("side");
        let old = std::fs::read(&path).ok();
        if old.is_some() {
            std::fs::remove_file(&path).expect("scratch");
        }
        match what {
            "*directory" => std::fs::create_dir(&path),
            "*dangling" => std::os::unix::fs::symlink("nowhere", &path),
            "*loop" => std::os::unix::fs::symlink(&path, &path),
            "*elsewhere" => std::fs::write(&side, old.as_deref().unwrap_or_default()).and_then(|_| std::os::unix::fs::symlink(&side, &path)),
            _ => std::fs::write(&path, bytes(what)),
        }
        .expect("scratch");
        // Compared without the panics of the library, for the directory to be restored
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            if old.is_none() || what == "*elsewhere" {
                compare(disk, files, &all_setups()[2..4], &self.words, &[None])
            } else {
                match ConfigFiles::new(&disk.dir) {
                    Err(_) => obs(&(name, what), 1),
                    Ok(_) => Err("it can't be read, but the directory is accepted".into()),
                }
            }
        }));
        if what == "*directory" {
            std::fs::remove_dir(&path).expect("scratch");
        } else {
            std::fs::remove_file(&path).expect("scratch");
        }
        if let Some(old) = old {
            std::fs::write(&path, old).expect("scratch");
        }
        let r = r.unwrap_or_else(|_| Err(format!("panic: {}", crate::engine::last_panic())));
        r.map_err(|e| format!("with {name:?} ({what:?}) in the directory: {e}"))
    }
}

impl Prop for Faults {
    fn check(&self, case: &str) -> Result<Obs, String> {
        let p: Vec<&str> = case.split(SEP).collect();
        let [base, file, kind, at, text] = p[..] else { return obs("", 0) };
        let Some(original) = self.pick(base) else { return obs("", 0) };
        let mut files = original.clone();
        let disk = self.disk.get();
        let old = original.get(file).cloned().unwrap_or_default();
        let n: usize = at.parse().unwrap_or(0);
        match kind {
            "missing" => {
                files.remove(file);
                if !text.is_empty() {
                    files.remove(text);
                }
            }
            "replace" => {
                // One line
                let mut lines: Vec<&str> = old.split_inclusive('\n').collect();
                if n >= lines.len() {
                    lines.push(text);
                } else {
                    lines[n] = text;
                }
                files.insert(file.into(), lines.concat());
            }
            "insert" => {
                let mut lines: Vec<&str> = old.split_inclusive('\n').collect();
                lines.insert(n.min(lines.len()), text);
                files.insert(file.into(), lines.concat());
            }
            "cut" => {
                let Some(s) = old.get(..n) else { return obs("", 0) };
                files.insert(file.into(), s.into());
            }
            "drop" => {
                // One character
                let Some((a, b)) = old.get(..n).zip(old.get(n..)) else { return obs("", 0) };
                let mut it = b.chars();
                it.next();
                files.insert(file.into(), format!("{a}{text}{}", it.as_str()));
            }
            "text" => {
                files.insert(file.into(), text.into());
            }
            "after" => {
                // Many lines before
                files.insert(file.into(), format!("{}{text}{old}", ["\n", "// c\n", "/*\n\n*/\n"][n % 3].repeat(n)));
            }
            "chain" => {
                // Files that include one another, up to the text; one rule in each
                files.insert(file.into(), format!("{old}\n#include chain1\n"));
                for k in 1..n {
                    let r = rule(["a", "b", "c", "é"][k % 4], "", "", &k.to_string());
                    files.insert(format!("chain{k}"), format!("{r}#include chain{}\n", k + 1));
                }
                files.insert(format!("chain{n}"), text.into());
            }
            "bytes" => {
                // What isn't UTF-8 can't be loaded.
                let mut raw: BTreeMap<String, Vec<u8>> = files.iter().map(|(k, v)| (k.clone(), v.clone().into_bytes())).collect();
                let mut b = old.into_bytes();
                let byte: u8 = text.parse().unwrap_or(0xff);
                b.insert(n.min(b.len()), byte);
                raw.insert(file.into(), b);
                disk.put(&raw);
                return match ConfigFiles::new(&disk.dir) {
                    Err(_) => obs(&(file, n), 1),
                    Ok(_) => Err("a file that isn't UTF-8 is accepted".into()),
                };
            }
            // Something else in the directory, or in place of a file
            "entry" => return self.entry(&files, file, text),
            "directory" => {
                let r = ConfigFiles::new(&disk.dir.join(text));
                return if r.is_err() {
                    obs("error", 1)
                } else {
                    Err("a directory that doesn't exist is accepted".into())
                };
            }
            _ => return obs("", 0),
        }
        if base == "shipped" {
            compare(disk, &files, &[], &[], &[])
        } else {
            compare(disk, &files, &all_setups(), &self.words, &[None])
        }
    }

    fn explore(&self, ctx: &Ctx) {
        let t = ctx.thorough;
        let small: Vec<(&String, &String)> = self.small.iter().collect();
        let mut v = vec![];
        let c = |base: &str, file: &str, kind: &str, n: usize, text: &str| [base, file, kind, &n.to_string(), text].join(&SEP.to_string());
        // Files that aren't there, one or two
        for (a, _) in &small {
            for (b, _) in &small {
                v.push(c("small", a, "missing", 0, b));
            }
        }
        for a in self.shipped.keys() {
            v.push(c("shipped", a, "missing", 0, ""));
        }
        for d in ["nowhere", "gen_lang.txt", "../nowhere/x", "\0"] {
            v.push(c("small", "", "directory", 0, d));
        }
        ctx.list("missing files", &v);
        v.clear();
        for name in OTHERS {
            for what in ENTRIES {
                v.push(c("small", name, "entry", 0, what));
            }
        }
        for (f, _) in &small {
            for what in ["%", "*directory", "*dangling", "*loop", "*elsewhere"] {
                v.push(c("small", &format!("{f}.txt"), "entry", 0, what));
            }
        }
        ctx.list("other entries in the directory, or in place of its files", &v);
        v.clear();
        for (f, text) in &small {
            for n in 0..=text.split_inclusive('\n').count() {
                for l in BAD_LINES {
                    v.push(c("small", f, "replace", n, l));
                    v.push(c("small", f, "insert", n, l));
                }
            }
            for n in 0..=text.len() {
                v.push(c("small", f, "cut", n, ""));
                for x in ["", "\"", "\n", "é", " ", "/", "[", "\r"] {
                    v.push(c("small", f, "drop", n, x));
                }
                for b in ["255", "128", "195"] {
                    if *b != *"195" || !text[..].as_bytes().get(n).is_some_and(|x| x & 0xc0 == 0x80) {
                        v.push(c("small", f, "bytes", n, b));
                    }
                }
            }
            // Two faulty lines: the first one must be told
            for a in BAD_LINES {
                for b in BAD_LINES {
                    v.push(c("small", f, "text", 0, &format!("{a}{b}")));
                    if t {
                        for d in BAD_LINES {
                            v.push(c("small", f, "text", 0, &format!("{a}{b}{d}")));
                        }
                    }
                }
            }
        }
        ctx.list("faults in each file of a small configuration", &v);
        // Other ends of line
        let mut v = vec![];
        for (f, text) in &self.crlf {
            for n in 0..=text.split_inclusive('\n').count() {
                for l in BAD_LINES {
                    let l = if l.contains('\r') { l.to_string() } else { l.replace('\n', "\r\n") };
                    v.push(c("crlf", f, "replace", n, &l));
                    v.push(c("crlf", f, "insert", n, &l));
                }
            }
            for n in 0..=text.len() {
                v.push(c("crlf", f, "cut", n, ""));
                for x in ["", "\"", "\n"] {
                    v.push(c("crlf", f, "drop", n, x));
                }
            }
        }
        ctx.list("faults in each file of the same configuration with CR LF", &v);
        // Characters of rule files
        let chars = ["\"", "a", " ", "#include extra", "\n", "/", "*", "[", "(", ")"];
        let texts = words_over(&chars, if t { 5 } else { 4 });
        let files = ["gen_rules_any", "gen_lang", "gen_languages", "extra", "sep_approx_common", "ash_languages"];
        let starts = ["", "\"a\" \"\" \"\" \"x\"", "a la true", "any"];
        ctx.indexed("all short texts", texts.len() * files.len() * starts.len(), 16, &|i| {
            let (s, i) = (i % starts.len(), i / starts.len());
            Some(c(
                "small",
                files[i % files.len()],
                "text",
                0,
                &format!("{}{}", starts[s], texts[i / files.len()]),
            ))
        });
        // Far lines, deep includes
        let mut v = vec![];
        for (f, _) in &small {
            for n in [63, 64, 65, 84, 85, 86, 127, 128, 129, 253, 254, 255, 256, 257, 332, 333, 334, 997, 998, 999, 1000, 1001, 1022, 1023, 1024, 4999, 5000, 9999, 65_535, 65_536] {
                if t || n < 5001 {
                    v.extend(BAD_LINES.iter().map(|l| c("small", f, "after", n, l)));
                }
            }
        }
        for f in ["gen_rules_any", "gen_approx_any", "gen_exact_common", "extra"] {
            for n in (1..=if t { 64 } else { 20 }).chain([33, 40]) {
                v.extend(BAD_LINES.iter().map(|l| c("small", f, "chain", n, l)));
                v.push(c("small", f, "chain", n, "\"a\" \"\" \"\" \"q\"\n\"c\" \"\" \"\" \"d\"\n"));
                v.push(c("small", f, "chain", n, &format!("#include chain{}\n", n / 2)));
            }
        }
        ctx.list("lines after many others, and files included in depth", &v);
        // Shipped rules: one line of the biggest files
        let mut v = vec![];
        for (f, text) in &self.shipped {
            let n = text.split_inclusive('\n').count();
            let step = if t { 1.max(n / 60) } else { 1.max(n / 4) };
            for k in (0..n).step_by(step).chain([n - 1, n]) {
                for l in ["x\n", "\"\" \"\" \"\" \"\"\n", "/* x\n\n"] {
                    v.push(c("shipped", f, "replace", k, l));
                }
            }
        }
        ctx.list("faults in the shipped rules", &v);
    }

    fn shrinkable(&self) -> bool {
        false
    }

    fn bounds(&self, t: bool) -> String {
        format!(
            "a small configuration ({} files, with comments of all kinds, includes, languages): every pair of missing files; {} other names as a file (6 contents), a directory or a wrong link, that must not matter, and each file that isn't text, is a directory, a wrong link or a right one; every line replaced by or preceded by each of {} lines; every file cut at each byte, with each character removed or replaced in 7 ways, with bytes that aren't UTF-8 at each place; every file made of {} of these lines; the same configuration with CR LF at the end of the lines, with each line replaced or preceded, cut at each byte, each character removed or replaced; all texts of up to {} symbols out of 10 after 4 beginnings in 6 files; each of the {} lines after up to {} others in each file, or at the end of a chain of up to {} included files; shipped configuration: each missing file, {} of its lines replaced in 3 ways",
            self.small.len(), OTHERS.len(), BAD_LINES.len(), if t { "two or three" } else { "two" }, if t { 5 } else { 4 }, BAD_LINES.len(), if t { 65_536 } else { 5000 }, if t { 64 } else { 40 }, if t { "about 60 per file" } else { "about 4 per file" }
        )
    }
}
