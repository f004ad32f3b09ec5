//! Beider-Morse with the shipped rules.
use super::encoders::Imps;
use crate::engine::{obs, Ctx, Obs, PerThread, Prop};
use crate::models::bm::{Config, Engine, TYPES};
use crate::models::dm as dm_model;
use crate::words::{self, expand};
use rphonetic::*;
use std::collections::BTreeSet;
use std::path::PathBuf;
use std::sync::OnceLock;

pub const DATA: &str = concat!(env!("CARGO_MANIFEST_DIR"), "/data");

pub fn shipped_dir() -> PathBuf {
    PathBuf::from(format!("{DATA}/cc-rules"))
}

pub fn read(dir: &str, file: &str) -> Option<String> {
    std::fs::read_to_string(format!("{DATA}/{dir}/{file}.txt")).ok()
}

pub fn shipped_model() -> &'static Config {
    static C: OnceLock<Config> = OnceLock::new();
    C.get_or_init(|| Config::load(&|f| read("cc-rules", f)).expect("shipped rules"))
}

fn embedded_model() -> &'static Config {
    static C: OnceLock<Config> = OnceLock::new();
    C.get_or_init(|| Config::embedded(&|f| read("embedded/bm", f)).expect("embedded rules"))
}

pub fn name_type(t: &str) -> NameType {
    t.parse().unwrap()
}

pub fn rule_type(k: &str) -> RuleType {
    if k == "exact" {
        RuleType::Exact
    } else {
        RuleType::Approx
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Setup {
    pub t: &'static str,
    pub kind: &'static str,
    pub concat: bool,
    pub max: usize,
}

pub fn build(c: &ConfigFiles, s: Setup) -> BeiderMorse<'_> {
    BeiderMorseBuilder::new(c)
        .name_type(name_type(s.t))
        .rule_type(rule_type(s.kind))
        .concat(s.concat)
        .max_phonemes(s.max)
        .build()
}

pub fn engine(c: &Config, s: Setup) -> Engine<'_> {
    Engine {
        c,
        t: s.t,
        kind: s.kind,
        concat: s.concat,
        max: s.max,
    }
}

pub fn setups(max: usize) -> Vec<Setup> {
    let mut v = vec![];
    for t in TYPES {
        for kind in ["approx", "exact"] {
            v.push(Setup { t, kind, concat: true, max });
        }
    }
    v
}

fn imps_of(c: ConfigFiles, s: &[Setup]) -> Imps {
    let c: &'static ConfigFiles = Box::leak(Box::new(c));
    s.iter()
        .map(|s| {
            let e = build(c, *s);
            let f: super::encoders::Imp = Box::new(move |w: &str| e.encode(w));
            (format!("{s:?}"), f)
        })
        .collect()
}

const FRAGMENTS: &[&str] = &[
    "sch", "tsch", "ch", "sh", "cz", "sz", "rz", "dz", "cs", "gy", "ny", "gn", "gh", "gli", "lh", "nh", "ough", "tch", "eau", "ei", "ie", "oo", "uu", "aa",
    "ph", "th", "qu", "x", "ck", "tz", "ts", "zs", "ll", "ñ", "ç", "é", "è", "ä", "ö", "ü", "ß", "ø", "ł", "ą", "ę", "ş", "ţ", "ğ", "ı", "ő", "ű", "č", "ř",
    "š", "ž", "ă", "ā", "â", "ê", "î", "ó", "ż", "ź", "ć", "ń", "α", "β", "γ", "γγ", "ου", "ς", "σ", "ω", "ж", "ш", "щ", "ч", "ю", "я", "ь", "ъ", "ий", "ש",
    "כ", "ן", "ה", "צ", "י", "ו", "א", "'", " ", "-", "witz", "ski", "escu", "poulos", "ides", "oglu", "mac", "mc", "stein", "berg", "mann", "baum", "tj",
    "sj", "ij", "ao", "oe", "ue",
];

pub fn pattern_words() -> Vec<String> {
    // Every pattern of every rule file, in a few contexts
    let mut pats: BTreeSet<String> = BTreeSet::new();
    let mut names: Vec<_> = std::fs::read_dir(format!("{DATA}/cc-rules")).unwrap().map(|e| e.unwrap().path()).collect();
    names.sort();
    for p in names {
        let stem = p.file_stem().unwrap().to_string_lossy().to_string();
        if !stem.contains("_rules_") {
            continue;
        }
        for (_, l) in dm_model::code_lines(&std::fs::read_to_string(&p).unwrap()) {
            if let Some([a, b, c, _]) = dm_model::four(&l) {
                pats.insert(a.to_string());
                // Literal parts of the contexts
                for s in [b, c] {
                    for w in s.split(|c: char| !c.is_alphabetic()).filter(|w| !w.is_empty()) {
                        if w.chars().count() <= 4 {
                            pats.insert(format!("{w}{a}"));
                            pats.insert(format!("{a}{w}"));
                        }
                    }
                }
            }
        }
    }
    let around: &[&str] = &["", "a", "b", "e", "i", "s", "n", "t", "k", "g"];
    let mut out = BTreeSet::new();
    for p in &pats {
        for a in around {
            for b in around {
                out.insert(format!("{a}{p}{b}"));
            }
        }
    }
    out.into_iter().collect()
}

/// Every rule of a configuration in every context that its own contexts distinguish: each text that they accept, and each
/// character of the table in their place. The final rules work on phonemes, words that give them are searched for.
struct RuleWords {
    c: &'static Config,
    targets: Vec<Target>,
    /// By name type: patterns of the first rules by phoneme
    inverse: std::collections::BTreeMap<&'static str, std::collections::BTreeMap<String, Vec<String>>>,
}

struct Target {
    t: &'static str,
    /// Kind of the final rules, and if they are those after the common ones
    stage: Option<(&'static str, bool)>,
    text: String,
    first: bool,
    last: bool,
}

impl RuleWords {
    fn new(c: &'static Config) -> Self {
        let mut targets = vec![];
        let mut inverse = std::collections::BTreeMap::new();
        for t in TYPES {
            let mut inv: std::collections::BTreeMap<String, Vec<String>> = Default::default();
            for r in c.rules_of(&format!("{t}_rules_any")) {
                for o in r.outputs.iter().filter(|o| !o.is_empty()) {
                    inv.entry(o.clone()).or_default().push(r.pattern.clone());
                }
            }
            for v in inv.values_mut() {
                v.sort_by_key(|p| (p.chars().count(), p.clone()));
                v.dedup();
                v.truncate(4);
            }
            inverse.insert(t, inv);
            let tables = [
                ("rules_any", None),
                ("approx_common", Some(("approx", false))),
                ("exact_common", Some(("exact", false))),
                ("approx_any", Some(("approx", true))),
                ("exact_any", Some(("exact", true))),
            ];
            for (file, stage) in tables {
                let rules = c.rules_of(&format!("{t}_{file}"));
                let mut letters: BTreeSet<String> = BTreeSet::new();
                for r in &rules {
                    letters.extend(r.pattern.chars().map(|c| c.to_string()));
                    for s in r.lefts.iter().chain(&r.rights) {
                        letters.extend(s.chars().map(|c| c.to_string()));
                    }
                }
                letters.insert(String::new());
                let mut seen = BTreeSet::new();
                let letters: Vec<&String> = letters.iter().collect();
                // Longer contexts: a character replaced
                let near = |v: &[String]| -> Vec<String> {
                    let mut out: BTreeSet<String> = BTreeSet::new();
                    for s in v.iter().filter(|s| s.chars().count() > 1) {
                        for i in 0..s.chars().count() {
                            for l in &letters {
                                out.insert(s.chars().enumerate().map(|(j, c)| if i == j { (*l).clone() } else { c.to_string() }).collect());
                            }
                        }
                    }
                    out.into_iter().collect()
                };
                for r in &rules {
                    let (near_left, near_right) = (near(&r.lefts), near(&r.rights));
                    let lefts: Vec<&String> = r.lefts.iter().collect();
                    let rights: Vec<&String> = r.rights.iter().collect();
                    let one = |v: &Vec<String>| v[..v.len().min(1)].to_vec();
                    let (left, right) = (one(&r.lefts), one(&r.rights));
                    let (near_left, near_right) = (near_left.iter().collect(), near_right.iter().collect());
                    let (left, right) = (left.iter().collect(), right.iter().collect());
                    for (ls, rs) in [(&lefts, &rights), (&letters, &rights), (&lefts, &letters), (&near_left, &right), (&left, &near_right)] {
                        for l in ls {
                            for x in rs {
                                seen.insert(format!("{l}{}{x}", r.pattern));
                            }
                        }
                    }
                }
                targets.extend(seen.into_iter().map(|s| Target {
                    t,
                    stage,
                    first: s.starts_with('^'),
                    last: s.ends_with('$'),
                    text: s.replace(['^', '$'], ""),
                }));
            }
        }
        RuleWords { c, targets, inverse }
    }

    /// Words whose phonemes may be the text
    fn sources(&self, t: &'static str, text: &str, so_far: String, out: &mut Vec<String>) {
        if out.len() >= 24 {
            return;
        }
        if text.is_empty() {
            out.push(so_far);
            return;
        }
        let ends: Vec<usize> = text.char_indices().map(|(i, c)| i + c.len_utf8()).take(4).collect();
        for e in ends.into_iter().rev() {
            for p in self.inverse[t].get(&text[..e]).into_iter().flatten() {
                self.sources(t, &text[e..], format!("{so_far}{p}"), out);
            }
        }
    }

    fn word(&self, i: usize) -> Option<String> {
        let (g, i) = (i % 3, i / 3);
        let x = &self.targets[i];
        let around = ["", "a", "t"][g];
        if g > 0 && x.first && x.last {
            return None;
        }
        let wrap = |s: &str| format!("{}{s}{}", if x.first { "" } else { around }, if x.last { "" } else { around });
        let Some((kind, common)) = x.stage else { return Some(wrap(&x.text)) };
        let mut words = vec![];
        self.sources(x.t, &x.text, String::new(), &mut words);
        words.iter().map(|w| wrap(w)).find(|w| {
            let e = Engine {
                c: self.c,
                t: x.t,
                kind,
                concat: true,
                max: 20,
            };
            e.stage(w, common).iter().any(|p| match (x.first, x.last) {
                (true, true) => *p == x.text,
                (true, false) => p.starts_with(&x.text),
                (false, true) => p.ends_with(&x.text),
                (false, false) => p.contains(&x.text),
            })
        })
    }
}

const MORE: char = '\u{10FFFD}';

fn more() -> Vec<Setup> {
    let mut v = vec![];
    for t in TYPES {
        for kind in ["approx", "exact"] {
            v.push(Setup { t, kind, concat: false, max: 20 });
            for (concat, max) in [(true, 1), (true, 2), (false, 4), (true, 50), (true, 1000)] {
                v.push(Setup { t, kind, concat, max });
            }
        }
    }
    v
}

/// C20 and C28
pub struct Shipped {
    imps: PerThread<Imps>,
    setups: Vec<Setup>,
    /// Other settings: words on their own, other limits. Their cases start with `MORE`.
    more_imps: PerThread<Imps>,
    more: Vec<Setup>,
    model: &'static Config,
    embedded: bool,
}

pub fn shipped() -> Shipped {
    let s = setups(20);
    Shipped {
        imps: PerThread::new({
            let s = s.clone();
            move || imps_of(ConfigFiles::new(&shipped_dir()).expect("the shipped rules can be loaded"), &s)
        }),
        more_imps: PerThread::new(|| imps_of(ConfigFiles::new(&shipped_dir()).expect("the shipped rules can be loaded"), &more())),
        more: more(),
        setups: s,
        model: shipped_model(),
        embedded: false,
    }
}

pub fn embedded() -> Shipped {
    let s = setups(20);
    Shipped {
        imps: PerThread::new({
            let s = s.clone();
            move || imps_of(ConfigFiles::default(), &s)
        }),
        more_imps: PerThread::new(|| imps_of(ConfigFiles::default(), &more())),
        more: more(),
        setups: s,
        model: embedded_model(),
        embedded: true,
    }
}

impl Prop for Shipped {
    fn check(&self, case: &str) -> Result<Obs, String> {
        let (case, imps, setups) = match case.strip_prefix(MORE) {
            Some(c) => (c, self.more_imps.get(), &self.more),
            None => (case, self.imps.get(), &self.setups),
        };
        let word = expand(case);
        let mut seen = vec![];
        for ((name, f), s) in imps.iter().zip(setups) {
            let exp = engine(self.model, *s).encode(&word);
            let got = f(&word);
            if got != exp {
                return Err(format!("{name} on {word:?}: got {got:?}, expected {exp:?}"));
            }
            seen.push(exp);
        }
        obs(&seen, seen.len() as u64)
    }

    fn explore(&self, ctx: &Ctx) {
        let t = ctx.thorough;
        ctx.sequences("letters", &words::LOWER, if t { 5 } else { 4 });
        let mut frag: Vec<&str> = words::LOWER.to_vec();
        frag.extend(FRAGMENTS);
        ctx.sequences("fragments", &frag, if t { 3 } else { 2 });
        ctx.list("patterns of the rule files in their contexts", &pattern_words());
        let rules = RuleWords::new(self.model);
        ctx.indexed("every rule in every context", rules.targets.len() * 3, 64, &|i| rules.word(i));
        let mut s: Vec<&str> = words::SPECIAL.to_vec();
        s.extend(words::PUNCT);
        s.extend(["a", "K", "sch"]);
        ctx.sequences("special characters", &s, 2);
        ctx.indexed("every Unicode scalar value", if t { 0x110000 } else { 0x3100 }, 256, &|i| {
            Some(format!("a{}n", char::from_u32(i as u32)?))
        });
        let tails = ["", "ski", "witz", "mann"];
        let heads = ["", "gold", "rosen", "mor", "ver"];
        ctx.product("fragments inside names", &[&heads, &frag, &["", "a", "er"], &tails]);
        let mut longs = vec![];
        for v in ["a", "b", "sch", "é", " ", "-", "ou", "tz", "w", "an "] {
            for n in [5, 10, 20, 50] {
                longs.push(words::rep("", v, n, ""));
                longs.push(words::rep("M", v, n, "er"));
            }
        }
        ctx.list("periodic long words", &longs);
        let more = MORE.to_string();
        ctx.sequences_after("other settings: letters", &more, &words::LOWER, if t { 4 } else { 2 });
        ctx.product("other settings: fragments inside names", &[&[&more], &heads, &frag, &["", "a"], &["", "ski"]]);
        let parts = ["a", "v", " ", "-", "d'", "de la ", "van ", "O'", "é", "sch", "ben "];
        ctx.sequences_after("other settings: names of several words", &more, &parts, if t { 5 } else { 4 });
        ctx.product(
            "other settings: two names",
            &[&[&more], &heads, &["sch", "ou", "cz", "é", "x"], &[" ", "-", " de ", " O'"], &heads, &["sch", "ou", "cz", "é", "x"], &tails],
        );
    }

    fn bounds(&self, t: bool) -> String {
        format!(
            "3 name types x 2 rule types, {}; all words of up to {} letters, all sequences of up to {} of {} fragments, every pattern and context literal of the {} rule files between {} contexts, pairs of special characters, Unicode scalar values up to {}, names built of 4 parts, periodic words of up to 150 characters; with the words coded on their own, and limits of 1, 2, 4, 50 and 1000 phonemes, all words of up to {} letters, fragments inside names, sequences of up to {} parts of names out of 11, pairs of names",
            if self.embedded { "embedded configuration" } else { "configuration of commons-codec 1.17.1" },
            if t { 5 } else { 4 },
            if t { 3 } else { 2 },
            26 + FRAGMENTS.len(),
            "_rules_",
            100,
            if t { "U+10FFFF" } else { "U+3100" },
            if t { 4 } else { 2 },
            if t { 5 } else { 4 }
        )
    }
}
