//! Properties of all encoders together.
use super::bm::{build, shipped_dir, Setup};
use super::encoders::{self, Model};
use super::{dm, SEP};
use crate::engine::{obs, Ctx, Obs, PerThread, Prop};
use crate::models::*;
use crate::words::{self, expand, Plan};
use rphonetic::*;

/// Encoders that have a word model, in the order of the algorithms.
pub const IDS: [&str; 11] = ["C04", "C05", "C07", "C08", "C09", "C10", "C13", "C15", "C16", "C17", "C18"];

pub fn diff(id: &str) -> encoders::Diff {
    if id == "C10" {
        dm::builtin()
    } else {
        encoders::diff(id).unwrap()
    }
}

// ---------------------------------------------------------------- C06 and C14

pub struct Pairs {
    /// Only the match rating approach ?
    mra: bool,
    imps: PerThread<Vec<Cmp>>,
    models: Vec<(Model, usize)>,
    /// Beider-Morse encoders, whose codes are checked by other properties.
    bm: PerThread<Vec<(&'static str, BeiderMorse<'static>)>>,
}

fn beider_morse() -> Vec<(&'static str, BeiderMorse<'static>)> {
    let of = |c: ConfigFiles| -> &'static ConfigFiles { Box::leak(Box::new(c)) };
    let shipped = of(ConfigFiles::new(&shipped_dir()).expect("the shipped rules can be loaded"));
    let embedded = of(ConfigFiles::default());
    [
        ("BeiderMorse gen approx", shipped, "gen", "approx", true),
        ("BeiderMorse gen exact word by word", shipped, "gen", "exact", false),
        ("BeiderMorse ash exact", shipped, "ash", "exact", true),
        ("BeiderMorse sep exact", shipped, "sep", "exact", true),
        ("BeiderMorse embedded gen exact", embedded, "gen", "exact", true),
        ("BeiderMorse embedded ash exact word by word", embedded, "ash", "exact", false),
    ]
    .map(|(name, c, t, kind, concat)| (name, build(c, Setup { t, kind, concat, max: 20 })))
    .into()
}

/// Name, index of the model, output of the model, comparison
type Cmp = (String, usize, usize, Box<dyn Fn(&str, &str) -> (bool, Option<usize>)>);

fn eq<E: Encoder + 'static>(out: &mut Vec<Cmp>, name: &str, m: usize, k: usize, e: E) {
    out.push((name.into(), m, k, Box::new(move |a, b| (e.is_encoded_equals(a, b), None))));
}

fn dif<E: SoundexCommons + 'static>(out: &mut Vec<Cmp>, name: &str, m: usize, k: usize, e: E) {
    out.push((name.into(), m, k, Box::new(move |a, b| (e.is_encoded_equals(a, b), Some(e.difference(a, b))))));
}

const PAIR_IDS: [&str; 10] = ["C04", "C05", "C07", "C08", "C09", "C10", "C15", "C16", "C17", "C18"];

fn compared() -> Vec<Cmp> {
    let mut v = vec![];
    let ge = DEFAULT_US_ENGLISH_GENEALOGY_MAPPING_SOUNDEX;
    dif(&mut v, "Soundex default", 0, 0, Soundex::default());
    dif(&mut v, "Soundex us, no h/w", 0, 1, Soundex::new(DEFAULT_US_ENGLISH_MAPPING_SOUNDEX, false));
    dif(&mut v, "Soundex genealogy", 0, 3, Soundex::from(ge));
    dif(&mut v, "Soundex custom", 0, 5, encoders::ODD.parse::<Soundex>().unwrap());
    dif(&mut v, "RefinedSoundex default", 1, 0, RefinedSoundex::default());
    dif(&mut v, "RefinedSoundex custom", 1, 1, encoders::ODD.parse::<RefinedSoundex>().unwrap());
    eq(&mut v, "Caverphone1", 2, 0, Caverphone1);
    eq(&mut v, "Caverphone2", 3, 0, Caverphone2);
    eq(&mut v, "Cologne", 4, 0, Cologne);
    eq(&mut v, "DaitchMokotoffSoundex", 5, 0, DaitchMokotoffSoundex::default());
    for (k, l) in encoders::META_LIMITS.iter().enumerate() {
        if [None, Some(1), Some(4)].contains(l) {
            eq(&mut v, &format!("Metaphone {l:?}"), 6, k, Metaphone::new(*l));
        }
    }
    for (k, l) in encoders::DM2_LIMITS.iter().enumerate() {
        if [None, Some(0), Some(2), Some(4)].contains(l) {
            let e = DoubleMetaphone::new(*l);
            let half = |e: DoubleMetaphone, alt: bool| -> Box<dyn Fn(&str, &str) -> (bool, Option<usize>)> {
                Box::new(move |a, b| (e.is_double_metaphone_equal(a, b, alt), None))
            };
            v.push((format!("DoubleMetaphone {l:?} primary"), 100, k, half(e, false)));
            v.push((format!("DoubleMetaphone {l:?} alternate"), 101, k, half(e, true)));
            v.push((
                format!("DoubleMetaphone {l:?} is_encoded_equals"),
                100,
                k,
                Box::new(move |a, b| (e.is_encoded_equals(a, b), None)),
            ));
        }
    }
    eq(&mut v, "Nysiis not strict", 8, 0, Nysiis::new(false));
    eq(&mut v, "Nysiis strict", 8, 1, Nysiis::new(true));
    for (k, l) in encoders::PHONEX_LIMITS.iter().enumerate() {
        if [1, 4, 9].contains(l) {
            eq(&mut v, &format!("Phonex {l}"), 9, k, Phonex::new(*l));
        }
    }
    v
}

pub fn pairs() -> Pairs {
    Pairs {
        mra: false,
        imps: PerThread::new(compared),
        models: PAIR_IDS.iter().map(|id| (diff(id).model, 0)).collect(),
        bm: PerThread::new(beider_morse),
    }
}

pub fn mra_pairs() -> Pairs {
    Pairs {
        mra: true,
        imps: PerThread::new(|| {
            let mut v = vec![];
            eq(&mut v, "MatchRatingApproach", 0, 0, MatchRatingApproach);
            v
        }),
        models: vec![],
        bm: PerThread::new(Vec::new),
    }
}

/// Encoders of a user: the text itself, or its characters backwards without spaces.
struct Own(bool);

impl Encoder for Own {
    fn encode(&self, s: &str) -> String {
        if self.0 {
            s.chars().rev().filter(|c| *c != ' ').collect()
        } else {
            s.to_string()
        }
    }
}

impl SoundexCommons for Own {}

fn own_pair(a: &str, b: &str) -> Result<Obs, String> {
    let mut seen = vec![];
    for e in [Own(false), Own(true)] {
        let (x, y) = (e.encode(a), e.encode(b));
        let expected = (x == y, same_place(&x, &y));
        for (got, order) in [
            ((e.is_encoded_equals(a, b), e.difference(a, b)), "in this order"),
            ((e.is_encoded_equals(b, a), e.difference(b, a)), "in the other order"),
        ] {
            if got != expected {
                return Err(format!("an encoder whose codes are {x:?} and {y:?} {order}: got {got:?}, expected {expected:?}"));
            }
        }
        seen.push((x, y, expected));
    }
    obs(&seen, 4)
}

/// Comparisons of a pair of words with a mapping.
fn mapped_pair(m: &[char], pair: &str) -> Result<Obs, String> {
    let Some((a, b)) = pair.split_once(SEP) else { return obs("", 0) };
    let Ok(array) = <[char; 26]>::try_from(m.to_vec()) else { return obs("", 0) };
    let mut seen = vec![];
    let refined = RefinedSoundex::new(array);
    let r = (soundex::refined(m, a), soundex::refined(m, b));
    let mut all = vec![(
        "RefinedSoundex",
        (refined.is_encoded_equals(a, b), refined.difference(a, b)),
        (refined.is_encoded_equals(b, a), refined.difference(b, a)),
        (r.0 == r.1, same_place(&r.0, &r.1)),
    )];
    for hw in [false, true] {
        let e = Soundex::new(array, hw);
        let r = (soundex::soundex(m, hw, a), soundex::soundex(m, hw, b));
        all.push((
            if hw { "Soundex with h/w rule" } else { "Soundex without h/w rule" },
            (e.is_encoded_equals(a, b), e.difference(a, b)),
            (e.is_encoded_equals(b, a), e.difference(b, a)),
            (r.0 == r.1, same_place(&r.0, &r.1)),
        ));
    }
    for (name, got, back, expected) in all {
        if got != expected || back != expected {
            return Err(format!("{name}, mapping {m:?} on {a:?} and {b:?}: got {got:?} and {back:?}, expected {expected:?}"));
        }
        seen.push(expected);
    }
    obs(&(seen, r), 6)
}

pub fn same_place(a: &str, b: &str) -> usize {
    a.chars().zip(b.chars()).filter(|(x, y)| x == y).count()
}

impl Prop for Pairs {
    fn check(&self, case: &str) -> Result<Obs, String> {
        if let Some((m, pair)) = encoders::unmapped(case) {
            return mapped_pair(&m, pair);
        }
        let Some((a, b)) = case.split_once(SEP) else { return obs("", 0) };
        if let Some((a, b)) = b.split_once(SEP).filter(|_| a == "bm") {
            let mut seen = vec![];
            for (name, e) in self.bm.get() {
                let (x, y) = (e.encode(a), e.encode(b));
                for (got, order) in [(e.is_encoded_equals(a, b), "in this order"), (e.is_encoded_equals(b, a), "in the other order")] {
                    if got != (x == y) {
                        return Err(format!("{name} on {a:?} and {b:?} {order}: got {got:?}, the codes are {x:?} and {y:?}"));
                    }
                }
                seen.push((x, y));
            }
            return obs(&seen, seen.len() as u64);
        }
        if let Some((a, b)) = b.split_once(SEP).filter(|_| a == "own") {
            return own_pair(&expand(a), &expand(b));
        }
        let (a, b) = (expand(a), expand(b));
        let mut seen = vec![];
        let mut n = 0;
        let codes: Vec<(Vec<String>, Vec<String>)> = self.models.iter().map(|(m, _)| (m(&a), m(&b))).collect();
        for (name, m, k, f) in self.imps.get() {
            let (expected, places) = if self.mra {
                (mra::equals(&a, &b), None)
            } else {
                let (x, y) = match m {
                    100 | 101 => {
                        let half = |s: &str| s.split('|').nth(m - 100).unwrap().to_string();
                        (half(&codes[7].0[*k]), half(&codes[7].1[*k]))
                    }
                    _ => (codes[*m].0[*k].clone(), codes[*m].1[*k].clone()),
                };
                (x == y, (*m < 2).then(|| same_place(&x, &y)))
            };
            for (got, order) in [(f(&a, &b), "in this order"), (f(&b, &a), "in the other order")] {
                if got != (expected, places) {
                    return Err(format!("{name} on {a:?} and {b:?} {order}: got {got:?}, expected {:?}", (expected, places)));
                }
                n += 1;
            }
            seen.push((expected, places));
        }
        if self.mra {
            return obs(&(mra::encode(&a), mra::encode(&b), seen), n);
        }
        obs(&(codes, seen), n)
    }

    fn explore(&self, ctx: &Ctx) {
        let t = ctx.thorough;
        let sep = SEP.to_string();
        let names = [
            "Smith",
            "Smyth",
            "Smithers",
            "Smythers",
            "Schmidt",
            "Ann",
            "Andrew",
            "Anothers",
            "Brothers",
            "Burrows",
            "O'Hara",
            "Peter",
            "Peady",
            "Stevenson",
            "Thompson",
            "Thumpsun",
            "Catherine",
            "Kathryn",
            "Karl",
            "Carl",
            "Zach",
            "Zacharia",
            "Oona",
            "Yuhn",
            "Sean",
            "Shaun",
            "Éric",
            "Eric",
            "Eriç",
            "Müller",
            "Mueller",
            "Muller",
            "Trevor",
            "Travor",
            "Shannon",
            "Shanon",
            "Brian",
            "Bryan",
            "Bartholomew",
            "Bartolomeo",
            "Constantine",
            "Konstantin",
            "  Ann ",
            "A",
            "e",
            "",
            " ",
            "-",
            "'",
            "1",
            "é",
            "ß",
            "İ",
            "de la Cruz",
            "Van Helsing",
            "Jean-Pierre",
            "JeanPierre",
            "McDonald",
            "MacDonald",
            "Steven Wilson",
            "Micky",
            "Hailey",
            "Halley",
            "Murphy",
            "Cathy",
            "Franciszek",
            "Frances",
            "Margaret",
        ];
        let words: Vec<String> = if self.mra {
            dm::words_over(&["A", "B", "C", "D", "e"], if t { 5 } else { 4 })
        } else {
            dm::words_over(&words::LETTERS, 2)
        };
        let mut w: Vec<&str> = words.iter().map(|s| s.as_str()).collect();
        w.extend(names);
        ctx.product("all pairs of short words and names", &[&w, &[&sep], &w]);
        let s: Vec<&str> = words::SPECIAL.iter().chain(words::PUNCT).copied().chain(names).collect();
        ctx.product(
            "all pairs of special characters and names",
            &[&s, &["", "a", "AB"], &[&sep], &s, &["", "a", "AB"]],
        );
        let mut alphabet = vec![sep.as_str()];
        let depth = if self.mra {
            alphabet.extend(["A", "B", "C", "BB", "é", " ", "1"]);
            if t {
                8
            } else {
                7
            }
        } else {
            alphabet.extend(["A", "B", "C", "H", "S", "é", " "]);
            if t {
                8
            } else {
                6
            }
        };
        ctx.sequences("words and the separator", &alphabet, depth);
        if !self.mra {
            let maps: Vec<String> = encoders::BASES.iter().map(|m| encoders::mapped(m, "")).collect();
            let maps: Vec<&str> = maps.iter().map(|s| s.as_str()).collect();
            let words = dm::words_over(&["A", "B", "C", "H", "Z"], if t { 4 } else { 3 });
            let w: Vec<&str> = words.iter().map(|s| s.as_str()).chain(names).collect();
            ctx.product("8 mappings, all pairs of words", &[&maps, &w, &[&sep], &w]);
            // Words that differ at a place
            let ends = ["", "T", "K", "S", "X", "CH", "SCH", "A", "É"];
            let starts: Vec<String> = ["T", "TA", "SMA", "KAR", "CZ", "JA", "WICZ", "BDFG"]
                .iter()
                .flat_map(|v| [1usize, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129].map(|n| (v, n)))
                .flat_map(|(v, n)| {
                    let s = v.repeat(n);
                    ends.iter().flat_map(|x| ends.iter().flat_map(|y| ["", "TAR"].map(|z| format!("{s}{x}{z}{SEP}{s}{y}{z}"))).collect::<Vec<_>>()).collect::<Vec<_>>()
                })
                .collect();
            ctx.list("long words that differ at the end", &starts);
            let pre = format!("own{SEP}");
            let words = dm::words_over(&["A", "a", "0", "é", " ", "中"], if t { 4 } else { 3 });
            let long: Vec<String> =
                ["A", "B", "éA", "AB"].iter().flat_map(|v| [4usize, 255, 256, 257, 1000, 66_000].map(|n| words::rep("", v, n, ""))).collect();
            let w: Vec<&str> = words.iter().map(|s| s.as_str()).chain(names).chain(long.iter().map(|s| s.as_str())).collect();
            ctx.product("encoders of a user, all pairs of codes", &[&[&pre], &w, &[&sep], &w]);
            let pre = format!("bm{SEP}");
            let words = dm::words_over(&["A", "c", "S", "Z", "é", " "], if t { 4 } else { 2 });
            let w: Vec<&str> = words.iter().map(|s| s.as_str()).chain(names).collect();
            ctx.product("Beider-Morse, all pairs of words and names", &[&[&pre], &w, &[&sep], &w]);
        }
        if self.mra {
            // Long codes: a word against all its alterations
            let base = "BCDFGHKLMNPR";
            let alter = ["", "X", "same", "next"];
            let max = if t { 8 } else { 7 };
            for len in 1..=12usize {
                let k = len.min(max);
                ctx.indexed(
                    &format!("word of {len} consonants against all alterations of {k} of them"),
                    4usize.pow(k as u32) * 2,
                    256,
                    &|i| {
                        let chars: Vec<char> = base.chars().collect();
                        let mut s = String::new();
                        let at_end = i % 2 == 1;
                        let mut code = i / 2;
                        for p in 0..len {
                            let touched = if at_end { p >= len - k } else { p < k };
                            if !touched {
                                s.push(chars[p]);
                                continue;
                            }
                            match alter[code % 4] {
                                "same" => s.push(chars[p]),
                                "next" => s.push(chars[(p + 1) % 12]),
                                x => s.push_str(x),
                            }
                            code /= 4;
                        }
                        Some(format!("{}{SEP}{s}", &base[..len]))
                    },
                );
            }
            // All pairs of substrings of a word with repeated letters, and of its reverse
            let base = "ABRACADABRISTO";
            let rev: String = base.chars().rev().collect();
            let mut subs = vec![];
            for b in [base, &rev] {
                for i in 0..b.len() {
                    for j in i + 1..=b.len() {
                        subs.push(b[i..j].to_string());
                    }
                }
            }
            let s: Vec<&str> = subs.iter().map(|s| s.as_str()).collect();
            ctx.product("all pairs of substrings", &[&s, &[&sep], &s]);
            ctx.product(
                "all pairs of substrings, with an insertion",
                &[&s, &["", "X", "BB", "é"], &["Q", ""], &[&sep], if t { &s } else { &s[..105] }],
            );
        }
    }

    fn bounds(&self, t: bool) -> String {
        if self.mra {
            format!("all pairs of words of up to {} letters over A, B, C, D, e and of 66 names; pairs of special characters; all texts of up to {} symbols with a separator; words of 1 to 12 consonants against all their alterations (each one of up to {} letters kept, dropped, replaced by another or by the next); all pairs of substrings of a 14 letter word", if t { 5 } else { 4 }, if t { 8 } else { 7 }, if t { 8 } else { 7 })
        } else {
            format!("all pairs of words of up to 2 letters and of 66 names; pairs of special characters; all texts of up to {} symbols with a separator; in both orders; {} configurations; for 8 mappings (with codes of several bytes), all pairs of words of up to {} letters over A, B, C, H, Z and of names; six Beider-Morse encoders on all pairs of words of up to {} letters and of names; 8 starts repeated up to 129 times with all pairs of 9 ends; two encoders defined by a user on all pairs of codes of up to {} characters, of names and of long codes", if t { 8 } else { 6 }, self.imps.get().len(), if t { 4 } else { 3 }, if t { 4 } else { 2 }, if t { 4 } else { 3 })
        }
    }
}

// ---------------------------------------------------------------- C01

/// A case is an index in `IDS`, SEP, and a word (or two, to be compared). No output is compared with a model: the call
/// must return.
pub struct Total {
    all: Vec<encoders::Diff>,
    cmp: PerThread<Vec<Cmp>>,
    bm: PerThread<Vec<BeiderMorse<'static>>>,
}

/// All types of names, precisions, both ways to code several words, with few or many phonemes.
fn bounded() -> Vec<BeiderMorse<'static>> {
    let of = |c: ConfigFiles| -> &'static ConfigFiles { Box::leak(Box::new(c)) };
    let shipped = of(ConfigFiles::new(&shipped_dir()).expect("the shipped rules can be loaded"));
    let embedded = of(ConfigFiles::default());
    let mut v = vec![];
    for (k, c) in [shipped, embedded].into_iter().enumerate() {
        for t in ["gen", "ash", "sep"] {
            for (j, kind) in ["approx", "exact"].into_iter().enumerate() {
                // Each number of phonemes with each type of names
                let max = [0, 1, 20, 300][v.len() % 4];
                v.push(build(c, Setup { t, kind, concat: (k + j) % 2 == 0, max }));
            }
        }
    }
    for (t, kind, concat) in [("gen", "approx", false), ("ash", "exact", true), ("sep", "approx", false)] {
        v.push(build(shipped, Setup { t, kind, concat, max: 20 }));
    }
    v
}

/// The stack that a call uses doesn't depend on the length of the word: long words in a thread with a small stack. A
/// stack that overflows is the death of the process, that the engine reports.
fn shallow(bm: bool, word: &str) -> Result<Vec<usize>, String> {
    const STACK: usize = 256 << 10;
    let run = || {
        if bm {
            let c = ConfigFiles::default();
            return vec![build(&c, Setup { t: "gen", kind: "exact", concat: true, max: 1 }).encode(word).len()];
        }
        let all: Vec<Box<dyn Encoder>> = vec![
            Box::new(Soundex::default()),
            Box::new(RefinedSoundex::default()),
            Box::new(Caverphone1),
            Box::new(Caverphone2),
            Box::new(Cologne),
            Box::new(DaitchMokotoffSoundex::default()),
            Box::new(MatchRatingApproach),
            Box::new(Metaphone::new(None)),
            Box::new(DoubleMetaphone::new(None)),
            Box::new(Nysiis::new(false)),
            Box::new(Phonex::new(8)),
        ];
        all.iter().map(|e| e.encode(word).len() + e.is_encoded_equals(word, "Smith") as usize).collect()
    };
    std::thread::scope(|s| {
        let t = std::thread::Builder::new().stack_size(STACK).spawn_scoped(s, run).map_err(|e| e.to_string())?;
        t.join().map_err(|_| format!("panics on a word of {} characters", word.chars().count()))
    })
}

pub fn total() -> Total {
    Total {
        all: IDS.iter().map(|id| diff(id)).collect(),
        cmp: PerThread::new(|| {
            let mut v = compared();
            eq(&mut v, "MatchRatingApproach", 0, 0, MatchRatingApproach);
            v
        }),
        bm: PerThread::new(bounded),
    }
}

impl Prop for Total {
    fn check(&self, case: &str) -> Result<Obs, String> {
        let Some((k, word)) = case.split_once(SEP) else { return obs("", 0) };
        if let Some((l, w)) = word.split_once(SEP).filter(|_| k == "limit") {
            let Ok(l) = l.parse::<usize>() else { return obs("", 0) };
            return obs(&limited(l, &expand(w)), 4);
        }
        if k == "deep" || k == "deep bm" {
            let seen = shallow(k == "deep bm", &expand(word))?;
            return obs(&seen, seen.len() as u64);
        }
        if k == "bm" {
            let word = expand(word);
            let some = |l: &[&str]| LanguageSet::SomeLanguages(l.iter().map(|l| l.to_string()).collect());
            let sets = [
                LanguageSet::Any,
                LanguageSet::NoLanguages,
                some(&[]),
                some(&["french"]),
                some(&["any"]),
                some(&["polish", "nowhere", ""]),
            ];
            let seen: Vec<_> = self
                .bm
                .get()
                .iter()
                .map(|b| (b.encode(&word), b.encode_with_languages(&word, &sets[word.chars().count() % sets.len()])))
                .collect();
            return obs(&seen, 2 * seen.len() as u64);
        }
        if let Some((a, b)) = word.split_once(SEP) {
            let (a, b) = (expand(a), expand(b));
            let seen: Vec<_> = self.cmp.get().iter().map(|v| v.3(&a, &b)).collect();
            return obs(&seen, seen.len() as u64);
        }
        let Some(d) = k.parse::<usize>().ok().and_then(|k| self.all.get(k)) else {
            return obs("", 0);
        };
        let word = expand(word);
        let seen: Vec<String> = d.imps.get().iter().map(|v| v.1(&word)).collect();
        obs(&seen, seen.len() as u64)
    }

    fn explore(&self, ctx: &Ctx) {
        for (k, d) in self.all.iter().enumerate() {
            words::explore_at(ctx, &d.plan, &format!("{k}{SEP}"), true);
        }
        let (l, w) = (all_limits(), limited_words(ctx.thorough));
        ctx.indexed("every limit", l.len() * w.len(), 16, &|i| Some(format!("limit{SEP}{}{SEP}{}", l[i / w.len()], w[i % w.len()])));
        let sep = SEP.to_string();
        let pre = format!("cmp{SEP}");
        let mut a = vec![sep.as_str(), "A", "B", "H", "S", "é", " ", "CH", "GN", "ß", "-"];
        ctx.sequences_after("pairs of words to compare", &pre, &a, if ctx.thorough { 6 } else { 5 });
        a = words::SPECIAL.to_vec();
        a.extend(words::PUNCT);
        a.push("");
        ctx.product("pairs with special characters", &[&[&pre], &a, &["", "A", "MAC"], &[&sep], &a, &["", "B"]]);
        let long: Vec<String> = ["A", "B", "é", "AB", "-"]
            .iter()
            .flat_map(|v| [1usize, 5, 100, 300].map(|n| words::rep("", v, n, "")))
            .collect();
        let long: Vec<&str> = long.iter().map(|s| s.as_str()).collect();
        ctx.product("pairs of long words", &[&[&pre], &long, &[&sep], &long]);
        let pre = format!("bm{SEP}");
        let t = ctx.thorough;
        ctx.sequences_after("letters, Beider-Morse", &pre, &words::LOWER, if t { 4 } else { 2 });
        let chars: Vec<String> = (0..0x110000u32).filter_map(char::from_u32).map(|c| c.to_string()).collect();
        let chars: Vec<&str> = chars.iter().map(|s| s.as_str()).take(if t { chars.len() } else { 0x3000 }).collect();
        ctx.product("characters in contexts, Beider-Morse", &[&[&pre], &["", "d'", "ka"], &chars, &["", "o"]]);
        let mut few: Vec<&str> = words::SPECIAL.to_vec();
        few.extend(words::PUNCT);
        few.extend(["d'", "van ", "ben ", "de la ", "sch", "a", "", "''", "--", "  "]);
        ctx.product("special characters and prefixes, Beider-Morse", &[&[&pre], &few, &few, &["", "'", "a"]]);
        let long: Vec<String> = ["a", "b", "é", "sch", "ab-", "d'", "van ", "o'", "ß", "x ", "ii", "日"]
            .iter()
            .flat_map(|v| [3usize, 20, 60].map(|n| words::rep("", v, n, "")))
            .collect();
        let long: Vec<&str> = long.iter().map(|s| s.as_str()).collect();
        ctx.product("long words, Beider-Morse", &[&[&pre], &long]);
        let n = if t { 20_000 } else { 5000 };
        let mut deep: Vec<String> = ["a", "b", "é", "sch", "ab-", " ", "ß", "CC", "H", "'", "tz", "nm"]
            .iter()
            .map(|v| format!("deep{SEP}{}", words::rep("", v, n / v.len(), "K")))
            .collect();
        let (m, n) = if t { (1000, 500) } else { (700, 250) };
        for (v, n) in [("d'", m), ("van ", n), ("d'a ", n), ("de-la ", n / 2), ("a ", m), ("ab", m), ("'", m), ("-é", m)] {
            deep.push(format!("deep bm{SEP}{}", words::rep("", v, n, "K")));
        }
        for p in ["d'", "da", "dal", "de", "del", "dela", "de la", "della", "des", "di", "do", "dos", "du", "van", "von"] {
            for sep in ["  ", "--", " - ", "-\t", " \u{a0}", " d'", " d' ", " l ", " la "] {
                deep.push(format!("deep bm{SEP}{}", words::rep("", &format!("{p}{sep}"), 60, "K")));
            }
        }
        ctx.indexed("long words, in a small stack", deep.len(), 1, &|i| Some(deep[i].clone()));
    }

    fn bounds(&self, t: bool) -> String {
        let v: Vec<String> = IDS
            .iter()
            .zip(&self.all)
            .map(|(id, d)| format!("{id}: {} (sequences one symbol shorter)", words::describe(&d.plan, t)))
            .collect();
        format!("{}; Beider-Morse (15 settings, explicit sets of languages) on words of up to {} letters, characters in contexts, pairs of special characters and prefixes of names, long words; all encoders on words of thousands of characters in a stack of 256 KiB; every limit up to 1200 and those around powers of two up to 2^17 on words with short and long codes", v.join("; "), if t { 4 } else { 2 })
    }
}

// ---------------------------------------------------------------- C19

/// What a maximum length does, without model: a longer limit only extends the code.
pub struct Limits {
    imps: PerThread<Vec<Family>>,
}

struct Family {
    name: &'static str,
    /// Code for each limit
    codes: Vec<(usize, Box<dyn Fn(&str) -> String>)>,
    /// Code without limit
    full: Box<dyn Fn(&str) -> String>,
    /// Padded with zeros up to the limit ?
    padded: bool,
}

fn families() -> Vec<Family> {
    let limits: Vec<usize> = (0..=16).chain([31, 32, 40, 255, 256, 1000]).collect();
    let e = |e: Box<dyn Encoder>| -> Box<dyn Fn(&str) -> String> { Box::new(move |s: &str| e.encode(s)) };
    let mut v = vec![];
    v.push(Family {
        name: "Metaphone",
        codes: limits
            .iter()
            .chain(&[usize::MAX])
            .map(|l| (*l, e(Box::new(Metaphone::new(Some(*l))))))
            .collect(),
        full: e(Box::new(Metaphone::new(None))),
        padded: false,
    });
    v.push(Family {
        name: "DoubleMetaphone primary",
        codes: limits
            .iter()
            .chain(&[usize::MAX])
            .map(|l| (*l, e(Box::new(DoubleMetaphone::new(Some(*l))))))
            .collect(),
        full: e(Box::new(DoubleMetaphone::new(None))),
        padded: false,
    });
    let alt = |l: Option<usize>| -> Box<dyn Fn(&str) -> String> {
        let d = DoubleMetaphone::new(l);
        Box::new(move |s: &str| {
            let r = d.double_metaphone(s).alternate();
            if r == d.encode_alternate(s) {
                r
            } else {
                "encode_alternate differs".into()
            }
        })
    };
    v.push(Family {
        name: "DoubleMetaphone alternate",
        codes: limits.iter().chain(&[usize::MAX]).map(|l| (*l, alt(Some(*l)))).collect(),
        full: alt(None),
        padded: false,
    });
    v.push(Family {
        name: "Nysiis",
        codes: vec![(6, e(Box::new(Nysiis::new(true)))), (6, e(Box::new(Nysiis::default())))],
        full: e(Box::new(Nysiis::new(false))),
        padded: false,
    });
    v.push(Family {
        name: "Phonex",
        codes: limits.iter().map(|l| (*l, e(Box::new(Phonex::new(*l))))).collect(),
        full: e(Box::new(Phonex::new(2000))),
        padded: true,
    });
    v
}

pub fn limits() -> Limits {
    Limits {
        imps: PerThread::new(families),
    }
}

/// All limits up to 1200, and around powers of two: counters may be too small.
fn all_limits() -> Vec<String> {
    let mut v: Vec<usize> = (0..=1200).collect();
    for k in 11..=17 {
        v.extend([(1 << k) - 1, 1 << k, (1 << k) + 1]);
    }
    v.into_iter().map(|l| l.to_string()).collect()
}

/// Words for these limits: short codes, and longer ones than most limits.
fn limited_words(t: bool) -> Vec<String> {
    let mut v: Vec<String> = ["", "a", "x", "é", "Ashcraft", "Schwarzenegger", "handd", "Kowalewski"].map(String::from).to_vec();
    let mut n = vec![130, 350];
    if t {
        n.push(33_000);
    }
    for n in n {
        for p in ["KATN", "BIRA", "TAXI", "CHIA", "dgé"] {
            v.push(words::rep("", p, n, ""));
            v.push(words::rep("SCH", p, n, "X"));
        }
    }
    v
}

/// The code with a limit and the expected one, from the code without limit, for each encoder that has limits.
fn limited(l: usize, word: &str) -> Vec<(&'static str, String, String)> {
    let cut = |s: String| s.chars().take(l).collect::<String>();
    let d = DoubleMetaphone::new(Some(l));
    let full = DoubleMetaphone::new(None).double_metaphone(word);
    // Twice as long as the word is more than enough
    let phonex = Phonex::new(2 * word.chars().count() + 10).encode(word);
    vec![
        ("Metaphone", Metaphone::new(Some(l)).encode(word), cut(Metaphone::new(None).encode(word))),
        ("DoubleMetaphone primary", d.double_metaphone(word).primary(), cut(full.primary())),
        ("DoubleMetaphone alternate", d.double_metaphone(word).alternate(), cut(full.alternate())),
        ("Phonex", Phonex::new(l).encode(word), phonex.chars().chain(std::iter::repeat('0')).take(l).collect()),
    ]
}

impl Prop for Limits {
    fn check(&self, case: &str) -> Result<Obs, String> {
        if let Some((l, word)) = case.split_once(SEP) {
            let Ok(l) = l.parse::<usize>() else { return obs("", 0) };
            let word = expand(word);
            let all = limited(l, &word);
            for (name, got, expected) in &all {
                if got != expected {
                    return Err(format!("{name} limited to {l} on {word:?}: {got:?}, expected {expected:?}"));
                }
            }
            return obs(&all, 4);
        }
        let word = expand(case);
        let mut n = 0;
        let mut seen = vec![];
        for f in self.imps.get() {
            let full = (f.full)(&word);
            let near = full.chars().filter(|c| !f.padded || *c != '0').count() + 3;
            for (l, c) in &f.codes {
                // Far from the length of the code, one limit out of all is enough
                if *l > near && ![255, 1000, usize::MAX].contains(l) {
                    continue;
                }
                let code = c(&word);
                let chars = code.chars().count();
                let want = if f.padded { *l } else { full.chars().count().min(*l) };
                if chars != want || (*l <= 1000 && code != full.chars().take(*l).collect::<String>()) {
                    return Err(format!("{} limited to {l} on {word:?}: {code:?}, the full code is {full:?}", f.name));
                }
                n += 1;
            }
            seen.push(full);
        }
        let soundex = Soundex::default();
        for (name, code, size) in [("Caverphone1", Caverphone1.encode(&word), 6), ("Caverphone2", Caverphone2.encode(&word), 10)] {
            if code.chars().count() != size {
                return Err(format!("{name} on {word:?}: {code:?} hasn't {size} characters"));
            }
        }
        for code in [soundex.encode(&word), Soundex::from(DEFAULT_US_ENGLISH_GENEALOGY_MAPPING_SOUNDEX).encode(&word)] {
            if !(code.is_empty() || code.chars().count() == 4) {
                return Err(format!("Soundex on {word:?}: {code:?} hasn't 4 characters"));
            }
        }
        let code = MatchRatingApproach.encode(&word);
        if code.chars().count() > 6 {
            return Err(format!("MatchRatingApproach on {word:?}: {code:?} has more than 6 characters"));
        }
        obs(&seen, n + 5)
    }

    fn explore(&self, ctx: &Ctx) {
        let plan = Plan {
            tokens: &[
                "KN", "SCH", "MAC", "CH", "DGE", "GH", "WITZ", "PH", "TH", "CC", "X", "TSCH", "SIO", "LLO", "EWSKI", "ß", "é", "Ñ", " ", "-", "ŉ",
            ],
            letters: (4, 5),
            fragments: (3, 4),
            core: &["A", "X", "K", "S", "CH", "TH", "W", "L", "é"],
            core_depth: (5, 6),
            deep: &["SCH", "W", "X", "TH", "A", "L"],
            deep_depth: (7, 8),
            long: 1000,
            unicode: true,
            ascii: (2, 2),
        };
        words::explore_at(ctx, &plan, "", !ctx.thorough);
        let (l, w) = (all_limits(), limited_words(ctx.thorough));
        ctx.indexed("every limit", l.len() * w.len(), 16, &|i| Some(format!("{}{SEP}{}", l[i / w.len()], w[i % w.len()])));
    }

    fn bounds(&self, t: bool) -> String {
        format!("every limit up to 1200 and those around powers of two up to 2^17 on 28 words (38 thorough) with short and long codes; limits 0 to 16, 31, 32, 40, 255, 256, 1000 (and the largest integer); all words of up to {} letters, sequences of up to {} of 47 fragments, every Unicode scalar value in 6 contexts, long periodic words of up to 1000 characters", if t { 5 } else { 3 }, if t { 4 } else { 2 })
    }
}

// ---------------------------------------------------------------- C29

/// Case and ignored characters don't change a code, without model.
pub struct Insensitive {
    /// Name, encoder, characters that are ignored anywhere.
    imps: PerThread<Vec<(&'static str, Box<dyn Fn(&str) -> String>, &'static [&'static str])>>,
}

const NONLETTERS: &[&str] = &[" ", "-", "'", ".", "1", "\t", "_", "\u{a0}", "😀", "²"];
const NONASCII: &[&str] = &[" ", "-", "'", ".", "1", "\t", "_", "\u{a0}", "😀", "²", "é", "Ж", "中", "É"];

/// The same letter in the other case, for those that have exactly one, and the other way round.
fn other_case(c: char) -> Option<char> {
    let one = |mut s: Box<dyn Iterator<Item = char>>| s.next().filter(|_| s.next().is_none());
    // Σ has two lower case forms.
    if c == 'Σ' || c == 'σ' {
        return None;
    }
    let (l, u) = (one(Box::new(c.to_lowercase()))?, one(Box::new(c.to_uppercase()))?);
    let back = |from: char, lower: bool| if lower { one(Box::new(from.to_lowercase())) } else { one(Box::new(from.to_uppercase())) };
    if l != c && u == c && back(l, false) == Some(c) {
        Some(l)
    } else if u != c && l == c && back(u, true) == Some(c) {
        Some(u)
    } else {
        None
    }
}

pub fn insensitive() -> Insensitive {
    Insensitive {
        imps: PerThread::new(|| {
            let e = |e: Box<dyn Encoder>| -> Box<dyn Fn(&str) -> String> { Box::new(move |s: &str| e.encode(s)) };
            let mut v: Vec<(&'static str, Box<dyn Fn(&str) -> String>, &'static [&'static str])> = vec![
                ("Soundex", e(Box::new(Soundex::default())), NONASCII),
                (
                    "Soundex genealogy",
                    e(Box::new(Soundex::from(DEFAULT_US_ENGLISH_GENEALOGY_MAPPING_SOUNDEX))),
                    NONASCII,
                ),
                ("RefinedSoundex", e(Box::new(RefinedSoundex::default())), NONASCII),
                ("Caverphone1", e(Box::new(Caverphone1)), NONASCII),
                ("Caverphone2", e(Box::new(Caverphone2)), NONASCII),
                ("Nysiis", e(Box::new(Nysiis::new(false))), NONLETTERS),
                ("Nysiis strict", e(Box::new(Nysiis::new(true))), NONLETTERS),
                ("Phonex", e(Box::new(Phonex::new(8))), NONLETTERS),
                ("Cologne", e(Box::new(Cologne)), &[]),
                ("MatchRatingApproach", e(Box::new(MatchRatingApproach)), &[]),
                ("Metaphone", e(Box::new(Metaphone::new(None))), &[]),
                (
                    "DaitchMokotoffSoundex",
                    e(Box::new(DaitchMokotoffSoundex::default())),
                    &[" ", "\t", "\u{a0}", "\n"],
                ),
            ];
            let d = DoubleMetaphone::new(None);
            v.push(("DoubleMetaphone", Box::new(move |s| d.double_metaphone(s).to_string()), &[]));
            let d = DaitchMokotoffSoundex::default();
            v.push(("DaitchMokotoffSoundex soundex", Box::new(move |s| d.soundex(s)), &[" ", "\t", "\u{a0}", "\n"]));
            for (name, b) in beider_morse() {
                v.push((name, e(Box::new(b)), &[]));
            }
            v
        }),
    }
}

impl Prop for Insensitive {
    fn check(&self, case: &str) -> Result<Obs, String> {
        // Beider-Morse is slow: it has its own cases.
        let (bm, word) = match case.split_once(SEP) {
            Some((_, w)) => (true, expand(w)),
            None => (false, expand(case)),
        };
        let chars: Vec<char> = word.chars().collect();
        let mut n = 0;
        let mut seen = vec![];
        let small = chars.len() <= 8;
        for (name, f, ignored) in self.imps.get() {
            if name.starts_with("BeiderMorse") != bm {
                continue;
            }
            let code = f(&word);
            let mut variants = vec![
                word.to_ascii_lowercase(),
                word.to_ascii_uppercase(),
                chars.iter().map(|c| other_case(*c).filter(|o| o.is_lowercase()).unwrap_or(*c)).collect(),
                chars.iter().map(|c| other_case(*c).filter(|o| o.is_uppercase()).unwrap_or(*c)).collect(),
            ];
            if small {
                // One character with the other case
                for i in 0..chars.len() {
                    let flip = |c: char| other_case(c).unwrap_or(c);
                    variants.push(chars.iter().enumerate().map(|(k, c)| if k == i { flip(*c) } else { *c }).collect());
                }
                for x in ignored.iter() {
                    for i in 0..=chars.len() {
                        variants.push(chars[..i].iter().collect::<String>() + x + &chars[i..].iter().collect::<String>());
                    }
                }
            } else {
                for x in ignored.iter() {
                    let h = chars.len() / 2;
                    variants.push(chars[..h].iter().collect::<String>() + x + &chars[h..].iter().collect::<String>());
                    variants.push(format!("{x}{word}"));
                    variants.push(format!("{word}{x}{x}"));
                }
            }
            for v in variants {
                let got = f(&v);
                if got != code {
                    return Err(format!("{name}: {word:?} gives {code:?}, but {v:?} gives {got:?}"));
                }
                n += 1;
            }
            seen.push(code);
        }
        obs(&seen, n)
    }
    fn explore(&self, ctx: &Ctx) {
        let t = ctx.thorough;
        ctx.sequences("letters", &words::LETTERS, if t { 4 } else { 3 });
        ctx.sequences(
            "fragments",
            &["A", "c", "CH", "D", "G", "H", "K", "M", "N", "P", "S", "T", "W", "Y", "Z", "E"],
            if t { 5 } else { 4 },
        );
        let mut mixed: Vec<&str> = words::LETTERS.to_vec();
        mixed.extend(words::LOWER);
        mixed.extend(
            encoders::DM2_TOKENS
                .iter()
                .filter(|t| t.is_ascii() && t.chars().all(|c| c.is_ascii_alphabetic())),
        );
        ctx.sequences("fragments of rules", &mixed, 2);
        let cased: Vec<String> = (0..0x110000u32)
            .filter_map(char::from_u32)
            .filter(|c| other_case(*c).is_some())
            .map(|c| c.to_string())
            .collect();
        let cased: Vec<&str> = cased.iter().map(|s| s.as_str()).collect();
        ctx.product("every letter that has two cases, in contexts", &[&["", "a", "K", "Sch", "éw"], &cased, &["", "b", "HA", "ß"]]);
        let mut special: Vec<&str> = words::SPECIAL.to_vec();
        special.extend(words::PUNCT);
        special.extend(["A", "c", "H", "K", "n", "S", "g"]);
        ctx.sequences("special characters", &special, if t { 3 } else { 2 });
        let few = ["é", "É", "ç", "Ñ", "ß", "ı", "İ", " ", "-", "ж", "a", "C", "H", "n"];
        ctx.sequences("letters and special characters", &few, if t { 5 } else { 4 });
        let mut longs = vec![];
        for v in ["A", "B", "ab", "Ch", "TZ", "w"] {
            for n in [9, 20, 100, 200] {
                for (u, w) in [("", ""), ("K", ""), ("", "e"), ("Sm", "TH")] {
                    longs.push(words::rep(u, v, n, w));
                }
            }
        }
        ctx.list("long words", &longs);
        let pre = format!("bm{SEP}");
        ctx.sequences_after("letters, Beider-Morse", &pre, &words::LETTERS, if t { 4 } else { 3 });
        let s: Vec<&str> = if t { vec!["", "a", "K", "Sch", "éw"] } else { vec!["", "Ka", "É"] };
        ctx.product("every letter that has two cases, in contexts, Beider-Morse", &[&[&pre], &s, &cased, &["", "r", "Ha"]]);
        let few = [
            "Ž", "ö", "Ü", "é", "Ñ", "ç", "Ł", "ж", "Ц", "א", "ß", "İ", " ", "'", "-", "D", "a", "Ch", "Van ", "ben ", "Z", "o", "Ș", "ő", "λ", "Ψ",
        ];
        ctx.sequences_after("letters of the rules of languages, Beider-Morse", &pre, &few, if t { 4 } else { 3 });
    }
    fn bounds(&self, t: bool) -> String {
        format!("Beider-Morse (six settings) on all words of up to {} letters, every letter that has two cases in contexts, sequences of up to {} letters of the rules of languages; the other encoders on all words of up to {} letters, up to {} of 16 fragments, pairs of fragments of rules in both cases; each one in lower case, upper case, with each letter in the other case, and with each of 4 to 14 ignored characters at each place", if t { 4 } else { 3 }, if t { 4 } else { 3 }, if t { 4 } else { 3 }, if t { 5 } else { 4 })
    }
}
