//! C31: builders, constructors and defaults. C32: values are compared by what they hold.
use super::bm::{engine, name_type, rule_type, Setup};
use super::bmcustom::{base, model as load_model, Disk, Files};
use super::SEP;
use crate::engine::{hash, obs, Ctx, Obs, PerThread, Prop};
use crate::models::bm::{Config, TYPES};
use crate::models::{dm, double_metaphone, metaphone, nysiis, phonex, prefix, soundex};
use rphonetic::*;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

// ---------------------------------------------------------------- C31

/// What the calls made on a builder of Beider-Morse asked for.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
struct Asked {
    config: usize,
    setup: Setup,
}

impl PartialEq for Setup {
    fn eq(&self, o: &Setup) -> bool {
        (self.t, self.kind, self.concat, self.max) == (o.t, o.kind, o.concat, o.max)
    }
}
impl Eq for Setup {}

const LIMITS: [usize; 4] = [1, 2, 20, usize::MAX];
const WORDS: [&str; 2] = ["a", "b b"];

/// Tables where the codes tell the name type, the rule type, the limit and if words are concatenated.
fn telling(which: usize) -> Files {
    let mut f = base();
    for t in TYPES {
        let first = &t[..1];
        let phonemes: Vec<String> = (0..22).map(|i| format!("{first}{}", (b'a' + i) as char)).collect();
        f.insert(format!("{t}_rules_any"), format!("\"a\" \"\" \"\" \"({})\"\n\"b\" \"\" \"\" \"{first}\"\n", phonemes.join("|")));
        for kind in ["approx", "exact"] {
            f.insert(format!("{t}_{kind}_any"), format!("\"{first}\" \"\" \"\" \"{first}{which}{}\"\n", &kind[..1]));
        }
    }
    f
}

struct Telling {
    /// Two directories, and a clone of the first one.
    configs: Vec<ConfigFiles>,
    expected: Vec<(Asked, Vec<String>)>,
}

fn telling_table() -> Telling {
    let disk = Disk::new("builders");
    let mut configs = vec![];
    let mut models: Vec<Config> = vec![];
    for which in 0..2 {
        configs.push(disk.load(&telling(which)).expect("the tables are right"));
        models.push(load_model(&telling(which)).expect("the tables are right"));
    }
    configs.push(configs[0].clone());
    let mut expected: Vec<(Asked, Vec<String>)> = vec![];
    for config in 0..3 {
        for t in TYPES {
            for kind in ["approx", "exact"] {
                for concat in [true, false] {
                    for max in LIMITS {
                        let setup = Setup { t, kind, concat, max };
                        let e = engine(&models[config % 2], setup);
                        expected.push((Asked { config, setup }, WORDS.iter().map(|w| e.encode(w)).collect()));
                    }
                }
            }
        }
    }
    // If two settings can't be told apart the check is blind
    for (i, (a, x)) in expected.iter().enumerate() {
        for (b, y) in &expected[..i] {
            assert!(x != y || (a.setup == b.setup && a.config % 2 == b.config % 2), "{a:?} and {b:?} give {x:?}");
        }
    }
    Telling { configs, expected }
}

impl Telling {
    fn codes(&self, a: &Asked) -> &[String] {
        &self.expected.iter().find(|e| e.0 == *a).expect("all settings are in the table").1
    }

    /// One letter by call:
    /// A G S name type, x p rule type, + - concatenation, 1 2 3 4 limit, c clone, b build, 0 1 2 as N O K a new builder.
    fn run(&self, calls: &str) -> Result<Obs, String> {
        let fresh = |config: usize| {
            let setup = Setup {
                t: "gen",
                kind: "approx",
                concat: true,
                max: 20,
            };
            (BeiderMorseBuilder::new(&self.configs[config]), Asked { config, setup })
        };
        let mut builders = vec![fresh(0)];
        let mut made: Vec<(BeiderMorse, Asked)> = vec![];
        for c in calls.chars() {
            let (b, mut a) = builders.pop().unwrap();
            let s = &mut a.setup;
            let mut name = |t: &'static str| {
                s.t = t;
                name_type(t)
            };
            let next = match c {
                'A' => b.name_type(name("ash")),
                'G' => b.name_type(name("gen")),
                'S' => b.name_type(name("sep")),
                'x' | 'p' => {
                    s.kind = if c == 'x' { "exact" } else { "approx" };
                    b.rule_type(rule_type(s.kind))
                }
                '+' | '-' => {
                    s.concat = c == '+';
                    b.concat(s.concat)
                }
                '1'..='4' => {
                    s.max = LIMITS[c as usize - '1' as usize];
                    b.max_phonemes(s.max)
                }
                'c' => {
                    builders.push((b.clone(), a));
                    b
                }
                'b' => {
                    made.push((b.build(), a));
                    b
                }
                'N' | 'O' | 'K' => {
                    builders.push((b, a));
                    builders.push(fresh("NOK".find(c).unwrap()));
                    continue;
                }
                _ => return obs("", 0),
            };
            builders.push((next, a));
        }
        for (b, a) in &builders {
            made.push((b.build(), *a));
            made.push((b.clone().build(), *a));
        }
        drop(builders);
        let mut n = 0;
        let mut seen = vec![];
        for (e, a) in &made {
            let exp = self.codes(a);
            let copy = e.clone();
            for (w, x) in WORDS.iter().zip(exp) {
                for (e, what) in [(e, "it"), (&copy, "its clone")] {
                    let got = e.encode(w);
                    n += 1;
                    if got != *x {
                        return Err(format!("calls {calls:?}, encoder asked for: {a:?}: {what} codes {w:?} as {got:?}, expected {x:?}"));
                    }
                }
            }
            seen.push(hash(exp));
        }
        obs(&seen, n)
    }
}

/// Rules of Daitch-Mokotoff: two programs with different folding, one that is wrong, none.
const TEXTS: [&str; 4] = [
    "\"a\" \"1\" \"2\" \"3\"\n\"b\" \"4|5\" \"6\" \"7\"\né=a\n",
    "\"b\" \"1\" \"2\" \"3\"\n\"a\" \"4\" \"5|6\" \"7\"\né=b\n",
    "\"a\" \"1\" \"2\" \"3\"\n\"b\" \"4\"\n",
    "",
];
const DM_WORDS: [&str; 6] = ["a", "é", "ba", "éb", "bé", "rosochowaciec"];

/// One letter by call: D default builder, 0 1 2 3 builder of a text, t f folding, c clone, b build.
fn dm_calls(calls: &str) -> Result<Obs, String> {
    thread_local! {
        static BUILT_IN: dm::Program = dm::parse(super::dm::RULES).unwrap();
        static PROGRAMS: Vec<Result<dm::Program, dm::Fault>> = TEXTS.iter().map(|t| dm::parse(t)).collect();
    }
    let mut builders: Vec<(DaitchMokotoffSoundexBuilder, Option<usize>, bool)> = vec![];
    let mut made = vec![];
    for c in calls.chars() {
        match c {
            'D' => builders.push((DaitchMokotoffSoundexBuilder::default(), None, true)),
            '0'..='3' => {
                let i = c as usize - '0' as usize;
                builders.push((DaitchMokotoffSoundexBuilder::with_rules(TEXTS[i]), Some(i), true));
            }
            _ => {
                let Some((b, text, folding)) = builders.pop() else { return obs("", 0) };
                match c {
                    't' | 'f' => builders.push((b.ascii_folding(c == 't'), text, c == 't')),
                    'c' => {
                        builders.push((b.clone(), text, folding));
                        builders.push((b, text, folding));
                    }
                    'b' => made.push((b.build(), text, folding)),
                    _ => return obs("", 0),
                }
            }
        }
    }
    made.extend(builders.into_iter().map(|(b, t, f)| (b.build(), t, f)));
    let mut n = 0;
    let mut seen = vec![];
    for (e, text, folding) in made {
        let codes = |p: &dm::Program, w: &str| dm::codes(p, folding, w, true);
        let e = match (e, text.map_or(true, |t| PROGRAMS.with(|p| p[t].is_ok()))) {
            (Ok(e), true) => e,
            (Err(PhoneticError::ParseRuleError(e)), false) if e.line_number == 2 => {
                seen.push(2);
                n += 1;
                continue;
            }
            (r, _) => return Err(format!("calls {calls:?}: rules {text:?}: {r:?}")),
        };
        let copy = e.clone();
        if copy != e {
            return Err(format!("calls {calls:?}: an encoder isn't equal to its clone"));
        }
        for w in DM_WORDS {
            let exp = match text {
                None => BUILT_IN.with(|p| codes(p, w)),
                Some(t) => PROGRAMS.with(|p| codes(p[t].as_ref().unwrap(), w)),
            };
            for e in [&e, &copy] {
                let got = e.inner_soundex(w, true);
                n += 1;
                if got != exp || e.soundex(w) != exp.join("|") || e.encode(w) != exp[0] {
                    return Err(format!("calls {calls:?}: rules {text:?}, folding {folding}, {w:?}: got {got:?}, expected {exp:?}"));
                }
            }
            seen.push(hash(&exp));
        }
    }
    obs(&seen, n)
}

/// The default encoders, and those made with the settings that are documented for them.
fn defaults(word: &str) -> Result<Obs, String> {
    let us: Vec<char> = soundex::US.chars().collect();
    let ge: Vec<char> = soundex::GENEALOGY.chars().collect();
    let refined: Vec<char> = soundex::REFINED.chars().collect();
    let meta = metaphone::metaphone(word).chars().take(4).collect::<String>();
    let (dp, da) = double_metaphone::double_metaphone(word);
    let cut = |s: &str| s.chars().take(4).collect::<String>();
    let all: Vec<(&str, String, String)> = vec![
        ("Soundex::default", Soundex::default().encode(word), soundex::soundex(&us, true, word)),
        ("Soundex::from(US)", Soundex::from(DEFAULT_US_ENGLISH_MAPPING_SOUNDEX).encode(word), soundex::soundex(&us, true, word)),
        (
            "Soundex::from(genealogy)",
            Soundex::from(DEFAULT_US_ENGLISH_GENEALOGY_MAPPING_SOUNDEX).encode(word),
            soundex::soundex(&ge, false, word),
        ),
        ("RefinedSoundex::default", RefinedSoundex::default().encode(word), soundex::refined(&refined, word)),
        ("Metaphone::default", Metaphone::default().encode(word), meta),
        ("DoubleMetaphone::default", DoubleMetaphone::default().encode(word), cut(&dp)),
        ("DoubleMetaphone::default, alternate", DoubleMetaphone::default().encode_alternate(word), cut(&da)),
        ("Nysiis::default", Nysiis::default().encode(word), prefix(&nysiis::nysiis(word), Some(6))),
        ("Phonex::default", Phonex::default().encode(word), format!("{:0<4}", cut(&phonex::phonex(word)))),
    ];
    if Soundex::default() != Soundex::new(DEFAULT_US_ENGLISH_MAPPING_SOUNDEX, true)
        || Metaphone::default() != Metaphone::new(Some(4))
        || DoubleMetaphone::default() != DoubleMetaphone::new(Some(4))
        || Phonex::default() != Phonex::new(4)
        || Nysiis::default() != Nysiis::new(true)
    {
        return Err("a default encoder isn't equal to the one made with the documented settings".into());
    }
    let n = all.len() as u64;
    let mut seen = vec![];
    for (name, got, exp) in all {
        if got != exp {
            return Err(format!("{name} on {word:?}: got {got:?}, expected {exp:?}"));
        }
        seen.push(exp);
    }
    obs(&seen, n)
}

pub struct Builders {
    telling: PerThread<Telling>,
}

pub fn builders() -> Builders {
    Builders {
        telling: PerThread::new(telling_table),
    }
}

impl Prop for Builders {
    fn check(&self, case: &str) -> Result<Obs, String> {
        match case.split_once(SEP) {
            Some(("Beider-Morse", calls)) => self.telling.get().run(calls),
            Some(("Daitch-Mokotoff", calls)) => dm_calls(calls),
            Some(("default", word)) => defaults(word),
            _ => obs("", 0),
        }
    }
    fn explore(&self, ctx: &Ctx) {
        let t = ctx.thorough;
        let calls = ["A", "G", "S", "x", "p", "+", "-", "1", "2", "3", "4", "c", "b", "N", "O", "K"];
        ctx.sequences_after("calls on Beider-Morse builders", &format!("Beider-Morse{SEP}"), &calls, if t { 5 } else { 4 });
        let calls = ["A", "S", "x", "p", "-", "1", "c", "b"];
        ctx.sequences_after("fewer calls on Beider-Morse builders", &format!("Beider-Morse{SEP}"), &calls, if t { 7 } else { 6 });
        let calls = ["0", "1", "2", "3", "t", "f", "c", "b"];
        ctx.sequences_after("calls on Daitch-Mokotoff builders", &format!("Daitch-Mokotoff{SEP}"), &calls, if t { 7 } else { 6 });
        let calls = ["D", "1", "t", "f", "c", "b"];
        ctx.sequences_after("calls on Daitch-Mokotoff builders, default one included", &format!("Daitch-Mokotoff{SEP}"), &calls, if t { 5 } else { 4 });
        let pre = format!("default{SEP}");
        ctx.sequences_after("letters", &pre, &crate::words::LETTERS, if t { 4 } else { 3 });
        let words = ["B", "R", "T", "H", "W", "A", "CH", "S", "M", "L", "C", "G", "X", "é"];
        ctx.sequences_after("fragments", &pre, &words, if t { 6 } else { 5 });
        let many: Vec<&str> = crate::words::SPECIAL.iter().chain(crate::words::PUNCT).copied().collect();
        ctx.sequences_after("special characters", &pre, &many, 2);
    }
    fn shrinkable(&self) -> bool {
        true
    }
    fn bounds(&self, t: bool) -> String {
        let d = |a: usize| if t { a + 1 } else { a };
        format!("Beider-Morse: all sequences of up to {} calls out of 16 (3 name types, 2 rule types, 2 modes, 4 limits, clone, build, new builders on two configurations and on a clone) and of up to {} out of 8; Daitch-Mokotoff: all sequences of up to {} calls out of 8 (4 rule texts, folding, clone, build), {} out of 6 with the default builder; all encoders made, and their clones, on 2 to 6 words that tell all settings apart; default encoders on all words of up to {} letters and {} fragments", d(4), d(6), d(6), d(4), d(3), d(5))
    }
}

// ---------------------------------------------------------------- C32

/// Values of a type, with what each one holds.
trait Values: Sync {
    fn name(&self) -> String;
    fn len(&self) -> usize;
    /// Is the pair compared as it should ?
    fn pair(&self, i: usize, j: usize) -> Result<(), String>;
    /// Is the order transitive ?
    fn triple(&self, i: usize, j: usize, k: usize) -> Result<(), String>;
}

/// Each value with how it was made (those made the same way are equal), and what can be observed of it (those that don't
/// show the same aren't equal).
struct Held<T, K, O> {
    name: &'static str,
    values: Vec<(T, K, O)>,
}

fn plain<T, K: Clone>(name: &'static str, values: Vec<(T, K)>) -> Box<Held<T, K, K>> {
    let values = values.into_iter().map(|(v, k)| (v, k.clone(), k)).collect();
    Box::new(Held { name, values })
}

// Encoders may not be `Sync` (C03 decides that): there is one list of values by thread.
unsafe impl<T, K, O> Sync for Held<T, K, O> {}

fn digest<T: Hash>(v: &T) -> u64 {
    let mut h = DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}

impl<T: Ord + Clone + std::fmt::Debug + MaybeHash, K: Eq + std::fmt::Debug, O: Eq + std::fmt::Debug> Values for Held<T, K, O> {
    fn name(&self) -> String {
        self.name.into()
    }
    fn len(&self) -> usize {
        self.values.len()
    }
    fn pair(&self, i: usize, j: usize) -> Result<(), String> {
        let ((a, x, seen_a), (b, y, seen_b)) = (&self.values[i], &self.values[j]);
        let bad = |what: &str| Err(format!("{}: {what}: {x:?} and {y:?}", self.name));
        let same = a == b;
        if x == y && !same {
            return bad("values made the same way aren't equal");
        }
        if seen_a != seen_b && same {
            return bad(&format!("values that don't behave the same ({seen_a:?} and {seen_b:?}) are equal"));
        }
        if (b == a) != same || (a != b) == same || (b != a) == same {
            return bad("equality isn't symmetric, or isn't the contrary of inequality");
        }
        let o = a.cmp(b);
        if (o == Ordering::Equal) != same || b.cmp(a) != o.reverse() {
            return bad("the order doesn't agree with equality, or isn't antisymmetric");
        }
        if a.partial_cmp(b) != Some(o)
            || (a < b) != (o == Ordering::Less)
            || (a > b) != (o == Ordering::Greater)
            || (a <= b) != (o != Ordering::Greater)
            || (a >= b) != (o != Ordering::Less)
        {
            return bad("the partial order isn't the order");
        }
        if same && a.digest() != b.digest() {
            return bad("equal values have different hashes");
        }
        let c = a.clone();
        if (c == *b) != same || c.cmp(b) != o || c.digest() != a.digest() || format!("{c:?}") != format!("{a:?}") {
            return bad("a clone isn't compared as its original");
        }
        Ok(())
    }
    fn triple(&self, i: usize, j: usize, k: usize) -> Result<(), String> {
        let (a, b, c) = (&self.values[i].0, &self.values[j].0, &self.values[k].0);
        if a <= b && b <= c && !(a <= c) {
            return Err(format!("{}: the order isn't transitive: {a:?}, {b:?}, {c:?}", self.name));
        }
        Ok(())
    }
}

/// The hash of a value, when it has one.
trait MaybeHash {
    fn digest(&self) -> u64;
}

macro_rules! hashed {
    ($($t:ty),*) => { $(impl MaybeHash for $t { fn digest(&self) -> u64 { digest(self) } })* };
}
hashed!(
    Soundex,
    RefinedSoundex,
    Metaphone,
    DoubleMetaphone,
    DoubleMetaphoneResult,
    Nysiis,
    Phonex,
    Caverphone1,
    Caverphone2,
    Cologne,
    MatchRatingApproach,
    NameType,
    RuleType,
    LanguageSet,
    ParseError,
    CharSequence<'static>
);
impl MaybeHash for DaitchMokotoffSoundex {
    fn digest(&self) -> u64 {
        0
    }
}

fn mapping(s: &str) -> [char; 26] {
    s.chars().collect::<Vec<_>>().try_into().unwrap()
}

fn value_lists() -> Vec<Box<dyn Values>> {
    let mut maps: Vec<String> = vec![soundex::US.into(), soundex::GENEALOGY.into(), soundex::REFINED.into(), super::encoders::ODD.into()];
    for k in 0..26 {
        for c in ['0', '1', '-', 'é'] {
            let m: String = soundex::US.chars().enumerate().map(|(i, d)| if i == k { c } else { d }).collect();
            maps.push(m);
        }
    }
    let mut v: Vec<Box<dyn Values>> = vec![];
    let mut s = vec![];
    for m in &maps {
        for hw in [true, false] {
            s.push((Soundex::new(mapping(m), hw), (m.clone(), hw)));
        }
        s.push((m.parse::<Soundex>().unwrap(), (m.clone(), !m.contains('-'))));
    }
    s.push((Soundex::default(), (soundex::US.into(), true)));
    let probes: Vec<String> = std::iter::once("BHB".to_string())
        .chain(crate::words::LETTERS.iter().flat_map(|l| [l.to_string(), format!("B{l}"), format!("R{l}R"), format!("A{l}B{l}")]))
        .collect();
    let all = |e: &dyn Encoder| probes.iter().map(|w| e.encode(w)).collect::<Vec<_>>();
    let values = s.into_iter().map(|(e, k)| (e, k, all(&e))).collect();
    v.push(Box::new(Held { name: "Soundex", values }));
    let mut s: Vec<(RefinedSoundex, String)> = maps.iter().map(|m| (RefinedSoundex::new(mapping(m)), m.clone())).collect();
    s.extend(maps.iter().map(|m| (m.parse().unwrap(), m.clone())));
    s.push((RefinedSoundex::default(), soundex::REFINED.into()));
    let values = s.into_iter().map(|(e, k)| (e, k, all(&e))).collect();
    v.push(Box::new(Held { name: "RefinedSoundex", values }));
    let limits: Vec<usize> = (0..=20).chain([31, 100, 255, 256, 257, 260, 65536, 65540, 1 << 32, usize::MAX - 1, usize::MAX]).collect();
    let options: Vec<Option<usize>> = std::iter::once(None).chain(limits.iter().map(|l| Some(*l))).collect();
    let mut s: Vec<(Metaphone, Option<usize>)> = options.iter().map(|l| (Metaphone::new(*l), *l)).collect();
    s.push((Metaphone::default(), Some(4)));
    let reach = |l: Option<usize>| l.unwrap_or(usize::MAX).min(1 << 16);
    let values = s.into_iter().map(|(e, k)| (e, k, reach(k))).collect();
    v.push(Box::new(Held { name: "Metaphone", values }));
    let mut s: Vec<(DoubleMetaphone, Option<usize>)> = options.iter().map(|l| (DoubleMetaphone::new(*l), *l)).collect();
    s.push((DoubleMetaphone::default(), Some(4)));
    let values = s.into_iter().map(|(e, k)| (e, k, reach(k))).collect();
    v.push(Box::new(Held { name: "DoubleMetaphone", values }));
    let mut s: Vec<(Phonex, usize)> = limits.iter().map(|l| (Phonex::new(*l), *l)).collect();
    s.push((Phonex::default(), 4));
    v.push(plain("Phonex", s));
    let s = vec![(Nysiis::new(true), true), (Nysiis::new(false), false), (Nysiis::default(), true)];
    v.push(plain("Nysiis", s));
    v.push(plain("Caverphone1", vec![(Caverphone1, 0), (Caverphone1, 0)]));
    v.push(plain("Caverphone2", vec![(Caverphone2, 0), (Caverphone2, 0)]));
    v.push(plain("Cologne", vec![(Cologne, 0), (Cologne, 0)]));
    v.push(plain("MatchRatingApproach", vec![(MatchRatingApproach, 0), (MatchRatingApproach, 0)]));
    let s = TYPES.iter().map(|t| (name_type(t), *t)).collect();
    v.push(plain("NameType", s));
    let s = ["approx", "exact"].iter().map(|t| (rule_type(t), *t)).collect();
    v.push(plain("RuleType", s));
    // The results of an encoder are what their codes are
    let words = super::dm::words_over(&["A", "C", "W", "CH", "GH", "X", "Z"], 3);
    let mut values = vec![];
    for l in [None, Some(1), Some(2), Some(4)] {
        let e = DoubleMetaphone::new(l);
        let step = if l.is_none() { 1 } else { 7 };
        values.extend(words.iter().step_by(step).map(|w| {
            let r = e.double_metaphone(w);
            let o = (r.primary(), r.alternate());
            (r, (l, o.clone()), o)
        }));
    }
    v.push(Box::new(Held { name: "DoubleMetaphoneResult", values }));
    // Sets of languages
    let names = ["any", "english", "french", "", "english,french", "ANY_LANGUAGE", "NO_LANGUAGES"];
    let mut s = vec![(LanguageSet::Any, None), (LanguageSet::NoLanguages, Some(None))];
    for order in [false, true] {
        for bits in (1..1 << names.len()).filter(|b| i32::count_ones(*b) <= 3) {
            let mut set: Vec<&str> = (0..names.len()).filter(|i| bits >> i & 1 == 1).map(|i| names[i]).collect();
            if order {
                set.reverse();
            }
            s.push((LanguageSet::from(set), Some(Some(bits))));
        }
    }
    v.push(plain("LanguageSet", s));
    let mut s = vec![];
    for line_number in [0, 1, 256] {
        for filename in [None, Some("".to_string()), Some("f".to_string())] {
            for line_content in ["", "f", "\n"] {
                for description in ["", "f"] {
                    let e = ParseError {
                        line_number,
                        filename: filename.clone(),
                        line_content: line_content.into(),
                        description: description.into(),
                    };
                    s.push((e, (line_number, filename.clone(), line_content, description)));
                }
            }
        }
    }
    v.push(plain("ParseError", s));
    let texts: &'static [String] = Box::leak(super::dm::words_over(&["a", "é", "b", "😀"], 3).into_boxed_slice());
    let s = texts.iter().map(|t| (CharSequence::from(t.as_str()), t.as_str())).collect();
    v.push(plain("CharSequence", s));
    // Rules of Daitch-Mokotoff, that aren't ordered the same way in all texts
    let lines = [
        "\"a\" \"1\" \"1\" \"1\"\n",
        "\"a\" \"1\" \"1\" \"2\"\n",
        "\"a\" \"1\" \"2\" \"1\"\n",
        "\"a\" \"1|2\" \"1\" \"1\"\n",
        "\"ab\" \"1\" \"1\" \"1\"\n",
        "\"b\" \"1\" \"1\" \"1\"\n",
        "é=a\n",
        "é=b\n",
        "è=a\n",
    ];
    let words = super::dm::words_over(&["a", "b", "é", "è"], 3);
    let mut s = vec![];
    for bits in 0..1 << lines.len() {
        let text: String = (0..lines.len()).filter(|i| bits >> i & 1 == 1).map(|i| lines[i]).collect();
        if i32::count_ones(bits) > 3 {
            continue;
        }
        for folding in [true, false, true] {
            let e = DaitchMokotoffSoundexBuilder::with_rules(&text).ascii_folding(folding).build().expect("right rules");
            let seen: Vec<Vec<String>> = words.iter().map(|w| e.inner_soundex(w, true)).collect();
            s.push((e, (bits, folding), seen));
        }
    }
    v.push(Box::new(Held { name: "DaitchMokotoffSoundex", values: s }));
    v
}

pub struct Compared {
    lists: PerThread<Vec<Box<dyn Values>>>,
}

pub fn compared() -> Compared {
    Compared {
        lists: PerThread::new(value_lists),
    }
}

impl Prop for Compared {
    fn check(&self, case: &str) -> Result<Obs, String> {
        let p: Vec<&str> = case.split(' ').collect();
        let lists = self.lists.get();
        let Some(l) = lists.iter().find(|l| l.name() == p[0]) else { return obs("", 0) };
        let v: Vec<usize> = p[1..].iter().map_while(|s| s.parse().ok()).collect();
        if v.iter().any(|i| *i >= l.len()) {
            return obs("", 0);
        }
        match v[..] {
            // All the values against one
            [i] => {
                for j in 0..l.len() {
                    l.pair(i, j)?;
                }
                obs(&(p[0], i), l.len() as u64)
            }
            [i, j] => {
                for k in 0..l.len() {
                    l.triple(i, j, k)?;
                }
                obs(&(p[0], i, j), l.len() as u64)
            }
            _ => obs("", 0),
        }
    }
    fn explore(&self, ctx: &Ctx) {
        let sizes: Vec<(String, usize)> = self.lists.get().iter().map(|l| (l.name(), l.len())).collect();
        for (name, n) in sizes {
            ctx.indexed(&format!("{name}: all pairs of {n} values"), n, 8, &|i| Some(format!("{name} {i}")));
            ctx.indexed(&format!("{name}: all triples of {n} values"), n * n, 64, &|i| Some(format!("{name} {} {}", i / n, i % n)));
        }
    }
    fn shrinkable(&self) -> bool {
        false
    }
    fn bounds(&self, _: bool) -> String {
        "every public type that can be compared; all pairs and triples of values: 109 mappings x 3 ways to make a Soundex (2 for a Refined Soundex), no limit and 32 limits, all Double Metaphone results of words of 3 fragments, all sets of up to 3 of 7 language names, 54 errors, 85 texts, all the Daitch-Mokotoff rule texts made of up to 3 lines out of 9 with and without folding".into()
    }
}
