//! Value types of the API: language sets, character sequences, constructors from texts, serialization.
use super::encoders;
use super::SEP;
use crate::engine::{obs, Ctx, Obs, PerThread, Prop};
use crate::models::soundex as model;
use crate::positional;
use rphonetic::*;
use std::collections::BTreeSet;
use std::str::FromStr;

// ---------------------------------------------------------------- C25

/// A case is three sets "a,b;*;": `*` is any language, `-` no language, otherwise names.
pub struct Algebra;

#[derive(Clone, Debug, PartialEq, Eq)]
enum M {
    Any,
    No,
    Some(BTreeSet<String>),
}

fn set_of(s: &str) -> (LanguageSet, M) {
    match s {
        "*" => (LanguageSet::Any, M::Any),
        "-" => (LanguageSet::NoLanguages, M::No),
        _ => {
            let v: Vec<&str> = s.split(',').filter(|v| !v.is_empty()).collect();
            let b: BTreeSet<String> = v.iter().map(|v| v.to_string()).collect();
            // Both constructors
            let a = LanguageSet::from(v);
            (a, M::Some(b))
        }
    }
}

fn same(a: &LanguageSet, m: &M) -> bool {
    match (a, m) {
        (LanguageSet::Any, M::Any) | (LanguageSet::NoLanguages, M::No) => true,
        (LanguageSet::SomeLanguages(a), M::Some(b)) => a == b,
        _ => false,
    }
}

fn restrict(a: &M, b: &M) -> M {
    match (a, b) {
        (_, M::No) | (M::No, _) => M::No,
        (a, M::Any) => a.clone(),
        (M::Any, b) => b.clone(),
        (M::Some(a), M::Some(b)) => M::Some(a & b),
    }
}

fn merge(a: &M, b: &M) -> M {
    match (a, b) {
        (_, M::Any) | (M::Any, _) => M::Any,
        (a, M::No) => a.clone(),
        (M::No, b) => b.clone(),
        (M::Some(a), M::Some(b)) => M::Some(a | b),
    }
}

fn facts(a: &LanguageSet, m: &M) -> Result<u64, String> {
    let (empty, single, first, shown) = match m {
        M::Any => (false, false, None, "ANY_LANGUAGE".to_string()),
        M::No => (true, false, None, "NO_LANGUAGES".to_string()),
        M::Some(s) => (
            s.is_empty(),
            s.len() == 1,
            s.iter().next().map(|v| v.as_str()),
            s.iter().cloned().collect::<Vec<_>>().join(","),
        ),
    };
    if !same(a, m) {
        return Err(format!("got {a:?}, expected {m:?}"));
    }
    if a.is_empty() != empty {
        return Err(format!("is_empty of {a:?}"));
    }
    if a.is_singleton() != single {
        return Err(format!("is_singleton of {a:?}"));
    }
    if a.any() != first {
        return Err(format!("any of {a:?}: {:?}", a.any()));
    }
    if a.to_string() != shown {
        return Err(format!("display of {a:?}: {a}"));
    }
    Ok(5)
}

impl Prop for Algebra {
    fn check(&self, case: &str) -> Result<Obs, String> {
        let v: Vec<(LanguageSet, M)> = case.split(SEP).map(set_of).collect();
        let mut n = 0;
        for (a, m) in &v {
            n += facts(a, m)?;
            if let M::Some(s) = m {
                let expect = if s.is_empty() { M::No } else { m.clone() };
                n += facts(&LanguageSet::from(s.clone()), &expect)?;
            }
        }
        // Left folds of all sequences of operations, and the algebraic laws
        let mut acc: Vec<(LanguageSet, M)> = vec![v[0].clone()];
        for (b, mb) in &v[1..] {
            let mut next = vec![];
            for (a, ma) in &acc {
                for (x, mx, op) in [(a.restrict_to(b), restrict(ma, mb), "restrict_to"), (a.merge(b), merge(ma, mb), "merge")] {
                    n += facts(&x, &mx).map_err(|e| format!("{a:?} {op} {b:?}: {e}"))?;
                    next.push((x, mx));
                }
                if a.restrict_to(b) != b.restrict_to(a) || a.merge(b) != b.merge(a) {
                    return Err(format!("{a:?} and {b:?} don't commute"));
                }
                if a.restrict_to(a) != *a || a.merge(a) != *a {
                    return Err(format!("{a:?} isn't idempotent"));
                }
            }
            acc = next;
        }
        let seen: Vec<String> = acc.iter().map(|v| v.0.to_string()).collect();
        obs(&seen, n)
    }
    fn explore(&self, ctx: &Ctx) {
        let names = ["any", "english", "french", "german", "a-b", ""];
        let k = if ctx.thorough { 6 } else { 5 };
        let mut sets: Vec<String> = vec!["*".into(), "-".into()];
        for bits in 0..1 << k {
            let v: Vec<&str> = (0..k).filter(|i| bits >> i & 1 == 1).map(|i| names[i]).collect();
            sets.push(v.join(","));
        }
        let sep = SEP.to_string();
        let s: Vec<&str> = sets.iter().map(|v| v.as_str()).collect();
        ctx.product("all single sets", &[&s]);
        ctx.product("all pairs of sets", &[&s, &[&sep], &s]);
        ctx.product("all triples of sets, both operations", &[&s, &[&sep], &s, &[&sep], &s]);
        // Many languages
        let size = if ctx.thorough { 300 } else { 140 };
        ctx.indexed("pairs of sets of many languages", size * 12, 16, &|i| {
            let (n, k) = (1 + i / 12, i % 12);
            let range = |a: usize, b: usize, step: usize| (a..b).step_by(step).map(|l| format!("l{l}")).collect::<Vec<_>>().join(",");
            let other = match k / 2 {
                0 => range(n, 2 * n, 1),
                1 => range(n - 1, 2 * n, 1),
                2 => range(n / 2, n, 1),
                3 => range(0, n, 2),
                4 => range(1, 2 * n, 3),
                _ => range(0, n + 1, 1),
            };
            let (a, b) = (range(0, n, 1), other);
            Some(if k % 2 == 0 { format!("{a}{SEP}{b}") } else { format!("{b}{SEP}{a}") })
        });
        let few: Vec<&str> = vec!["*", "-", "", "any", "english", "any,english", "english,french", "french"];
        let p: &[&str] = &[&sep];
        ctx.product("sequences of four operations", &[&few, p, &few, p, &few, p, &few, p, &few]);
    }
    fn shrinkable(&self) -> bool {
        false
    }
    fn bounds(&self, t: bool) -> String {
        format!("all sets over {} language names, any, none; all pairs and triples with every sequence of restrict_to and merge; sequences of four operations over 8 sets; pairs of sets of up to {} languages", if t { 6 } else { 5 }, if t { 300 } else { 140 })
    }
}

// ---------------------------------------------------------------- C26

pub struct Slices;

impl Prop for Slices {
    fn check(&self, case: &str) -> Result<Obs, String> {
        let s = CharSequence::from(case);
        let chars: Vec<char> = case.chars().collect();
        let n = chars.len();
        if s.len() != n || s.is_empty() != (n == 0) || s.as_str() != case || s.to_string() != case {
            return Err(format!("{case:?}: length {} or text {:?}", s.len(), s.as_str()));
        }
        let back: &str = s.clone().into();
        if back != case {
            return Err(format!("{case:?} is converted into {back:?}"));
        }
        let part = |a: usize, b: usize| -> String { chars.iter().take(b).skip(a).collect() };
        let mut count = 0;
        let ends: Vec<usize> = (0..=n + 2).chain([1 << 20, usize::MAX - 1, usize::MAX]).collect();
        let mut bad = |what: String, got: &str, exp: String| {
            count += 1;
            if got == exp {
                Ok(())
            } else {
                Err(format!("{case:?}[{what}]: got {got:?}, expected {exp:?}"))
            }
        };
        bad("..".into(), &s[..], part(0, n))?;
        for &a in &ends {
            bad(format!("{a}.."), &s[a..], part(a, n))?;
            bad(format!("..{a}"), &s[..a], part(0, a))?;
            bad(format!("..={a}"), &s[..=a], part(0, a.saturating_add(1)))?;
            for &b in &ends {
                bad(format!("{a}..{b}"), &s[a..b], part(a, b))?;
                bad(format!("{a}..={b}"), &s[a..=b], part(a, b.saturating_add(1)))?;
            }
        }
        obs(case, count + 6)
    }
    fn explore(&self, ctx: &Ctx) {
        let a = ["a", "é", "中", "😀", "\u{301}", "\0"];
        ctx.sequences("all strings, all ranges", &a, if ctx.thorough { 8 } else { 6 });
        ctx.indexed("every Unicode scalar value, all ranges", 0x110000, 1024, &|i| {
            Some(format!("b{}c", char::from_u32(i as u32)?))
        });
        ctx.sequences("longer strings", &["a", "😀"], if ctx.thorough { 14 } else { 11 });
    }
    fn bounds(&self, t: bool) -> String {
        format!("all strings of up to {} characters of 1 to 4 bytes (6 characters), up to {} over 2 characters, every Unicode scalar value; all ranges of the six kinds with bounds up to two characters after the end, 2^20, and the two largest integers", if t { 8 } else { 6 }, if t { 14 } else { 11 })
    }
}

// ---------------------------------------------------------------- C30

pub struct Parsers;

const NAMES: [(&str, NameType); 3] = [("ash", NameType::Ashkenazi), ("gen", NameType::Generic), ("sep", NameType::Sephardic)];

fn name_type(text: &str) -> Result<bool, String> {
    let exp = NAMES.iter().find(|v| v.0 == text).map(|v| v.1);
    match (NameType::from_str(text), exp) {
        (Ok(v), Some(e)) if v == e && v.to_string() == text => {}
        (Err(BMError::UnknownNameType(t)), None) if t == text => {}
        (r, _) => return Err(format!("name type {text:?}: {r:?}")),
    }
    let file = text.strip_suffix("_languages.txt");
    let file = file.and_then(|f| NAMES.iter().find(|v| v.0 == f)).map(|v| v.1);
    match (NameType::try_from(std::ffi::OsString::from(text)), file) {
        (Ok(v), Some(e)) if v == e => {}
        (Err(BMError::UnknownNameType(t)), None) if t == text => {}
        (r, _) => return Err(format!("name type of file {text:?}: {r:?}")),
    }
    Ok(exp.is_some() || file.is_some())
}

impl Prop for Parsers {
    fn check(&self, case: &str) -> Result<Obs, String> {
        let (kind, text) = case.split_once(SEP).ok_or("case")?;
        match kind {
            "mapping" | "character" => {
                let chars: Vec<char> = text.chars().collect();
                let a = Soundex::try_from(text);
                let b = text.parse::<Soundex>();
                let c = Soundex::try_from(text.to_string());
                let d = RefinedSoundex::try_from(text);
                let e = text.parse::<RefinedSoundex>();
                let f = RefinedSoundex::try_from(text.to_string());
                if a != b || b != c || d != e || e != f {
                    return Err(format!("the constructors of {text:?} don't agree: {a:?} {b:?} {c:?} {d:?} {e:?} {f:?}"));
                }
                let Ok(map) = <[char; 26]>::try_from(chars.clone()) else {
                    return match (a, d) {
                        (Err(a), Err(d)) if a == chars && d == chars => obs(&chars.len(), 6),
                        (a, d) => Err(format!("{text:?} has {} characters: {a:?} {d:?}", chars.len())),
                    };
                };
                let (Ok(a), Ok(d)) = (a, d) else { return Err(format!("{text:?} is refused")) };
                if a != Soundex::from(map) || d != RefinedSoundex::new(map) || a != Soundex::new(map, !chars.contains(&'-')) {
                    return Err(format!("{text:?}: {a:?} or {d:?} hasn't the right mapping"));
                }
                let mut n = 6;
                let mut seen = vec![];
                // Many of these mappings only differ from the usual one by a character, which alone is coded
                let words: &[&str] = match kind {
                    "mapping" => &["ABCDEFGHIJKLMNOPQRSTUVWXYZ", "BHB", "CWC", "Pfister", "Tymczak", "Honeyman"],
                    _ => &[],
                };
                for w in ["AA", "BM", "BZ", "MBZ"] {
                    let (x, y) = (model::soundex(&chars, !chars.contains(&'-'), w), model::refined(&chars, w));
                    if a.encode(w) != x || d.encode(w) != y {
                        return Err(format!(
                            "mapping {text:?}, {w:?}: got {:?} and {:?}, expected {x:?} and {y:?}",
                            a.encode(w),
                            d.encode(w)
                        ));
                    }
                    n += 2;
                    seen.push((x, y));
                }
                for w in words {
                    for w in std::iter::once(w.to_string()).chain((0..26).map(|k| format!("{}{}{w}", crate::words::LETTERS[k], w))) {
                        let (x, y) = (model::soundex(&chars, !chars.contains(&'-'), &w), model::refined(&chars, &w));
                        if a.encode(&w) != x || d.encode(&w) != y {
                            return Err(format!(
                                "mapping {text:?}, {w:?}: got {:?} and {:?}, expected {x:?} and {y:?}",
                                a.encode(&w),
                                d.encode(&w)
                            ));
                        }
                        n += 2;
                        seen.push((x, y));
                    }
                }
                obs(&seen, n)
            }
            "around" => {
                let mut n = 0;
                let mut seen = vec![];
                for name in ["gen", "sep_languages.txt"] {
                    for i in 0..=name.len() {
                        for len in [0, 1] {
                            if i + len <= name.len() {
                                seen.push(name_type(&format!("{}{text}{}", &name[..i], &name[i + len..]))?);
                                n += 2;
                            }
                        }
                    }
                }
                obs(&seen, n)
            }
            _ => obs(&name_type(text)?, 2),
        }
    }
    fn explore(&self, ctx: &Ctx) {
        let base = "01230120022455012623010202";
        let ge = "-123-12--22455-12623-1-2-2";
        // Every length, with characters of 1 to 4 bytes at every place
        let mut v = vec![];
        for n in 0..=60usize {
            for c in ["1", "é", "中", "😀", "-", "\u{301}"] {
                for k in 0..=n {
                    let t: Vec<String> = (0..n)
                        .map(|i| {
                            if i == k {
                                c.to_string()
                            } else {
                                ["0", "1", "6", "2", "-"][(i * n + k) % 5].to_string()
                            }
                        })
                        .collect();
                    v.push(format!("mapping{SEP}{}", t.concat()));
                }
                v.push(format!("mapping{SEP}{}", c.repeat(n)));
            }
        }
        v.sort();
        v.dedup();
        ctx.list("mappings of every length", &v);
        // Both usual mappings with every entry, and every pair of entries, changed
        let vals = ['-', '0', '1', '7', 'x', 'É', '😀'];
        ctx.indexed("usual mappings with two entries changed", 2 * 26 * 26 * 49, 64, &|i| {
            let mut t: Vec<char> = if i % 2 == 0 { base } else { ge }.chars().collect();
            let j = i / 2;
            let (p, q, a, b) = (j % 26, j / 26 % 26, j / 676 % 7, j / 676 / 7);
            t[p] = vals[a];
            t[q] = vals[b];
            Some(format!("mapping{SEP}{}", t.iter().collect::<String>()))
        });
        // Any character as first, middle and last entry, and one too many before and after
        let step = if ctx.thorough { 1 } else { 3 };
        ctx.indexed("every Unicode scalar value in 5 places", 0x110000 / step * 5 + 5, 1024, &|i| {
            let (c, place) = (i / 5, i % 5);
            // All characters of the first plane, then one out of three
            let c = if c < 0x10000 { c } else { 0x10000 + (c - 0x10000) * step };
            let c = char::from_u32(c as u32)?;
            let t: String = match place {
                0 => format!("{c}{}", &base[1..]),
                1 => format!("{}{c}{}", &base[..12], &base[13..]),
                2 => format!("{}{c}", &base[..25]),
                3 => format!("{c}{base}"),
                _ => format!("{base}{c}"),
            };
            Some(format!("character{SEP}{t}"))
        });
        // A name with a character more, or in place of one
        ctx.indexed("names with every Unicode scalar value inserted or in place of another", 0x110000 / step + 1, 256, &|i| {
            let c = if i < 0x10000 { i } else { 0x10000 + (i - 0x10000) * step };
            Some(format!("around{SEP}{}", char::from_u32(c as u32)?))
        });
        let pre = format!("name{SEP}");
        ctx.sequences_after(
            "name types",
            &pre,
            &[
                "ash",
                "gen",
                "sep",
                "_languages.txt",
                "_",
                "languages",
                ".txt",
                "a",
                "g",
                "s",
                "any",
                " ",
                "\n",
                "A",
                "é",
                "Gen",
                "ASH",
                "eneric",
                "hkenazi",
                "phardic",
            ],
            if ctx.thorough { 5 } else { 4 },
        );
    }
    fn bounds(&self, _: bool) -> String {
        "mappings of every length from 0 to 60 with a character of 1 to 4 bytes at every place; the two usual mappings with all pairs of entries replaced by 7 values, 162 words each; every Unicode scalar value (the first plane and a third of the others in the quick tier) as an entry in 3 places and as an entry too many; name types: every Unicode scalar value inserted in a name or in place of one of its characters, all sequences of fragments of names and file names".into()
    }
}

// ---------------------------------------------------------------- C27

type Both = (String, Box<dyn Fn(&str) -> String>, Box<dyn Fn(&str) -> String>);

/// Encoders, and their copies read from what was written.
pub struct Serialized {
    pairs: PerThread<Result<Vec<Both>, String>>,
}

fn trip<T>(what: &T, name: &str) -> Result<T, String>
where
    T: serde::Serialize + serde::de::DeserializeOwned + PartialEq + std::fmt::Debug,
{
    let text = serde_json::to_string(what).map_err(|e| format!("{name}: not serialized: {e}"))?;
    let back: T = serde_json::from_str(&text).map_err(|e| format!("{name}: {text} isn't read: {e}"))?;
    let value = serde_json::to_value(what).map_err(|e| format!("{name}: {e}"))?;
    let back2: T = serde_json::from_value(value).map_err(|e| format!("{name}: {e}"))?;
    if back != *what || back2 != *what {
        return Err(format!("{name}: {what:?} is written as {text} and read as {back:?}"));
    }
    let bytes = positional::write(what).map_err(|e| format!("{name}: not serialized without names: {e}"))?;
    let back3: T = positional::read(&bytes).map_err(|e| format!("{name}: {what:?}, written without names, isn't read: {e}"))?;
    if back3 != *what {
        return Err(format!("{name}: {what:?} is written without names and read as {back3:?}"));
    }
    Ok(back)
}

fn enc<E>(out: &mut Vec<Both>, name: String, e: E) -> Result<(), String>
where
    E: Encoder + serde::Serialize + serde::de::DeserializeOwned + PartialEq + std::fmt::Debug + 'static,
{
    let b = trip(&e, &name)?;
    out.push((name, Box::new(move |s| e.encode(s)), Box::new(move |s| b.encode(s))));
    Ok(())
}

fn all() -> Result<Vec<Both>, String> {
    let mut v = vec![];
    let odd: [char; 26] = encoders::ODD.chars().collect::<Vec<_>>().try_into().unwrap();
    enc(&mut v, "Caverphone1".into(), Caverphone1)?;
    enc(&mut v, "Caverphone2".into(), Caverphone2)?;
    enc(&mut v, "Cologne".into(), Cologne)?;
    enc(&mut v, "MatchRatingApproach".into(), MatchRatingApproach)?;
    for (n, m) in [
        ("us", DEFAULT_US_ENGLISH_MAPPING_SOUNDEX),
        ("genealogy", DEFAULT_US_ENGLISH_GENEALOGY_MAPPING_SOUNDEX),
        ("custom", odd),
    ] {
        for hw in [true, false] {
            enc(&mut v, format!("Soundex {n} {hw}"), Soundex::new(m, hw))?;
        }
        enc(&mut v, format!("RefinedSoundex {n}"), RefinedSoundex::new(m))?;
    }
    enc(&mut v, "Soundex default".into(), Soundex::default())?;
    enc(&mut v, "RefinedSoundex default".into(), RefinedSoundex::default())?;
    for b in [true, false] {
        enc(&mut v, format!("Nysiis {b}"), Nysiis::new(b))?;
    }
    for l in (0..=12).chain([100, 255, 256, 65536, usize::MAX]) {
        enc(&mut v, format!("Metaphone {l}"), Metaphone::new(Some(l)))?;
        if l < 1000 {
            enc(&mut v, format!("Phonex {l}"), Phonex::new(l))?;
        } else {
            trip(&Phonex::new(l), "Phonex")?;
        }
        let e = DoubleMetaphone::new(Some(l));
        enc(&mut v, format!("DoubleMetaphone {l}"), e)?;
        let b = trip(&e, "DoubleMetaphone")?;
        v.push((
            format!("DoubleMetaphone result {l}"),
            Box::new(move |s| e.double_metaphone(s).to_string()),
            Box::new(move |s| {
                let r: DoubleMetaphoneResult = b.double_metaphone(s);
                match trip(&r, "DoubleMetaphoneResult") {
                    Ok(v) => v.to_string(),
                    Err(e) => e,
                }
            }),
        ));
    }
    enc(&mut v, "Metaphone none".into(), Metaphone::new(None))?;
    enc(&mut v, "DoubleMetaphone none".into(), DoubleMetaphone::new(None))?;
    for t in [NameType::Ashkenazi, NameType::Generic, NameType::Sephardic] {
        trip(&t, "NameType")?;
    }
    for t in [RuleType::Approx, RuleType::Exact] {
        trip(&t, "RuleType")?;
    }
    Ok(v)
}

pub fn serialized() -> Serialized {
    Serialized { pairs: PerThread::new(all) }
}

impl Prop for Serialized {
    fn check(&self, case: &str) -> Result<Obs, String> {
        let pairs = self.pairs.get().as_ref().map_err(|e| e.clone())?;
        let mut seen = vec![];
        for (name, a, b) in pairs {
            let (x, y) = (a(case), b(case));
            if x != y {
                return Err(format!("{name} on {case:?}: {x:?}, but {y:?} once written and read"));
            }
            seen.push(x);
        }
        // Values that hold the text itself
        let names: Vec<&str> = case.split(' ').collect();
        for s in [
            LanguageSet::from(names),
            LanguageSet::Any,
            LanguageSet::NoLanguages,
            LanguageSet::from(BTreeSet::from([case.to_string()])),
        ] {
            trip(&s, "LanguageSet")?;
        }
        for filename in [None, Some(case.to_string())] {
            let e = ParseError {
                line_number: case.len(),
                filename,
                line_content: case.into(),
                description: case.into(),
            };
            trip(&e, "ParseError")?;
        }
        let c = CharSequence::from(case);
        let text = serde_json::to_string(&c).map_err(|e| e.to_string())?;
        if !case.chars().any(|c| c < ' ' || c == '"' || c == '\\') {
            let back: CharSequence = serde_json::from_str(&text).map_err(|e| format!("{text} isn't read: {e}"))?;
            if back != c || back.len() != c.len() || back[..] != c[..] {
                return Err(format!("{c:?} is written as {text} and read as {back:?}"));
            }
        }
        let bytes = positional::write(&c).map_err(|e| e.to_string())?;
        let back: CharSequence = positional::read(&bytes).map_err(|e| format!("{c:?}, written without names, isn't read: {e}"))?;
        if back != c || back.len() != c.len() || back[..] != c[..] {
            return Err(format!("{c:?} is written without names and read as {back:?}"));
        }
        obs(&seen, pairs.len() as u64 + 7)
    }
    fn explore(&self, ctx: &Ctx) {
        let t = ctx.thorough;
        ctx.sequences("letters", &crate::words::LETTERS, if t { 4 } else { 3 });
        ctx.sequences(
            "fragments",
            &["A", "B", "CH", "DG", "GH", "H", "K", "MAC", "PH", "S", "T", "W", "Y", "é", " "],
            if t { 5 } else { 4 },
        );
        let mut s: Vec<&str> = crate::words::SPECIAL.to_vec();
        s.extend(crate::words::PUNCT);
        ctx.sequences("special characters", &s, 2);
        ctx.indexed("every Unicode scalar value", 0x110000, 1024, &|i| {
            Some(format!("{}a", char::from_u32(i as u32)?))
        });
    }
    fn bounds(&self, t: bool) -> String {
        format!("every serializable type, in two formats (JSON, and a format without names where values are found by their place); all encoders with limits 0 to 12, 100, 255, 256, 65536 and the largest integer, 3 mappings, all flags; each compared on all words of up to {} letters and {} fragments, pairs of special characters and every Unicode scalar value", if t { 4 } else { 3 }, if t { 5 } else { 4 })
    }
}
