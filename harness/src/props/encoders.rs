//! One property per algorithm: the code is the one of the reference model, on every word.
use crate::engine::{obs, Ctx, Obs, PerThread, Prop};
use crate::models::*;
use crate::words::{self, expand, Plan};
use rphonetic::*;

pub type Imp = Box<dyn Fn(&str) -> String>;
pub type Model = Box<dyn Fn(&str) -> Vec<String> + Sync>;
/// Named configurations of the implementation.
pub type Imps = Vec<(String, Imp)>;

pub struct Diff {
    pub imps: PerThread<Imps>,
    /// One output by implementation, in the same order. More outputs are only part of the state.
    pub model: Model,
    pub plan: Plan<'static>,
}

impl Prop for Diff {
    fn check(&self, case: &str) -> Result<Obs, String> {
        let word = expand(case);
        let expected = (self.model)(&word);
        for ((name, imp), e) in self.imps.get().iter().zip(expected.iter()) {
            let got = imp(&word);
            if got != *e {
                return Err(format!("{name} on {word:?}: got {got:?}, expected {e:?}"));
            }
        }
        obs(&expected, self.imps.get().len() as u64)
    }
    fn explore(&self, ctx: &Ctx) {
        words::explore(ctx, &self.plan)
    }
    fn bounds(&self, thorough: bool) -> String {
        format!(
            "{}; configurations: {}",
            words::describe(&self.plan, thorough),
            self.imps.get().iter().map(|v| v.0.as_str()).collect::<Vec<_>>().join(", ")
        )
    }
}

fn enc<E: Encoder + 'static>(name: &str, e: E) -> (String, Imp) {
    (name.to_string(), Box::new(move |s: &str| e.encode(s)))
}

fn map(s: &str) -> [char; 26] {
    s.chars().collect::<Vec<_>>().try_into().unwrap()
}


/// A mapping with silent letters, characters that aren't digits and one that isn't ASCII.
pub const ODD: &str = "ab0cd-ef0gabcdé012345-6789";
pub const META_LIMITS: [Option<usize>; 10] = [None, Some(0), Some(1), Some(2), Some(3), Some(4), Some(5), Some(6), Some(8), Some(12)];
pub const DM2_LIMITS: [Option<usize>; 8] = [None, Some(0), Some(1), Some(2), Some(3), Some(4), Some(5), Some(8)];
pub const PHONEX_LIMITS: [usize; 9] = [0, 1, 2, 3, 4, 5, 6, 9, 20];

fn of(id: &str) -> PerThread<Imps> {
    let id = id.to_string();
    PerThread::new(move || imps(&id))
}

pub fn imps(id: &str) -> Imps {
    match id {
        "C04" => vec![
            enc("default", Soundex::default()),
            enc("us without h/w rule", Soundex::new(map(soundex::US), false)),
            enc("us with h/w rule", Soundex::new(DEFAULT_US_ENGLISH_MAPPING_SOUNDEX, true)),
            enc("genealogy", Soundex::from(DEFAULT_US_ENGLISH_GENEALOGY_MAPPING_SOUNDEX)),
            enc("genealogy with h/w rule", Soundex::new(map(soundex::GENEALOGY), true)),
            enc("custom", ODD.parse::<Soundex>().unwrap()),
            enc("custom with h/w rule", Soundex::new(map(ODD), true)),
        ],
        "C05" => vec![enc("default", RefinedSoundex::default()), enc("custom", RefinedSoundex::new(map(ODD)))],
        "C07" => vec![enc("Caverphone1", Caverphone1)],
        "C08" => vec![enc("Caverphone2", Caverphone2)],
        "C09" => vec![enc("Cologne", Cologne)],
        "C13" => vec![enc("MatchRatingApproach", MatchRatingApproach)],
        "C15" => {
            let mut v: Imps = META_LIMITS.iter().map(|l| enc(&format!("max {l:?}"), Metaphone::new(*l))).collect();
            v.push(enc("default", Metaphone::default()));
            v
        }
        "C16" => {
            let mut imps: Imps = vec![];
            for l in DM2_LIMITS {
                let e = DoubleMetaphone::new(l);
                imps.push((
                    format!("max {l:?}"),
                    Box::new(move |s| {
                        let r = e.double_metaphone(s);
                        let d = r.to_string();
                        if d != format!("[primary={}, alternate={}]", r.primary(), r.alternate()) {
                            return format!("bad display {d}");
                        }
                        format!("{}|{}", r.primary(), r.alternate())
                    }),
                ));
            }
            let e = DoubleMetaphone::default();
            imps.push((
                "encode and encode_alternate".into(),
                Box::new(move |s| format!("{}|{}", e.encode(s), e.encode_alternate(s))),
            ));
            imps
        }
        "C17" => vec![
            enc("not strict", Nysiis::new(false)),
            enc("strict", Nysiis::new(true)),
            enc("default", Nysiis::default()),
        ],
        "C18" => {
            let mut v: Imps = PHONEX_LIMITS.iter().map(|l| enc(&format!("max {l}"), Phonex::new(*l))).collect();
            v.push(enc("default", Phonex::default()));
            v
        }
        _ => vec![],
    }
}

pub fn get(id: &str) -> Option<Box<dyn Prop>> {
    if id == "C04" || id == "C05" {
        return Some(Box::new(Mapped { base: diff(id)?, refined: id == "C05" }));
    }
    Some(Box::new(diff(id)?))
}

/// C04 and C05: what `Diff` does, and any mapping. A case with a mapping is MAPPING, the mapping, MAPPING, the word.
pub struct Mapped {
    base: Diff,
    refined: bool,
}

pub const MAPPING: char = '\u{10FFFD}';

/// Mappings from which others are derived: the usual ones, constants, each letter coded by itself, codes of several bytes,
/// all letters different.
pub const BASES: [&str; 8] = [
    soundex::US,
    soundex::GENEALOGY,
    soundex::REFINED,
    ODD,
    "ABCDEFGHIJKLMNOPQRSTUVWXYZ",
    "00000000000000000000000000",
    "11111111111111111111111111",
    "éèêëàâäîïôöùûüÿæœçñáíóúýþð",
];

/// Text of the case of a word coded with a mapping.
pub fn mapped(mapping: &str, word: &str) -> String {
    format!("{MAPPING}{mapping}{MAPPING}{word}")
}

/// The mapping and the word of a case.
pub fn unmapped(case: &str) -> Option<(Vec<char>, &str)> {
    let (m, word) = case.strip_prefix(MAPPING)?.split_once(MAPPING)?;
    Some((m.chars().collect(), word))
}

impl Prop for Mapped {
    fn check(&self, case: &str) -> Result<Obs, String> {
        if !case.starts_with(MAPPING) {
            return self.base.check(case);
        }
        let Some((m, word)) = unmapped(case) else { return obs("", 0) };
        let Ok(array) = <[char; 26]>::try_from(m.clone()) else { return obs("", 0) };
        let text: String = m.iter().collect();
        let mut seen = vec![];
        let mut all: Vec<(&str, String, String)> = vec![];
        if self.refined {
            let e = soundex::refined(&m, word);
            all.push(("new", RefinedSoundex::new(array).encode(word), e.clone()));
            all.push(("parse", text.parse::<RefinedSoundex>().map_or("refused".into(), |v| v.encode(word)), e));
        } else {
            let (hw, plain) = (soundex::soundex(&m, true, word), soundex::soundex(&m, false, word));
            let from = if m.contains(&'-') { &plain } else { &hw };
            all.push(("from", Soundex::from(array).encode(word), from.clone()));
            all.push(("parse", text.parse::<Soundex>().map_or("refused".into(), |v| v.encode(word)), from.clone()));
            all.push(("new with h/w rule", Soundex::new(array, true).encode(word), hw));
            all.push(("new without h/w rule", Soundex::new(array, false).encode(word), plain));
        }
        let n = all.len() as u64;
        for (name, got, expected) in all {
            if got != expected {
                return Err(format!("mapping {text:?} ({name}) on {word:?}: got {got:?}, expected {expected:?}"));
            }
            seen.push(expected);
        }
        obs(&seen, n)
    }
    fn explore(&self, ctx: &Ctx) {
        self.base.explore(ctx);
        // Each entry of each base replaced by each value
        let alpha = words::LETTERS;
        let depth = if ctx.thorough { 5 } else { 4 };
        let bases: Vec<Vec<char>> = BASES.iter().map(|b| b.chars().collect()).collect();
        let values = 12;
        let value = |letter: usize, k: usize| match k {
            0 => '-',
            1 => '0',
            2 => '1',
            3 => '6',
            4 => (b'A' + letter as u8) as char,
            5 => (b'a' + letter as u8) as char,
            6 => (b'A' + ((letter + 1) % 26) as u8) as char,
            7 => ' ',
            8 => '\0',
            9 => 'é',
            10 => '\u{10FFFF}',
            _ => '/',
        };
        let n = bases.len() * 26 * values;
        ctx.parallel(&format!("8 mappings with one entry replaced by 12 values, all words of 1..={depth} letters among 5"), n, &|i| {
            let (b, letter, k) = (i % bases.len(), i / bases.len() % 26, i / bases.len() / 26);
            let mut m = bases[b].clone();
            m[letter] = value(letter, k);
            let m: String = m.into_iter().collect();
            // The letter that was changed, those around, and those that have a role
            let mut letters = vec![letter, (letter + 1) % 26, 7, 22, 0, 25];
            letters.dedup();
            letters.truncate(5);
            for l in 1..=depth {
                for w in 0..letters.len().pow(l as u32) {
                    let (mut w, mut word) = (w, String::new());
                    for _ in 0..l {
                        word.push_str(alpha[letters[w % letters.len()]]);
                        w /= letters.len();
                    }
                    ctx.visit(&mapped(&m, &word), i as u64, l as u64);
                }
            }
        });
        // All mappings of five letters to four codes
        let letters = ["A", "B", "H", "W", "Z"];
        let codes = if self.refined { ['0', '1', '-', 'B'] } else { ['0', '1', '-', '2'] };
        ctx.parallel(&format!("all mappings of 5 letters to 4 codes, all words of 1..={} of them", depth + 1), 1024, &|i| {
            let mut m: Vec<char> = "33333333333333333333333333".chars().collect();
            for (k, l) in letters.iter().enumerate() {
                m[(l.as_bytes()[0] - b'A') as usize] = codes[i >> (2 * k) & 3];
            }
            let m: String = m.into_iter().collect();
            for l in 1..=depth + 1 {
                for w in 0..5usize.pow(l as u32) {
                    let (mut w, mut word) = (w, String::new());
                    for _ in 0..l {
                        word.push_str(letters[w % 5]);
                        w /= 5;
                    }
                    ctx.visit(&mapped(&m, &word), i as u64, l as u64);
                }
            }
        });
    }
    fn bounds(&self, thorough: bool) -> String {
        let d = if thorough { 5 } else { 4 };
        format!(
            "{}; 8 mappings with each entry replaced by each of 12 values, on all words of up to {d} letters (the letter that is changed, its neighbours, H, W, A); all mappings of A, B, H, W, Z to 4 codes (a silent one and 0 included) on all their words of up to {} letters",
            self.base.bounds(thorough), d + 1
        )
    }
}

pub fn diff(id: &str) -> Option<Diff> {
    let d = match id {
        "C04" => {
            let us: Vec<char> = soundex::US.chars().collect();
            let ge: Vec<char> = soundex::GENEALOGY.chars().collect();
            // A mapping without zero, with two characters that aren't digits, and a silent letter.
            let od: Vec<char> = ODD.chars().collect();
            Diff {
                imps: of(id),
                model: Box::new(move |s| {
                    let f = |m: &[char], hw| soundex::soundex(m, hw, s);
                    vec![
                        f(&us, true),
                        f(&us, false),
                        f(&us, true),
                        f(&ge, false),
                        f(&ge, true),
                        f(&od, false),
                        f(&od, true),
                    ]
                }),
                plan: Plan {
                    tokens: &["CK", "SCH", "TSCH", "HW", "WH", "MCM", "LL", "ST", "'", " ", "O'", "é", "ß"],
                    letters: (5, 6),
                    fragments: (4, 5),
                    core: &["A", "B", "C", "D", "H", "W", "S", "L", "R"],
                    core_depth: (6, 7),
                    deep: &["A", "B", "H", "W"],
                    deep_depth: (9, 11),
                    long: 70000,
                    unicode: true,
                    ascii: (3, 3),
                },
            }
        }
        "C05" => {
            let us: Vec<char> = soundex::REFINED.chars().collect();
            let od: Vec<char> = ODD.chars().collect();
            Diff {
                imps: of(id),
                model: Box::new(move |s| vec![soundex::refined(&us, s), soundex::refined(&od, s)]),
                plan: Plan {
                    tokens: &["CK", "SCH", "TSCH", "HW", "WH", "MCM", "LL", "ST", "'", " ", "O'", "é", "ß"],
                    letters: (5, 6),
                    fragments: (4, 5),
                    core: &["A", "B", "C", "D", "H", "W", "S", "L", "R"],
                    core_depth: (6, 7),
                    deep: &["A", "B", "H", "W"],
                    deep_depth: (9, 11),
                    long: 70000,
                    unicode: true,
                    ascii: (3, 3),
                },
            }
        }
        "C07" | "C08" => Diff {
            imps: of(id),
            model: if id == "C07" {
                Box::new(|s| vec![caverphone::caverphone1(s)])
            } else {
                Box::new(|s| vec![caverphone::caverphone2(s)])
            },
            plan: Plan {
                tokens: &[
                    "COUGH", "ROUGH", "TOUGH", "ENOUGH", "TROUGH", "OUGH", "GN", "MB", "CQ", "CI", "CE", "CY", "TCH", "DG", "TIO", "TIA", "PH", "SH", "GH",
                    "AGHA", "WA", "WY", "WHY", "WHA", "RY", "RA", "LY", "LA", "YA", "JA", "SS", "TT", "KK", "é", " ", "'", "2", "3", "1",
                ],
                letters: (5, 6),
                fragments: (3, 4),
                core: &["A", "Y", "J", "W", "H", "R", "L", "GH", "K", "S", "E", "MB"],
                core_depth: (5, 6),
                deep: &["A", "GH", "Y", "H", "W"],
                deep_depth: (7, 9),
                long: 4096,
                unicode: true,
                ascii: (2, 3),
            },
        },
        "C09" => Diff {
            imps: of(id),
            model: Box::new(|s| vec![cologne::cologne(s)]),
            plan: Plan {
                tokens: &[
                    "ä", "Ö", "ü", "ß", "SCH", "CH", "PH", "DS", "TZ", "TC", "CK", "X", "CX", "KX", "QX", "SC", "ZC", " ", "-", "é", "MM", "LR", "4", "8",
                    "H-H", "ŝ",
                ],
                letters: (5, 6),
                fragments: (4, 4),
                core: &["A", "B", "C", "D", "H", "X", "S", "L", "K", "P", "ä", "-"],
                core_depth: (5, 6),
                deep: &["C", "H", "A", "X", "S"],
                deep_depth: (8, 9),
                long: 70000,
                unicode: true,
                ascii: (3, 3),
            },
        },
        "C13" => Diff {
            imps: of(id),
            model: Box::new(|s| vec![mra::encode(s)]),
            plan: Plan {
                tokens: &[
                    "BB", "CC", "LL", "SSS", "TTTT", "AA", "Á", "é", "Ñ", "ç", "ÿ", "Ő", "ű", "Ŷ", " ", "-", "&", "'", ".", ",", "ß", "SMITH", "ŉ", "\u{301}",
                    "BAB", "4", "_",
                ],
                letters: (5, 6),
                fragments: (3, 4),
                core: &["A", "B", "BB", "C", "é", "Á", "S", "-", " ", "ß"],
                core_depth: (6, 7),
                deep: &["B", "C", "A", "é"],
                deep_depth: (9, 11),
                long: 4096,
                unicode: true,
                ascii: (3, 3),
            },
        },
        "C15" => Diff {
            imps: of(id),
            model: Box::new(move |s| {
                let full = metaphone::metaphone(s);
                let mut out: Vec<String> = META_LIMITS.iter().map(|l| prefix(&full, *l)).collect();
                out.push(prefix(&full, Some(4)));
                out
            }),
            plan: Plan {
                tokens: &[
                    "KN", "GN", "PN", "AE", "WR", "WH", "MB", "SCE", "SCI", "CIA", "CH", "SCH", "DGE", "DGI", "DG", "GH", "GHT", "GNED", "GG", "GI", "CC",
                    "CK", "PH", "SH", "SIO", "SIA", "TIA", "TIO", "TCH", "TH", "WA", "YE", "XX", "EE", "é", "ß", " ", "'", "ŉ",
                ],
                letters: (5, 6),
                fragments: (3, 4),
                core: &["A", "E", "CH", "S", "GH", "N", "K", "W", "I", "T", "C", "D", "G", "H", "X"],
                core_depth: (5, 6),
                deep: &["C", "H", "G", "E", "N"],
                deep_depth: (7, 9),
                long: 1024,
                unicode: true,
                ascii: (2, 3),
            },
        },
        "C16" => Diff {
            imps: of(id),
            model: Box::new(move |s| {
                let (p, a) = double_metaphone::double_metaphone(s);
                let f = |l: Option<usize>| format!("{}|{}", prefix(&p, l), prefix(&a, l));
                let mut out: Vec<String> = DM2_LIMITS.iter().map(|l| f(*l)).collect();
                out.push(f(Some(4)));
                out
            }),
            plan: Plan {
                tokens: DM2_TOKENS,
                letters: (5, 6),
                fragments: (3, 3),
                core: DM2_CORE,
                core_depth: (4, 5),
                deep: &["SCH", "W", "X", "CH", "J", "TH", "A"],
                deep_depth: (6, 7),
                long: 4096,
                unicode: true,
                ascii: (2, 3),
            },
        },
        "C17" => Diff {
            imps: of(id),
            model: Box::new(|s| {
                let full = nysiis::nysiis(s);
                let strict = prefix(&full, Some(6));
                vec![full, strict.clone(), strict]
            }),
            plan: Plan {
                tokens: &[
                    "MAC", "KN", "PH", "PF", "SCH", "EE", "IE", "DT", "RT", "RD", "NT", "ND", "EV", "AY", "AS", "HH", "WH", "AW", "OW", "MM", "QZ", "SC", "é",
                    "ß", " ", "'", "Ñ", "ff",
                ],
                letters: (5, 6),
                fragments: (3, 4),
                core: &["A", "E", "V", "H", "W", "K", "N", "S", "CH", "PH", "Y", "D", "é"],
                core_depth: (5, 6),
                deep: &["A", "E", "V", "H", "S", "K"],
                deep_depth: (7, 8),
                long: 4096,
                unicode: true,
                ascii: (3, 3),
            },
        },
        "C18" => Diff {
            imps: of(id),
            model: Box::new(move |s| {
                let full = phonex::phonex(s);
                let f = |l: usize| {
                    let mut v = prefix(&full, Some(l));
                    while v.chars().count() < l {
                        v.push('0');
                    }
                    v
                };
                let mut out: Vec<String> = PHONEX_LIMITS.iter().map(|l| f(*l)).collect();
                out.push(f(4));
                out
            }),
            plan: Plan {
                tokens: &[
                    "KN", "PH", "WR", "SS", "HH", "DC", "TC", "ND", "NG", "MG", "MD", "LA", "LB", "RB", "RY", "é", "ß", " ", "'", "Ñ", "NDG",
                ],
                letters: (5, 6),
                fragments: (4, 4),
                core: &["A", "N", "D", "G", "C", "L", "R", "H", "S", "K", "Y", "É"],
                core_depth: (5, 6),
                deep: &["A", "N", "D", "G", "L"],
                deep_depth: (7, 9),
                long: 4096,
                unicode: true,
                ascii: (3, 3),
            },
        },
        _ => return None,
    };
    Some(d)
}

pub const DM2_TOKENS: &[&str] = &[
    "GN", "KN", "PN", "WR", "PS", "CZ", "WITZ", "WICZ", "CHIA", "ACH", "BACHER", "MACHER", "CAESAR", "CH", "CHAE", "HARAC", "HARIS", "HOR", "HYM", "HIA",
    "HEM", "CHORE", "VAN ", "VON ", "SCH", "ORCHES", "ARCHIT", "ORCHID", "CIA", "CC", "CCI", "CCHU", "UCCEE", "UCCES", "CK", "CG", "CQ", "CIO", "CIE", "CY",
    " C", " Q", " G", "MC", "MAC", "DG", "DGE", "DT", "GH", "UGH", "GHI", "GNEY", "GLI", "GES", "GEY", "GIB", "GIN", "GER", "GY", "DANGER", "RANGER", "MANGER",
    "RGY", "OGY", "AGGI", "OGGI", "GET", "GIER", "JOSE", "SAN ", "JA", "JO", "ILLO", "ILLA", "ALLE", "AS", "OS", "UMB", "UMBER", "PH", "PB", "IE", "ME", "MA",
    "ISL", "YSL", "SUGAR", "SH", "HEIM", "HOEK", "HOLM", "HOLZ", "SIO", "SIA", "SIAN", "SZ", "SM", "SCHER", "SCHEN", "SCHOO", "SCHUY", "SCHED", "SCHEM", "SCE",
    "AI", "OI", "TION", "TIA", "TCH", "TH", "TTH", "OM", "AM", "TD", "WH", "EWSKI", "EWSKY", "OWSKI", "OWSKY", "IAU", "EAU", "AU", "OU", "XC", "ZH", "ZZO",
    "ZI", "ZA", "Ç", "Ñ", "ç", "é", "ß", " ", "'",
];
pub const DM2_CORE: &[&str] = &[
    "A", "E", "I", "O", "U", "Y", "B", "C", "D", "G", "H", "J", "K", "L", "M", "N", "R", "S", "T", "W", "X", "Z", "CH", " ", "TH", "GH",
];
