// All codes of a text, whatever the features of the library. Compiled here and in the harness.
use rphonetic::*;
use std::path::PathBuf;

pub struct Encoders {
    shipped: ConfigFiles,
    #[cfg(feature = "bm")]
    embedded: ConfigFiles,
    folding: DaitchMokotoffSoundex,
    plain: DaitchMokotoffSoundex,
}

const RULES: &str = include_str!("../../harness/data/embedded/dmrules.txt");

pub fn encoders() -> Encoders {
    let dir = concat!(env!("CARGO_MANIFEST_DIR"), "/../harness/data/cc-rules");
    Encoders {
        shipped: ConfigFiles::new(&PathBuf::from(dir)).expect("the shipped rules can be loaded"),
        #[cfg(feature = "bm")]
        embedded: ConfigFiles::default(),
        folding: DaitchMokotoffSoundexBuilder::with_rules(RULES).build().expect("right rules"),
        plain: DaitchMokotoffSoundexBuilder::with_rules(RULES).ascii_folding(false).build().expect("right rules"),
    }
}

fn beider_morse(name: &str, c: &ConfigFiles, s: &str, out: &mut Vec<(String, String)>) {
    for t in [NameType::Ashkenazi, NameType::Generic, NameType::Sephardic] {
        for k in [RuleType::Approx, RuleType::Exact] {
            let e = BeiderMorseBuilder::new(c).name_type(t).rule_type(k).build();
            out.push((format!("{name} Beider-Morse {t} {k:?}"), e.encode(s)));
        }
    }
}

fn daitch_mokotoff(name: &str, e: &DaitchMokotoffSoundex, s: &str, out: &mut Vec<(String, String)>) {
    out.push((format!("Daitch-Mokotoff {name}"), e.soundex(s)));
    out.push((format!("Daitch-Mokotoff {name}, no branching"), e.encode(s)));
}

pub fn codes(e: &Encoders, s: &str) -> Vec<(String, String)> {
    let mut out: Vec<(String, String)> = vec![];
    let mut add = |name: String, code: String| out.push((name, code));
    add("Soundex".into(), Soundex::default().encode(s));
    add("Soundex genealogy".into(), Soundex::from(DEFAULT_US_ENGLISH_GENEALOGY_MAPPING_SOUNDEX).encode(s));
    add("RefinedSoundex".into(), RefinedSoundex::default().encode(s));
    add("Caverphone1".into(), Caverphone1.encode(s));
    add("Caverphone2".into(), Caverphone2.encode(s));
    add("Cologne".into(), Cologne.encode(s));
    add("MatchRatingApproach".into(), MatchRatingApproach.encode(s));
    add("MatchRatingApproach comparison".into(), MatchRatingApproach.is_encoded_equals(s, "Smith").to_string());
    add("Soundex difference".into(), Soundex::default().difference(s, "Smith").to_string());
    for b in [true, false] {
        add(format!("Nysiis {b}"), Nysiis::new(b).encode(s));
    }
    for l in [None, Some(0), Some(1), Some(4), Some(7)] {
        add(format!("Metaphone {l:?}"), Metaphone::new(l).encode(s));
        add(format!("DoubleMetaphone {l:?}"), DoubleMetaphone::new(l).double_metaphone(s).to_string());
    }
    for l in [0, 1, 4, 7] {
        add(format!("Phonex {l}"), Phonex::new(l).encode(s));
    }
    daitch_mokotoff("folding", &e.folding, s, &mut out);
    daitch_mokotoff("no folding", &e.plain, s, &mut out);
    #[cfg(feature = "dm")]
    {
        use std::cell::OnceCell;
        thread_local! { static DEFAULT: OnceCell<DaitchMokotoffSoundex> = const { OnceCell::new() }; }
        DEFAULT.with(|d| daitch_mokotoff("default", d.get_or_init(DaitchMokotoffSoundex::default), s, &mut out));
    }
    beider_morse("shipped", &e.shipped, s, &mut out);
    #[cfg(feature = "bm")]
    beider_morse("embedded", &e.embedded, s, &mut out);
    out
}
