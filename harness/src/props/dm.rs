//! Daitch-Mokotoff: built-in rules, custom rule programs, diagnosis of wrong rule files.
use super::encoders::{Diff, Imps};
use super::SEP;
use crate::engine::{obs, Ctx, Obs, PerThread, Prop};
use crate::models::dm;
use crate::words::Plan;
use rphonetic::*;

pub const RULES: &str = include_str!("../../data/embedded/dmrules.txt");

const TOKENS: &[&str] = &[
    "schtsch", "schtsh", "schtch", "shtch", "shch", "shtsh", "stch", "stsch", "strz", "strs", "stsh", "szcz", "szcs", "sht", "scht", "schd", "st", "sch", "sc",
    "szt", "shd", "szd", "sd", "csz", "cz", "cs", "drz", "drs", "ds", "dsh", "dsz", "dz", "dzh", "dzs", "dt", "d", "t", "ch", "ck", "fb", "ks", "mn", "nm",
    "pf", "ph", "rz", "rs", "sz", "tch", "ttch", "ttsch", "ts", "tts", "ttsz", "tc", "th", "trz", "trs", "tsch", "tsh", "ttz", "tz", "zdz", "zdzh", "zhdzh",
    "zd", "zh", "zs", "zsch", "zsh", "ai", "aj", "au", "ei", "ej", "ey", "eu", "ia", "ie", "io", "iu", "oi", "oj", "oy", "ui", "uj", "uy", "ue", "y", "x", "ą",
    "ę", "ţ", "ț", "à", "ß", "ö", "ü", "ł", "ñ", " ", "'", "-", "İ", "É", "1", "ç",
];
const CORE: &[&str] = &["a", "c", "d", "h", "k", "r", "s", "t", "z", "m", "n", "j", "ę", "ţ"];

pub fn imps() -> Imps {
    let mut v: Imps = vec![];
    let mut add = |name: &str, e: DaitchMokotoffSoundex| {
        // One instance for all its methods
        let a = std::sync::Arc::new(e);
        let (b, c, d) = (a.clone(), a.clone(), a.clone());
        v.push((format!("{name}, encode"), Box::new(move |s| a.encode(s))));
        v.push((format!("{name}, soundex"), Box::new(move |s| b.soundex(s))));
        v.push((format!("{name}, inner_soundex(true)"), Box::new(move |s| c.inner_soundex(s, true).join("|"))));
        v.push((format!("{name}, inner_soundex(false)"), Box::new(move |s| d.inner_soundex(s, false).join("|"))));
    };
    add("default", DaitchMokotoffSoundex::default());
    add("no folding", DaitchMokotoffSoundexBuilder::default().ascii_folding(false).build().unwrap());
    add("given rules", DaitchMokotoffSoundexBuilder::with_rules(RULES).build().unwrap());
    v
}

pub fn builtin() -> Diff {
    let p = dm::parse(RULES).unwrap();
    Diff {
        imps: PerThread::new(imps),
        model: Box::new(move |s| {
            let mut out = vec![];
            for folding in [true, false, true] {
                let one = dm::codes(&p, folding, s, false).join("|");
                let all = dm::codes(&p, folding, s, true).join("|");
                out.extend([one.clone(), all.clone(), all, one]);
            }
            out
        }),
        plan: Plan {
            tokens: TOKENS,
            letters: (4, 5),
            fragments: (3, 3),
            core: CORE,
            core_depth: (4, 5),
            deep: &["CH", "RZ", "A", "J", "NM"],
            deep_depth: (6, 7),
            long: 300,
            unicode: true,
            ascii: (2, 3),
        },
    }
}

/// Words over an alphabet.
pub fn words_over(alphabet: &[&str], max: usize) -> Vec<String> {
    let mut all = vec![String::new()];
    let mut last = all.clone();
    for _ in 0..max {
        let next: Vec<String> = last.iter().flat_map(|w| alphabet.iter().map(move |a| format!("{w}{a}"))).collect();
        all.extend(next.iter().cloned());
        last = next;
    }
    all
}

/// Compare the encoders built from a text with the model, on all words.
fn compare(text: &str, words: &[String], strict: bool) -> Result<Obs, String> {
    let p = match (DaitchMokotoffSoundexBuilder::with_rules(text).build(), dm::parse(text)) {
        (Ok(_), Ok(p)) => p,
        (Err(PhoneticError::ParseRuleError(e)), Err(f)) => {
            if strict && (e.line_number, &e.line_content) != (f.line, &f.content) {
                return Err(format!("wrong diagnosis: {e:?}, expected {f:?}"));
            }
            let shown = PhoneticError::ParseRuleError(e.clone()).to_string();
            if strict && !(shown.contains(&e.line_content) && shown.contains(&e.line_number.to_string())) {
                return Err(format!("the message {shown:?} doesn't tell the line {e:?}"));
            }
            return obs(&(f.line, f.content), 1);
        }
        (Err(e), Err(f)) => return Err(format!("got {e:?}, expected a parsing error {f:?}")),
        (Ok(_), Err(f)) => return Err(format!("accepted, expected {f:?}")),
        (Err(e), Ok(_)) => return Err(format!("refused: {e:?}")),
    };
    let mut seen = vec![];
    let mut n = 0;
    for folding in [true, false] {
        let e = DaitchMokotoffSoundexBuilder::with_rules(text)
            .ascii_folding(folding)
            .build()
            .map_err(|e| format!("{e:?}"))?;
        for w in words {
            for branching in [true, false] {
                let (got, exp) = (e.inner_soundex(w, branching), dm::codes(&p, folding, w, branching));
                if got != exp {
                    return Err(format!("{w:?}, folding {folding}, branching {branching}: got {got:?}, expected {exp:?}"));
                }
                n += 1;
                seen.push(crate::engine::hash(&exp));
            }
            let (one, all) = (e.encode(w), e.soundex(w));
            if one != e.inner_soundex(w, false).join("|") || all != e.inner_soundex(w, true).join("|") {
                return Err(format!("{w:?}, folding {folding}: encode {one:?} or soundex {all:?} isn't inner_soundex"));
            }
        }
    }
    obs(&seen, n)
}

/// Between the words of a case.
const NEXT: char = '\u{10FFFC}';

/// A case is a rule program.
pub struct Programs {
    words: Vec<String>,
    long: Vec<String>,
}

pub fn programs() -> Programs {
    let a = ["a", "b", "m", "n", "é", " "];
    let mut long = words_over(&["a", "b", "m", "n"], 6);
    long.retain(|w| w.len() >= 5);
    let mut words = words_over(&a, 3);
    words.extend(words_over(&a[..4], 4).into_iter().filter(|w| w.len() == 4));
    Programs { words, long }
}

const TAILS: &[&[&str]] = &[&[""], &["b", "m"], &["", "b", "bm"], &["é", "b", "", "nn", "ab"]];

impl Prop for Programs {
    fn check(&self, case: &str) -> Result<Obs, String> {
        // A program followed by SEP is executed on longer words, or on those that come next.
        match case.split_once(SEP) {
            Some((c, "")) => compare(c, &self.long, false),
            Some((c, words)) => compare(c, &words.split(NEXT).map(|w| w.to_string()).collect::<Vec<_>>(), false),
            None => compare(case, &self.words, false),
        }
    }

    fn explore(&self, ctx: &Ctx) {
        let t = ctx.thorough;
        let pats = ["a", "b", "ab", "ba", "aba", "é", "m", "n", "mn", "éa"];
        let reps = ["0", "1", "12", "", "1|2", "1|", "1|1", "21|1", "é", "|"];
        let line = |p: &str, s: &str, v: &str, o: &str| format!("\"{p}\" \"{s}\" \"{v}\" \"{o}\"\n");
        // Any one rule
        ctx.indexed("one rule: all patterns and replacements", pats.len() * 1000, 16, &|i| {
            Some(line(pats[i / 1000], reps[i / 100 % 10], reps[i / 10 % 10], reps[i % 10]))
        });
        // Any two rules, three columns chosen in a list
        let cols: [(&str, &str, &str); 8] = [
            ("1", "1", "1"),
            ("0", "", ""),
            ("1|2", "2|1", "12"),
            ("12", "2", "1|2"),
            ("", "1", "2"),
            ("5|6", "5", ""),
            ("1234567", "123", "12345|54321"),
            ("9|99|8", "99|9", "8|8|9"),
        ];
        let nc = cols.len();
        let one = |p: usize, c: usize| line(pats[p], cols[c].0, cols[c].1, cols[c].2);
        let np = pats.len();
        let extra = ["", "é=a\n", "m=n\n", "b=ß\n", "é=a\né=b\n", "a=b\nb=a\n", "É=a\n"];
        let n2 = np * np * nc * nc;
        ctx.indexed("two rules and folding", n2 * extra.len(), 16, &|i| {
            let (e, i) = (i / n2, i % n2);
            let (p, q, c, d) = (i / nc / nc / np, i / nc / nc % np, i / nc % nc, i % nc);
            if !t && e > 1 && (c + d + p + q) % 4 != 0 {
                return None;
            }
            let s = format!("{}{}", one(p, c), one(q, d));
            // Folding may be anywhere
            Some(if e % 2 == 0 { format!("{}{s}", extra[e]) } else { format!("{s}{}", extra[e]) })
        });
        // Three rules
        let nc3 = if t { 6 } else { 2 };
        let n3 = np * np * np * nc3 * nc3 * nc3;
        ctx.indexed("three rules", n3, 16, &|i| {
            let (p, c) = (i / (nc3 * nc3 * nc3), i % (nc3 * nc3 * nc3));
            let cc = |k: usize| (k + 1) % nc;
            Some(format!(
                "{}{}{}",
                one(p / np / np, cc(c / nc3 / nc3)),
                one(p / np % np, cc(c / nc3 % nc3)),
                one(p % np, cc(c % nc3))
            ))
        });
        // Longer words, on programs with a rule by letter
        let n4 = nc * nc * nc * nc;
        ctx.indexed("four one letter rules, words of 5 and 6 letters", n4, 4, &|i| {
            if !t && i % 4 != (i / 64) % 4 {
                return None;
            }
            Some(format!(
                "{}{}{}{}{}{SEP}",
                line("a", cols[i / 512].0, cols[i / 512].1, cols[i / 512].2),
                line("b", cols[i / 64 % 8].0, cols[i / 64 % 8].1, cols[i / 64 % 8].2),
                line("m", cols[i / 8 % 8].0, cols[i / 8 % 8].1, cols[i / 8 % 8].2),
                line("n", cols[i % 8].0, cols[i % 8].1, cols[i % 8].2),
                line("ab", "7", "7|8", "")
            ))
        });
        // Many rules that begin with the same letter: the longest pattern, then the first line.
        let (max, orders) = (if t { 200 } else { 70 }, 6);
        ctx.indexed("many rules that begin with the same letters", (max - 1) * TAILS.len() * orders, 16, &|i| {
            let (n, k, order) = (2 + i / orders / TAILS.len(), i / orders % TAILS.len(), i % orders);
            let tails = TAILS[k];
            let mut rules: Vec<String> = (0..n)
                .map(|r| {
                    let first = if order % 2 == 0 { "a" } else { ["a", "b"][r / 3 % 2] };
                    let c = r + 1;
                    line(&format!("{first}{}", tails[r % tails.len()]), &c.to_string(), &format!("{}|{c}", c + 1), &c.to_string())
                })
                .collect();
            match order / 2 {
                0 => {}
                1 => rules.reverse(),
                // All the rules of a pattern together
                _ => rules.sort_by_key(|r| r.split('"').nth(1).map(|p| p.to_string())),
            }
            Some(rules.concat())
        });
        // Many codes, that may be the same ones
        let (width, period) = (if t { 40 } else { 20 }, 7);
        ctx.indexed("many codes in a rule", width * period * 3, 16, &|i| {
            let (n, m, k) = (1 + i / 3 / period, 1 + i / 3 % period, i % 3);
            let codes = |f: &dyn Fn(usize) -> String| (0..n).map(f).collect::<Vec<_>>().join("|");
            let c = match k {
                0 => codes(&|v| (v % m).to_string()),
                1 => codes(&|v| "123456789"[..v % m].to_string()),
                _ => codes(&|v| format!("{}", v * m)),
            };
            let words = ["a", "b", "ab", "ba", "aa", "aab", "abb", "mb", "bab"];
            Some(format!("{}{}{SEP}{}", line("a", &c, &c, &c), line("b", "1|2", &c, "1"), words.join(&NEXT.to_string())))
        });
        // Any character in a pattern or in a folding rule
        let chars = (0..0x110000)
            .filter_map(char::from_u32)
            .filter(|c| !['\0', '"', '\\', '\n', SEP, NEXT].contains(c))
            .collect::<Vec<_>>();
        ctx.indexed("patterns with every character", chars.len() / 8 + 1, 1, &|i| {
            let mut text = String::new();
            let mut words = vec![];
            for (n, c) in chars.iter().skip(i * 8).take(8).enumerate() {
                text += &format!("\"{c}\" \"{n}\" \"1{n}\" \"2{n}\"\n\"a{c}b\" \"3{n}\" \"4{n}\" \"5{n}\"\n");
                words.extend([format!("{c}"), format!("a{c}b"), format!("{c}a{c}bc{c}"), format!("{c}{c}")]);
            }
            text += "\"a\" \"6\" \"7\" \"8\"\n";
            Some(format!("{text}{SEP}{}", words.join(&NEXT.to_string())))
        });
        ctx.indexed("folding of every character", chars.len() / 8 + 1, 1, &|i| {
            let mut text = String::from("\"a\" \"6\" \"7\" \"8\"\n\"b\" \"1\" \"2\" \"3\"\n");
            let mut words = vec![];
            for (n, c) in chars.iter().skip(i * 8).take(8).enumerate() {
                text += &format!("{c}={}\n", ["a", "b"][n % 2]);
                words.extend([format!("{c}"), format!("a{c}b"), format!("{c}{c}")]);
            }
            Some(format!("{text}{SEP}{}", words.join(&NEXT.to_string())))
        });
        // Long patterns
        ctx.indexed("long patterns", 300 * 4, 16, &|i| {
            let (n, k) = (1 + i / 4, i % 4);
            let one: String = ["ab", "é", "aé漢", "m"][k].chars().cycle().take(n).collect();
            let words = [one.clone(), one.repeat(2), format!("a{one}b"), one[..one.len() - one.chars().last().unwrap().len_utf8()].to_string()];
            let text = format!("{}{}", line("a", "1", "2", "3"), line(&one, "4|5", "6", "7"));
            Some(format!("{text}{SEP}{}", words.join(&NEXT.to_string())))
        });
    }

    fn bounds(&self, t: bool) -> String {
        format!(
            "programs of one rule (10 patterns x 10^3 replacements), two rules (10^2 patterns x 8^2 triples of replacements) with 7 folding variants{}, three rules (10^3 patterns x {}^3 triples), and rule sets with a rule by letter{}; each one executed on all words of up to 3 characters over a, b, m, n, é, space and 4 over a, b, m, n (of 5 and 6 letters over a, b, m, n for the last ones), with and without folding and branching; 2 to {} rules that begin with the same letter or two, in 3 orders; up to {} codes by column; every Unicode character in a pattern and in a folding rule; patterns of 1 to 300 characters",
            if t { "" } else { " (a fourth of those with more than one folding variant)" },
            if t { 6 } else { 2 },
            if t { "" } else { " (a fourth of 8^4)" },
            if t { 200 } else { 70 },
            if t { 40 } else { 20 }
        )
    }
}

/// A case is the text of a rule file.
pub struct Diagnosis {
    words: Vec<String>,
}

pub fn diagnosis() -> Diagnosis {
    Diagnosis {
        words: words_over(&["a", "b", "é"], 2),
    }
}

pub const LINES: &[&str] = &[
    "\"a\" \"1\" \"2\" \"3\"\n",
    "\"b\" \"4\" \"5|6\" \"\" // comment\n",
    "é=a\n",
    "\n",
    "// comment\n",
    "/* one line */\n",
    "/* two\nlines */\n",
    "/*\n",
    "*/\n",
    "\"\" \"1\" \"2\" \"3\"\n",
    "\"a\" \"1\" \"2\"\n",
    "\"a\" \"1\" \"2\" \"3\" x\n",
    "\"a\" \"1\" \"2 \"3\"\n",
    "é=\n",
    "éé=a\n",
    "text\n",
    " \t \n",
    "\"é\" \"1\" \"2\" \"3\" \r\n",
    " \"a\" \"1\" \"2\" \"3\"\n",
    "/* é\n\n\n*/ // end\n",
    "\"\\\"\" \"\" \"\" \"\"\n",
    "\"a\"\t\"1\" \t \"2\"  \"3\"",
];

impl Prop for Diagnosis {
    fn check(&self, case: &str) -> Result<Obs, String> {
        compare(case, &self.words, true)
    }
    fn explore(&self, ctx: &Ctx) {
        let t = ctx.thorough;
        ctx.sequences("lines of rule files", LINES, if t { 6 } else { 5 });
        let chars = ["\"", "a", "=", "/", "*", " ", "\n", "|", "\\", "\r", "é"];
        ctx.sequences("characters of rule files", &chars, if t { 8 } else { 7 });
        ctx.sequences_after("characters after a rule", "\"a\" \"1\" \"2\" \"3\"", &chars, if t { 7 } else { 6 });
        ctx.sequences_after(
            "characters after a rule on its own line",
            "\"a\" \"1\" \"2\" \"3\"\n",
            &chars,
            if t { 7 } else { 6 },
        );
        ctx.sequences_after("characters after a multiline comment", "/*\n*", &chars, if t { 7 } else { 6 });
        // The built-in rules with any line removed, emptied, cut or replaced, for the line numbers of big files.
        let lines: Vec<&str> = RULES.split_inclusive('\n').collect();
        let n = lines.len();
        let edits = [
            "",
            "\n",
            "x\n",
            "/*\n",
            "*/\n",
            "\"\" \"\" \"\" \"\"\n",
            "\"a\" \"\" \"\" \"\n",
            "//\n\n",
            "a=b=c\n",
        ];
        ctx.indexed("the built-in rules with one line replaced", n * (edits.len() + 1), 16, &|i| {
            let (l, e) = (i / (edits.len() + 1), i % (edits.len() + 1));
            let mut v = lines.clone();
            if e < edits.len() {
                v[l] = edits[e];
            } else {
                v.truncate(l);
            }
            Some(v.concat())
        });
    }
    fn bounds(&self, t: bool) -> String {
        format!(
            "all texts of up to {} lines out of {} (rules, folding, comments, malformed lines), all texts of up to {} characters out of 11 and of up to {} after a rule or a comment, the built-in rule file with each line replaced in 10 ways; when the text is accepted, the codes of all words of up to 2 characters are compared",
            if t { 6 } else { 5 },
            LINES.len(),
            if t { 8 } else { 7 },
            if t { 7 } else { 6 }
        )
    }
}
