//! Beider-Morse: interpreter of rule programs.
use super::dm::{blank, code_lines, four};
use super::minirx::Rx;
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub const TYPES: [&str; 3] = ["ash", "gen", "sep"];

/// Set of languages. Each configuration numbers its languages.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Langs {
    Any,
    Some(u128),
}

impl Langs {
    pub fn restrict(self, o: Langs) -> Langs {
        match (self, o) {
            (a, Langs::Any) => a,
            (Langs::Any, b) => b,
            (Langs::Some(a), Langs::Some(b)) => Langs::Some(a & b),
        }
    }
    pub fn merge(self, o: Langs) -> Langs {
        match (self, o) {
            (Langs::Any, _) | (_, Langs::Any) => Langs::Any,
            (Langs::Some(a), Langs::Some(b)) => Langs::Some(a | b),
        }
    }
}

/// Context: what must stand right before (anchored at its end) or right after (anchored at its start) the pattern.
#[derive(Debug, Clone)]
enum Cx {
    Always,
    Nothing,
    /// The string must be next to the pattern, and nothing else if `whole`.
    Text(Vec<char>, bool),
    OneOf(Vec<char>, bool, bool),
    Regex(Rx),
}

impl Cx {
    fn new(s: &str, left: bool) -> Option<Cx> {
        // The other anchor is explicit.
        let (body, whole) = if left {
            s.strip_prefix('^').map_or((s, false), |b| (b, true))
        } else {
            s.strip_suffix('$').map_or((s, false), |b| (b, true))
        };
        if !body.contains('[') {
            // No bracket: it isn't a regular expression.
            return Some(match (body.is_empty(), whole) {
                (true, true) => Cx::Nothing,
                (true, false) => Cx::Always,
                (false, w) => Cx::Text(body.chars().collect(), w),
            });
        }
        if let Some(list) = body.strip_prefix('[').and_then(|v| v.strip_suffix(']')) {
            if !list.contains('[') {
                let (list, yes) = list.strip_prefix('^').map_or((list, true), |l| (l, false));
                return Some(Cx::OneOf(list.chars().collect(), yes, whole));
            }
        }
        Rx::new(&if left { format!("{s}$") } else { format!("^{s}") }).map(Cx::Regex)
    }

    fn ok(&self, w: &[char], left: bool) -> bool {
        match self {
            Cx::Always => true,
            Cx::Nothing => w.is_empty(),
            Cx::Text(t, true) => w == &t[..],
            Cx::Text(t, false) => {
                if left {
                    w.ends_with(t)
                } else {
                    w.starts_with(t)
                }
            }
            Cx::OneOf(list, yes, whole) => {
                let c = if left { w.last() } else { w.first() };
                (!*whole || w.len() == 1) && c.is_some_and(|c| list.contains(c) == *yes)
            }
            Cx::Regex(r) => r.find(w),
        }
    }
}

impl Cx {
    /// Texts that satisfy it, between anchors when nothing else may stand there
    fn members(&self, left: bool) -> Vec<String> {
        let anchored = |s: String, whole: bool| match (whole, left) {
            (false, _) => s,
            (true, true) => format!("^{s}"),
            (true, false) => format!("{s}$"),
        };
        match self {
            Cx::Always => vec![String::new()],
            Cx::Nothing => vec![anchored(String::new(), true)],
            Cx::Text(t, w) => vec![anchored(t.iter().collect(), *w)],
            Cx::OneOf(list, true, w) => list.iter().map(|c| anchored(c.to_string(), *w)).collect(),
            Cx::OneOf(list, false, w) => OTHERS.chars().filter(|c| !list.contains(c)).map(|c| anchored(c.to_string(), *w)).collect(),
            Cx::Regex(r) => {
                let v = r.members(OTHERS);
                // The anchor next to the pattern
                v.iter().map(|s| if left { s.strip_suffix('$').unwrap_or(s) } else { s.strip_prefix('^').unwrap_or(s) }.to_string()).collect()
            }
        }
    }
}

/// Stand for the characters that aren't in a negated class
const OTHERS: &str = "atikE";

/// What a rule needs and gives
#[derive(Debug, Clone)]
pub struct View {
    pub pattern: String,
    /// "^" begins those that need the beginning of the text
    pub lefts: Vec<String>,
    /// "$" ends those that need the end of the text
    pub rights: Vec<String>,
    pub outputs: Vec<String>,
}

#[derive(Debug, Clone)]
pub struct Rule {
    pattern: Vec<char>,
    left: Cx,
    right: Cx,
    phonemes: Vec<(Vec<char>, Langs)>,
}

type Map = BTreeMap<char, Vec<Rule>>;

#[derive(Debug, Clone)]
pub struct Fault {
    pub file: String,
    /// None: the whole file is missing
    pub line: Option<(usize, String)>,
    /// The line is a rule, but its contexts or phonemes are wrong.
    pub inside: bool,
    /// Its phonemes are wrong.
    pub phonemes: bool,
}

fn missing(file: &str) -> Fault {
    Fault {
        file: file.to_string(),
        line: None,
        inside: false,
        phonemes: false,
    }
}

fn wrong(file: &str, n: usize, l: &str) -> Fault {
    Fault {
        file: file.to_string(),
        line: Some((n, chomp(l))),
        inside: false,
        phonemes: false,
    }
}

#[derive(Default, Clone)]
pub struct Config {
    names: HashMap<String, u32>,
    languages: BTreeMap<&'static str, BTreeSet<String>>,
    lang_rules: BTreeMap<&'static str, Vec<(Rx, u128, bool)>>,
    rules: BTreeMap<String, Map>,
}

fn chomp(l: &str) -> String {
    l.strip_suffix('\n').unwrap_or(l).to_string()
}

pub type Files<'a> = &'a dyn Fn(&str) -> Option<String>;

impl Config {
    fn bit(&mut self, name: &str) -> u128 {
        let n = self.names.len() as u32;
        let i = *self.names.entry(name.to_string()).or_insert(n);
        assert!(i < 127);
        1 << i
    }

    /// A set given by its names. A language that is nowhere in the configuration is the 128th one.
    pub fn set(&self, names: &[&str]) -> Langs {
        Langs::Some(names.iter().fold(0, |a, n| a | self.names.get(*n).map_or(1 << 127, |i| 1 << i)))
    }

    /// Embedded configuration: only "any", no language detection.
    pub fn embedded(files: Files) -> Result<Config, Fault> {
        let mut c = Config::default();
        for t in TYPES {
            c.languages.insert(t, BTreeSet::from(["any".to_string()]));
            c.lang_rules.insert(t, vec![]);
        }
        c.bit("any");
        c.load_rules(files)?;
        for t in TYPES {
            // There is nothing to guess from.
            c.languages.insert(t, BTreeSet::new());
        }
        Ok(c)
    }

    pub fn load(files: Files) -> Result<Config, Fault> {
        let mut c = Config::default();
        for t in TYPES {
            let file = format!("{t}_languages");
            // Told when this type is needed
            let Some(text) = files(&file) else { continue };
            let mut set = BTreeSet::new();
            for (n, l) in code_lines(&text) {
                let name: String = l.chars().take_while(|c| c.is_ascii_alphabetic()).collect();
                let rest = &l[name.len()..];
                if name.is_empty() || !blank(rest) {
                    return Err(wrong(&file, n, &l));
                }
                c.bit(&name);
                set.insert(name);
            }
            c.languages.insert(t, set);
        }
        for t in TYPES {
            if !c.languages.contains_key(t) {
                return Err(missing(&format!("{t}_languages")));
            }
            let file = format!("{t}_lang");
            let text = files(&file).ok_or(missing(&file))?;
            let mut rules = vec![];
            for (n, l) in code_lines(&text) {
                let fault = || wrong(&file, n, &l);
                let mut it = l.splitn(3, ' ');
                let (Some(p), Some(names), Some(flag)) = (it.next(), it.next(), it.next()) else {
                    return Err(fault());
                };
                let (accept, rest) = match (flag.strip_prefix("true"), flag.strip_prefix("false")) {
                    (Some(r), _) => (true, r),
                    (_, Some(r)) => (false, r),
                    _ => return Err(fault()),
                };
                if p.is_empty() || names.is_empty() || !blank(rest) {
                    return Err(fault());
                }
                let bits = names.split('+').fold(0, |a, n| a | c.bit(n));
                rules.push((Rx::new(p).ok_or_else(fault)?, bits, accept));
            }
            c.lang_rules.insert(t, rules);
        }
        c.load_rules(files)?;
        Ok(c)
    }

    fn load_rules(&mut self, files: Files) -> Result<(), Fault> {
        for t in TYPES {
            for kind in ["approx", "exact", "rules"] {
                let mut names: Vec<String> = self.languages[t].iter().cloned().collect();
                if kind != "rules" {
                    names.push("common".into());
                }
                for n in names {
                    let file = format!("{t}_{kind}_{n}");
                    let map = self.parse(files, &file, &mut vec![])?;
                    self.rules.insert(file, map);
                }
            }
        }
        Ok(())
    }

    fn parse(&mut self, files: Files, file: &str, parents: &mut Vec<String>) -> Result<Map, Fault> {
        if parents.iter().any(|p| p == file) {
            return Err(missing(file));
        }
        let text = files(file).ok_or(missing(file))?;
        let mut map = Map::new();
        for (n, l) in code_lines(&text) {
            let fault = || wrong(file, n, &l);
            let inside = || Fault {
                inside: true,
                ..wrong(file, n, &l)
            };
            if let Some([p, left, right, ph]) = four(&l) {
                let pattern: Vec<char> = p.chars().collect();
                let first = *pattern.first().ok_or_else(fault)?;
                let rule = Rule {
                    left: Cx::new(left, true).ok_or_else(inside)?,
                    right: Cx::new(right, false).ok_or_else(inside)?,
                    phonemes: self.phonemes(ph).ok_or_else(|| Fault { phonemes: true, ..inside() })?,
                    pattern,
                };
                map.entry(first).or_default().push(rule);
            } else if let Some(r) = l.strip_prefix("#include ") {
                let name: String = r.chars().take_while(|c| c.is_alphanumeric() || "-_".contains(*c)).collect();
                if name.is_empty() || !blank(&r[name.len()..]) {
                    return Err(fault());
                }
                parents.push(file.to_string());
                let sub = self
                    .parse(files, &name, parents)
                    .map_err(|f| if f.line.is_none() || f.inside { fault() } else { f })?;
                parents.pop();
                // Rules of the included file replace those that begin with the same character.
                map.extend(sub);
            } else {
                return Err(fault());
            }
        }
        Ok(map)
    }

    /// "p", "p[lang+lang]" or "(p|p|...)"
    fn phonemes(&mut self, s: &str) -> Option<Vec<(Vec<char>, Langs)>> {
        let list = match s.strip_prefix('(') {
            Some(r) => r.strip_suffix(')')?,
            None => return Some(vec![self.phoneme(s)?]),
        };
        list.split('|').map(|p| self.phoneme(p)).collect()
    }

    fn phoneme(&mut self, s: &str) -> Option<(Vec<char>, Langs)> {
        match s.find('[') {
            None => Some((s.chars().collect(), Langs::Any)),
            Some(i) => {
                let names = s[i + 1..].strip_suffix(']')?;
                let bits = names.split('+').fold(0, |a, n| a | self.bit(n));
                Some((s[..i].chars().collect(), Langs::Some(bits)))
            }
        }
    }

    pub fn guess(&self, t: &str, word: &str) -> Langs {
        let w: Vec<char> = word.to_lowercase().chars().collect();
        let mut set = self.languages[t].iter().fold(0, |a, n| a | 1u128 << self.names[n]);
        for (rx, bits, accept) in &self.lang_rules[t] {
            if rx.find(&w) {
                set &= if *accept { *bits } else { !*bits };
            }
        }
        if set == 0 {
            Langs::Any
        } else {
            Langs::Some(set)
        }
    }

    /// Without "any", most names have no rules: such a configuration can be loaded, but it isn't a usable one.
    pub fn usable(&self) -> bool {
        self.languages.values().all(|l| l.contains("any"))
    }

    pub fn has_rules(&self, file: &str) -> bool {
        self.rules.contains_key(file)
    }

    pub fn rules_of(&self, file: &str) -> Vec<View> {
        self.rules
            .get(file)
            .into_iter()
            .flat_map(|m| m.values().flatten())
            .map(|r| View {
                pattern: r.pattern.iter().collect(),
                lefts: r.left.members(true),
                rights: r.right.members(false),
                outputs: r.phonemes.iter().map(|p| p.0.iter().collect()).collect(),
            })
            .collect()
    }

    fn name_of(&self, l: Langs) -> &str {
        match l {
            Langs::Some(b) if b.count_ones() == 1 => self.names.iter().find(|(_, i)| 1u128 << **i == b).map(|(n, _)| n.as_str()).unwrap_or("any"),
            _ => "any",
        }
    }
}

pub struct Engine<'a> {
    pub c: &'a Config,
    /// ash, gen, sep
    pub t: &'static str,
    /// approx, exact
    pub kind: &'static str,
    pub concat: bool,
    pub max: usize,
}

type Phonemes = Vec<(Vec<char>, Langs)>;

const PREFIXES: [(&str, &[&str]); 3] = [
    ("ash", &["bar", "ben", "da", "de", "van", "von"]),
    (
        "gen",
        &["da", "dal", "de", "del", "dela", "de la", "della", "des", "di", "do", "dos", "du", "van", "von"],
    ),
    (
        "sep",
        &[
            "al", "el", "da", "dal", "de", "del", "dela", "de la", "della", "des", "di", "do", "dos", "du", "van", "von",
        ],
    ),
];

impl Engine<'_> {
    pub fn encode(&self, s: &str) -> String {
        self.with(s, self.c.guess(self.t, s))
    }

    pub fn with(&self, s: &str, langs: Langs) -> String {
        let prefixes = PREFIXES.iter().find(|p| p.0 == self.t).unwrap().1;
        let word: String = s.to_lowercase().replace('-', " ");
        let word = word.trim();
        if self.t == "gen" {
            // The shortest prefix in alphabetical order that is followed by a space
            let cut = if let Some(r) = word.strip_prefix("d'") {
                Some(("d", r))
            } else {
                let mut p: Vec<&&str> = prefixes.iter().collect();
                p.sort();
                p.into_iter().find_map(|p| Some((*p, word.strip_prefix(p)?.strip_prefix(' ')?.trim_start())))
            };
            if let Some((p, rest)) = cut {
                return format!("({})-({})", self.encode(rest), self.encode(&format!("{p}{rest}")));
            }
        }
        let words: Vec<&str> = word.split_whitespace().collect();
        let input = if self.concat {
            let kept: Vec<&str> = words
                .iter()
                .map(|w| if self.t == "sep" { w.rsplit('\'').next().unwrap() } else { w })
                .filter(|w| self.t == "gen" || !prefixes.contains(w))
                .collect();
            kept.join(" ")
        } else if words.len() == 1 {
            words[0].to_string()
        } else {
            return words.iter().map(|w| self.encode(w)).collect::<Vec<_>>().join("-");
        };
        let mut name = self.c.name_of(langs);
        if !self.c.has_rules(&format!("{}_rules_{name}", self.t)) {
            name = "any";
        }
        let table = |kind: &str, name: &str| &self.c.rules[&format!("{}_{kind}_{name}", self.t)];

        let w: Vec<char> = input.chars().collect();
        let mut ph = self.rewrite(table("rules", name), &w, langs, false);
        for n in ["common", name] {
            ph = self.finish(table(self.kind, n), ph);
        }
        ph.iter().map(|p| p.0.iter().collect::<String>()).collect::<Vec<_>>().join("|")
    }

    /// Phonemes of a single word with the rules of any language: before the final rules, or after the common ones.
    pub fn stage(&self, word: &str, common: bool) -> Vec<String> {
        let table = |kind: &str, name: &str| &self.c.rules[&format!("{}_{kind}_{name}", self.t)];
        let w: Vec<char> = word.chars().collect();
        let mut ph = self.rewrite(table("rules", "any"), &w, self.c.guess(self.t, word), false);
        if common {
            ph = self.finish(table(self.kind, "common"), ph);
        }
        ph.into_iter().map(|p| p.0.into_iter().collect()).collect()
    }

    /// Apply a rule table along a word. Characters without rule are dropped, or kept.
    fn rewrite(&self, table: &Map, w: &[char], langs: Langs, keep: bool) -> Phonemes {
        let mut ph: Phonemes = vec![(vec![], langs)];
        let mut i = 0;
        while i < w.len() {
            let rule = table.get(&w[i]).and_then(|rules| {
                rules
                    .iter()
                    .find(|r| w[i..].starts_with(&r.pattern) && r.left.ok(&w[..i], true) && r.right.ok(&w[i + r.pattern.len()..], false))
            });
            match rule {
                Some(r) => {
                    let mut next: Phonemes = vec![];
                    for (text, l) in &ph {
                        for (t2, l2) in &r.phonemes {
                            let l3 = l.restrict(*l2);
                            if l3 != Langs::Some(0) && next.len() < self.max {
                                next.push(([&text[..], &t2[..]].concat(), l3));
                            }
                        }
                    }
                    ph = next;
                    i += r.pattern.len();
                }
                None => {
                    if keep {
                        for p in &mut ph {
                            p.0.push(w[i]);
                        }
                    }
                    i += 1;
                }
            }
        }
        ph
    }

    /// Final rules: each phoneme is rewritten, those with the same text are merged, in alphabetical order.
    fn finish(&self, table: &Map, ph: Phonemes) -> Phonemes {
        if table.is_empty() {
            return ph;
        }
        let mut out: BTreeMap<Vec<char>, Langs> = BTreeMap::new();
        for (text, l) in ph {
            for (t, l2) in self.rewrite(table, &text, l, true) {
                let e = out.entry(t).or_insert(l2);
                *e = e.merge(l2);
            }
        }
        out.into_iter().collect()
    }
}
