//! Daitch-Mokotoff Soundex: interpreter of rule programs.

#[derive(Clone, Debug)]
pub struct Rule {
    pub pattern: Vec<char>,
    pub start: Vec<String>,
    pub vowel: Vec<String>,
    pub other: Vec<String>,
}

#[derive(Clone, Debug, Default)]
pub struct Program {
    pub rules: Vec<Rule>,
    pub folding: Vec<(char, char)>,
    /// Rules whose pattern begins with a character, in the order of the file.
    by_first: std::collections::HashMap<char, Vec<usize>>,
}

/// Outcome of parsing: the first faulty line, if any.
#[derive(Clone, Debug)]
pub struct Fault {
    pub line: usize,
    pub content: String,
}

fn quoted<'a>(s: &'a str) -> Option<(&'a str, &'a str)> {
    let r = s.strip_prefix('"')?;
    // A part can be an escaped quote, the backslash isn't removed.
    if let Some(t) = r.strip_prefix("\\\"") {
        return Some((&r[..2], t.strip_prefix('"')?));
    }
    let i = r.find('"')?;
    Some((&r[..i], &r[i + 1..]))
}

fn spaces(s: &str) -> Option<&str> {
    let t = s.trim_start_matches([' ', '\t']);
    if t.len() == s.len() {
        None
    } else {
        Some(t)
    }
}

/// Nothing but spaces and a single line comment.
pub fn blank(s: &str) -> bool {
    let t = s.trim_start_matches([' ', '\t']);
    matches!(t, "" | "\n" | "\r\n") || t.starts_with("//")
}

/// The four parts of a rule line.
pub fn four(line: &str) -> Option<[&str; 4]> {
    let (a, r) = quoted(line)?;
    let (b, r) = quoted(spaces(r)?)?;
    let (c, r) = quoted(spaces(r)?)?;
    let (d, r) = quoted(spaces(r)?)?;
    blank(r).then_some([a, b, c, d])
}

/// Lines of the program that aren't comments, with their number (from 1). A multiline comment starts at the beginning of
/// a line, and only blanks or a single line comment may follow it. The line feed is kept.
pub fn code_lines(text: &str) -> Vec<(usize, String)> {
    let mut out = vec![];
    let lines: Vec<&str> = text.split_inclusive('\n').collect();
    let mut i = 0;
    while i < lines.len() {
        if lines[i].starts_with("/*") {
            // Look for the end, that may be on the same line.
            let mut j = i;
            let mut rest = &lines[i][2..];
            loop {
                if let Some(k) = rest.find("*/") {
                    if blank(&rest[k + 2..]) {
                        i = j + 1;
                    } else {
                        out.push((i + 1, lines[i].to_string()));
                        i += 1;
                    }
                    break;
                }
                j += 1;
                if j == lines.len() {
                    out.push((i + 1, lines[i].to_string()));
                    i += 1;
                    break;
                }
                rest = lines[j];
            }
            continue;
        }
        if !blank(lines[i]) {
            out.push((i + 1, lines[i].to_string()));
        }
        i += 1;
    }
    out
}

pub fn parse(text: &str) -> Result<Program, Fault> {
    let mut p = Program::default();
    for (line, content) in code_lines(text) {
        let fault = || Fault {
            line,
            content: content.strip_suffix('\n').unwrap_or(&content).to_string(),
        };
        if let Some([a, b, c, d]) = four(&content) {
            if a.is_empty() {
                return Err(fault());
            }
            let split = |s: &str| s.split('|').map(|v| v.to_string()).collect::<Vec<_>>();
            p.by_first.entry(a.chars().next().unwrap()).or_default().push(p.rules.len());
            p.rules.push(Rule {
                pattern: a.chars().collect(),
                start: split(b),
                vowel: split(c),
                other: split(d),
            });
            continue;
        }
        let cs: Vec<char> = content.chars().collect();
        if cs.len() >= 3 && cs[0] != '\n' && cs[1] == '=' && cs[2] != '\n' && blank(&cs[3..].iter().collect::<String>()) {
            p.folding.push((cs[0], cs[2]));
            continue;
        }
        return Err(fault());
    }
    Ok(p)
}

fn lower1(c: char) -> char {
    c.to_lowercase().next().unwrap_or(c)
}

#[derive(Clone, PartialEq)]
struct Branch {
    code: String,
    last: Option<String>,
}

/// All codes, in the order of their first derivation.
pub fn codes(p: &Program, folding: bool, word: &str, branching: bool) -> Vec<String> {
    let w: Vec<char> = word
        .chars()
        .filter(|c| !c.is_whitespace())
        .map(lower1)
        .map(|c| {
            // The last folding rule of a character wins.
            let f = p.folding.iter().rev().find(|f| f.0 == c);
            if folding {
                f.map_or(c, |f| f.1)
            } else {
                c
            }
        })
        .collect();
    let mut branches = vec![Branch {
        code: String::new(),
        last: None,
    }];
    let mut i = 0;
    // Last character that begins some pattern.
    let mut previous: Option<char> = None;
    while i < w.len() {
        let c = w[i];
        let empty = vec![];
        let known = p.by_first.get(&c);
        // Longest pattern, the first one in the file if there are several.
        let mut best: Option<&Rule> = None;
        for r in known.unwrap_or(&empty).iter().map(|i| &p.rules[*i]) {
            if w[i..].starts_with(&r.pattern) && best.map_or(true, |b| r.pattern.len() > b.pattern.len()) {
                best = Some(r);
            }
        }
        let mut width = 1;
        if let Some(r) = best {
            width = r.pattern.len();
            let list = if previous.is_none() {
                &r.start
            } else if w.get(i + width).is_some_and(|c| "aeiou".contains(*c)) {
                &r.vowel
            } else {
                &r.other
            };
            // MN and NM are coded as two letters.
            let force = matches!((previous, c), (Some('m'), 'n') | (Some('n'), 'm'));
            let mut next: Vec<Branch> = vec![];
            for b in &branches {
                for rep in list.iter().take(if branching { usize::MAX } else { 1 }) {
                    let mut n = b.clone();
                    let same = n.last.as_ref().is_some_and(|l| l.ends_with(rep.as_str()));
                    if !same || force {
                        n.code = n.code.chars().chain(rep.chars()).take(6).collect();
                    }
                    n.last = Some(rep.clone());
                    if !next.contains(&n) {
                        next.push(n);
                    }
                }
            }
            branches = next;
        }
        if known.is_some() {
            previous = Some(c);
        }
        i += width;
    }
    let mut out: Vec<String> = vec![];
    for b in branches {
        let mut code = b.code;
        while code.chars().count() < 6 {
            code.push('0');
        }
        if !out.contains(&code) {
            out.push(code);
        }
    }
    out
}
