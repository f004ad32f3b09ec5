//! C34: what values show, and what errors keep of their cause.
use crate::engine::{obs, Ctx, Obs, Prop};
use crate::words;
use rphonetic::*;
use std::error::Error;
use std::io;

pub struct Shown;

pub fn shown() -> Shown {
    Shown
}

const PARTS: [&str; 12] = ["", "a", "é", "{}", "%s", "\"", "\\", "\t", "12", "[x=y, z]", ":", "Unknown"];

/// The text holds the parts, in any order.
fn holds(what: &str, text: &str, parts: &[&str]) -> Result<(), String> {
    match parts.iter().find(|p| !text.contains(**p)) {
        Some(p) => Err(format!("{what} shows {text:?}, without {p:?}")),
        None => Ok(()),
    }
}

/// An error and those that lead to it
fn chain<'a>(e: &'a (dyn Error + 'static)) -> Vec<&'a (dyn Error + 'static)> {
    let mut v = vec![e];
    while let Some(e) = v[v.len() - 1].source() {
        v.push(e);
    }
    v
}

fn variants(text: &str) -> Vec<(&'static str, BMError)> {
    let t = || text.to_string();
    vec![
        ("UnknownNameType", BMError::UnknownNameType(t())),
        ("UnknownRuleType", BMError::UnknownRuleType(t())),
        ("ParseConfiguration", BMError::ParseConfiguration(t())),
        ("WrongFilename", BMError::WrongFilename(t())),
        ("WrongPhoneme", BMError::WrongPhoneme(t())),
        ("NotABoolean", BMError::NotABoolean(t())),
        ("BadRule", BMError::BadRule(t())),
    ]
}

fn bm_error(what: &str, e: &BMError, text: &str) -> Result<(), String> {
    holds(what, &e.to_string(), &[text])?;
    let outer = PhoneticError::from(e.clone());
    if outer != PhoneticError::BMError(e.clone()) {
        return Err(format!("{what} becomes {outer:?}"));
    }
    holds(&format!("PhoneticError of {what}"), &outer.to_string(), &[&e.to_string()])?;
    if !chain(&outer).iter().skip(1).any(|c| c.downcast_ref::<BMError>() == Some(e)) {
        return Err(format!("the cause of the error isn't {what}: {outer:?}"));
    }
    Ok(())
}

const KINDS: [io::ErrorKind; 8] = [
    io::ErrorKind::NotFound,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::InvalidData,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::Other,
    io::ErrorKind::Interrupted,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::AlreadyExists,
];

fn check_text(s: &str) -> Result<u64, String> {
    // Character sequences
    let c = CharSequence::from(s);
    let back: &str = c.clone().into();
    if c.to_string() != s || c.as_str() != s || back != s {
        return Err(format!("the sequence of characters of {s:?} shows {:?}", c.to_string()));
    }
    if c.is_empty() != s.is_empty() || c.len() != s.chars().count() {
        return Err(format!("length of the sequence of characters of {s:?}: {}", c.len()));
    }
    // Beider-Morse errors
    let all = variants(s);
    for (name, e) in &all {
        bm_error(name, e, s)?;
    }
    for (i, (a, x)) in all.iter().enumerate() {
        for (b, y) in &all[..i] {
            if x.to_string() == y.to_string() || x == y {
                return Err(format!("{a} and {b} show the same: {x}"));
            }
        }
    }
    let e = regex::Error::Syntax(s.to_string());
    let b = BMError::from(e.clone());
    if b != BMError::BadContextRegex(e.clone()) || PhoneticError::from(e.clone()) != PhoneticError::BMError(b.clone()) {
        return Err(format!("a wrong regular expression becomes {b:?}"));
    }
    bm_error("BadContextRegex", &b, s)?;
    // System errors
    for kind in KINDS {
        let cause = || io::Error::new(kind, s.to_string());
        let b = BMError::from(cause());
        if b != BMError::ParseConfiguration(cause().to_string()) {
            return Err(format!("{:?} becomes {b:?}", cause()));
        }
        if PhoneticError::from(cause()) != PhoneticError::BMError(b.clone()) {
            return Err(format!("{:?} becomes {:?}", cause(), PhoneticError::from(cause())));
        }
        bm_error("system error", &b, s)?;
    }
    // A name that isn't one is given back
    if !["ash", "gen", "sep"].contains(&s) {
        let e = s.parse::<NameType>().err().ok_or_else(|| format!("{s:?} is read as a name type"))?;
        if e != BMError::UnknownNameType(s.to_string()) {
            return Err(format!("{s:?} isn't a name type: {e:?}"));
        }
    }
    Ok(22)
}

fn check_parse_error(line_number: usize, filename: Option<&str>, content: &str, description: &str) -> Result<u64, String> {
    let e = ParseError {
        line_number,
        filename: filename.map(|f| f.to_string()),
        line_content: content.to_string(),
        description: description.to_string(),
    };
    let number = line_number.to_string();
    let mut parts = vec![&number[..], content, description];
    parts.extend(filename);
    holds("ParseError", &e.to_string(), &parts)?;
    let mut other = e.clone();
    other.line_number += 1;
    if other.to_string() == e.to_string() {
        return Err(format!("the line isn't shown: {e}"));
    }
    let outer = PhoneticError::from(e.clone());
    if outer != PhoneticError::ParseRuleError(e.clone()) {
        return Err(format!("{e:?} becomes {outer:?}"));
    }
    holds("PhoneticError", &outer.to_string(), &[&e.to_string()])?;
    if !chain(&outer).iter().skip(1).any(|c| c.downcast_ref::<ParseError>() == Some(&e)) {
        return Err(format!("the cause of the error isn't {e:?}: {outer:?}"));
    }
    Ok(4)
}

fn check_codes(word: &str) -> Result<u64, String> {
    let mut shown: Vec<((String, String), String)> = vec![];
    for limit in [None, Some(0), Some(1), Some(4)] {
        let r = DoubleMetaphone::new(limit).double_metaphone(word);
        let (p, a, s) = (r.primary(), r.alternate(), r.to_string());
        holds(&format!("the result of {word:?}"), &s, &[&p, &a])?;
        // The primary one comes first
        let after = s.find(&p).map(|i| &s[i + p.len()..]);
        if !after.is_some_and(|s| s.contains(&a)) {
            return Err(format!("the result of {word:?} shows {s:?} without {a:?} after {p:?}"));
        }
        shown.push(((p, a), s));
    }
    for x in &shown {
        for y in &shown {
            if (x.0 == y.0) != (x.1 == y.1) {
                return Err(format!("{word:?}: results {:?} and {:?} show {:?} and {:?}", x.0, y.0, x.1, y.1));
            }
        }
    }
    Ok(4)
}

impl Prop for Shown {
    fn check(&self, case: &str) -> Result<Obs, String> {
        let p: Vec<&str> = case.split('\u{1f}').collect();
        let n = match p[..] {
            ["error", line, file, content, description] => {
                let line = line.parse().unwrap_or(0);
                let file = file.strip_prefix('=');
                check_parse_error(line, file, content, description)?
            }
            ["code", word] => check_codes(word)?,
            ["types"] => {
                for (t, s) in [(NameType::Ashkenazi, "ash"), (NameType::Generic, "gen"), (NameType::Sephardic, "sep")] {
                    if t.to_string() != s || s.parse() != Ok(t) {
                        return Err(format!("{t:?} shows {t}"));
                    }
                }
                3
            }
            _ => check_text(case)?,
        };
        obs(case, n)
    }

    fn explore(&self, ctx: &Ctx) {
        let t = ctx.thorough;
        ctx.list("name types", &["types".to_string()]);
        ctx.sequences("texts", &PARTS, if t { 4 } else { 3 });
        ctx.sequences("texts with special characters", &[words::SPECIAL, words::PUNCT, &["\r", "\u{7f}", "\0"]].concat(), 2);
        ctx.indexed("every Unicode scalar value", 0x110000, 1024, &|i| Some(format!("a{}", char::from_u32(i as u32)?)));
        let lines = ["0", "1", "9", "10", "255", "256", "65535", "65536", "4294967296", "18446744073709551614"];
        let files: Vec<String> = std::iter::once("-".to_string()).chain(PARTS.iter().map(|p| format!("={p}"))).collect();
        let files: Vec<&str> = files.iter().map(|s| s.as_str()).collect();
        let s = &["\u{1f}"][..];
        ctx.product("errors with all their fields", &[&["error"], s, &lines, s, &files, s, &PARTS, s, &PARTS]);
        let mut long = vec![];
        for n in [31, 32, 33, 63, 64, 80, 81, 127, 128, 255, 256, 257, 1000, 1024, 4096] {
            let text = "né".repeat(n);
            long.push(text.clone());
            for f in [["=f", "a", &text], ["=f", &text, "a"], [&format!("={text}"), "a", "a"]] {
                long.push(format!("error\u{1f}7\u{1f}{}\u{1f}{}\u{1f}{}", f[0], f[1], f[2]));
            }
        }
        ctx.list("long texts", &long);
        ctx.sequences_after("results: letters", "code\u{1f}", &words::LETTERS, if t { 4 } else { 3 });
        ctx.sequences_after("results: fragments of the rules", "code\u{1f}", super::encoders::DM2_TOKENS, if t { 3 } else { 2 });
        ctx.sequences_after("results: fragments", "code\u{1f}", &["A", "C", "W", "CH", "GH", "X", "Z", "J", "é", " "], if t { 6 } else { 5 });
    }

    fn shrinkable(&self) -> bool {
        false
    }

    fn bounds(&self, t: bool) -> String {
        format!("all texts of up to {} fragments out of 12 and 2 special characters, every Unicode scalar value, in every kind of error and character sequences; all errors with 10 line numbers x 13 files x 12 contents x 12 descriptions; texts of up to 8192 characters; results of Double Metaphone for all words of up to {} letters, {} fragments of the rules and {} of 10 fragments, 4 limits", if t { 4 } else { 3 }, if t { 4 } else { 3 }, if t { 3 } else { 2 }, if t { 6 } else { 5 })
    }
}
