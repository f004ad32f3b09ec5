//! Boring reference models, written from the published algorithms (the behaviour of commons-codec 1.17.1), one character
//! array and one cursor at a time, without looking for speed. They share no code with the crate under test.
pub mod bm;
pub mod caverphone;
pub mod cologne;
pub mod dm;
pub mod double_metaphone;
pub mod metaphone;
pub mod minirx;
pub mod mra;
pub mod nysiis;
pub mod phonex;
pub mod soundex;

pub fn vowel(c: char) -> bool {
    "AEIOU".contains(c)
}

pub fn vowel_y(c: char) -> bool {
    "AEIOUY".contains(c)
}

pub fn upper(s: &str) -> Vec<char> {
    s.chars().flat_map(|c| c.to_uppercase()).collect()
}

/// Letters of any alphabet, upper case.
pub fn letters_upper(s: &str) -> Vec<char> {
    s.chars().filter(|c| c.is_alphabetic()).flat_map(|c| c.to_uppercase()).collect()
}

pub fn text(v: &[char]) -> String {
    v.iter().collect()
}

pub fn prefix(s: &str, n: Option<usize>) -> String {
    match n {
        None => s.to_string(),
        Some(n) => s.chars().take(n).collect(),
    }
}

pub fn starts(v: &[char], at: usize, what: &str) -> bool {
    what.chars().enumerate().all(|(i, c)| v.get(at + i) == Some(&c))
}
