use super::letters_upper;

pub const US: &str = "01230120022455012623010202";
pub const GENEALOGY: &str = "-123-12--22455-12623-1-2-2";
pub const REFINED: &str = "01360240043788015936020505";

fn az(s: &str) -> Vec<char> {
    letters_upper(s).into_iter().filter(|c| ('A'..='Z').contains(c)).collect()
}

/// mapping: 26 characters, '-' is silent. When `hw` H and W are skipped: letters with the same code around them are
/// coded once.
pub fn soundex(mapping: &[char], hw: bool, s: &str) -> String {
    let word = az(s);
    if word.is_empty() {
        return String::new();
    }
    let code = |c: char| mapping[(c as u8 - b'A') as usize];
    let mut out = String::from(word[0]);
    let mut last = code(word[0]);
    for &c in &word[1..] {
        if out.chars().count() == 4 {
            break;
        }
        if (hw && (c == 'H' || c == 'W')) || code(c) == '-' {
            continue;
        }
        if code(c) != '0' && code(c) != last {
            out.push(code(c));
        }
        last = code(c);
    }
    while out.chars().count() < 4 {
        out.push('0');
    }
    out
}

/// First letter, then the code of each letter (the first one included), without repetition.
pub fn refined(mapping: &[char], s: &str) -> String {
    let word = az(s);
    if word.is_empty() {
        return String::new();
    }
    let mut codes: Vec<char> = word.iter().map(|&c| mapping[(c as u8 - b'A') as usize]).collect();
    codes.dedup();
    format!("{}{}", word[0], codes.iter().collect::<String>())
}
