use super::{text, upper, vowel};

const FOLD: &[(&str, char)] = &[
    ("ÀÁÂÃÄÅ", 'A'),
    ("ÈÉÊË", 'E'),
    ("ÌÍÎÏ", 'I'),
    ("ÒÓÔÕÖŐ", 'O'),
    ("ÙÚÛÜŰ", 'U'),
    ("ÝŶŸ", 'Y'),
    ("Ñ", 'N'),
    ("Ç", 'C'),
];

pub fn encode(s: &str) -> String {
    if s.trim().chars().count() <= 1 {
        return String::new();
    }
    let v: Vec<char> = upper(s)
        .into_iter()
        .filter(|c| !c.is_whitespace() && !"-&'.,".contains(*c))
        .map(|c| FOLD.iter().find(|(l, _)| l.contains(c)).map_or(c, |f| f.1))
        .collect();
    let mut w: Vec<char> = vec![];
    for (i, &c) in v.iter().enumerate() {
        if i == 0 || !vowel(c) {
            w.push(c);
        }
    }
    // Pairs of the same consonant, from left to right.
    let w: Vec<char> = text(&w).chars().flat_map(|c| c.to_uppercase()).collect();
    let mut r: Vec<char> = vec![];
    let mut i = 0;
    while i < w.len() {
        r.push(w[i]);
        i += if w[i].is_ascii_uppercase() && !vowel(w[i]) && w.get(i + 1) == Some(&w[i]) {
            2
        } else {
            1
        };
    }
    if r.len() > 6 {
        let n = r.len();
        r.drain(3..n - 3);
    }
    text(&r)
}

pub fn equals(a: &str, b: &str) -> bool {
    if a.trim().chars().count() < 2 || b.trim().chars().count() < 2 {
        return false;
    }
    if a == b {
        return true;
    }
    let mut x: Vec<char> = encode(a).chars().collect();
    let mut y: Vec<char> = encode(b).chars().collect();
    if x.len().abs_diff(y.len()) >= 3 {
        return false;
    }
    let minimum = match x.len() + y.len() {
        0..=4 => 5,
        5..=7 => 4,
        8..=11 => 3,
        12 => 2,
        _ => 1,
    };
    // Identical characters are crossed out, from left to right and from right to left at the same pace.
    let (lx, ly) = (x.len(), y.len());
    for i in 0..lx.min(ly) {
        if x[i] == y[i] {
            x[i] = ' ';
            y[i] = ' ';
        }
        if x[lx - 1 - i] == y[ly - 1 - i] {
            x[lx - 1 - i] = ' ';
            y[ly - 1 - i] = ' ';
        }
    }
    let left = |v: &[char]| v.iter().filter(|c| **c != ' ').count() as i64;
    let rating = (6 - left(&x).max(left(&y))).abs();
    rating >= minimum
}
