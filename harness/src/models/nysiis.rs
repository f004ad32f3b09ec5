use super::{letters_upper, starts, text, vowel};

fn ends(v: &[char], what: &str) -> bool {
    let n = what.chars().count();
    v.len() >= n && starts(v, v.len() - n, what)
}

fn set(v: &mut [char], at: usize, what: &str) {
    for (i, c) in what.chars().enumerate() {
        v[at + i] = c;
    }
}

/// Full (not strict) code.
pub fn nysiis(s: &str) -> String {
    let mut v = letters_upper(s);
    if v.is_empty() {
        return String::new();
    }
    // First characters
    for (p, r) in [("MAC", "MCC"), ("KN", "NN"), ("K", "C"), ("PH", "FF"), ("PF", "FF"), ("SCH", "SSS")] {
        if starts(&v, 0, p) {
            set(&mut v, 0, r);
        }
    }
    // Last characters
    if ends(&v, "EE") || ends(&v, "IE") {
        v.truncate(v.len() - 2);
        v.push('Y');
    }
    if ["DT", "RT", "RD", "NT", "ND"].iter().any(|e| ends(&v, e)) {
        v.truncate(v.len() - 2);
        v.push('D');
    }
    // Each following character is transcoded in place, and kept when it differs from the transcoded previous one.
    let mut key = vec![v[0]];
    for i in 1..v.len() {
        let prev = v[i - 1];
        let next = v.get(i + 1).copied();
        match v[i] {
            'E' if next == Some('V') => set(&mut v, i, "AF"),
            c if vowel(c) => v[i] = 'A',
            'Q' => v[i] = 'G',
            'Z' => v[i] = 'S',
            'M' => v[i] = 'N',
            'K' if next == Some('N') => set(&mut v, i, "NN"),
            'K' => v[i] = 'C',
            'S' if starts(&v, i, "SCH") => set(&mut v, i, "SSS"),
            'P' if next == Some('H') => set(&mut v, i, "FF"),
            'H' if !(vowel(prev) && next.is_some_and(vowel)) => v[i] = prev,
            'W' if vowel(prev) => v[i] = prev,
            _ => (),
        }
        if v[i] != v[i - 1] {
            key.push(v[i]);
        }
    }
    if key.len() > 1 {
        if ends(&key, "S") {
            key.pop();
        }
        if key.len() > 2 && ends(&key, "AY") {
            let l = key.len();
            key.remove(l - 2);
        }
        if ends(&key, "A") {
            key.pop();
        }
    }
    text(&key)
}
