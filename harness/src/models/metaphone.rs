use super::{starts, upper, vowel};

fn front(c: Option<&char>) -> bool {
    matches!(c, Some('E' | 'I' | 'Y'))
}

/// Code without length limit.
pub fn metaphone(s: &str) -> String {
    let mut w = upper(s);
    if w.len() == 1 && w[0].is_ascii() {
        return w[0].to_string();
    }
    match (w.first(), w.get(1)) {
        (Some('K' | 'G' | 'P'), Some('N')) | (Some('A'), Some('E')) | (Some('W'), Some('R')) => {
            w.remove(0);
        }
        (Some('W'), Some('H')) => {
            w.remove(1);
        }
        (Some('X'), _) => w[0] = 'S',
        _ => (),
    }
    let n = w.len();
    let mut out = String::new();
    let mut i = 0;
    while i < n {
        let c = w[i];
        let prev = if i > 0 { Some(&w[i - 1]) } else { None };
        let next = w.get(i + 1);
        let last = i + 1 == n;
        let next_vowel = next.is_some_and(|c| vowel(*c));
        let at = |p: &str| starts(&w, i, p);
        let mut width = 1;
        // Doubled letters, except C, are coded once.
        if c == 'C' || prev != Some(&c) {
            match c {
                'A' | 'E' | 'I' | 'O' | 'U' => {
                    if i == 0 {
                        out.push(c)
                    }
                }
                'B' => {
                    if !(prev == Some(&'M') && last) {
                        out.push('B')
                    }
                }
                'C' => {
                    if prev == Some(&'S') && front(next) {
                        // SCI, SCE, SCY: silent
                    } else if at("CIA") {
                        out.push('X')
                    } else if front(next) {
                        out.push('S')
                    } else if prev == Some(&'S') && at("CH") {
                        out.push('K')
                    } else if at("CH") {
                        out.push(if i == 0 && w.get(2).is_some_and(|c| vowel(*c)) { 'K' } else { 'X' })
                    } else {
                        out.push('K')
                    }
                }
                'D' => {
                    if next == Some(&'G') && front(w.get(i + 2)) {
                        out.push('J');
                        width = 3;
                    } else {
                        out.push('T')
                    }
                }
                'G' => {
                    let silent_gh = next == Some(&'H') && !w.get(i + 2).is_some_and(|c| vowel(*c));
                    let silent_gn = i > 0 && at("GN");
                    if !silent_gh && !silent_gn {
                        // (prev can't be G here)
                        out.push(if front(next) { 'J' } else { 'K' })
                    }
                }
                'H' => {
                    if !matches!(prev, Some('C' | 'S' | 'P' | 'T' | 'G')) && next_vowel {
                        out.push('H')
                    }
                }
                'F' | 'J' | 'L' | 'M' | 'N' | 'R' => out.push(c),
                'K' => {
                    if prev != Some(&'C') {
                        out.push('K')
                    }
                }
                'P' => out.push(if next == Some(&'H') { 'F' } else { 'P' }),
                'Q' => out.push('K'),
                'S' => out.push(if at("SH") || at("SIO") || at("SIA") { 'X' } else { 'S' }),
                'T' => {
                    if at("TIA") || at("TIO") {
                        out.push('X')
                    } else if at("TCH") {
                    } else if at("TH") {
                        out.push('0')
                    } else {
                        out.push('T')
                    }
                }
                'V' => out.push('F'),
                'W' | 'Y' => {
                    if next_vowel {
                        out.push(c)
                    }
                }
                'X' => out.push_str("KS"),
                'Z' => out.push('S'),
                _ => (),
            }
        }
        i += width;
    }
    out
}
