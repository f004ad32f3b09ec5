use super::{letters_upper, starts, vowel_y};

/// Code without length limit nor padding.
pub fn phonex(s: &str) -> String {
    let mut v = letters_upper(s);
    while v.last() == Some(&'S') {
        v.pop();
    }
    for (p, r) in [("KN", 'N'), ("PH", 'F'), ("WR", 'R')] {
        if starts(&v, 0, p) {
            v[0] = r;
            break;
        }
    }
    if v.first() == Some(&'H') {
        v.remove(0);
    }
    if v.is_empty() {
        return String::new();
    }
    v[0] = match v[0] {
        'E' | 'I' | 'O' | 'U' | 'Y' => 'A',
        'P' => 'B',
        'V' => 'F',
        'K' | 'Q' => 'C',
        'J' => 'G',
        'Z' => 'S',
        c => c,
    };
    let mut out = String::from(v[0]);
    // `code` is the code of the letter, or the one of the previous letter for those that code nothing by themselves.
    let mut code = '0';
    let mut last = '0';
    let mut i = 0;
    while i < v.len() {
        let next = v.get(i + 1).copied();
        let before_vowel_or_end = next.map_or(true, vowel_y);
        let mut width = 1;
        match v[i] {
            'B' | 'F' | 'P' | 'V' => code = '1',
            'C' | 'G' | 'J' | 'K' | 'Q' | 'S' | 'X' | 'Z' => code = '2',
            'D' | 'T' => {
                if next != Some('C') {
                    code = '3'
                }
            }
            'L' => {
                if before_vowel_or_end {
                    code = '4'
                }
            }
            'M' | 'N' => {
                code = '5';
                if next == Some('D') || next == Some('G') {
                    width = 2;
                }
            }
            'R' => {
                if before_vowel_or_end {
                    code = '6'
                }
            }
            _ => code = '0',
        }
        // The code of the first letter isn't written, unless it swallowed its neighbour.
        let first = i == 0 && width == 1;
        if !first && code != '0' && code != last {
            out.push(code);
        }
        last = if i == 0 && width == 1 { code } else { out.chars().last().unwrap() };
        i += width;
    }
    out
}
