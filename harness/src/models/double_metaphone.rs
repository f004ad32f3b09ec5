use super::{upper, vowel_y};

/// A word, with the "does one of these strings stand at this place ?" primitive of the algorithm.
struct W(Vec<char>);

impl W {
    fn at(&self, i: i64, list: &[&str]) -> bool {
        list.iter().any(|p| {
            let n = p.chars().count() as i64;
            i >= 0 && i + n <= self.0.len() as i64 && p.chars().zip(self.0[i as usize..].iter()).all(|(a, b)| a == *b)
        })
    }
    fn get(&self, i: i64) -> Option<char> {
        if i < 0 {
            None
        } else {
            self.0.get(i as usize).copied()
        }
    }
    fn vowel(&self, i: i64) -> bool {
        self.get(i).is_some_and(vowel_y)
    }
    fn last(&self) -> i64 {
        self.0.len() as i64 - 1
    }
    fn germanic(&self) -> bool {
        self.at(0, &["VAN ", "VON "]) || self.at(0, &["SCH"])
    }
}

/// (primary, alternate), without length limit.
pub fn double_metaphone(s: &str) -> (String, String) {
    let w = W(upper(s.trim()));
    let (mut p, mut a) = (String::new(), String::new());
    if w.0.is_empty() {
        return (p, a);
    }
    let slavo = (0..=w.last()).any(|i| w.at(i, &["W", "K", "CZ", "WITZ"]));
    let mut i = if w.at(0, &["GN", "KN", "PN", "WR", "PS"]) { 1 } else { 0 };
    while i <= w.last() {
        // (primary, alternate, characters consumed)
        let (x, y, n) = step(&w, i, slavo);
        p.push_str(x);
        a.push_str(y);
        i += n;
    }
    (p, a)
}

type Out = (&'static str, &'static str, i64);

fn both(s: &'static str, n: i64) -> Out {
    (s, s, n)
}

fn step(w: &W, i: i64, slavo: bool) -> Out {
    let c = w.get(i).unwrap();
    let next = w.get(i + 1);
    let doubled = if next == Some(c) { 2 } else { 1 };
    match c {
        'A' | 'E' | 'I' | 'O' | 'U' | 'Y' => both(if i == 0 { "A" } else { "" }, 1),
        'B' => both("P", doubled),
        'Ç' => both("S", 1),
        'C' => c_(w, i),
        'D' => {
            if w.at(i, &["DGI", "DGE", "DGY"]) {
                both("J", 3)
            } else if w.at(i, &["DG"]) {
                both("TK", 2)
            } else if w.at(i, &["DT", "DD"]) {
                both("T", 2)
            } else {
                both("T", 1)
            }
        }
        'F' => both("F", doubled),
        'G' => g_(w, i, slavo),
        'H' => {
            if (i == 0 || w.vowel(i - 1)) && w.vowel(i + 1) {
                both("H", 2)
            } else {
                both("", 1)
            }
        }
        'J' => j_(w, i, slavo),
        'K' => both("K", doubled),
        'L' => {
            let spanish_end = i == w.last() - 2 && i > 0 && w.at(i - 1, &["ILLO", "ILLA", "ALLE"]);
            let spanish = (w.at(w.last() - 1, &["AS", "OS"]) || w.at(w.last(), &["A", "O"])) && w.at(i - 1, &["ALLE"]);
            if next == Some('L') && (spanish_end || spanish) {
                ("L", "", 2)
            } else {
                both("L", doubled)
            }
        }
        'M' => {
            let mute_b = i > 0 && w.at(i - 1, &["UMB"]) && (i + 1 == w.last() || w.at(i + 2, &["ER"]));
            both("M", if next == Some('M') || mute_b { 2 } else { 1 })
        }
        'N' => both("N", doubled),
        'Ñ' => both("N", 1),
        'P' => {
            if next == Some('H') {
                both("F", 2)
            } else {
                both("P", if matches!(next, Some('P' | 'B')) { 2 } else { 1 })
            }
        }
        'Q' => both("K", doubled),
        'R' => {
            let french = i == w.last() && i > 1 && !slavo && w.at(i - 2, &["IE"]) && !w.at(i - 4, &["ME", "MA"]);
            (if french { "" } else { "R" }, "R", doubled)
        }
        'S' => s_(w, i, slavo),
        'T' => {
            if w.at(i, &["TION", "TIA", "TCH"]) {
                both("X", 3)
            } else if w.at(i, &["TH", "TTH"]) {
                if w.at(i + 2, &["OM", "AM"]) || w.germanic() {
                    both("T", 2)
                } else {
                    ("0", "T", 2)
                }
            } else {
                both("T", if matches!(next, Some('T' | 'D')) { 2 } else { 1 })
            }
        }
        'V' => both("F", doubled),
        'W' => {
            if next == Some('R') {
                both("R", 2)
            } else if i == 0 && w.vowel(1) {
                ("A", "F", 1)
            } else if i == 0 && next == Some('H') {
                both("A", 1)
            } else if (i > 0 && i == w.last() && w.vowel(i - 1)) || w.at(i - 1, &["EWSKI", "EWSKY", "OWSKI", "OWSKY"]) || w.at(0, &["SCH"]) {
                ("", "F", 1)
            } else if w.at(i, &["WICZ", "WITZ"]) {
                ("TS", "FX", 4)
            } else {
                both("", 1)
            }
        }
        'X' => {
            if i == 0 {
                return both("S", 1);
            }
            let french = i == w.last() && (w.at(i - 3, &["IAU", "EAU"]) || w.at(i - 2, &["AU", "OU"]));
            both(if french { "" } else { "KS" }, if matches!(next, Some('C' | 'X')) { 2 } else { 1 })
        }
        'Z' => {
            if next == Some('H') {
                both("J", 2)
            } else if w.at(i + 1, &["ZO", "ZI", "ZA"]) || (slavo && i > 0 && w.get(i - 1) != Some('T')) {
                ("S", "TS", doubled)
            } else {
                both("S", doubled)
            }
        }
        _ => both("", 1),
    }
}

fn c_(w: &W, i: i64) -> Out {
    // "CHIA", or -ACH- after a consonant, not before E or I but in BACHER and MACHER
    let ach = i > 1 && !w.vowel(i - 2) && w.at(i - 1, &["ACH"]) && (!matches!(w.get(i + 2), Some('I' | 'E')) || w.at(i - 2, &["BACHER", "MACHER"]));
    if w.at(i, &["CHIA"]) || ach {
        both("K", 2)
    } else if i == 0 && w.at(0, &["CAESAR"]) {
        both("S", 2)
    } else if w.at(i, &["CH"]) {
        ch_(w, i)
    } else if w.at(i, &["CZ"]) && !w.at(i - 2, &["WICZ"]) {
        ("S", "X", 2)
    } else if w.at(i + 1, &["CIA"]) {
        both("X", 3)
    } else if w.at(i, &["CC"]) && !(i == 1 && w.get(0) == Some('M')) {
        if w.at(i + 2, &["I", "E", "H"]) && !w.at(i + 2, &["HU"]) {
            if (i == 1 && w.get(0) == Some('A')) || w.at(i - 1, &["UCCEE", "UCCES"]) {
                both("KS", 3)
            } else {
                both("X", 3)
            }
        } else {
            both("K", 2)
        }
    } else if w.at(i, &["CK", "CG", "CQ"]) {
        both("K", 2)
    } else if w.at(i, &["CI", "CE", "CY"]) {
        ("S", if w.at(i, &["CIO", "CIE", "CIA"]) { "X" } else { "S" }, 2)
    } else if w.at(i + 1, &[" C", " Q", " G"]) {
        both("K", 3)
    } else if w.at(i + 1, &["C", "K", "Q"]) && !w.at(i + 1, &["CE", "CI"]) {
        both("K", 2)
    } else {
        both("K", 1)
    }
}

fn ch_(w: &W, i: i64) -> Out {
    if i > 0 && w.at(i, &["CHAE"]) {
        return ("K", "X", 2);
    }
    let greek_start = i == 0 && w.at(1, &["HARAC", "HARIS", "HOR", "HYM", "HIA", "HEM"]) && !w.at(0, &["CHORE"]);
    let hard = w.germanic()
        || w.at(i - 2, &["ORCHES", "ARCHIT", "ORCHID"])
        || w.at(i + 2, &["T", "S"])
        || ((i == 0 || w.at(i - 1, &["A", "O", "U", "E"])) && (w.at(i + 2, &["L", "R", "N", "M", "B", "H", "F", "V", "W", " "]) || i + 1 == w.last()));
    if greek_start || hard {
        both("K", 2)
    } else if i == 0 {
        both("X", 2)
    } else if w.at(0, &["MC"]) {
        both("K", 2)
    } else {
        ("X", "K", 2)
    }
}

fn g_(w: &W, i: i64, slavo: bool) -> Out {
    let next = w.get(i + 1);
    if next == Some('H') {
        if i > 0 && !w.vowel(i - 1) {
            return both("K", 2);
        }
        if i == 0 {
            return both(if w.get(2) == Some('I') { "J" } else { "K" }, 2);
        }
        // Parker's rule
        if w.at(i - 2, &["B", "H", "D"]) || w.at(i - 3, &["B", "H", "D"]) || w.at(i - 4, &["B", "H"]) {
            return both("", 2);
        }
        if i > 2 && w.get(i - 1) == Some('U') && w.at(i - 3, &["C", "G", "L", "R", "T"]) {
            return both("F", 2);
        }
        return both(if w.get(i - 1) != Some('I') { "K" } else { "" }, 2);
    }
    if next == Some('N') {
        if i == 1 && w.vowel(0) && !slavo {
            return ("KN", "N", 2);
        }
        if !w.at(i + 2, &["EY"]) && !slavo {
            return ("N", "KN", 2);
        }
        return both("KN", 2);
    }
    if w.at(i + 1, &["LI"]) && !slavo {
        return ("KL", "L", 2);
    }
    let soft_start = i == 0 && (next == Some('Y') || w.at(1, &["ES", "EP", "EB", "EL", "EY", "IB", "IL", "IN", "IE", "EI", "ER"]));
    let ger = w.at(i + 1, &["ER", "Y"]) && !w.at(0, &["DANGER", "RANGER", "MANGER"]) && !w.at(i - 1, &["E", "I"]) && !w.at(i - 1, &["RGY", "OGY"]);
    if soft_start || ger {
        return ("K", "J", 2);
    }
    if w.at(i + 1, &["E", "I", "Y"]) || w.at(i - 1, &["AGGI", "OGGI"]) {
        return if w.germanic() || w.at(i + 1, &["ET"]) {
            both("K", 2)
        } else if w.at(i + 1, &["IER"]) {
            both("J", 2)
        } else {
            ("J", "K", 2)
        };
    }
    both("K", if next == Some('G') { 2 } else { 1 })
}

fn j_(w: &W, i: i64, slavo: bool) -> Out {
    let next = w.get(i + 1);
    let san = w.at(0, &["SAN "]);
    if w.at(i, &["JOSE"]) || san {
        return if (i == 0 && w.get(4) == Some(' ')) || w.0.len() == 4 || san {
            both("H", 1)
        } else {
            ("J", "H", 1)
        };
    }
    let n = if next == Some('J') { 2 } else { 1 };
    if i == 0 {
        ("J", "A", n)
    } else if w.vowel(i - 1) && !slavo && matches!(next, Some('A' | 'O')) {
        ("J", "H", n)
    } else if i == w.last() {
        ("J", " ", n)
    } else if !w.at(i + 1, &["L", "T", "K", "S", "N", "M", "B", "Z"]) && !w.at(i - 1, &["S", "K", "L"]) {
        both("J", n)
    } else {
        both("", n)
    }
}

fn s_(w: &W, i: i64, slavo: bool) -> Out {
    let next = w.get(i + 1);
    if w.at(i - 1, &["ISL", "YSL"]) {
        both("", 1)
    } else if i == 0 && w.at(0, &["SUGAR"]) {
        ("X", "S", 1)
    } else if next == Some('H') {
        both(if w.at(i + 1, &["HEIM", "HOEK", "HOLM", "HOLZ"]) { "S" } else { "X" }, 2)
    } else if w.at(i, &["SIO", "SIA"]) {
        ("S", if slavo { "S" } else { "X" }, 3)
    } else if next == Some('Z') {
        ("S", "X", 2)
    } else if i == 0 && matches!(next, Some('M' | 'N' | 'L' | 'W')) {
        ("S", "X", 1)
    } else if next == Some('C') {
        if w.get(i + 2) == Some('H') {
            if w.at(i + 3, &["ER", "EN"]) {
                ("X", "SK", 3)
            } else if w.at(i + 3, &["OO", "UY", "ED", "EM"]) {
                both("SK", 3)
            } else if i == 0 && !w.vowel(3) && w.get(3) != Some('W') {
                ("X", "S", 3)
            } else {
                both("X", 3)
            }
        } else if w.at(i + 2, &["I", "E", "Y"]) {
            both("S", 3)
        } else {
            both("SK", 3)
        }
    } else {
        let french = i == w.last() && w.at(i - 2, &["AI", "OI"]);
        (if french { "" } else { "S" }, "S", if matches!(next, Some('S' | 'Z')) { 2 } else { 1 })
    }
}
