use super::upper;

/// Kölner Phonetik. Digits are first produced for each letter, then squashed.
pub fn cologne(s: &str) -> String {
    // Umlauts are transcribed, other characters that are not letters are separators that code nothing.
    let t: Vec<char> = upper(s)
        .into_iter()
        .map(|c| match c {
            'Ä' => 'A',
            'Ö' => 'O',
            'Ü' => 'U',
            c => c,
        })
        .collect();
    let mut out = String::new();
    // Last digit produced ('-' for H), and last letter seen, whatever is between.
    let mut last_digit = ' ';
    let mut last_letter = '-';
    for (i, &c) in t.iter().enumerate() {
        if !c.is_ascii_uppercase() {
            continue;
        }
        let next = t.get(i + 1).copied().unwrap_or('-');
        let next_in = |l: &str| l.contains(next);
        let last_in = |l: &str| l.contains(last_letter);
        let digits = match c {
            'A' | 'E' | 'I' | 'J' | 'O' | 'U' | 'Y' => "0",
            'H' => "-",
            'B' => "1",
            'P' if next == 'H' => "3",
            'P' => "1",
            'D' | 'T' if next_in("CSZ") => "8",
            'D' | 'T' => "2",
            'F' | 'V' | 'W' => "3",
            'G' | 'K' | 'Q' => "4",
            'X' if last_in("CKQ") => "8",
            'X' => "48",
            'S' | 'Z' => "8",
            'C' if out.is_empty() && next_in("AHKLOQRUX") => "4",
            'C' if out.is_empty() => "8",
            'C' if last_in("SZ") || !next_in("AHKOQUX") => "8",
            'C' => "4",
            'L' => "5",
            'M' | 'N' => "6",
            'R' => "7",
            _ => "",
        };
        for d in digits.chars() {
            if d != '-' && d != last_digit && (d != '0' || out.is_empty()) {
                out.push(d);
            }
            last_digit = d;
        }
        last_letter = c;
    }
    out
}
