//! Alphabets and word spaces.
use crate::engine::Ctx;
use std::borrow::Cow;

pub const LETTERS: [&str; 26] = [
    "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z",
];
pub const LOWER: [&str; 26] = [
    "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z",
];

/// Characters with an unusual case mapping, combining marks, digits, letters of other alphabets, spaces of all kinds,
/// surrogate boundaries, zero width characters...
pub const SPECIAL: &[&str] = &[
    "ß",
    "ẞ",
    "ı",
    "İ",
    "ſ",
    "K",
    "Å",
    "ﬁ",
    "ﬀ",
    "ŉ",
    "ǰ",
    "é",
    "É",
    "è",
    "ç",
    "Ç",
    "ñ",
    "Ñ",
    "ä",
    "Ä",
    "ö",
    "Ö",
    "ü",
    "Ü",
    "à",
    "ý",
    "ÿ",
    "Ÿ",
    "ą",
    "ę",
    "ţ",
    "ț",
    "ł",
    "ő",
    "ű",
    "Σ",
    "σ",
    "ς",
    "Ж",
    "ж",
    "ш",
    "א",
    "ת",
    "ß\u{301}",
    "\u{301}",
    "\u{345}",
    "٣",
    "²",
    "ª",
    "º",
    "Ⅷ",
    "ⅷ",
    "ǅ",
    "ǆ",
    "中",
    "😀",
    "\u{10FFFF}",
    "\u{FFFD}",
    "\u{200B}",
    "\u{A0}",
    "\u{2003}",
    "\u{3000}",
    "\u{85}",
    "\u{0}",
    "\u{1C}",
    "’",
    "ʼ",
    "‐",
    "－",
    "Ａ",
    "ａ",
    "𝐀",
];

pub const PUNCT: &[&str] = &[
    " ", "-", "'", ".", ",", "&", "\t", "\n", "0", "1", "9", "_", "/", "*", "\"", "\\", "|", "(", ")",
];

const REP: &str = "\u{10FFFE}REP\u{10FFFE}";

/// u v^n w
pub fn rep(u: &str, v: &str, n: usize, w: &str) -> String {
    format!("{REP}{u}\u{10FFFE}{v}\u{10FFFE}{n}\u{10FFFE}{w}")
}

/// Compact cases for long words.
pub fn expand(case: &str) -> Cow<'_, str> {
    if let Some(r) = case.strip_prefix(REP) {
        let p: Vec<&str> = r.split('\u{10FFFE}').collect();
        if let [u, v, n, w] = p[..] {
            if let Ok(n) = n.parse::<usize>() {
                return Cow::Owned(format!("{u}{}{w}", v.repeat(n)));
            }
        }
    }
    Cow::Borrowed(case)
}

pub struct Plan<'a> {
    /// Fragments of the rules of the algorithm
    pub tokens: &'a [&'a str],
    /// Depth of letters, quick and thorough
    pub letters: (usize, usize),
    /// Depth of tokens + letters
    pub fragments: (usize, usize),
    /// Fewer tokens, deeper
    pub core: &'a [&'a str],
    pub core_depth: (usize, usize),
    /// Very few tokens (those with a long effect, or whose codes have several letters), deeper still
    pub deep: &'a [&'a str],
    pub deep_depth: (usize, usize),
    /// Longest words, in number of characters
    pub long: usize,
    /// All scalar values ?
    pub unicode: bool,
    /// Depth of ASCII, quick and thorough
    pub ascii: (usize, usize),
}

pub fn describe(p: &Plan, thorough: bool) -> String {
    let d = |v: (usize, usize)| if thorough { v.1 } else { v.0 };
    format!(
        "all words of up to {} letters A-Z; all sequences of up to {} of {} fragments (letters and literals of the rules) up to {} of {} core fragments and up to {} of {} ({}); all strings of up to {} ASCII characters; mixed case, punctuation and special Unicode sequences; {}; rule fragments at every offset up to 40, and from 61 to 67, 125 to 131, 253 to 259; periodic words of up to {} characters",
        d(p.letters), d(p.fragments), p.tokens.len() + 26, d(p.core_depth), p.core.len(), d(p.deep_depth), p.deep.len(), p.deep.join(" "), d(p.ascii),
        if p.unicode { "every Unicode scalar value in 6 contexts" } else { "selected Unicode scalar values" }, p.long
    )
}

/// The standard word spaces, for an encoder.
pub fn explore(ctx: &Ctx, p: &Plan) {
    explore_at(ctx, p, "", false)
}

/// The same ones, every case after a prefix. `light`: depth of the sequences of letters and fragments minus one.
pub fn explore_at(ctx: &Ctx, p: &Plan, prefix: &str, light: bool) {
    let less = light as usize;
    let d = |v: (usize, usize)| if ctx.thorough { v.1 } else { v.0 } - less;
    ctx.sequences_after("letters", prefix, &LETTERS, d(p.letters));
    let mut frag: Vec<&str> = LETTERS.to_vec();
    frag.extend_from_slice(p.tokens);
    ctx.sequences_after("fragments", prefix, &frag, d(p.fragments));
    ctx.sequences_after("core fragments", prefix, p.core, d(p.core_depth));

    ctx.sequences_after("few fragments", prefix, p.deep, d(p.deep_depth));

    let ascii: Vec<String> = (0u8..128).map(|c| (c as char).to_string()).collect();
    let ascii: Vec<&str> = ascii.iter().map(|s| s.as_str()).collect();
    ctx.sequences_after("ASCII", prefix, &ascii, (d(p.ascii)).max(2));

    let mut mixed: Vec<&str> = LETTERS.to_vec();
    mixed.extend(LOWER);
    ctx.sequences_after("mixed case", prefix, &mixed, if ctx.thorough { d(p.letters).min(4) } else { 3 - less });

    let mut special: Vec<&str> = SPECIAL.to_vec();
    special.extend(PUNCT);
    special.extend(["A", "E", "I", "C", "H", "S", "K", "N", "T", "G", "m", "w"]);
    ctx.sequences_after("special characters", prefix, &special, 3 - (less * !ctx.thorough as usize));

    let mut spaced: Vec<&str> = vec![" ", "-", "'", "é", "\u{a0}"];
    spaced.extend(["A", "C", "H", "K", "N", "S", "T", "m"]);
    ctx.sequences_after("words and punctuation", prefix, &spaced, if ctx.thorough { 6 } else { 5 } - less);

    if p.unicode {
        let frames: [(&str, &str); 6] = [("", ""), ("a", "b"), ("Sch", "en"), ("mac", ""), ("", "ough"), ("k", "nt")];
        ctx.indexed("every Unicode scalar value in 6 contexts", 0x110000 * 6, 1024, &|i| {
            let c = char::from_u32((i / 6) as u32)?;
            let (a, b) = frames[i % 6];
            Some(format!("{prefix}{a}{c}{b}"))
        });
    }

    // Rule fragments at every offset, before and after fillers
    let fill: Vec<String> = ["", "B", "AR", "mul"]
        .iter()
        .flat_map(|f| (if f.is_empty() { 0..=0 } else { 1..=40usize }).map(move |n| f.chars().cycle().take(n).collect()))
        .collect();
    let fill: Vec<&str> = fill.iter().map(|s: &String| s.as_str()).collect();
    let tails = ["", "A", "S", "ER", "BARBARA"];
    ctx.product("fragments at every offset", &[&[prefix], &fill, &frag, &tails]);
    let far: Vec<String> = ["B", "AR", "mul", "é"]
        .iter()
        .flat_map(|f| (61..=67usize).chain(125..=131).chain(253..=259).map(move |n| f.chars().cycle().take(n).collect()))
        .collect();
    let far: Vec<&str> = far.iter().map(|s: &String| s.as_str()).collect();
    ctx.product("fragments at far offsets", &[&[prefix], &far, &frag, &["", "ER", "BARBARA"]]);
    let two: &[&str] = if ctx.thorough { &frag } else { p.core };
    ctx.product("pairs of fragments at every offset", &[&[prefix], &fill, two, p.core]);

    // Long words
    let mut longs = vec![];
    let sizes: Vec<usize> = [
        60, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 1000, 1024, 4095, 4096, 65535, 65536, 70000,
    ]
    .into_iter()
    .filter(|n| *n <= p.long)
    .collect();
    for n in sizes {
        for v in ["A", "B", "AB", "BH", "é", " ", "-", "CH", "SCH", "TZ", "W", "STR", "MN", "NM"] {
            let k = v.chars().count();
            for (u, w) in [("", ""), ("K", ""), ("", "E"), ("Sm", "th"), ("é", "s")] {
                longs.push(format!("{prefix}{}", rep(u, v, n / k, w)));
                longs.push(format!("{prefix}{}", rep(u, v, n / k + 1, w)));
            }
        }
    }
    longs.sort();
    longs.dedup();
    ctx.list("periodic long words", &longs);
}
