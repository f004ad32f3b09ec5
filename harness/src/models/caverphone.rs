use super::text;

enum Step {
    /// at start: pattern -> replacement, once
    Start(&'static str, &'static str),
    End(&'static str, &'static str),
    All(&'static str, &'static str),
    /// Vowels are A at start, 3 elsewhere
    Vowels,
    /// Runs of these letters become the upper case letter
    Squash,
}
use Step::*;

const HEAD: &[Step] = &[
    Start("cough", "cou2f"),
    Start("rough", "rou2f"),
    Start("tough", "tou2f"),
    Start("enough", "enou2f"),
];
const COMMON: &[Step] = &[
    Start("gn", "2n"),
    End("mb", "m2"),
    All("cq", "2q"),
    All("ci", "si"),
    All("ce", "se"),
    All("cy", "sy"),
    All("tch", "2ch"),
    All("c", "k"),
    All("q", "k"),
    All("x", "k"),
    All("v", "f"),
    All("dg", "2g"),
    All("tio", "sio"),
    All("tia", "sia"),
    All("d", "t"),
    All("ph", "fh"),
    All("b", "p"),
    All("sh", "s2"),
    All("z", "s"),
    Vowels,
];
const GH: &[Step] = &[All("3gh3", "3kh3"), All("gh", "22"), All("g", "k"), Squash];
const TAIL1: &[Step] = &[
    All("w3", "W3"),
    All("wy", "Wy"),
    All("wh3", "Wh3"),
    All("why", "Why"),
    All("w", "2"),
    Start("h", "A"),
    All("h", "2"),
    All("r3", "R3"),
    All("ry", "Ry"),
    All("r", "2"),
    All("l3", "L3"),
    All("ly", "Ly"),
    All("l", "2"),
    All("j", "y"),
    All("y3", "Y3"),
    All("y", "2"),
    All("2", ""),
    All("3", ""),
];
const Y2: &[Step] = &[All("j", "y"), Start("y3", "Y3"), Start("y", "A"), All("y", "3")];
const TAIL2: &[Step] = &[
    All("w3", "W3"),
    All("wh3", "Wh3"),
    End("w", "3"),
    All("w", "2"),
    Start("h", "A"),
    All("h", "2"),
    All("r3", "R3"),
    End("r", "3"),
    All("r", "2"),
    All("l3", "L3"),
    End("l", "3"),
    All("l", "2"),
    All("2", ""),
    End("3", "A"),
    All("3", ""),
];

fn at(v: &[char], i: usize, p: &[char]) -> bool {
    v.len() >= i + p.len() && &v[i..i + p.len()] == p
}

fn apply(v: &mut Vec<char>, step: &Step) {
    match step {
        Start(p, r) => {
            let p: Vec<char> = p.chars().collect();
            if at(v, 0, &p) {
                v.splice(0..p.len(), r.chars());
            }
        }
        End(p, r) => {
            let p: Vec<char> = p.chars().collect();
            if v.len() >= p.len() && at(v, v.len() - p.len(), &p) {
                let l = v.len();
                v.splice(l - p.len().., r.chars());
            }
        }
        All(p, r) => {
            let p: Vec<char> = p.chars().collect();
            let mut out = vec![];
            let mut i = 0;
            while i < v.len() {
                if at(v, i, &p) {
                    out.extend(r.chars());
                    i += p.len();
                } else {
                    out.push(v[i]);
                    i += 1;
                }
            }
            *v = out;
        }
        Vowels => {
            for (i, c) in v.iter_mut().enumerate() {
                if "aeiou".contains(*c) {
                    *c = if i == 0 { 'A' } else { '3' };
                }
            }
        }
        Squash => {
            let mut out: Vec<char> = vec![];
            let mut run = None;
            for &c in v.iter() {
                if "stpkfmn".contains(c) {
                    if run != Some(c) {
                        out.push(c.to_ascii_uppercase());
                    }
                    run = Some(c);
                } else {
                    out.push(c);
                    run = None;
                }
            }
            *v = out;
        }
    }
}

fn run(s: &str, programs: &[&[Step]], len: usize) -> String {
    let mut v: Vec<char> = s.chars().flat_map(|c| c.to_lowercase()).filter(|c| ('a'..='z').contains(c)).collect();
    for p in programs {
        for step in *p {
            apply(&mut v, step);
        }
    }
    v.extend(std::iter::repeat_n('1', len));
    text(&v[..len])
}

pub fn caverphone1(s: &str) -> String {
    run(s, &[HEAD, COMMON, GH, TAIL1], 6)
}

pub fn caverphone2(s: &str) -> String {
    run(s, &[&[End("e", "")], HEAD, &[Start("trough", "trou2f")], COMMON, Y2, GH, TAIL2], 10)
}
