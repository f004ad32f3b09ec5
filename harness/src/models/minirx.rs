//! A tiny backtracking regular expression matcher: literals, '.', classes, groups, alternation, ? * +, ^ and $.

#[derive(Debug, Clone)]
enum Node {
    Char(char),
    Any,
    Class(bool, Vec<(char, char)>),
    Start,
    End,
    Group(Vec<Vec<Node>>),
    Repeat(Box<Node>, usize, usize),
}

#[derive(Debug, Clone)]
pub struct Rx(Vec<Vec<Node>>);

struct P {
    c: Vec<char>,
    i: usize,
}

impl P {
    fn peek(&self) -> Option<char> {
        self.c.get(self.i).copied()
    }
    fn alternatives(&mut self) -> Option<Vec<Vec<Node>>> {
        let mut alts = vec![vec![]];
        while let Some(c) = self.peek() {
            match c {
                '|' => {
                    self.i += 1;
                    alts.push(vec![]);
                }
                ')' => break,
                _ => {
                    let n = self.atom()?;
                    alts.last_mut().unwrap().push(n);
                }
            }
        }
        Some(alts)
    }
    fn atom(&mut self) -> Option<Node> {
        let c = self.peek()?;
        self.i += 1;
        let n = match c {
            '^' => Node::Start,
            '$' => Node::End,
            '.' => Node::Any,
            '(' => {
                let a = self.alternatives()?;
                if self.peek() != Some(')') {
                    return None;
                }
                self.i += 1;
                Node::Group(a)
            }
            '[' => {
                let negated = self.peek() == Some('^');
                if negated {
                    self.i += 1;
                }
                let mut items = vec![];
                loop {
                    let a = self.peek()?;
                    self.i += 1;
                    if a == ']' {
                        break;
                    }
                    if a == '[' {
                        return None;
                    }
                    if self.peek() == Some('-') && !matches!(self.c.get(self.i + 1), Some(']') | None) {
                        let b = self.c[self.i + 1];
                        self.i += 2;
                        items.push((a, b));
                    } else {
                        items.push((a, a));
                    }
                }
                if items.is_empty() {
                    return None;
                }
                Node::Class(negated, items)
            }
            '*' | '+' | '?' | ')' | '\\' | '{' => return None,
            c => Node::Char(c),
        };
        let (lo, hi) = match self.peek() {
            Some('?') => (0, 1),
            Some('*') => (0, usize::MAX),
            Some('+') => (1, usize::MAX),
            _ => return Some(n),
        };
        self.i += 1;
        Some(Node::Repeat(Box::new(n), lo, hi))
    }
}

fn seq(nodes: &[Node], w: &[char], i: usize, k: &mut dyn FnMut(usize) -> bool) -> bool {
    match nodes.split_first() {
        None => k(i),
        Some((n, rest)) => one(n, w, i, &mut |j| seq(rest, w, j, k)),
    }
}

fn one(n: &Node, w: &[char], i: usize, k: &mut dyn FnMut(usize) -> bool) -> bool {
    match n {
        Node::Char(c) => w.get(i) == Some(c) && k(i + 1),
        Node::Any => w.get(i).is_some_and(|c| *c != '\n') && k(i + 1),
        Node::Class(neg, items) => w.get(i).is_some_and(|c| items.iter().any(|(a, b)| a <= c && c <= b) != *neg) && k(i + 1),
        Node::Start => i == 0 && k(i),
        Node::End => i == w.len() && k(i),
        Node::Group(alts) => alts.iter().any(|a| seq(a, w, i, k)),
        Node::Repeat(n, lo, hi) => repeat(n, *lo, *hi, w, i, k),
    }
}

fn repeat(n: &Node, lo: usize, hi: usize, w: &[char], i: usize, k: &mut dyn FnMut(usize) -> bool) -> bool {
    if hi > 0 {
        let more = one(n, w, i, &mut |j| {
            j > i && repeat(n, lo.saturating_sub(1), if hi == usize::MAX { hi } else { hi - 1 }, w, j, k)
        });
        if more {
            return true;
        }
    }
    lo == 0 && k(i)
}

impl Rx {
    /// None: not a regular expression of this subset.
    pub fn new(s: &str) -> Option<Rx> {
        let mut p = P { c: s.chars().collect(), i: 0 };
        let a = p.alternatives()?;
        (p.i == p.c.len()).then_some(Rx(a))
    }
    /// Is there a match anywhere ?
    pub fn find(&self, w: &[char]) -> bool {
        (0..=w.len()).any(|i| self.0.iter().any(|a| seq(a, w, i, &mut |_| true)))
    }
}

impl Rx {
    /// Strings that match, anchors included, with up to one repetition and the characters of `others` out of a negated class.
    pub fn members(&self, others: &str) -> Vec<String> {
        fn all(alts: &[Vec<Node>], others: &str) -> Vec<String> {
            alts.iter()
                .flat_map(|a| a.iter().fold(vec![String::new()], |acc, n| acc.iter().flat_map(|p| node(n, others).into_iter().map(move |s| format!("{p}{s}"))).collect()))
                .collect()
        }
        fn node(n: &Node, others: &str) -> Vec<String> {
            match n {
                Node::Char(c) => vec![c.to_string()],
                Node::Any => others.chars().map(|c| c.to_string()).collect(),
                Node::Class(false, items) => items.iter().flat_map(|(a, b)| (*a..=*b).map(|c| c.to_string())).collect(),
                Node::Class(true, items) => others.chars().filter(|c| !items.iter().any(|(a, b)| a <= c && c <= b)).map(|c| c.to_string()).collect(),
                Node::Start => vec!["^".into()],
                Node::End => vec!["$".into()],
                Node::Group(alts) => all(alts, others),
                Node::Repeat(n, lo, _) => {
                    let mut v = node(n, others);
                    if *lo == 0 {
                        v.push(String::new());
                    }
                    v
                }
            }
        }
        all(&self.0, others)
    }
}
