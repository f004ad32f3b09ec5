//! Reads texts, one JSON string by line, and writes their codes, one JSON list by line.
mod codes;
use std::io::{BufRead, Write};

fn main() {
    let e = codes::encoders();
    let mut out = std::io::stdout().lock();
    for line in std::io::stdin().lock().lines() {
        let Ok(line) = line else { return };
        let text: String = serde_json::from_str(&line).expect("text");
        let c = codes::codes(&e, &text);
        if writeln!(out, "{}", serde_json::to_string(&c).expect("codes")).and_then(|_| out.flush()).is_err() {
            return;
        }
    }
}
