//! C01: `normalize` against a character-level definition.
use crate::util::*;
use static_xml::de::{normalize, WhiteSpace};

fn is_ws(c: char) -> bool {
    matches!(c, '\t' | '\n' | '\r' | ' ')
}

pub fn spec(s: &str, m: WhiteSpace) -> String {
    let replaced: String = s.chars().map(|c| if is_ws(c) { ' ' } else { c }).collect();
    match m {
        WhiteSpace::Preserve => s.to_owned(),
        WhiteSpace::Replace => replaced,
        WhiteSpace::Collapse => {
            let words: Vec<&str> = replaced.split(' ').filter(|w| !w.is_empty()).collect();
            words.join(" ")
        }
    }
}

fn one(r: &mut Report, s: &str) {
    for m in [WhiteSpace::Preserve, WhiteSpace::Replace, WhiteSpace::Collapse] {
        let input = format!("normalize({}, WhiteSpace::{:?})", esc(s), m);
        r.begin(&input, !s.is_empty());
        // checked as bytes: the result may not be valid UTF-8
        let got = match guard(|| normalize(s.to_owned(), m).into_bytes()) {
            Ok(b) => match String::from_utf8(b) {
                Ok(s) => esc(&s),
                Err(e) => format!("invalid UTF-8: {:?}", e.into_bytes()),
            },
            Err(e) => e,
        };
        r.end();
        r.check(&["C01"], "wrong normalization", &input, &esc(&spec(s, m)), &got);
    }
}

pub fn run(r: &mut Report, rng: &mut Rng, thorough: bool) {
    // exhaustive: every string up to length N over this alphabet
    let alphabet: &[char] = &['a', ' ', '\t', '\n', 'é', '\u{a0}'];
    let max = if thorough { 8 } else { 6 };
    let mut idx: Vec<usize> = vec![];
    'outer: loop {
        let s: String = idx.iter().map(|i| alphabet[*i]).collect();
        one(r, &s);
        if r.violation.is_some() {
            return;
        }
        let mut k = 0;
        loop {
            if k == idx.len() {
                if idx.len() == max {
                    break 'outer;
                }
                idx.push(0);
                for x in idx.iter_mut() {
                    *x = 0;
                }
                break;
            }
            idx[k] += 1;
            if idx[k] < alphabet.len() {
                break;
            }
            idx[k] = 0;
            k += 1;
        }
    }
    r.notes.push(format!("all strings of up to {max} characters over {alphabet:?}, all three modes"));
    // every single byte value and code points around encodings' edges, alone and between blanks
    for c in (0u32..0x3100).chain(0xD7F0..0xD800).chain(0xE000..0xE010).chain(0xFEF0..0x10010).chain(0x10FFF0..0x110000) {
        if let Some(c) = char::from_u32(c) {
            one(r, &format!("{c}"));
            one(r, &format!(" x {c}\t\t{c} "));
        }
    }
    // random long strings
    while r.more() {
        let n = match rng.below(if dict().nums.is_empty() { 4 } else { 5 }) { 0 => rng.below(20), 1 => rng.below(60), 2 => rng.below(300), 4 => rng.size(100, 20000), _ => rng.below(9000) };
        let p = 1 + rng.below(9);
        let mut s = String::new();
        for _ in 0..n {
            if !dict().texts.is_empty() && rng.chance(1, 12) {
                s.push_str(rng.text(&["x"]));
            } else if rng.chance(p, 10) {
                s.push(rng.of(&[' ', '\t', '\n', '\r']));
            } else {
                s.push(rng.of(&['a', 'b', '\u{b}', '\u{c}', '\u{85}', '\u{a0}', 'é', '\u{2003}', '日', '\u{3000}', '😀', '\0', '\u{200b}', '!', '\u{1f}']));
            }
        }
        one(r, &s);
    }
}
