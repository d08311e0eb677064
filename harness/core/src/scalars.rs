//! C07: built-in scalars.
use crate::util::*;
use static_xml::de::ParseText;
use static_xml::ser::ToText;
use std::fmt::Debug;

fn trimmed(s: &str) -> &str {
    let ws = |b: u8| matches!(b, 9 | 10 | 13 | 32);
    let b = s.as_bytes();
    let (mut i, mut j) = (0, b.len());
    while i < j && ws(b[i]) { i += 1; }
    while j > i && ws(b[j - 1]) { j -= 1; }
    &s[i..j]
}

fn parse<T: ParseText + std::str::FromStr + Debug>(r: &mut Report, ty: &str, s: &str)
where
    T::Err: std::fmt::Display,
{
    let input = format!("<{ty} as ParseText>::parse({})", esc(s));
    r.begin(&input, !s.is_empty());
    let got = guard(|| T::parse(s.to_owned()).map_err(|_| ())).map(|r| match r {
        Ok(v) => format!("{v:?}"),
        Err(()) => "error".into(),
    }).unwrap_or_else(|e| e);
    r.end();
    let exp = if ty == "bool" {
        match trimmed(s) {
            "true" | "1" => "true".into(),
            "false" | "0" => "false".into(),
            _ => "error".into(),
        }
    } else {
        match trimmed(s).parse::<T>() {
            Ok(v) => format!("{v:?}"),
            Err(_) => "error".into(),
        }
    };
    if exp != got {
        r.fail(Violation { props: vec!["C07"], what: "parse".into(), input, expected: exp, got });
    }
}

fn all(r: &mut Report, s: &str) {
    parse::<bool>(r, "bool", s);
    parse::<i8>(r, "i8", s);
    parse::<u8>(r, "u8", s);
    parse::<i16>(r, "i16", s);
    parse::<u16>(r, "u16", s);
    parse::<i32>(r, "i32", s);
    parse::<u32>(r, "u32", s);
    parse::<i64>(r, "i64", s);
    parse::<u64>(r, "u64", s);
    parse::<i128>(r, "i128", s);
    parse::<u128>(r, "u128", s);
    parse::<f32>(r, "f32", s);
    parse::<f64>(r, "f64", s);
    let input = format!("<String as ParseText>::parse({})", esc(s));
    r.begin(&input, !s.is_empty());
    let got = String::parse(s.to_owned()).map(|s| esc(&s)).unwrap_or("error".into());
    r.end();
    r.check(&["C07"], "strings are verbatim", &input, &esc(s), &got);
    let got = s.to_owned().to_text().map(|s| esc(&s)).unwrap_or("error".into());
    r.check(&["C07"], "strings are verbatim", &format!("String::to_text of {}", esc(s)), &esc(s), &got);
    let got = s.to_text().map(|s| esc(&s)).unwrap_or("error".into());
    r.check(&["C07"], "strings are verbatim", &format!("<&str>::to_text of {}", esc(s)), &esc(s), &got);
}

trait Same { fn same(&self, o: &Self) -> bool; }
macro_rules! same { ($($t:ident)*) => { $(impl Same for $t { fn same(&self, o: &Self) -> bool { self == o } })* } }
same!(bool i8 u8 i16 u16 i32 u32 i64 u64 i128 u128);
impl Same for f32 { fn same(&self, o: &Self) -> bool { self.to_bits() == o.to_bits() } }
impl Same for f64 { fn same(&self, o: &Self) -> bool { self.to_bits() == o.to_bits() } }

fn trip<T: ParseText + ToText + Same + Debug>(r: &mut Report, v: T) {
    let input = format!("{v:?}_{}", std::any::type_name::<T>());
    r.begin(&input, true);
    let got = guard(|| match v.to_text() {
        Ok(t) => match T::parse(t.clone()) {
            Ok(w) if v.same(&w) => None,
            Ok(w) => Some(format!("{w:?} by way of {t:?}")),
            Err(e) => Some(format!("error {e} parsing {t:?}")),
        },
        Err(e) => Some(format!("error {e}")),
    }).unwrap_or_else(Some);
    r.end();
    if let Some(got) = got {
        r.fail(Violation { props: vec!["C07"], what: "to_text then parse".into(), input, expected: format!("{v:?}"), got });
    }
}

/// Decimals around the middle between the float with these bits and the next one.
fn middle(r: &mut Report, bits: u32) {
    let (a, b) = (f32::from_bits(bits), f32::from_bits(bits + 1));
    if !a.is_finite() { return; }
    // both are exact in f64, and so is their mean
    let m = if b.is_finite() { (a as f64 + b as f64) / 2.0 } else { a as f64 * (1.0 + 2f64.powi(-25)) };
    let s = format!("{m:.200}");
    let s = s.trim_end_matches('0');
    parse::<f32>(r, "f32", s);
    parse::<f32>(r, "f32", &format!("{s}1"));
    parse::<f32>(r, "f32", &format!("-{s}0000001"));
    // one unit less in the last place, then nines
    let mut t = s.as_bytes().to_vec();
    if let Some(k) = t.iter().rposition(|c| (b'1'..=b'9').contains(c)) {
        t[k] -= 1;
        for c in &mut t[k + 1..] { if *c == b'0' { *c = b'9' } }
        let t = String::from_utf8(t).unwrap();
        parse::<f32>(r, "f32", &format!("{t}99999999"));
    }
}

pub fn run(r: &mut Report, rng: &mut Rng, thorough: bool) {
    trip(r, true);
    trip(r, false);
    for v in 0..=255u8 { trip(r, v); trip(r, v as i8); }
    for v in 0..=65535u16 { trip(r, v); trip(r, v as i16); }
    macro_rules! edges { ($($t:ident)*) => { $( for v in [$t::MIN, $t::MIN + 1, $t::MAX, $t::MAX - 1, 0, 1, 9, 10, 99, 100] { trip(r, v); all(r, &format!("{v}")); } )* } }
    edges!(i8 u8 i16 u16 i32 u32 i64 u64 i128 u128);
    for v in [0.0f64, -0.0, 1.0, -1.5, f64::MIN, f64::MAX, f64::MIN_POSITIVE, 5e-324, f64::INFINITY, f64::NEG_INFINITY, 0.1, 1e21, 1e-7, 123456789.125] {
        trip(r, v);
        trip(r, v as f32);
    }
    for c in (0u32..0x3100).chain(0xFEFF..0xFF00).filter_map(char::from_u32) {
        all(r, &format!("{c}1"));
        all(r, &format!("true{c}"));
        if r.violation.is_some() { return; }
    }
    for s in ["", "true", "false", "1", "0", "TRUE", "True", "yes", " true ", "\ttrue\r\n", "\u{b}true", "\u{a0}true", "tru e", "true1", "01", "00", "+1", "-0", "+0", "1.0", "1e3",
              "inf", "INF", "-INF", "NaN", "nan", "infinity", "+", "-", ".", ".5", "5.", "1_000", "0x10", " ", "\n", "256", "-129", "65536", "4294967296", "18446744073709551616",
              "340282366920938463463374607431768211456", "-170141183460469231731687303715884105729", "1 2", "1\n", "\u{c}1", "1\u{85}", "١", "1,5", "1e400", "1e-400"] {
        all(r, s);
    }
    // just above, at and just below the middle of two neighbours: rounding happens once
    for b in [1u32, 2, 3, 0x7f_ffff, 0x80_0000, 0x3f80_0000, 0x3f80_0001, 0x4b80_0000, 0x4b80_0001, 0x7f7f_fffe, 0x7f7f_ffff, 0x1234_5678, 0x1234_5679] {
        middle(r, b);
        if r.violation.is_some() { return; }
    }
    for t in &dict().texts { all(r, t); }
    for t in &dict().nums { all(r, &t.to_string()); all(r, &"0".repeat(*t.min(&2000))); all(r, &format!("{}1", "0".repeat(*t.min(&2000)))); all(r, &format!("{}1", " ".repeat(*t.min(&2000)))); }
    for n in [20, 40, 70, 130, 260] { for c in ["0", " ", "1", "0.", "9"] { all(r, &format!("{}1", c.repeat(n))); all(r, &format!("1{}", c.repeat(n))); } }
    if r.violation.is_some() { return; }
    // all short strings
    let alphabet: Vec<char> = "01+-.eE tf\t\nax9".chars().collect();
    let max = if thorough { 5 } else { 3 };
    let mut stack = vec![String::new()];
    while let Some(s) = stack.pop() {
        all(r, &s);
        if r.violation.is_some() { return; }
        if s.chars().count() < max {
            for c in &alphabet { let mut t = s.clone(); t.push(*c); stack.push(t); }
        }
    }
    r.notes.push(format!("all strings of up to {max} characters over {alphabet:?} for each type; every value of the 8 and 16 bit types"));
    if thorough {
        for b in (0..=u32::MAX).step_by(641) { let f = f32::from_bits(b); if !f.is_nan() { trip(r, f); } }
    }
    while r.more() {
        for _ in 0..200 {
            let x = rng.next();
            let y = ((rng.next() as u128) << 64 | x as u128) >> rng.below(128);
            trip(r, x as i32); trip(r, x as u32); trip(r, x as i64); trip(r, x);
            trip(r, y); trip(r, y as i128); trip(r, (y as i128).wrapping_neg());
            let f = f32::from_bits(x as u32); if !f.is_nan() { trip(r, f); }
            let f = f64::from_bits(x); if !f.is_nan() { trip(r, f); }
            middle(r, (x >> 33) as u32);
            let mut s = String::new();
            for _ in 0..rng.below(3) { s.push_str(rng.pick(&[" ", "\t", "\n", "\r", "\u{a0}", "\u{b}"])); }
            if rng.chance(1, 4) { s.push_str(rng.text(&["0", "00", "+", "-", "_", "'", "0x", "--", "+-"])); }
            match rng.below(4) {
                0 => s.push_str(&format!("{}", y)),
                1 => s.push_str(&format!("-{}", y >> 1)),
                2 => s.push_str(&format!("{}", f64::from_bits(x))),
                _ => s.push_str(rng.pick(&["true", "false", "1", "0", "inf", "nan", "1e5", "-5", "+5", "_5", "5_0", "1,0", "-0", "5.0", "12%"])),
            }
            for _ in 0..rng.below(3) { s.push_str(rng.pick(&[" ", "\t", "\n", "\r", "\u{2003}", "\u{c}", "x"])); }
            all(r, &s);
        }
    }
}
