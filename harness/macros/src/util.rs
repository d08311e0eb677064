//! Random numbers, reporting, watchdog.
#![allow(dead_code)]
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T: ?Sized>(&mut self, v: &[&'a T]) -> &'a T {
        v[self.below(v.len())]
    }
    pub fn of<T: Clone>(&mut self, v: &[T]) -> T {
        v[self.below(v.len())].clone()
    }
}

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[derive(Clone, Debug, Default)]
pub struct Violation {
    pub props: Vec<&'static str>,
    pub what: String,
    pub input: String,
    pub expected: String,
    pub got: String,
}

pub struct Report {
    pub prop: String,
    pub evaluations: u64,
    pub seen: HashSet<u64>,
    pub nontrivial: u64,
    pub rule: String,
    pub samples: Vec<String>,
    pub violation: Option<Violation>,
    pub known: Vec<String>,
    pub start: Instant,
    pub secs: f64,
    pub current: Arc<Mutex<(String, Instant)>>,
    pub notes: Vec<String>,
}

impl Report {
    pub fn new(prop: &str, secs: f64, rule: &str) -> Report {
        let r = Report {
            prop: prop.to_owned(),
            evaluations: 0,
            seen: HashSet::new(),
            nontrivial: 0,
            rule: rule.to_owned(),
            samples: vec![],
            violation: None,
            known: vec![],
            start: Instant::now(),
            secs,
            current: Arc::new(Mutex::new((String::new(), Instant::now()))),
            notes: vec![],
        };
        let cur = r.current.clone();
        let prop = prop.to_owned();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(300));
            let c = cur.lock().unwrap();
            if !c.0.is_empty() && c.1.elapsed() > Duration::from_secs(20) {
                let v = Violation {
                    props: vec![],
                    what: "the call does not return (20 s)".into(),
                    input: c.0.clone(),
                    expected: "a result".into(),
                    got: "none".into(),
                };
                println!(
                    "{{\"prop\":{},\"evaluations\":1,\"distinct_nontrivial\":1,\"rule\":\"hang\",\"samples\":[],\"known\":[],\"notes\":[],\"violation\":{}}}",
                    esc(&prop),
                    vjson(&v)
                );
                std::process::exit(0);
            }
        });
        r
    }
    pub fn more(&self) -> bool {
        self.violation.is_none() && self.start.elapsed().as_secs_f64() < self.secs
    }
    /// Call before an evaluation.
    pub fn begin(&mut self, input: &str, nontrivial: bool) {
        self.evaluations += 1;
        let mut h = std::collections::hash_map::DefaultHasher::new();
        input.hash(&mut h);
        if self.seen.insert(h.finish()) && nontrivial {
            self.nontrivial += 1;
            if self.samples.len() < 3 || (self.samples.len() < 6 && self.evaluations % 997 == 0) {
                self.samples.push(input.chars().take(600).collect());
            }
        }
        let mut c = self.current.lock().unwrap();
        c.0 = input.to_owned();
        c.1 = Instant::now();
    }
    pub fn end(&mut self) {
        self.current.lock().unwrap().0.clear();
    }
    pub fn fail(&mut self, v: Violation) {
        if self.violation.is_none() && (v.props.is_empty() || v.props.iter().any(|p| *p == self.prop)) {
            self.violation = Some(v);
        }
    }
    pub fn check(&mut self, props: &[&'static str], what: &str, input: &str, expected: &str, got: &str) {
        if expected != got {
            self.fail(Violation {
                props: props.to_vec(),
                what: what.into(),
                input: input.into(),
                expected: expected.into(),
                got: got.into(),
            });
        }
    }
    pub fn print(&self) {
        let samples: Vec<String> = self.samples.iter().map(|s| esc(s)).collect();
        let known: Vec<String> = self.known.iter().map(|s| esc(s)).collect();
        let notes: Vec<String> = self.notes.iter().map(|s| esc(s)).collect();
        println!(
            "{{\"prop\":{},\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"samples\":[{}],\"known\":[{}],\"notes\":[{}],\"violation\":{}}}",
            esc(&self.prop),
            self.evaluations,
            self.nontrivial,
            esc(&self.rule),
            samples.join(","),
            known.join(","),
            notes.join(","),
            match &self.violation {
                None => "null".to_owned(),
                Some(v) => vjson(v),
            }
        );
    }
}

pub fn vjson(v: &Violation) -> String {
    format!(
        "{{\"what\":{},\"input\":{},\"expected\":{},\"got\":{}}}",
        esc(&v.what),
        esc(&v.input),
        esc(&v.expected),
        esc(&v.got)
    )
}

/// Runs `f`, turning a panic into `Err(message)`.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            format!("panic: {s}")
        } else if let Some(s) = e.downcast_ref::<String>() {
            format!("panic: {s}")
        } else {
            "panic".to_owned()
        }
    })
}

/// Words and numbers that occur in the code under test and did not before: where to look first.
/// They steer the search only; what is right does not depend on them.
#[derive(Default)]
pub struct Dict {
    pub texts: Vec<&'static str>,
    pub names: Vec<&'static str>,
    pub uris: Vec<&'static str>,
    pub nums: Vec<usize>,
}
pub fn dict() -> &'static Dict {
    static D: std::sync::OnceLock<Dict> = std::sync::OnceLock::new();
    D.get_or_init(|| {
        let mut d = Dict::default();
        let Some(f) = std::env::var_os("VX_DICT") else { return d };
        let leak = |s: String| -> &'static str { Box::leak(s.into_boxed_str()) };
        for l in std::fs::read_to_string(f).unwrap_or_default().split('\n') {
            match l.split_once('\t') {
                Some(("n", x)) => {
                    let n: usize = x.parse().unwrap_or(0);
                    for k in [n.saturating_sub(1), n, n + 1, n + 2] {
                        if k <= 70000 { d.nums.push(k); }
                    }
                }
                Some(("s", hex)) => {
                    let b: Vec<u8> = (0..hex.len() / 2).filter_map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).ok()).collect();
                    let Ok(s) = String::from_utf8(b) else { continue };
                    // what XML can carry
                    if s.is_empty() || s.len() > 200 || s.chars().any(|c| (c as u32) < 0x20 && !matches!(c, '\t' | '\n' | '\r') || matches!(c, '\u{fffe}' | '\u{ffff}')) { continue; }
                    for t in [s.clone(), format!("{s}1"), format!("1{s}"), format!("x{s}"), format!("{s}x"), format!("{s}{s}"), format!(" {s} ")] { d.texts.push(leak(t)); }
                    let first = |c: char| c.is_ascii_alphabetic() || c == '_';
                    let rest = |c: char| first(c) || c.is_ascii_digit() || c == '-' || c == '.';
                    for w in s.split(|c: char| !rest(c)).chain([s.as_str()]) {
                        for t in [w.to_owned(), format!("a{w}"), format!("{w}a"), format!("{w}1")] {
                            if t.starts_with(first) && t.chars().all(rest) && !t.to_ascii_lowercase().starts_with("xml") && !d.names.contains(&t.as_str()) { d.names.push(leak(t)); }
                        }
                    }
                    if s.chars().all(|c| c.is_ascii_alphanumeric() || ":/#?._~-=+%@!$,;*".contains(c)) {
                        for t in [s.clone(), format!("urn:x{s}"), format!("{s}x"), format!("http://x/{s}")] {
                            // (the XML parser takes "xml" and "xmlns" for reserved)
                            if t.contains(':') && !["http://www.w3.org/XML/1998/namespace", "http://www.w3.org/2000/xmlns/"].contains(&t.as_str()) && !d.uris.contains(&t.as_str()) { d.uris.push(leak(t)); }
                        }
                    }
                }
                _ => {}
            }
        }
        d
    })
}
impl Rng {
    /// One of the usual ones or of the new ones.
    pub fn word(&mut self, usual: &[&'static str], new: &'static [&'static str]) -> &'static str {
        if !new.is_empty() && self.chance(1, 3) { new[self.below(new.len())] } else { usual[self.below(usual.len())] }
    }
    pub fn name(&mut self, usual: &[&'static str]) -> &'static str { self.word(usual, &dict().names) }
    pub fn uri(&mut self, usual: &[&'static str]) -> &'static str { self.word(usual, &dict().uris) }
    pub fn text(&mut self, usual: &[&'static str]) -> &'static str { self.word(usual, &dict().texts) }
    /// A size: the usual one, or a number of the code's.
    pub fn size(&mut self, usual: usize, cap: usize) -> usize {
        let nums: Vec<usize> = dict().nums.iter().copied().filter(|n| *n <= cap).collect();
        if !nums.is_empty() && self.chance(1, 6) { self.of(&nums) } else { usual }
    }
}
