// Hand-written types the corpus uses: text types in `std` mode, and a text type
// that counts its live values.
use crate::{Line, Pair, Word};
use std::sync::atomic::{AtomicIsize, Ordering};

#[derive(Debug)]
pub struct Bad;
impl std::fmt::Display for Bad {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("bad")
    }
}
impl std::error::Error for Bad {}

/// `left,right`; the right part may be empty, the left may not.
impl std::str::FromStr for Pair {
    type Err = Bad;
    fn from_str(s: &str) -> Result<Self, Bad> {
        match s.split_once(',') {
            Some((a, b)) if !a.is_empty() => Ok(Pair(a.to_owned(), b.to_owned())),
            _ => Err(Bad),
        }
    }
}
impl std::fmt::Display for Pair {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{},{}", self.0, self.1)
    }
}

/// First character and the rest.
impl std::str::FromStr for Word {
    type Err = Bad;
    fn from_str(s: &str) -> Result<Self, Bad> {
        let c = s.chars().next().ok_or(Bad)?;
        Ok(Word(c.to_string(), s[c.len_utf8()..].to_owned()))
    }
}
impl std::fmt::Display for Word {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}{}", self.0, self.1)
    }
}

/// The text itself, twice; not longer than 5 bytes.
impl std::str::FromStr for Line {
    type Err = Bad;
    fn from_str(s: &str) -> Result<Self, Bad> {
        if s.len() > 5 {
            return Err(Bad);
        }
        Ok(Line(s.to_owned(), s.to_owned()))
    }
}
impl std::fmt::Display for Line {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}

pub static LIVE: AtomicIsize = AtomicIsize::new(0);

/// Any text but `bad`; counts its live values.
#[derive(Debug, PartialEq)]
pub struct Tracked(Box<String>);
impl Tracked {
    pub fn new(s: String) -> Self {
        LIVE.fetch_add(1, Ordering::SeqCst);
        Tracked(Box::new(s))
    }
    pub fn get(&self) -> &str {
        &self.0
    }
}
impl Drop for Tracked {
    fn drop(&mut self) {
        LIVE.fetch_sub(1, Ordering::SeqCst);
    }
}
impl Default for Tracked {
    fn default() -> Self {
        Tracked::new("default".to_owned())
    }
}
impl static_xml::de::ParseText for Tracked {
    fn parse(text: String) -> Result<Self, static_xml::BoxedStdError> {
        if text == "bad" {
            return Err(Box::new(Bad));
        }
        Ok(Tracked::new(text))
    }
}
impl static_xml::ser::ToText for Tracked {
    fn to_text(&self) -> Result<String, static_xml::ser::Error> {
        if self.get() == "unprintable" {
            return Err(static_xml::ser::Error("unprintable".to_owned()));
        }
        Ok(self.get().to_owned())
    }
}
