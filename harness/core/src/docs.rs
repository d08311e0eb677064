//! Random documents and what xml-rs makes of them.
use crate::util::*;
use std::io::Read;
use xml::common::{Position, TextPosition};
use xml::name::OwnedName;
use xml::reader::{EventReader, XmlEvent};

const LOCALS: &[&str] = &["a", "b", "c", "ab", "d", "item", "value", "a", "b", "x-y", "A.b", "é", "_u", "nil", "type"];
const URIS: &[&str] = &["urn:a", "urn:b", "http://x/", "http://www.w3.org/XML/1998/namespace2", "urn:ab", "urn:a", "urn:b", "http://x", "http://x/#", "http://x#", "HTTP://x/", "urn:a/", "http://www.w3.org/2001/XMLSchema-instance"];
const PREFIXES: &[&str] = &["p", "q", "ns1", "z"];

pub struct Gen {
    pub rng: Rng,
    pub depth: usize,
    pub text_heavy: bool,
}

impl Gen {
    pub fn text(&mut self) -> String {
        let mut s = String::new();
        if self.rng.chance(1, 300) {
            let n = self.rng.size([100, 1000, 5000][self.rng.clone().below(3)], 20000);
            s.push_str(&self.rng.pick(&["x", "y ", "é", "&#13;"]).repeat(n));
        }
        if !dict().texts.is_empty() && self.rng.chance(1, 5) {
            s.push_str(&escape(self.rng.text(&["x"])));
        }
        for _ in 0..1 + self.rng.below(3) {
            s.push_str(self.rng.pick(&["&#13;", "\u{a0}", "x", " ", "\n  ", "12", "true", "&lt;", "&amp;", "&#65;", "é", "\t", "long text", "日", "&#x20;", "&quot;", "]]", "\u{feff}", "\u{200b}", "\u{2028}", "\u{85}", "\u{3000}", "\u{1f600}", "&#xFEFF;"]));
        }
        s
    }
    fn misc(&mut self, out: &mut String) {
        match self.rng.below(3) {
            0 => out.push_str(self.rng.pick(&["<!-- c -->", "<!---->", "<!-- <a> -->"])),
            1 => out.push_str(self.rng.pick(&["<?pi data?>", "<?x?>", "<?pi <b/> ?>", "<!--\u{feff}-->", "<!-- &amp; -->", "<?xml-stylesheet href='a'?>", "<!--\n-->"])),
            _ => {
                // with a name or a text that the code knows of
                let t = self.rng.name(&["pi", "php", "xml-stylesheet", "x"]);
                let w = self.rng.text(&["", "data", "version='1.0'", "<b/>"]).replace("?>", "").replace("--", "");
                if self.rng.chance(1, 3) { out.push_str(&format!("<!--{w} -->")) } else { out.push_str(&format!("<?{t} {w}?>")) }
            }
        }
    }
    pub fn content(&mut self, depth: usize, scope: &[(String, String)], out: &mut String) {
        let n = match self.rng.below(5) {
            0 => 0,
            1 => 1,
            k => k + self.rng.below(3),
        };
        for _ in 0..n {
            let k = self.rng.below(if self.text_heavy { 16 } else { 10 });
            match k {
                0 | 10 | 11 => {
                    let t = self.text();
                    out.push_str(&t)
                }
                1 | 12 => out.push_str(self.rng.pick(&["<![CDATA[ cd <&> ]]>", "<![CDATA[x]]>", "<![CDATA[ ]]>", "<![CDATA[\n]]>", "<![CDATA[\ny]]>", "<![CDATA[]]>", "<![CDATA[]]]]>", "<![CDATA[<a/>]]>", "<![CDATA[\u{feff}]]>", "<![CDATA[\r\n]]>", "<![CDATA[\u{a0}]]>"])),
                2 | 13 => self.misc(out),
                3 | 14 => out.push_str(self.rng.pick(&[" ", "\n", "\n\t ", "  "])),
                15 => out.push_str("&#10;"),
                _ => {
                    if depth > 0 && !(self.text_heavy && self.rng.chance(2, 3)) {
                        self.element(depth - 1, scope, out)
                    }
                }
            }
        }
    }
    pub fn element(&mut self, depth: usize, scope: &[(String, String)], out: &mut String) {
        let mut scope: Vec<(String, String)> = scope.to_vec();
        let mut decl = String::new();
        for _ in 0..[0, 0, 0, 1, 1, 2][self.rng.below(6)] {
            let p = if self.rng.chance(1, 3) { "" } else { self.rng.name(PREFIXES) };
            let u = self.rng.uri(URIS);
            let attr = if p.is_empty() { "xmlns".to_owned() } else { format!("xmlns:{p}") };
            if decl.contains(&format!(" {attr}=")) {
                continue;
            }
            decl.push_str(&format!(" {attr}=\"{u}\""));
            scope.retain(|(q, _)| q != p);
            scope.push((p.to_owned(), u.to_owned()));
        }
        let prefixed = |rng: &mut Rng, scope: &[(String, String)]| -> String {
            let ps: Vec<&String> = scope.iter().map(|(p, _)| p).filter(|p| !p.is_empty()).collect();
            let l = rng.name(LOCALS);
            if !ps.is_empty() && rng.chance(1, 2) {
                format!("{}:{}", ps[rng.below(ps.len())], l)
            } else {
                l.to_owned()
            }
        };
        let name = prefixed(&mut self.rng, &scope);
        let mut attrs = String::new();
        let mut seen = vec![];
        let count = [0, 0, 1, 2, 3, 4][self.rng.below(6)];
        let count = if self.rng.chance(1, 60) { self.rng.size(20, 300) } else { count };
        for k in 0..count {
            let n = if self.rng.chance(1, 12) { self.rng.pick(&["xml:lang", "xml:a"]).to_owned() } else { prefixed(&mut self.rng, &scope) };
            let n = if k > 5 { format!("{n}{k}") } else { n };
            if seen.contains(&n) {
                continue;
            }
            let w = if dict().texts.is_empty() { String::new() } else { escape(self.rng.text(&[""])).replace('"', "&quot;") };
            let v = if self.rng.chance(1, 3) && !w.is_empty() { w.as_str() } else { self.rng.pick(&["1", "", " v ", "a&lt;b", "true", "x&#10;y", "é", "false"]) };
            attrs.push_str(&format!(" {n}=\"{v}\""));
            seen.push(n);
        }
        let mut inner = String::new();
        self.content(depth, &scope, &mut inner);
        let (x, y) = if self.rng.chance(1, 2) { (&decl, &attrs) } else { (&attrs, &decl) };
        if inner.is_empty() && self.rng.chance(1, 2) {
            out.push_str(&format!("<{name}{x}{y}/>"));
        } else {
            let sp = if self.rng.chance(1, 10) { " " } else { "" };
            out.push_str(&format!("<{name}{x}{y}{sp}>{inner}</{name}{sp}>"));
        }
    }
    pub fn document(&mut self) -> Vec<u8> {
        let mut out = String::new();
        match self.rng.below(3) {
            0 => out.push_str("<?xml version=\"1.0\"?>"),
            1 => out.push_str("<?xml version=\"1.0\" encoding=\"utf-8\"?>\n"),
            _ => {}
        }
        if self.rng.chance(1, 4) {
            self.misc(&mut out);
        }
        let d = self.depth;
        // sometimes very deep
        let deep = if self.rng.chance(1, 40) { self.rng.size(self.rng.clone().of(&[20, 40, 70, 140, 270]), 400) } else { 0 };
        let name = self.rng.name(LOCALS);
        out.push_str(&format!("<{name}>").repeat(deep));
        self.element(d, &[], &mut out);
        if deep > 0 && self.rng.chance(1, 4) { out.push_str("x<b/>"); }
        out.push_str(&format!("</{name}>").repeat(deep));
        if self.rng.chance(1, 3) {
            out.push('\n');
        }
        for _ in 0..[0, 0, 1, 2][self.rng.below(4)] {
            self.misc(&mut out);
        }
        out.into_bytes()
    }
    /// Breaks a document somewhere.
    pub fn mutate(&mut self, mut doc: Vec<u8>) -> Vec<u8> {
        for _ in 0..1 + self.rng.below(2) {
            if doc.is_empty() {
                break;
            }
            let at = self.rng.below(doc.len());
            match self.rng.below(8) {
                0 | 1 => doc.truncate(at),
                2 => {
                    doc.remove(at);
                }
                3 => doc[at] = self.rng.of(&[b'<', b'>', b'&', b'/', b' ', 0, 0xff, 0x80, b'"', b'!', b'?', b'a']),
                4 => doc.insert(at, self.rng.of(&[b'<', b'>', b'&', b'/', b' ', 0xc3, b'x'])),
                5 => doc.extend_from_slice(self.rng.of(&["<a/>", "x", "</a>", "<!-- ", "]]>", "<", "&amp;", "<![CDATA[x]]>", "\0", "\0\0", "\u{feff}", "\u{a0}", "\u{b}", ";", "<?xml version=\"1.0\"?><a/>"]).as_bytes()),
                6 => {
                    let b = self.rng.below(doc.len());
                    let (i, j) = (at.min(b), at.max(b));
                    doc.drain(i..j);
                }
                _ => {
                    let t = self.rng.of(&["<a>", "</a>", "<p:a/>", "&nope;", "<b c='1' c='2'/>", "<?xml version=\"1.0\"?>", "\u{0}"]);
                    let tail = doc.split_off(at);
                    doc.extend_from_slice(t.as_bytes());
                    doc.extend(tail);
                }
            }
        }
        doc
    }
}

/// A byte source that may fail after some bytes, delivering odd chunks.
#[derive(Clone)]
pub struct Source {
    pub data: Vec<u8>,
    pub at: usize,
    pub fail_at: Option<usize>,
    pub chunk: usize,
    pub kind: std::io::ErrorKind,
    pub once: bool,
    pub failed: bool,
}
impl Source {
    pub fn new(data: Vec<u8>, fail_at: Option<usize>, chunk: usize) -> Source {
        Source { data, at: 0, fail_at, chunk, kind: std::io::ErrorKind::Other, once: false, failed: false }
    }
}
impl Read for Source {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let mut n = buf.len().min(self.chunk).min(self.data.len() - self.at);
        if let Some(f) = self.fail_at {
            if !(self.failed && self.once) {
                if self.at >= f {
                    self.failed = true;
                    return Err(std::io::Error::new(self.kind, "source broke"));
                }
                n = n.min(f - self.at);
            }
        }
        buf[..n].copy_from_slice(&self.data[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}

#[derive(Clone, Debug)]
pub struct El {
    pub name: OwnedName,
    pub pos: TextPosition,
}

/// The event sequence of a source: the trusted model the contracts use, too.
pub struct Src {
    pub evs: Vec<XmlEvent>,
    /// position after `i` events
    pub pos: Vec<TextPosition>,
    /// (message, position) of the error the source ends with
    pub err: Option<(String, TextPosition)>,
    /// position once the end or the error was delivered
    pub last: TextPosition,
    pub open: Vec<Vec<El>>,
}

impl Src {
    pub fn of(s: Source) -> Option<Src> {
        let mut r = EventReader::new(s);
        let mut out = Src { evs: vec![], pos: vec![r.position()], err: None, last: r.position(), open: vec![vec![]] };
        loop {
            match r.next() {
                Ok(XmlEvent::EndDocument) => break,
                Ok(e) => {
                    let p = r.position();
                    let mut o = out.open.last().unwrap().clone();
                    match &e {
                        XmlEvent::StartElement { name, .. } => o.push(El { name: name.clone(), pos: p }),
                        XmlEvent::EndElement { .. } => {
                            o.pop()?;
                        }
                        _ => {}
                    }
                    out.open.push(o);
                    out.evs.push(e);
                    out.pos.push(p);
                }
                Err(e) => {
                    out.err = Some((e.msg().to_owned(), e.position()));
                    break;
                }
            }
            if out.evs.len() > 20000 {
                return None;
            }
        }
        out.last = r.position();
        Some(out)
    }
    pub fn depth(&self, i: usize) -> usize {
        self.open[i.min(self.evs.len())].len()
    }
    pub fn pos_at(&self, i: usize) -> TextPosition {
        if i > self.evs.len() {
            self.last
        } else {
            self.pos[i]
        }
    }
}

pub fn expanded(n: &OwnedName) -> (String, String) {
    let ns = match (&n.namespace, n.prefix.as_deref()) {
        (Some(u), _) => u.clone(),
        (None, Some("xml")) => "http://www.w3.org/XML/1998/namespace".to_owned(),
        (None, _) => String::new(),
    };
    (ns, n.local_name.clone())
}

pub fn show(b: &[u8]) -> String {
    match std::str::from_utf8(b) {
        Ok(s) => s.to_owned(),
        Err(_) => format!("{:?}", b),
    }
}

pub fn escape(s: &str) -> String {
    s.replace('&', "&amp;").replace('<', "&lt;").replace(']', "&#93;").replace('\r', "&#13;")
}
