//! C08, C09, C10, C17: random writing programs against a model of what they ask for.
use crate::util::*;
use static_xml::ser::{serialize_with_name, ElementBuilder, ElementWriter, Error, Serialize, SerializeAttr, SerializeField, ToText};
use static_xml::ExpandedNameRef;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::Write;
use std::rc::Rc;
use xml::reader::XmlEvent;

type S = &'static str;
const XML: S = "http://www.w3.org/XML/1998/namespace";
const URLS: &[S] = &["urn:a", "urn:b", "urn:c", "http://x/", "urn:0", "zzz", "http://x", "http://x/#", "http://www.w3.org/2001/XMLSchema-instance", "http://www.w3.org/2001/XMLSchema"];
const PREFIXES: &[S] = &["p", "q", "ns", "ns1", "p2", "a", "ns0", "ns2", "xsi", "averylongprefix"];
const LOCALS: &[S] = &["a", "b", "c", "el", "x-y", "nil", "A.b", "é"];
const VALUES: &[S] = &["", "1", "a b", "<&>", "\"q'", "é", " v", "true", "false"];

#[derive(Clone, Debug)]
enum Op {
    Ns(S, S),
    Attr(S, S, S),
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Mode {
    Normal,
    Field,
    DropBuilder,
    DropWriter,
    DropWriterLate,
}
#[derive(Clone, Debug)]
enum Content {
    Text(S),
    Child(Node),
    /// via a field impl: Option / Vec of nodes sharing one name
    Opt((S, S), Option<Node>),
    Many((S, S), Vec<Node>),
    TextField((S, S), S),
    /// fails on its own
    Fail,
    /// a child that is begun (a builder only, or a writer) by code that panics; the panic is caught
    Panic((S, S), bool),
}
#[derive(Clone, Debug)]
struct Node {
    name: (S, S),
    ops: Vec<Op>,
    content: Vec<Content>,
    mode: Mode,
    /// errors seen here are ignored
    ignore: bool,
    fail_attrs: bool,
}

fn nm(n: (S, S)) -> ExpandedNameRef<'static> {
    ExpandedNameRef { namespace: n.0, local_name: n.1 }
}

thread_local! { static LOG: RefCell<Vec<String>> = RefCell::new(vec![]); }
fn log(s: String) {
    LOG.with(|l| l.borrow_mut().push(s));
}
fn ok<T>(r: &Result<T, Error>) -> &'static str {
    if r.is_ok() { "ok" } else { "error" }
}

impl Node {
    fn seen(&self, what: &str, r: Result<(), Error>) -> Result<(), Error> {
        log(format!("{what}: {}", ok(&r)));
        if self.ignore { Ok(()) } else { r }
    }
}
impl Serialize for Node {
    fn write_attributes(&self, b: &mut ElementBuilder) -> Result<(), Error> {
        for op in &self.ops {
            match op {
                Op::Ns(p, u) => b.namespace(p, u),
                Op::Attr(n, l, v) => {
                    let r = b.attribute(nm((n, l)), (*v).to_owned());
                    self.seen("attribute", r)?;
                }
            }
        }
        if self.fail_attrs {
            return Err(Error("own failure".into()));
        }
        Ok(())
    }
    fn write_children(&self, w: &mut ElementWriter) -> Result<(), Error> {
        for c in &self.content {
            match c {
                Content::Text(t) => {
                    let r = w.text(t);
                    self.seen("text", r)?;
                }
                Content::TextField(n, t) => {
                    let r = SerializeField::write(t, w, nm(*n));
                    self.seen("text field", r)?;
                }
                Content::Child(n) => {
                    let r = write_child(n, w);
                    self.seen("child", r)?;
                }
                Content::Opt(n, o) => {
                    let r = SerializeField::write(o, w, nm(*n));
                    self.seen("optional", r)?;
                }
                Content::Many(n, v) => {
                    let r = SerializeField::write(v, w, nm(*n));
                    self.seen("repeated", r)?;
                }
                Content::Fail => return Err(Error("own failure".into())),
                Content::Panic(n, started) => {
                    let _ = guard(|| {
                        let mut b = Some(w.element(nm(*n)));
                        let _cw = if *started { b.take().map(|b| b.start()) } else { None };
                        panic!("own panic");
                    });
                }
            }
        }
        Ok(())
    }
}
fn write_child(n: &Node, w: &mut ElementWriter) -> Result<(), Error> {
    match n.mode {
        Mode::Field => SerializeField::write(n, w, nm(n.name)),
        Mode::Normal => {
            let mut b = w.element(nm(n.name));
            n.write_attributes(&mut b)?;
            let mut cw = b.start()?;
            n.write_children(&mut cw)?;
            cw.finish()
        }
        Mode::DropBuilder => {
            let mut b = w.element(nm(n.name));
            n.write_attributes(&mut b)?;
            Ok(())
        }
        Mode::DropWriter => {
            let mut b = w.element(nm(n.name));
            n.write_attributes(&mut b)?;
            let _w = b.start()?;
            Ok(())
        }
        Mode::DropWriterLate => {
            let mut b = w.element(nm(n.name));
            n.write_attributes(&mut b)?;
            let mut cw = b.start()?;
            n.write_children(&mut cw)?;
            Ok(())
        }
    }
}

// ------------------------------------------------------------------- model

#[derive(Clone, Debug, PartialEq)]
enum Ev {
    Start((String, String), Vec<((String, String), String)>),
    Text(String),
    End,
}
#[derive(Default)]
struct Model {
    evs: Vec<Ev>,
    poisoned: bool,
    log: Vec<String>,
    /// per start tag: declarations made there, and attribute namespaces
    tags: Vec<Node>,
    dup: bool,
}
impl Model {
    fn ev(&mut self, e: Ev) -> Result<(), ()> {
        if self.poisoned {
            return Err(());
        }
        if let (Ev::Text(t), Some(Ev::Text(l))) = (&e, self.evs.last_mut()) {
            l.push_str(t);
            return Ok(());
        }
        if e != Ev::Text(String::new()) {
            self.evs.push(e);
        }
        Ok(())
    }
    fn seen(&mut self, n: &Node, what: &str, r: Result<(), ()>) -> Result<(), ()> {
        self.log.push(format!("{what}: {}", if r.is_ok() { "ok" } else { "error" }));
        if n.ignore { Ok(()) } else { r }
    }
    fn attrs(&mut self, n: &Node) -> Result<Vec<((String, String), String)>, ()> {
        let mut out: Vec<((String, String), String)> = vec![];
        for op in &n.ops {
            if let Op::Attr(ns, l, v) = op {
                let k = (ns.to_string(), l.to_string());
                let r = if out.iter().any(|(x, _)| *x == k) { self.dup = true; Err(()) } else { out.push((k, v.to_string())); Ok(()) };
                self.seen(n, "attribute", r)?;
            }
        }
        if n.fail_attrs { return Err(()); }
        Ok(out)
    }
    fn children(&mut self, n: &Node) -> Result<(), ()> {
        for c in &n.content {
            match c {
                Content::Text(t) => {
                    let r = self.ev(Ev::Text(t.to_string()));
                    self.seen(n, "text", r)?;
                }
                Content::TextField(name, t) => {
                    let r = self.text_field(*name, t);
                    self.seen(n, "text field", r)?;
                }
                Content::Child(c) => {
                    let r = self.element(c, c.name, c.mode);
                    self.seen(n, "child", r)?;
                }
                Content::Opt(name, o) => {
                    let r = match o { None => Ok(()), Some(c) => self.element(c, *name, Mode::Normal) };
                    self.seen(n, "optional", r)?;
                }
                Content::Many(name, v) => {
                    let mut r = Ok(());
                    for c in v {
                        r = self.element(c, *name, Mode::Normal);
                        if r.is_err() { break; }
                    }
                    self.seen(n, "repeated", r)?;
                }
                Content::Fail => return Err(()),
                Content::Panic(name, started) => {
                    if *started && self.ev(Ev::Start((name.0.to_string(), name.1.to_string()), vec![])).is_ok() {
                        let mut t = n.clone();
                        t.name = *name;
                        t.ops = vec![];
                        self.tags.push(t);
                    }
                    self.abandon();
                }
            }
        }
        Ok(())
    }
    fn text_field(&mut self, name: (S, S), t: S) -> Result<(), ()> {
        let node = Node { name, ops: vec![], content: vec![Content::Text(t)], mode: Mode::Normal, ignore: false, fail_attrs: false };
        let keep = self.log.len();
        let r = self.element(&node, name, Mode::Normal);
        self.log.truncate(keep);
        r
    }
    /// A builder or writer is dropped where it must not be.
    fn abandon(&mut self) {
        self.poisoned = true;
    }
    fn element(&mut self, n: &Node, name: (S, S), mode: Mode) -> Result<(), ()> {
        let attrs = match self.attrs(n) {
            Ok(a) => a,
            Err(()) => { self.abandon(); return Err(()) }
        };
        if mode == Mode::DropBuilder { self.abandon(); return Ok(()) }
        let mut t = n.clone();
        t.name = name;
        self.ev(Ev::Start((name.0.to_string(), name.1.to_string()), attrs))?;
        self.tags.push(t);
        if mode == Mode::DropWriter { self.abandon(); return Ok(()) }
        if self.children(n).is_err() { self.abandon(); return Err(()) }
        if mode == Mode::DropWriterLate { self.abandon(); return Ok(()) }
        self.ev(Ev::End)
    }
}

// ------------------------------------------------------------------- sinks

#[derive(Default)]
struct SinkState {
    data: Vec<u8>,
    failed: bool,
    /// bytes offered after the failure
    after: Vec<u8>,
}
#[derive(Clone)]
struct Sink {
    st: Rc<RefCell<SinkState>>,
    fail_at: Option<usize>,
    /// fails once only
    once: bool,
    short: usize,
    kind: std::io::ErrorKind,
}
/// Not Interrupted: `write_all` tries again by itself.
const KINDS: &[std::io::ErrorKind] = {
    use std::io::ErrorKind::*;
    &[Other, WouldBlock, TimedOut, UnexpectedEof, ConnectionReset, ConnectionAborted, BrokenPipe, NotConnected, InvalidData, InvalidInput, PermissionDenied, NotFound, WriteZero, Unsupported, OutOfMemory]
};
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let mut s = self.st.borrow_mut();
        if s.failed {
            s.after.extend_from_slice(b);
            if self.once { return Ok(b.len()); }
            return Err(std::io::Error::new(self.kind, "disk full"));
        }
        let mut n = b.len().min(self.short);
        if let Some(f) = self.fail_at {
            n = n.min(f.saturating_sub(s.data.len()));
            if n == 0 && !b.is_empty() {
                s.failed = true;
                return Err(std::io::Error::new(self.kind, "disk full"));
            }
        }
        s.data.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

// ---------------------------------------------------------------- generation

const NAMES_MANY: &[S] = &["m0", "m1", "m2", "m3", "m4", "m5", "m6", "m7", "m8", "m9", "ma", "mb", "mc", "md", "me", "mf", "n0", "n1", "n2", "n3", "n4", "n5", "n6", "n7", "n8", "n9", "na", "nb", "nc", "nd", "ne", "nf", "o0", "o1", "o2", "o3", "o4", "o5"];
struct G<'r> {
    rng: &'r mut Rng,
    defaults: bool,
    wild: bool,
    budget: usize,
}
impl<'r> G<'r> {
    fn name(&mut self, avail: &[S]) -> (S, S) {
        let l = self.rng.name(LOCALS);
        if avail.is_empty() || (!self.defaults && self.rng.chance(1, 4)) {
            (if self.defaults && !avail.is_empty() { avail[0] } else { "" }, l)
        } else {
            (avail[self.rng.below(avail.len())], l)
        }
    }
    /// A node; `parent`: namespaces certainly inherited. `fixed`: its name is given.
    fn node(&mut self, depth: usize, parent: &[S], fixed: Option<(S, S)>) -> Node {
        let mut ops = vec![];
        let mut declared: Vec<S> = vec![];
        let n = [0, 0, 1, 1, 2, 3][self.rng.below(6)];
        let n = if parent.is_empty() { n.max(1) } else { n };
        for _ in 0..n {
            let p = if self.defaults && self.rng.chance(1, 3) { "" } else { self.rng.name(PREFIXES) };
            let u = self.rng.uri(URLS);
            ops.push(Op::Ns(p, u));
            declared.push(u);
        }
        let mut avail: Vec<S> = declared.clone();
        avail.extend_from_slice(parent);
        let name = match fixed { Some(n) => n, None => self.name(&avail) };
        let mut used = vec![];
        let count = [0, 0, 1, 2, 3, 5][self.rng.below(6)];
        let count = if self.rng.chance(1, 80) { self.rng.size(12, 70) } else { count };
        for j in 0..count {
            if j > 5 { ops.push(Op::Attr("", NAMES_MANY[j % NAMES_MANY.len()], self.rng.text(VALUES))); continue; }
            let k = self.rng.below(10);
            let ns = if k < 3 || avail.is_empty() { "" } else if k == 3 { XML } else { avail[self.rng.below(avail.len())] };
            if !ns.is_empty() && ns != XML { used.push(ns); }
            ops.push(Op::Attr(ns, self.rng.name(&["a", "b", "k", "a", "b", "nil", "type", "lang"]), self.rng.text(VALUES)));
        }
        let mut inherit: Vec<S> = declared.clone();
        inherit.extend(used.iter().copied());
        if !name.0.is_empty() { inherit.push(name.0); }
        if declared.is_empty() && used.is_empty() { inherit.extend_from_slice(parent); }
        inherit.sort();
        inherit.dedup();
        let mut content = vec![];
        if depth > 0 {
            for _ in 0..self.rng.below(4) {
                if self.budget == 0 { break; }
                self.budget -= 1;
                match self.rng.below(12) {
                    0 | 1 => content.push(Content::Text(self.rng.text(&["text", "a<b", " ", "&", "é", "]]>", "t\"u"]))),
                    2 => { let n = self.name(&inherit); let o = if self.rng.chance(1, 2) { Some(self.node(depth - 1, &inherit, Some(n))) } else { None }; content.push(Content::Opt(n, o)) }
                    3 | 4 => { let n = self.name(&inherit); let k = self.rng.below(4); let v = (0..k).map(|_| self.node(depth - 1, &inherit, Some(n))).collect(); content.push(Content::Many(n, v)) }
                    5 => { let n = self.name(&inherit); content.push(Content::TextField(n, self.rng.text(&["t", "", "<x>", "a & b"]))) }
                    6 if self.wild && self.rng.chance(1, 4) => content.push(Content::Fail),
                    6 if self.wild && self.rng.chance(1, 4) => { let n = self.name(&inherit); content.push(Content::Panic(n, self.rng.chance(1, 2))) }
                    _ => content.push(Content::Child(self.node(depth - 1, &inherit, None))),
                }
            }
        }
        let mode = if self.wild && self.rng.chance(1, 12) { self.rng.of(&[Mode::DropBuilder, Mode::DropWriter, Mode::DropWriterLate]) } else { self.rng.of(&[Mode::Normal, Mode::Field]) };
        Node { name, ops, content, mode, ignore: self.rng.chance(1, 2), fail_attrs: self.wild && self.rng.chance(1, 25) }
    }
}

// ------------------------------------------------------------------ checking

struct Parsed {
    evs: Vec<Ev>,
    /// per start tag: namespaces in scope
    scopes: Vec<BTreeMap<String, String>>,
    prefixes: Vec<Option<String>>,
    complete: bool,
}
fn parse(data: &[u8]) -> Parsed {
    let mut out = Parsed { evs: vec![], scopes: vec![], prefixes: vec![], complete: false };
    let mut depth = 0;
    for e in xml::reader::EventReader::new(data) {
        match e {
            Ok(XmlEvent::StartElement { name, attributes, namespace }) => {
                out.evs.push(Ev::Start(crate::docs::expanded(&name), attributes.iter().map(|a| (crate::docs::expanded(&a.name), a.value.clone())).collect()));
                out.scopes.push(namespace.0.clone());
                out.prefixes.push(name.prefix.clone());
                depth += 1;
            }
            Ok(XmlEvent::EndElement { .. }) => { out.evs.push(Ev::End); depth -= 1; if depth == 0 { out.complete = true } }
            Ok(XmlEvent::Characters(s)) | Ok(XmlEvent::CData(s)) | Ok(XmlEvent::Whitespace(s)) => {
                if let Some(Ev::Text(l)) = out.evs.last_mut() { l.push_str(&s) } else { out.evs.push(Ev::Text(s)) }
            }
            Ok(_) => {}
            Err(_) => break,
        }
    }
    out
}

/// The (prefix, URL) pairs declared literally in the `k`th start tag.
fn raw_tags(data: &str) -> Vec<(String, Vec<(String, String)>)> {
    let b: Vec<char> = data.chars().collect();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == '<' && i + 1 < b.len() && !matches!(b[i + 1], '/' | '?' | '!') {
            let mut j = i + 1;
            while j < b.len() && !matches!(b[j], ' ' | '/' | '>') { j += 1; }
            let name: String = b[i + 1..j].iter().collect();
            let mut attrs = vec![];
            while j < b.len() && b[j] != '>' {
                if matches!(b[j], ' ' | '/') { j += 1; continue; }
                let k = j;
                while j < b.len() && b[j] != '=' { j += 1; }
                let n: String = b[k..j.min(b.len())].iter().collect();
                j += 2;
                let v = j;
                while j < b.len() && b[j] != '"' { j += 1; }
                if j >= b.len() { break; }
                attrs.push((n, b[v..j].iter().collect()));
                j += 1;
            }
            out.push((name, attrs));
            i = j;
        } else {
            i += 1;
        }
    }
    out
}

fn show_node(n: &Node) -> String {
    format!("{n:?}")
}

/// The finding recorded as C10 `shadowed`: xml-rs does not re-declare a prefix that an
/// outer element bound to the same URL and one in between bound to another.
fn is_shadowed(data: &str, tag: usize) -> bool {
    // stack of literal declarations for the start tag number `tag`
    let mut depth: Vec<Vec<(String, String)>> = vec![];
    let tags = raw_tags(data);
    let b = data;
    let mut n = 0;
    let mut i = 0;
    while let Some(p) = b[i..].find('<') {
        let at = i + p;
        let rest = &b[at..];
        let end = rest.find('>').map(|e| at + e).unwrap_or(b.len() - 1);
        if rest.starts_with("</") {
            depth.pop();
        } else if !rest.starts_with("<?") && !rest.starts_with("<!") {
            let decl: Vec<(String, String)> = tags.get(n).map(|t| t.1.iter().filter(|(k, _)| k == "xmlns" || k.starts_with("xmlns:")).cloned().collect()).unwrap_or_default();
            depth.push(decl);
            if n == tag { break; }
            if b[at..=end].ends_with("/>") { depth.pop(); }
            n += 1;
        }
        i = end + 1;
    }
    // some prefix bound to A, then to B further in, and not bound again here
    let here: Vec<String> = depth.last().map(|d| d.iter().map(|x| x.0.clone()).collect()).unwrap_or_default();
    let mut seen: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for d in &depth { for (k, v) in d { seen.entry(k.clone()).or_default().push(v.clone()); } }
    seen.iter().any(|(k, v)| !here.contains(k) && v.windows(2).any(|w| w[0] != w[1]))
}

fn one(r: &mut Report, root: &Node, fail_at: Option<usize>, once: bool, short: usize, decl: bool) {
    let input = format!(
        "write {}{}{}",
        show_node(root),
        fail_at.map(|f| format!("; the output fails after {f} bytes{}", if once { " (once)" } else { "" })).unwrap_or_default(),
        if decl { "" } else { "; no declaration" }
    );
    let mut m = Model::default();
    let mres = m.element(root, root.name, Mode::Normal);
    let go = |fail_at: Option<usize>, once: bool, short: usize| {
        let st = Rc::new(RefCell::new(SinkState::default()));
        let sink = Sink { st: st.clone(), fail_at, once, short, kind: KINDS[fail_at.unwrap_or(0) % KINDS.len()] };
        LOG.with(|l| l.borrow_mut().clear());
        let res = guard(|| serialize_with_name(root, nm(root.name)).write_document_declaration(decl).to(sink));
        let log = LOG.with(|l| l.borrow().clone());
        let s = st.replace(SinkState::default());
        (res, s, log)
    };
    r.begin(&input, m.evs.len() > 2);
    let (res, full, glog) = go(None, false, usize::MAX);
    let second = fail_at.filter(|f| *f < full.data.len()).map(|f| go(Some(f), once, short));
    r.end();
    let text = String::from_utf8_lossy(&full.data).into_owned();
    let res = match res {
        Ok(r) => r,
        Err(p) => {
            r.fail(Violation { props: vec!["C08", "C09", "C10", "C17"], what: "writing panics".into(), input, expected: "no panic".into(), got: p });
            return;
        }
    };
    let success = mres.is_ok() && !m.poisoned;
    if res.is_ok() != success {
        let mut props = vec!["C08", "C17"];
        if m.dup { props.push("C09"); }
        r.fail(Violation { props, what: "result of the serialization".into(), input, expected: (if success { "success" } else { "an error" }).into(), got: format!("{res:?}: {text}") });
        return;
    }
    if glog != m.log {
        let mut k = 0;
        while k < glog.len() && k < m.log.len() && glog[k] == m.log[k] { k += 1; }
        let e = m.log.get(k).cloned().unwrap_or_default();
        let g = glog.get(k).cloned().unwrap_or_default();
        let props = if e.starts_with("attribute") || g.starts_with("attribute") { vec!["C09", "C17"] } else { vec!["C08", "C17"] };
        r.fail(Violation { props, what: format!("result of operation {k}"), input: input.clone(), expected: e, got: g });
        return;
    }
    let p = parse(&full.data);
    let last_open = !success && p.evs.len() + 1 == m.evs.len();
    let want: &[Ev] = if last_open { &m.evs[..p.evs.len()] } else { &m.evs };
    // an unfinished document may hide the tail of its last text
    let trunc = |v: &[Ev]| -> Vec<Ev> { let mut v = v.to_vec(); if !success { while matches!(v.last(), Some(Ev::Text(_))) { v.pop(); } } v };
    let (want, got) = (trunc(want), trunc(&p.evs));
    let got = if !success && want.len() < got.len() && false { vec![] } else { got };
    if want != got {
        let k = want.iter().zip(&got).take_while(|(a, b)| a == b).count();
        let (e, g) = (want.get(k), got.get(k));
        let mut props: Vec<&'static str> = vec![];
        let tag = want[..k].iter().filter(|e| matches!(e, Ev::Start(..))).count();
        match (e, g) {
            (Some(Ev::Start(en, ea)), Some(Ev::Start(gn, ga))) => {
                let locals = |a: &[((String, String), String)]| -> Vec<(String, String)> { a.iter().map(|x| (x.0 .1.clone(), x.1.clone())).collect() };
                if locals(ea) != locals(ga) { props.push("C09"); props.push("C17"); }
                if en.1 != gn.1 { props.push("C08"); props.push("C17"); }
                if props.is_empty() { props.push("C10"); }
            }
            (Some(Ev::Start(..)), None) => props.extend(["C10", "C08", "C09", "C17"]),
            _ => props.extend(["C08", "C17"]),
        }
        if (props == ["C10"] || g.is_none()) && is_shadowed(&text, tag) {
            r.seen.insert(1);
            return;
        }
        r.fail(Violation { props, what: format!("event {k} of the written document {text}"), input: input.clone(), expected: format!("{e:?}"), got: format!("{g:?}") });
        return;
    }
    if success && !p.complete {
        r.fail(Violation { props: vec!["C08"], what: "the document is not complete".into(), input: input.clone(), expected: "all elements closed".into(), got: text.clone() });
        return;
    }
    // prefixes
    let tags = raw_tags(&text);
    for (k, t) in m.tags.iter().enumerate().take(p.scopes.len()) {
        let scope = &p.scopes[k];
        let decls: Vec<(S, S)> = t.ops.iter().filter_map(|o| match o { Op::Ns(p, u) => Some((*p, *u)), _ => None }).collect();
        let attr_ns: Vec<S> = t.ops.iter().filter_map(|o| match o { Op::Attr(n, ..) if !n.is_empty() && *n != XML => Some(*n), _ => None }).collect();
        let fail = |r: &mut Report, what: &str, e: String| {
            if is_shadowed(&text, k) { return; }
            r.fail(Violation { props: vec!["C10"], what: format!("{what} in start tag {k} of {text}"), input: input.clone(), expected: e, got: format!("{:?}", tags.get(k)) });
        };
        if t.name.0.is_empty() && p.prefixes[k].is_some() {
            fail(r, "a name without namespace", "no prefix".into());
        }
        for (q, u) in &decls {
            if !scope.values().any(|v| v == u) {
                fail(r, "declared namespace dropped", format!("{u} is bound"));
            }
            if decls.iter().filter(|d| d.1 == *u).any(|d| d.0 != *q) || t.name.0 == *u && k > 0 { continue; }
            let bound = scope.get(*q).map(|s| s.as_str());
            if bound == Some(*u) { continue; }
            let unsuitable = q.is_empty() && attr_ns.contains(u);
            let taken = bound.map(|b| b != "" && (decls.iter().any(|d| d.1 == b) || attr_ns.contains(&b) || t.name.0 == b)).unwrap_or(false);
            if !unsuitable && !taken {
                fail(r, &format!("requested prefix {q:?} for {u} is free and suitable"), format!("{q:?} bound to {u}"));
            }
        }
        // every binding literally in this start tag has its own prefix
        if let Some((_, attrs)) = tags.get(k) {
            let mut names: Vec<&String> = attrs.iter().map(|a| &a.0).collect();
            names.sort();
            let n = names.len();
            names.dedup();
            if names.len() != n { fail(r, "duplicate attribute or declaration", "each once".into()); }
        }
    }
    // failing output
    if let Some((res2, st, _)) = second {
        match res2 {
            Err(p) => r.fail(Violation { props: vec!["C08"], what: "writing panics".into(), input, expected: "no panic".into(), got: p }),
            Ok(Ok(())) => r.fail(Violation { props: vec!["C08"], what: "the output failed".into(), input, expected: "an error".into(), got: "success".into() }),
            Ok(Err(e)) => {
                if success && !e.0.contains("disk full") {
                    r.fail(Violation { props: vec!["C08"], what: "the first failure is the one returned".into(), input, expected: "the output's error: disk full".into(), got: e.0 });
                } else if !st.after.is_empty() {
                    r.fail(Violation { props: vec!["C08"], what: "written after a failure".into(), input, expected: "nothing".into(), got: show(&st.after) });
                } else if !full.data.starts_with(&st.data) {
                    r.fail(Violation { props: vec!["C08"], what: "written before the failure".into(), input, expected: text, got: show(&st.data) });
                }
            }
        }
    }
}
fn show(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into_owned()
}

// ----------------------------------------------- C17: attributes and text values

struct T(Result<S, S>);
impl ToText for T {
    fn to_text(&self) -> Result<String, Error> {
        log(format!("to_text {:?}", self.0));
        match self.0 { Ok(s) => Ok(s.into()), Err(e) => Err(Error(e.into())) }
    }
}
struct A(Vec<Option<T>>, bool);
const NAMES: &[S] = &["a0", "a1", "a2", "a3", "a4", "a5"];
impl Serialize for A {
    fn write_attributes(&self, b: &mut ElementBuilder) -> Result<(), Error> {
        for (i, o) in self.0.iter().enumerate() {
            match o {
                Some(t) if self.1 => SerializeAttr::write(t, b, nm(("", NAMES[i])))?,
                o => SerializeAttr::write(o, b, nm(("", NAMES[i])))?,
            }
        }
        Ok(())
    }
}
struct F(Vec<T>, usize);
impl Serialize for F {
    fn write_children(&self, w: &mut ElementWriter) -> Result<(), Error> {
        match self.1 {
            0 => SerializeField::write(&self.0, w, nm(("", "f"))),
            1 => { for t in &self.0 { SerializeField::write(t, w, nm(("", "f")))?; } Ok(()) }
            _ => { for t in &self.0 { SerializeField::write(&Some(T(t.0)), w, nm(("", "f")))?; SerializeField::write(&None::<T>, w, nm(("", "f")))?; } Ok(()) }
        }
    }
}
/// An item without any data, and one that is large.
struct Z;
impl Serialize for Z {}
struct Large([u64; 40]);
impl ToText for Large {
    fn to_text(&self) -> Result<String, Error> { Ok(format!("{}", self.0[39])) }
}
struct Lists(Vec<Z>, Vec<Large>, Vec<Option<Z>>);
impl Serialize for Lists {
    fn write_children(&self, w: &mut ElementWriter) -> Result<(), Error> {
        SerializeField::write(&self.0, w, nm(("", "z")))?;
        SerializeField::write(&self.1, w, nm(("", "l")))?;
        for o in &self.2 { SerializeField::write(o, w, nm(("", "o")))?; }
        Ok(())
    }
}
fn lists(r: &mut Report, rng: &mut Rng, n: usize) {
    let v = Lists((0..n).map(|_| Z).collect(), (0..n as u64).map(|i| Large([i; 40])).collect(), (0..n).map(|_| if rng.chance(1, 2) { Some(Z) } else { None }).collect());
    let some = v.2.iter().filter(|o| o.is_some()).count();
    let input = format!("lists of {n} items without data, {n} with data, {some} of {n} optional ones");
    r.begin(&input, n > 0);
    let got = guard(|| serialize_with_name(&v, nm(("", "r"))).write_document_declaration(false).to_string().unwrap_or_else(|e| format!("error {}", e.0))).unwrap_or_else(|e| e);
    r.end();
    let mut want = "<r>".to_owned();
    for _ in 0..n { want.push_str("<z></z>"); }
    for i in 0..n { want.push_str(&format!("<l>{i}</l>")); }
    for _ in 0..some { want.push_str("<o></o>"); }
    want.push_str("</r>");
    let flat = |s: &str| format!("{:?}", parse(s.as_bytes()).evs);
    r.check(&["C17"], "lists", &input, &flat(&want), &flat(&got));
}
fn fields(r: &mut Report, rng: &mut Rng) {
    let n = rng.below(6);
    let fail = rng.chance(1, 2);
    let gen = |rng: &mut Rng| T(if fail && rng.chance(1, 6) { Err(rng.of(&["e1", "e2"])) } else { Ok(rng.pick(VALUES)) });
    let a = A((0..n).map(|_| if rng.chance(1, 3) { None } else { Some(gen(rng)) }).collect(), rng.chance(1, 2));
    let input = format!("attributes {:?} required: {}", a.0.iter().map(|t| t.as_ref().map(|t| t.0)).collect::<Vec<_>>(), a.1);
    LOG.with(|l| l.borrow_mut().clear());
    r.begin(&input, n > 0);
    let got = guard(|| serialize_with_name(&a, nm(("", "r"))).to_string());
    r.end();
    let mut want = vec![];
    let mut elog = vec![];
    let mut err = None;
    for (i, o) in a.0.iter().enumerate() {
        if let Some(t) = o {
            elog.push(format!("to_text {:?}", t.0));
            match t.0 { Ok(v) => want.push(((String::new(), NAMES[i].to_owned()), v.to_owned())), Err(e) => { err = Some(e); break } }
        }
    }
    let show = |r: &Result<Result<String, Error>, String>| match r { Ok(Ok(s)) => format!("{:?}", parse(s.as_bytes()).evs), Ok(Err(e)) => format!("error {}", e.0), Err(p) => p.clone() };
    let exp = match err { Some(e) => format!("error {e}"), None => format!("{:?}", vec![Ev::Start(("".into(), "r".into()), want), Ev::End]) };
    r.check(&["C17"], "attributes", &input, &format!("{exp} after {elog:?}"), &format!("{} after {:?}", show(&got), LOG.with(|l| l.borrow().clone())));

    let f = F((0..n).map(|_| gen(rng)).collect(), rng.below(3));
    let input = format!("text fields {:?} as {}", f.0.iter().map(|t| t.0).collect::<Vec<_>>(), ["Vec<T>", "T", "Option<T>"][f.1]);
    LOG.with(|l| l.borrow_mut().clear());
    r.begin(&input, n > 0);
    let got = guard(|| serialize_with_name(&f, nm(("", "r"))).to_string());
    r.end();
    let mut want = vec![Ev::Start(("".into(), "r".into()), vec![])];
    let mut elog = vec![];
    let mut err = None;
    for t in &f.0 {
        elog.push(format!("to_text {:?}", t.0));
        match t.0 {
            Ok(v) => {
                want.push(Ev::Start(("".into(), "f".into()), vec![]));
                if !v.is_empty() { want.push(Ev::Text(v.to_owned())); }
                want.push(Ev::End);
            }
            Err(e) => { err = Some(e); break }
        }
    }
    want.push(Ev::End);
    let exp = match err { Some(e) => format!("error {e}"), None => format!("{want:?}") };
    r.check(&["C17"], "text fields", &input, &format!("{exp} after {elog:?}"), &format!("{} after {:?}", show(&got), LOG.with(|l| l.borrow().clone())));
}

pub fn run(r: &mut Report, rng: &mut Rng, prop: &str) {
    let leaf = |name: (S, S), mode: Mode| Node { name, ops: vec![], content: vec![], mode, ignore: false, fail_attrs: false };
    // one child at each depth misbehaving, errors ignored or not, all output failures
    for mode in [Mode::Normal, Mode::Field, Mode::DropBuilder, Mode::DropWriter, Mode::DropWriterLate] {
        for ignore in [false, true] {
            for where_ in 0..3 {
                let mut c = leaf(("", "c"), mode);
                c.content = vec![Content::Text("in"), Content::Child(leaf(("", "g"), if where_ == 2 { mode } else { Mode::Normal }))];
                if where_ == 2 { c.mode = Mode::Normal; }
                let mut root = leaf(("", "r"), Mode::Normal);
                root.ignore = ignore;
                c.ignore = ignore;
                root.content = vec![Content::Text("a"), Content::Child(c), Content::Text("b"), Content::Child(leaf(("", "d"), Mode::Normal))];
                if where_ == 0 { root.content.remove(0); }
                for f in 0..120usize {
                    one(r, &root, Some(f), f % 2 == 0, if f % 3 == 0 { 1 } else { 1000 }, f % 5 != 0);
                }
                if r.violation.is_some() { return; }
            }
        }
    }
    // every small sequence of attributes
    for a in 0..4usize { for b in 0..4usize { for c in 0..4usize { for ig in [false, true] {
        let at = |k: usize, v: S| Op::Attr(["", "urn:a", "urn:a", "urn:b"][k], ["x", "x", "y", "x"][k], v);
        let mut root = leaf(("urn:a", "r"), Mode::Normal);
        root.ignore = ig;
        root.ops = vec![Op::Ns("", "urn:a"), Op::Ns("p", "urn:b"), at(a, "1"), at(b, "2"), at(c, "3")];
        one(r, &root, None, false, 1000, true);
    } } } }
    // many namespaces that ask for one prefix, at one element and at nested ones
    if ["C08", "C09", "C10", "C11"].contains(&prop) {
        let leak = |s: String| -> S { Box::leak(s.into_boxed_str()) };
        let mut sizes = vec![2usize, 3, 11, 17, 45, 70, 300];
        sizes.extend(dict().nums.iter().copied().filter(|n| *n <= 3000).take(40));
        for n in sizes {
            for p in ["p", "", "p1", "a-b.c_"] {
                let us: Vec<S> = (0..n).map(|i| leak(format!("urn:k{i}"))).collect();
                let mut root = leaf((us[0], "r"), Mode::Normal);
                for u in &us { root.ops.push(Op::Ns(p, u)); }
                for (i, u) in us.iter().enumerate() { if i % 2 == 0 { root.ops.push(Op::Attr(u, "x", "1")); } }
                if n <= 20 {
                    let mut c = leaf((us[n - 1], "c"), Mode::Normal);
                    c.ops = root.ops.iter().rev().cloned().collect();
                    root.content.push(Content::Child(c));
                }
                one(r, &root, None, false, 1000, true);
                if r.violation.is_some() { return; }
            }
        }
    }
    if prop == "C17" {
        for n in [0usize, 1, 2, 3, 17, 40, 300].into_iter().chain(dict().nums.iter().copied()) { lists(r, rng, n); }
    }
    while r.more() {
        for _ in 0..20 {
            let defaults = rng.chance(1, 2);
            let wild = prop == "C08" && rng.chance(2, 3) || rng.chance(1, 4);
            let depth = 1 + rng.below(4);
            let root = G { rng, defaults, wild, budget: 12 }.node(depth, &[], None);
            let f = if rng.chance(1, 3) { Some(rng.below(400)) } else { None };
            one(r, &root, f, rng.chance(1, 2), rng.of(&[1, 5, 1000]), rng.chance(3, 4));
            if prop == "C17" { for _ in 0..5 { fields(r, rng); } }
        }
    }
}
