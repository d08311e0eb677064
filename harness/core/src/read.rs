//! C02-C05, C11: the real reader under arbitrary handlers against an
//! interpretation of the event sequence.
use crate::docs::*;
use crate::util::*;
use static_xml::de::{Deserialize, ElementReader, ElementVisitor, Error, VisitorError};
use static_xml::ExpandedNameRef;
use std::cell::RefCell;
use xml::common::TextPosition;
use xml::reader::XmlEvent;

/// Decisions of the handlers, in the order in which they are called.
#[derive(Clone)]
pub struct Plan {
    pub rng: Rng,
    pub fail: (usize, usize),
    pub style: usize,
    /// errors of children are passed up, never swallowed
    pub strict: bool,
    /// how often (1 in n, 0: never) a handler reads another document and passes its error up
    pub nested: usize,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Answer {
    Pass,
    Take,
    Fail(u64),
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum How {
    Drop,
    Pass,
    FailFirst(u64),
    ReadTo,
    ReadString,
    /// the error of reading another document
    Nested(usize),
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Then {
    Propagate,
    Swallow,
    Fail(u64),
}

impl Plan {
    fn answer(&mut self) -> Answer {
        if self.rng.chance(self.fail.0, self.fail.1) {
            Answer::Fail(self.rng.next() % 1000)
        } else if self.rng.chance(1, 2) {
            Answer::Pass
        } else {
            Answer::Take
        }
    }
    fn how(&mut self) -> How {
        if self.rng.chance(self.fail.0, self.fail.1 * 2) {
            return How::FailFirst(self.rng.next() % 1000);
        }
        if self.nested > 0 && self.rng.chance(1, self.nested) {
            return How::Nested(self.rng.below(NESTED.len()));
        }
        let k = self.rng.below(20);
        match self.style {
            0 => match k { 0 => How::Drop, 1 => How::Pass, 2 => How::ReadString, _ => How::ReadTo },
            3 => How::ReadTo,
            1 => match k { 0..=4 => How::Drop, 5..=9 => How::Pass, 10 => How::ReadString, _ => How::ReadTo },
            _ => match k { 0..=2 => How::Drop, 3..=4 => How::Pass, 5..=9 => How::ReadString, _ => How::ReadTo },
        }
    }
    fn then(&mut self) -> Then {
        if self.rng.chance(self.fail.0, self.fail.1 * 2) {
            return Then::Fail(self.rng.next() % 1000);
        }
        if self.rng.chance(1, 2) || self.strict { Then::Propagate } else { Then::Swallow }
    }
}

struct Ctx {
    plan: Plan,
    log: Vec<String>,
}
thread_local! { static CTX: RefCell<Option<Ctx>> = RefCell::new(None); }
fn with<T>(f: impl FnOnce(&mut Ctx) -> T) -> T {
    CTX.with(|c| f(c.borrow_mut().as_mut().unwrap()))
}

#[derive(Debug)]
struct Boom(u64);
impl std::fmt::Display for Boom {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "boom {}", self.0)
    }
}
impl std::error::Error for Boom {}
fn boom(k: u64) -> static_xml::BoxedStdError {
    Box::new(Boom(k))
}

fn show_name(n: &ExpandedNameRef) -> String {
    format!("{{{}}}{}", n.namespace, n.local_name)
}
fn show_ns(n: &xml::namespace::Namespace) -> String {
    format!("{:?}", n.0)
}
fn show_result<T: std::fmt::Debug>(r: &Result<T, VisitorError>) -> String {
    match r {
        Ok(v) => format!("Ok({v:?})"),
        Err(VisitorError::Propagate(e)) => format!("Err({})", show_error(e)),
        Err(VisitorError::Wrap(e)) => format!("Err(unwrapped {e})"),
    }
}
/// Everything observable about an error: its printed form and its stack.
pub fn show_error(e: &Error) -> String {
    let d = format!("{e}");
    let (head, rest) = match d.find("\n\nXML element stack:\n") {
        Some(i) => (&d[..i], &d[i..]),
        None => (&d[..], ""),
    };
    let (msg, pos) = head.rsplit_once(" @ ").unwrap_or((head, "?"));
    let msg = if msg.starts_with("boom") || XMLMSG.with(|m| *m.borrow() == msg) {
        msg.to_owned()
    } else if let Some(i) = msg.strip_prefix("Unexpected element ").and_then(|m| m.strip_suffix(" in string")) {
        format!("unexpected element {i}")
    } else {
        "(message)".to_owned()
    };
    let st: Vec<String> = e.stack().iter().map(|s| format!("{:?}@{}", s.name, s.pos)).collect();
    format!("{msg} at {pos}; stack {}; printed {}", st.join("/"), rest.trim())
}
thread_local! { pub static XMLMSG: RefCell<String> = RefCell::new(String::new()); }

/// Other documents whose errors a handler passes up; they carry their own context.
const NESTED: &[&str] = &["", "x", "<a", "<q><r>", "<a><b></a>", "<!-- c -->", "<a/><b/>", "<deep><er>x</er></deep>", "<at b='1'/>", "<a>&nope;</a>"];
struct Picky;
impl ElementVisitor for Picky {
    fn attribute(&mut self, _: &ExpandedNameRef<'_>, _: String) -> Result<Option<String>, VisitorError> {
        Err(VisitorError::Wrap(boom(7)))
    }
    fn element<'a>(&mut self, child: ElementReader<'a>) -> Result<Option<ElementReader<'a>>, VisitorError> {
        child.read_to(&mut Picky)?;
        Ok(None)
    }
    fn characters(&mut self, _: String, _: TextPosition) -> Result<Option<String>, static_xml::BoxedStdError> {
        Err(boom(8))
    }
}
#[derive(Debug)]
struct Nested;
impl Deserialize for Nested {
    fn deserialize(element: ElementReader<'_>) -> Result<Self, VisitorError> {
        element.read_to(&mut Picky)?;
        Ok(Nested)
    }
}
fn nested(k: usize) -> Error {
    let try_ = |d: &str| static_xml::de::from_str::<Nested>(d).err();
    try_(NESTED[k]).or_else(|| NESTED.iter().find_map(|d| try_(d))).expect("some document fails")
}
/// All of an error that already has context.
fn whole(e: &Error) -> String {
    use std::error::Error as _;
    let mut d = format!("{}; {e}", show_error(e));
    let mut s = e.source();
    while let Some(x) = s {
        d.push_str(&format!("; source {x}"));
        s = x.source();
    }
    d
}

struct V;
impl ElementVisitor for V {
    fn attribute(&mut self, name: &ExpandedNameRef<'_>, value: String) -> Result<Option<String>, VisitorError> {
        let a = with(|c| {
            c.log.push(format!("call attribute {} = {:?}", show_name(name), value));
            c.plan.answer()
        });
        match a {
            Answer::Pass => Ok(Some(value)),
            Answer::Take => Ok(None),
            Answer::Fail(k) => Err(VisitorError::Wrap(boom(k))),
        }
    }
    fn element<'a>(&mut self, child: ElementReader<'a>) -> Result<Option<ElementReader<'a>>, VisitorError> {
        handle(child).map(|(c, _)| c)
    }
    fn characters(&mut self, s: String, pos: TextPosition) -> Result<Option<String>, static_xml::BoxedStdError> {
        let a = with(|c| {
            c.log.push(format!("call characters {s:?} @ {pos}"));
            c.plan.answer()
        });
        match a {
            Answer::Pass => Ok(Some(s)),
            Answer::Take => Ok(None),
            Answer::Fail(k) => Err(boom(k)),
        }
    }
}

fn handle<'a>(child: ElementReader<'a>) -> Result<(Option<ElementReader<'a>>, bool), VisitorError> {
    let how = with(|c| {
        c.log.push(format!(
            "call element {} name {:?} depth {} ns {}",
            show_name(&child.expanded_name()),
            child.name().to_owned(),
            child.depth(),
            show_ns(child.namespace())
        ));
        c.plan.how()
    });
    let result: Result<String, VisitorError> = match how {
        How::Drop => return Ok((None, false)),
        How::Pass => return Ok((Some(child), false)),
        How::FailFirst(k) => return Err(VisitorError::Wrap(boom(k))),
        How::Nested(k) => return Err(nested(k).into()),
        How::ReadTo => child.read_to(&mut V).map(|(n, ns, p)| format!("end {:?} ns {} @ {}", n, show_ns(&ns), p)),
        How::ReadString => child.read_string().map(|s| format!("string {s:?}")),
    };
    let then = with(|c| {
        c.log.push(format!("done {}", show_result(&result)));
        c.plan.then()
    });
    match then {
        Then::Propagate => {
            result?;
            Ok((None, true))
        }
        Then::Swallow => Ok((None, true)),
        Then::Fail(k) => Err(VisitorError::Wrap(boom(k))),
    }
}

#[derive(Debug)]
struct Root;
impl Deserialize for Root {
    fn deserialize(element: ElementReader<'_>) -> Result<Self, VisitorError> {
        handle(element).map(|_| Root)
    }
}

// ---------------------------------------------------------------- the oracle

#[derive(Clone, Debug)]
enum E {
    Wrap(u64),
    Ctx(String),
}
struct Sim<'s> {
    s: &'s Src,
    i: usize,
    /// the end tag just delivered is still on the stack
    untrimmed: bool,
    plan: Plan,
    log: Vec<String>,
    xml_error: bool,
    /// the whole of the last error taken from another document
    nested: Option<String>,
}
enum Ev {
    Start,
    End,
    Text(String),
}
impl<'s> Sim<'s> {
    fn stack(&self) -> &'s [El] {
        let i = self.i.min(self.s.evs.len());
        if self.untrimmed { &self.s.open[i - 1] } else { &self.s.open[i] }
    }
    fn ctx(msg: &str, pos: TextPosition, stack: &[El]) -> E {
        let st: Vec<String> = stack.iter().map(|s| format!("{:?}@{}", s.name, s.pos)).collect();
        let mut printed = String::new();
        if !stack.is_empty() {
            printed.push_str("XML element stack:\n");
            for (i, s) in stack.iter().enumerate().rev() {
                printed.push_str(&format!("{:4x}: <{}> @ {}\n", i, s.name.borrow().repr_display(), s.pos));
            }
        }
        E::Ctx(format!("{msg} at {pos}; stack {}; printed {}", st.join("/"), printed.trim()))
    }
    fn xml(&mut self) -> E {
        let (m, p) = self.s.err.clone().unwrap_or(("(no error)".into(), self.s.last));
        self.i = self.s.evs.len() + 1;
        self.untrimmed = false;
        self.xml_error = true;
        Self::ctx(&m, p, self.s.open.last().unwrap())
    }
    fn next(&mut self) -> Result<Ev, E> {
        self.untrimmed = false;
        while self.i < self.s.evs.len() {
            self.i += 1;
            match &self.s.evs[self.i - 1] {
                XmlEvent::StartElement { .. } => return Ok(Ev::Start),
                XmlEvent::EndElement { .. } => {
                    self.untrimmed = true;
                    return Ok(Ev::End);
                }
                XmlEvent::Characters(s) | XmlEvent::CData(s) | XmlEvent::Whitespace(s) => return Ok(Ev::Text(s.clone())),
                _ => {}
            }
        }
        Err(self.xml())
    }
    fn wrap(&self, e: E, pos: TextPosition, stack: &[El]) -> E {
        match e {
            E::Wrap(k) => Self::ctx(&format!("boom {k}"), pos, stack),
            e => e,
        }
    }
    fn skip_to(&mut self, d: usize) -> Result<(), E> {
        self.untrimmed = false;
        while self.s.depth(self.i) > d {
            if self.i >= self.s.evs.len() {
                return Err(self.xml());
            }
            self.i += 1;
        }
        Ok(())
    }
    fn read_to(&mut self) -> Result<String, E> {
        let i0 = self.i;
        let d = self.s.depth(i0);
        let (name, attributes, namespace) = match &self.s.evs[i0 - 1] {
            XmlEvent::StartElement { name, attributes, namespace } => (name, attributes, namespace),
            _ => unreachable!(),
        };
        for a in attributes {
            let (ns, l) = expanded(&a.name);
            self.log.push(format!("call attribute {{{ns}}}{l} = {:?}", a.value));
            if let Answer::Fail(k) = self.plan.answer() {
                return Err(self.wrap(E::Wrap(k), self.s.pos[i0], &self.s.open[i0]));
            }
        }
        loop {
            match self.next()? {
                Ev::Start => {
                    let pos = self.s.pos[self.i];
                    if let Err(e) = self.handle() {
                        return Err(self.wrap(e, pos, self.stack()));
                    }
                    self.skip_to(d)?;
                }
                Ev::End => return Ok(format!("end {:?} ns {} @ {}", name, show_ns(namespace), self.s.pos[self.i])),
                Ev::Text(s) => {
                    let pos = self.s.pos[self.i];
                    self.log.push(format!("call characters {s:?} @ {pos}"));
                    if let Answer::Fail(k) = self.plan.answer() {
                        return Err(self.wrap(E::Wrap(k), pos, &self.s.open[self.i]));
                    }
                }
            }
        }
    }
    fn read_string(&mut self) -> Result<String, E> {
        let mut out = String::new();
        loop {
            match self.next()? {
                Ev::Start => {
                    let name = match &self.s.evs[self.i - 1] {
                        XmlEvent::StartElement { name, .. } => name,
                        _ => unreachable!(),
                    };
                    return Err(Self::ctx(&format!("unexpected element {name}"), self.s.pos[self.i], &self.s.open[self.i]));
                }
                Ev::End => return Ok(format!("string {out:?}")),
                Ev::Text(s) => out.push_str(&s),
            }
        }
    }
    fn handle(&mut self) -> Result<(), E> {
        let (name, namespace) = match &self.s.evs[self.i - 1] {
            XmlEvent::StartElement { name, namespace, .. } => (name, namespace),
            _ => unreachable!(),
        };
        let (ns, l) = expanded(name);
        self.log.push(format!("call element {{{ns}}}{l} name {:?} depth {} ns {}", name, self.s.depth(self.i), show_ns(namespace)));
        let r = match self.plan.how() {
            How::Drop | How::Pass => return Ok(()),
            How::FailFirst(k) => return Err(E::Wrap(k)),
            How::Nested(k) => {
                let e = nested(k);
                self.nested = Some(whole(&e));
                return Err(E::Ctx(show_error(&e)));
            }
            How::ReadTo => self.read_to(),
            How::ReadString => self.read_string(),
        };
        self.log.push(match &r {
            Ok(v) => format!("done Ok({v:?})"),
            Err(E::Ctx(e)) => format!("done Err({e})"),
            Err(E::Wrap(k)) => format!("done Err(unwrapped boom {k})"),
        });
        match self.plan.then() {
            Then::Propagate => r.map(|_| ()),
            Then::Swallow => Ok(()),
            Then::Fail(k) => Err(E::Wrap(k)),
        }
    }
    fn root_start(&mut self) -> Result<(), E> {
        // the document's start, then the root's start tag
        if self.s.evs.is_empty() {
            let e = self.xml();
            return Err(e);
        }
        self.i = 1;
        if !matches!(self.s.evs[0], XmlEvent::StartDocument { .. }) {
            return Err(E::Ctx("(no document start)".into()));
        }
        match self.next()? {
            Ev::Start => Ok(()),
            _ => Err(E::Ctx("(no root element)".into())),
        }
    }
    fn rest(&mut self) -> Result<(), E> {
        self.skip_to(0)?;
        while self.i < self.s.evs.len() {
            match &self.s.evs[self.i] {
                XmlEvent::Comment(_) | XmlEvent::ProcessingInstruction { .. } => self.i += 1,
                e => return Err(E::Ctx(format!("(trailing {e:?})"))),
            }
        }
        if self.s.err.is_some() {
            return Err(self.xml());
        }
        Ok(())
    }
    fn read(&mut self) -> Result<(), E> {
        self.root_start()?;
        if let Err(e) = self.handle() {
            return Err(self.wrap(e, self.s.pos_at(self.i), self.stack()));
        }
        self.rest()
    }
}

pub struct Case {
    pub doc: Vec<u8>,
    pub fail_at: Option<usize>,
    pub kind: std::io::ErrorKind,
    /// the source works again after having failed once
    pub once: bool,
    pub chunk: usize,
    pub plan: Plan,
}
const KINDS: &[std::io::ErrorKind] = {
    use std::io::ErrorKind::*;
    // not Interrupted: the XML parser tries again by itself
    &[Other, WouldBlock, TimedOut, UnexpectedEof, ConnectionReset, ConnectionAborted, BrokenPipe, NotConnected, InvalidData, InvalidInput, PermissionDenied, NotFound, WriteZero, Unsupported, OutOfMemory]
};

pub fn gen_case(rng: &mut Rng, text_heavy: bool) -> Case {
    let mut g = Gen { rng: Rng::new(rng.next()), depth: 1 + rng.below(5), text_heavy };
    let mut doc = g.document();
    let doc_deep = doc.len() > 300 && rng.chance(1, 2);
    let broken = rng.chance(2, 5);
    let mut fail_at = None;
    if broken {
        if rng.chance(1, 5) {
            fail_at = Some(rng.below(doc.len() + 1));
        } else {
            doc = g.mutate(doc);
        }
    }
    let fail = if doc_deep { rng.of(&[(0, 1), (1, 1000), (1, 200)]) } else { rng.of(&[(0, 1), (0, 1), (1, 40), (1, 12), (1, 5)]) };
    let once = fail_at.is_some() && rng.chance(1, 2);
    Case {
        doc,
        fail_at,
        kind: rng.of(KINDS),
        once,
        chunk: rng.of(&[1, 7, 100000]),
        plan: Plan { rng: Rng::new(rng.next()), fail, style: if doc_deep { 3 } else { rng.below(3) }, strict: once, nested: if doc_deep { 0 } else { rng.of(&[0, 0, 20, 6]) } },
    }
}

fn class(exp: &str, got: &str) -> Vec<&'static str> {
    let string = exp.contains("string") || got.contains("string") || exp.contains("unexpected element") || got.contains("unexpected element");
    let (ee, ge) = (exp.contains("Err("), got.contains("Err("));
    let mut p: Vec<&'static str> = vec![];
    if exp.starts_with("done") && got.starts_with("done") {
        if ee && ge {
            p.push("C04");
            if string { p.push("C05"); }
            let m = |s: &str| s.split(" at ").next().unwrap_or("").to_owned();
            if m(exp) != m(got) { p.push("C03"); p.push("C02"); }
        } else if ee != ge {
            p.extend(["C02", "C03"]);
            if string { p.push("C05"); }
        } else if string {
            p.extend(["C05", "C02"]);
        } else {
            p.push("C02");
            p.push("C11");
        }
    } else {
        p.push("C02");
        if exp.starts_with("call") && got.starts_with("call") { p.push("C11"); }
        if string { p.push("C05"); }
    }
    p
}

pub fn one(r: &mut Report, case: &Case) {
    let mut src = Source::new(case.doc.clone(), case.fail_at, case.chunk);
    src.kind = case.kind;
    src.once = case.once;
    let s2 = src.clone();
    let Ok(Some(s)) = guard(move || Src::of(s2)) else { return };
    let input = format!(
        "document {}{}{}; handlers: seed {:#x}, failing {}/{}, style {}{}{}",
        show(&case.doc),
        if case.fail_at.is_none() && case.plan.rng.0 % 3 == 0 { " (by from_str)" } else { "" },
        case.fail_at.map(|f| format!(" (the source fails{} with {:?} after {f} bytes)", if case.once { " once" } else { "" }, case.kind)).unwrap_or_default(),
        case.plan.rng.0, case.plan.fail.0, case.plan.fail.1, case.plan.style,
        if case.plan.strict { ", passing errors up" } else { "" },
        if case.plan.nested > 0 { format!(", errors of other documents 1/{}", case.plan.nested) } else { String::new() }
    );
    XMLMSG.with(|m| *m.borrow_mut() = s.err.as_ref().map(|e| e.0.clone()).unwrap_or("\0".into()));
    let mut sim = Sim { s: &s, i: 0, untrimmed: false, plan: case.plan.clone(), log: vec![], xml_error: false, nested: None };
    let exp = sim.read();
    r.begin(&input, s.evs.len() > 3);
    CTX.with(|c| *c.borrow_mut() = Some(Ctx { plan: case.plan.clone(), log: vec![] }));
    // a document at hand whole may be given as a string
    let text = if case.fail_at.is_none() && case.plan.rng.0 % 3 == 0 { std::str::from_utf8(&case.doc).ok() } else { None };
    let got = guard(|| match text {
        Some(t) => static_xml::de::from_str::<Root>(t),
        None => static_xml::de::read::<_, Root>(src),
    });
    r.end();
    let log = CTX.with(|c| c.borrow_mut().take().unwrap().log);
    let got = match got {
        Err(p) => {
            r.fail(Violation { props: vec!["C02", "C03", "C04"], what: "reading panics".into(), input, expected: "no panic".into(), got: p });
            return;
        }
        Ok(g) => g,
    };
    for k in 0..log.len().max(sim.log.len()) {
        let (e, g) = (sim.log.get(k).map(|s| s.as_str()).unwrap_or("(nothing)"), log.get(k).map(|s| s.as_str()).unwrap_or("(nothing)"));
        if e != g {
            r.fail(Violation { props: class(e, g), what: format!("step {k} of what the handlers saw"), input: input.clone(), expected: e.into(), got: g.into() });
            return;
        }
    }
    let (e, g) = (
        match &exp { Ok(()) => "Ok".to_owned(), Err(E::Ctx(e)) => format!("Err({e})"), Err(E::Wrap(_)) => "?".into() },
        match &got { Ok(_) => "Ok".to_owned(), Err(e) => format!("Err({})", show_error(e)) },
    );
    let e = if e.starts_with("Err((") && got.is_err() { g.clone() } else { e };
    if e != g {
        let mut p = vec![];
        if exp.is_ok() != got.is_ok() || sim.xml_error { p.push("C03"); }
        if exp.is_ok() != got.is_ok() { p.push("C02"); }
        if exp.is_err() && got.is_err() { p.push("C04"); }
        r.fail(Violation { props: p, what: "result of read".into(), input, expected: e, got: g });
        return;
    }
    // the last error taken from another document, if it is what came out
    if let (Err(e), Some(w), Err(E::Ctx(c))) = (&got, &sim.nested, &exp) {
        if w.starts_with(c.as_str()) && *w != whole(e) {
            r.fail(Violation { props: vec!["C04"], what: "an error passed up unchanged".into(), input, expected: w.clone(), got: whole(e) });
        }
    }
}

/// C05 through the typed API: a text element as root.
pub fn text_root(r: &mut Report, rng: &mut Rng) {
    let mut g = Gen { rng: Rng::new(rng.next()), depth: 1, text_heavy: true };
    let mut inner = String::new();
    g.content(rng.below(2), &[], &mut inner);
    let doc = format!("<r>{inner}</r>");
    let Ok(Some(s)) = guard(|| Src::of(Source::new(doc.clone().into_bytes(), None, 100000))) else { return };
    if s.err.is_some() {
        return;
    }
    let mut want = String::new();
    let mut child = None;
    for (i, e) in s.evs.iter().enumerate() {
        match e {
            XmlEvent::Characters(t) | XmlEvent::CData(t) | XmlEvent::Whitespace(t) if s.depth(i) == 1 => want.push_str(t),
            XmlEvent::StartElement { name, .. } if s.depth(i) == 1 && child.is_none() => child = Some(name.to_string()),
            _ => {}
        }
    }
    let input = format!("read::<String> of {doc}");
    r.begin(&input, s.evs.len() > 3);
    let got = guard(|| static_xml::de::from_str::<String>(&doc));
    r.end();
    match (child, got) {
        (_, Err(p)) => r.fail(Violation { props: vec!["C05", "C03"], what: "reading panics".into(), input, expected: "no panic".into(), got: p }),
        (None, Ok(Ok(t))) => r.check(&["C05"], "text of the element", &input, &esc(&want), &esc(&t)),
        (None, Ok(Err(e))) => r.check(&["C05"], "text of the element", &input, &esc(&want), &format!("error: {e}")),
        (Some(c), Ok(Ok(t))) => r.check(&["C05"], "a child element in a text element", &input, &format!("an error naming {c}"), &esc(&t)),
        (Some(c), Ok(Err(e))) => {
            let d = e.to_string();
            let head = d.split("\n\n").next().unwrap_or("").to_owned();
            if !head.contains(&c) {
                r.check(&["C05"], "a child element in a text element", &input, &format!("an error naming {c}"), &d);
            }
        }
    }
}

pub fn run(r: &mut Report, rng: &mut Rng, text: bool) {
    for d in NESTED {
        let input = format!("document {d}, read by handlers that refuse attributes and text");
        r.begin(&input, true);
        let got = guard(|| static_xml::de::from_str::<Nested>(d));
        r.end();
        if !matches!(got, Ok(Err(_))) {
            r.fail(Violation { props: vec!["C03", "C02"], what: "result of read".into(), input, expected: "an error".into(), got: format!("{got:?}") });
            return;
        }
    }
    // the shapes the tests never try, first
    for d in ["<a><b><c/></b><d/></a>", "<a/>", "<a><b/><b>x<c>y</c>z</b><b/></a>", "<a>  </a>", "<a>x<![CDATA[y]]> <!-- c -->z</a>",
              "<a><b><c><d><e/></d></c></b></a>", "<a", "", "<a></b>", "<a/><b/>", "<a/>x", "x<a/>", "<a/>\0", "<a>x</a>\0\0", "\u{feff}<a/>", "<a/>\n", "<a/> \t", " <a/>", "<a/>\u{a0}", "<a/>;", "<a/>\n\nb", "<a>x&#13;<![CDATA[\ny]]></a>","<a>x\r</a>", "<a>", "<a><b></a>", "<a/><!-- x", "<?xml version=\"1.0\"?>"] {
        for k in 0..60u64 {
            for style in 0..3 {
                let fail = [(0, 1), (1, 4), (1, 2)][(k % 3) as usize];
                one(r, &Case { doc: d.as_bytes().to_vec(), fail_at: None, kind: KINDS[0], once: false, chunk: 1000, plan: Plan { rng: Rng::new(k + 17), fail, style, strict: false, nested: [0, 0, 3][(k % 3) as usize] } });
            }
        }
    }
    // deep ones
    let mut depths = vec![5usize, 33, 65, 129, 257];
    depths.extend(dict().nums.iter().filter(|n| **n <= 300));
    for n in depths {
        for (k, fail) in [(0, (0, 1)), (1, (0, 1)), (2, (1, n)), (3, (1, n)), (4, (1, 2 * n)), (5, (1, 3 * n))] {
            let doc = match k {
                1 => format!("{}x", "<a>".repeat(n)),
                4 => format!("{}<a>", "<a>".repeat(n)),
                _ => format!("{}x{}", "<a b='1'>".repeat(n), "</a>".repeat(n)),
            };
            for seed in 0..if n > 60 { 1 } else { 4 } {
                one(r, &Case { doc: doc.clone().into_bytes(), fail_at: None, kind: KINDS[0], once: false, chunk: 1000, plan: Plan { rng: Rng::new(seed), fail, style: 3, strict: true, nested: 0 } });
            }
        }
    }
    // a source that fails at any byte, with any kind of error, for good or once
    for d in ["<a><b>x</b><c k='v'/></a>", "<a/> ", "<?xml version=\"1.0\"?><a>t</a><!-- c -->"] {
        for f in 0..=d.len() {
            for (k, kind) in KINDS.iter().enumerate() {
                for once in [true, false] {
                    one(r, &Case { doc: d.as_bytes().to_vec(), fail_at: Some(f), kind: *kind, once, chunk: 1000, plan: Plan { rng: Rng::new((k + f) as u64), fail: (0, 1), style: k % 3, strict: true, nested: 0 } });
                }
            }
        }
    }
    while r.more() {
        for _ in 0..50 {
            let th = text && rng.chance(1, 2);
            let c = gen_case(rng, th);
            one(r, &c);
            if text {
                text_root(r, rng);
            }
        }
    }
}
