//! C12: offering unclaimed content to flattened fields.
use crate::util::*;
use static_xml::de::{delegate_attribute, delegate_characters, delegate_element, Deserialize, ElementReader, ElementVisitor, VisitorError};
use static_xml::ExpandedNameRef;
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
enum Answer { Pass(String), Take, Fail(String) }
struct F { id: usize, answer: Answer, log: Rc<RefCell<Vec<String>>>, how: usize }

impl ElementVisitor for F {
    fn attribute(&mut self, name: &ExpandedNameRef<'_>, value: String) -> Result<Option<String>, VisitorError> {
        self.log.borrow_mut().push(format!("{} sees {{{}}}{}={value}", self.id, name.namespace, name.local_name));
        match &self.answer { Answer::Pass(v) => Ok(Some(v.clone())), Answer::Take => Ok(None), Answer::Fail(e) => Err(VisitorError::Wrap(e.clone().into())) }
    }
    fn element<'a>(&mut self, child: ElementReader<'a>) -> Result<Option<ElementReader<'a>>, VisitorError> {
        self.log.borrow_mut().push(format!("{} sees <{}>", self.id, child.expanded_name().local_name));
        match &self.answer {
            Answer::Pass(_) => Ok(Some(child)),
            Answer::Take => {
                if self.how == 0 { return Ok(None); }
                let s = child.read_string()?;
                self.log.borrow_mut().push(format!("{} reads {s:?}", self.id));
                Ok(None)
            }
            Answer::Fail(e) => {
                if self.how == 1 { let s = child.read_string()?; self.log.borrow_mut().push(format!("{} reads {s:?}", self.id)); }
                Err(VisitorError::Wrap(e.clone().into()))
            }
        }
    }
    fn characters(&mut self, s: String, pos: static_xml::TextPosition) -> Result<Option<String>, static_xml::BoxedStdError> {
        self.log.borrow_mut().push(format!("{} sees {s} @ {pos}", self.id));
        match &self.answer { Answer::Pass(v) => Ok(Some(v.clone())), Answer::Take => Ok(None), Answer::Fail(e) => Err(e.clone().into()) }
    }
}

thread_local! { static FIELDS: RefCell<Option<(Vec<F>, Vec<String>, Rc<RefCell<Vec<String>>>)>> = RefCell::new(None); }
struct Outer;
struct OuterV;
impl ElementVisitor for OuterV {
    fn element<'a>(&mut self, child: ElementReader<'a>) -> Result<Option<ElementReader<'a>>, VisitorError> {
        let (mut fields, mut out, log) = FIELDS.with(|f| f.borrow_mut().take().unwrap());
        let name = child.expanded_name().local_name.to_owned();
        let r = {
            let mut v: Vec<&mut dyn ElementVisitor> = fields.iter_mut().map(|f| f as &mut dyn ElementVisitor).collect();
            delegate_element(&mut v, child)
        };
        out.push(match &r { Ok(Some(c)) => format!("{name}: handed back <{}>", c.expanded_name().local_name), Ok(None) => format!("{name}: consumed"), Err(VisitorError::Wrap(e)) => format!("{name}: failed {e}"), Err(VisitorError::Propagate(e)) => format!("{name}: failed {e}") });
        FIELDS.with(|f| *f.borrow_mut() = Some((fields, out, log)));
        // so that the next child is offered, too
        match r { Ok(c) => Ok(c), Err(_) => Ok(None) }
    }
}
impl Deserialize for Outer {
    fn deserialize(e: ElementReader<'_>) -> Result<Self, VisitorError> {
        e.read_to(&mut OuterV)?;
        Ok(Outer)
    }
}

/// Empty and blank ones, too: the fields decide, nobody else.
fn some_value(rng: &mut Rng) -> String {
    rng.text(&["", " ", "\n\t ", "\u{a0}", "0", "false", "x y", " x", "\u{0}", "é", "<>&", "http://www.w3.org/2001/XMLSchema-instance"]).to_owned()
}
fn fields(rng: &mut Rng, code: &mut usize, n: usize) -> Vec<(Answer, usize)> {
    (0..n).map(|i| {
        let a = match *code % 3 { 0 => Answer::Pass(if rng.chance(1, 3) { some_value(rng) } else { format!("v{}", rng.below(1000)) }), 1 => Answer::Take, _ => Answer::Fail(format!("e{i}")) };
        *code /= 3;
        (a, rng.below(2))
    }).collect()
}

fn one(r: &mut Report, rng: &mut Rng, n: usize, mut code: usize) {
    let fs = fields(rng, &mut code, n);
    let make = |log: &Rc<RefCell<Vec<String>>>| -> Vec<F> { fs.iter().enumerate().map(|(id, (a, how))| F { id, answer: a.clone(), log: log.clone(), how: *how }).collect() };
    let name = ExpandedNameRef {
        namespace: rng.uri(&["urn:x", "", "http://www.w3.org/XML/1998/namespace", "http://www.w3.org/2000/xmlns/", "http://www.w3.org/2001/XMLSchema-instance"]),
        local_name: rng.name(&["at", "a", "lang", "type", "xmlns", "schemaLocation", "nil", "noNamespaceSchemaLocation", "id", "base", "space"]),
    };
    let pos = static_xml::TextPosition { row: rng.of(&[0, 3, 70000]), column: rng.of(&[0, 9, 300]) };
    let start = if rng.chance(1, 2) { "start".to_owned() } else { some_value(rng) };
    for kind in ["attribute", "characters"] {
        let input = format!("delegate_{kind} of {{{}}}{} {start:?} with fields answering {:?}", name.namespace, name.local_name, fs.iter().map(|f| &f.0).collect::<Vec<_>>());
        r.begin(&input, n > 0);
        let log = Rc::new(RefCell::new(vec![]));
        let mut f = make(&log);
        let got = guard(|| {
            let mut v: Vec<&mut dyn ElementVisitor> = f.iter_mut().map(|f| f as &mut dyn ElementVisitor).collect();
            if kind == "attribute" {
                match delegate_attribute(&mut v, &name, start.clone()) { Ok(o) => format!("{o:?}"), Err(VisitorError::Wrap(e)) => format!("failed {e}"), Err(_) => "propagate".into() }
            } else {
                match delegate_characters(&mut v, start.clone(), pos) { Ok(o) => format!("{o:?}"), Err(e) => format!("failed {e}") }
            }
        }).unwrap_or_else(|e| e);
        r.end();
        let mut val = start.clone();
        let mut seen = vec![];
        let mut res = None;
        for (i, (a, _)) in fs.iter().enumerate() {
            seen.push(if kind == "attribute" { format!("{i} sees {{{}}}{}={val}", name.namespace, name.local_name) } else { format!("{i} sees {val} @ {pos}") });
            match a { Answer::Pass(v) => val = v.clone(), Answer::Take => { res = Some("None".to_owned()); break } Answer::Fail(e) => { res = Some(format!("failed {e}")); break } }
        }
        let res = res.unwrap_or(format!("{:?}", Some(val)));
        r.check(&["C12"], "what was offered, and the result", &input, &format!("{seen:?} then {res}"), &format!("{:?} then {got}", log.borrow()));
    }
    // elements
    let doc = "<r><a>ta</a> <b>tb</b><c/></r>";
    let input = format!("delegate_element for the children of {doc} with fields answering {:?} (how {:?})", fs.iter().map(|f| &f.0).collect::<Vec<_>>(), fs.iter().map(|f| f.1).collect::<Vec<_>>());
    r.begin(&input, n > 0);
    let log = Rc::new(RefCell::new(vec![]));
    FIELDS.with(|f| *f.borrow_mut() = Some((make(&log), vec![], log.clone())));
    let got = guard(|| static_xml::de::from_str::<Outer>(doc).map(|_| "Ok".to_owned()).unwrap_or_else(|e| format!("error {e}"))).unwrap_or_else(|e| e);
    r.end();
    let out = FIELDS.with(|f| f.borrow_mut().take()).map(|f| f.1).unwrap_or_default();
    let (mut seen, mut eout) = (vec![], vec![]);
    for (n, t) in [("a", "ta"), ("b", "tb"), ("c", "")] {
        let mut res = None;
        for (i, (a, how)) in fs.iter().enumerate() {
            seen.push(format!("{i} sees <{n}>"));
            match a {
                Answer::Pass(_) => {}
                Answer::Take => { if *how != 0 { seen.push(format!("{i} reads {t:?}")); } res = Some(format!("{n}: consumed")); break }
                Answer::Fail(e) => { if *how == 1 { seen.push(format!("{i} reads {t:?}")); } res = Some(format!("{n}: failed {e}")); break }
            }
        }
        eout.push(res.unwrap_or(format!("{n}: handed back <{n}>")));
    }
    r.check(&["C12"], "what was offered, and the results", &input, &format!("{seen:?} then {eout:?} Ok"), &format!("{:?} then {out:?} {got}", log.borrow()));
}

pub fn run(r: &mut Report, rng: &mut Rng) {
    for n in 0..=5usize {
        for code in 0..3usize.pow(n as u32) {
            for _ in 0..2 { one(r, rng, n, code); }
            if r.violation.is_some() { return; }
        }
    }
    r.notes.push("every combination of consume, pass and fail for up to five fields".into());
    while r.more() {
        let n = match rng.below(8) { 0 => rng.size(12 + rng.clone().below(30), 300), _ => 5 + rng.below(6) };
        let code = match rng.below(3) {
            0 => 0,
            1 => (1 + rng.below(2)) * 3usize.pow(rng.below(n.min(39)) as u32),
            _ => rng.next() as usize % 3usize.pow(n.min(39) as u32),
        };
        one(r, rng, n, code);
    }
}
