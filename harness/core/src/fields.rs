//! C06: cardinality of element and attribute fields, through the field traits.
use crate::util::*;
use static_xml::de::{Deserialize, DeserializeAttrField, DeserializeElementField, ElementReader, ElementVisitor, ParseText, VisitorError};
use static_xml::ExpandedNameRef;
use std::cell::RefCell;
use std::fmt::Debug;

/// A nested type that fails unless it has the attribute `k`.
#[derive(Debug, PartialEq)]
struct Pay {
    k: String,
    kids: usize,
}
struct PayV(Option<String>, usize);
impl ElementVisitor for PayV {
    fn attribute(&mut self, name: &ExpandedNameRef<'_>, value: String) -> Result<Option<String>, VisitorError> {
        if name.local_name == "k" {
            self.0 = Some(value);
            return Ok(None);
        }
        Ok(Some(value))
    }
    fn element<'a>(&mut self, _c: ElementReader<'a>) -> Result<Option<ElementReader<'a>>, VisitorError> {
        self.1 += 1;
        Ok(None)
    }
}
impl Deserialize for Pay {
    fn deserialize(element: ElementReader<'_>) -> Result<Self, VisitorError> {
        let mut v = PayV(None, 0);
        element.read_to(&mut v)?;
        Ok(Pay { k: v.0.ok_or_else(|| VisitorError::Wrap("no k".into()))?, kids: v.1 })
    }
}

thread_local! { static OUT: RefCell<String> = RefCell::new(String::new()); }

/// Reads `<r>` with one field `f` of type `T`, as a derived struct does.
struct Holder<T>(T);
struct HolderV<T>(Option<T>);
impl<T: DeserializeElementField> ElementVisitor for HolderV<T> {
    fn element<'a>(&mut self, child: ElementReader<'a>) -> Result<Option<ElementReader<'a>>, VisitorError> {
        if child.expanded_name().local_name != "f" {
            return Ok(Some(child));
        }
        match &mut self.0 {
            None => self.0 = Some(T::init(child)?),
            Some(v) => v.update(child)?,
        }
        Ok(None)
    }
}
const NAME: ExpandedNameRef<'static> = ExpandedNameRef { namespace: "", local_name: "f" };
impl<T: DeserializeElementField> Deserialize for Holder<T> {
    fn deserialize(element: ElementReader<'_>) -> Result<Self, VisitorError> {
        let mut v = HolderV(None);
        element.read_to(&mut v)?;
        Ok(Holder(match v.0 {
            Some(v) => v,
            None => T::missing(&NAME)?,
        }))
    }
}

fn show<T: Debug>(r: Result<Holder<T>, static_xml::de::Error>) -> String {
    match r {
        Ok(h) => format!("{:?}", h.0),
        Err(e) => format!("error: {}", e.to_string().split(" @ ").next().unwrap()),
    }
}

/// What an occurrence parses to.
type Occ = Result<String, String>;

fn expect(kind: usize, occ: &[Occ]) -> String {
    // a failing occurrence fails the read at that point, unless an earlier second one did
    match kind {
        0 | 1 => match occ {
            [] => if kind == 0 { "error: *".into() } else { "None".into() },
            [Err(e), ..] => format!("error: {e}"),
            [Ok(v)] => if kind == 0 { v.clone() } else { format!("Some({v})") },
            [Ok(_), _, ..] => "error: *".into(),
        },
        _ => {
            let mut out = vec![];
            for o in occ {
                match o {
                    Ok(v) => out.push(v.clone()),
                    Err(e) => return format!("error: {e}"),
                }
            }
            format!("[{}]", out.join(", "))
        }
    }
}
fn same(e: &str, g: &str) -> bool {
    e == g || (e == "error: *" && g.starts_with("error: "))
}

fn elements(r: &mut Report, rng: &mut Rng, n: usize) {
    let nested = rng.chance(1, 2);
    let mut doc = String::from("<r>");
    let mut occ: Vec<Occ> = vec![];
    let mut order = vec![];
    for _ in 0..n {
        order.push(true);
        for _ in 0..rng.below(2) { order.push(false); }
    }
    for f in order {
        if !f {
            doc.push_str(rng.pick(&["<g>7</g>", " ", "text", "<ff k='1'/>", "<g><f>3</f><f k='x'/></g>", "<!-- f -->"]));
            continue;
        }
        // attributes that mean nothing to the field
        let mut at = String::new();
        for i in 0..(if rng.chance(1, 4) { 1 + rng.below(2) } else { 0 }) {
            let n = rng.name(&["nil", "null", "type", "id", "lang", "base", "space", "ref", "key", "i:nil", "i:type"]);
            if n == "k" || at.contains(&format!(" {n}=")) || i > 0 && n.starts_with("i:") { continue; }
            let v = if dict().texts.is_empty() || rng.chance(1, 2) { rng.of(&["true", "1", "false", "", "nil", "xs:int"]).to_owned() } else { rng.text(&[""]).replace('&', "&amp;").replace('<', "&lt;").replace('"', "&quot;") };
            if n.starts_with("i:") { at.push_str(" xmlns:i=\"http://www.w3.org/2001/XMLSchema-instance\""); }
            at.push_str(&format!(" {n}=\"{v}\""));
        }
        if nested {
            let k = rng.below(5);
            let kids = rng.below(3);
            if k == 0 {
                doc.push_str(&format!("<f{at}>{}</f>", "<f k='inner'/>".repeat(kids)));
                occ.push(Err("no k".into()));
            } else {
                doc.push_str(&format!("<f{at} k=\"{k}\">{}</f>", "<f k='inner'/>".repeat(kids)));
                occ.push(Ok(format!("Pay {{ k: \"{k}\", kids: {kids} }}")));
            }
        } else {
            match rng.below(8) {
                0 => { doc.push_str(&format!("<f{at}>nope</f>")); occ.push(Err("invalid digit found in string".into())) }
                1 => { doc.push_str(&format!("<f{at}/>")); occ.push(Err("cannot parse integer from empty string".into())) }
                _ => { let v = rng.below(100); doc.push_str(&format!("<f{at}> {v}</f>")); occ.push(Ok(format!("{v}"))) }
            }
        }
    }
    doc.push_str("</r>");
    for kind in 0..3 {
        let input = format!("field of type {} read from {doc}", [["i32", "Option<i32>", "Vec<i32>"], ["Pay", "Option<Pay>", "Vec<Pay>"]][nested as usize][kind]);
        r.begin(&input, n > 0);
        let d = doc.as_str();
        let got = guard(|| match (nested, kind) {
            (false, 0) => show(static_xml::de::from_str::<Holder<i32>>(d)),
            (false, 1) => show(static_xml::de::from_str::<Holder<Option<i32>>>(d)),
            (false, _) => show(static_xml::de::from_str::<Holder<Vec<i32>>>(d)),
            (true, 0) => show(static_xml::de::from_str::<Holder<Pay>>(d)),
            (true, 1) => show(static_xml::de::from_str::<Holder<Option<Pay>>>(d)),
            (true, _) => show(static_xml::de::from_str::<Holder<Vec<Pay>>>(d)),
        })
        .unwrap_or_else(|e| e);
        r.end();
        let e = expect(kind, &occ);
        if !same(&e, &got) {
            r.fail(Violation { props: vec!["C06"], what: "cardinality".into(), input, expected: e, got });
            return;
        }
    }
}

/// Very many occurrences.
fn many(r: &mut Report, n: usize) {
    let doc = format!("<r>{}</r>", "<f>1</f>".repeat(n));
    let input = format!("field of type Vec<i32> read from <r> with {n} times <f>1</f>");
    r.begin(&input, n > 0);
    let got = guard(|| match static_xml::de::from_str::<Holder<Vec<i32>>>(&doc) { Ok(h) => format!("{} items", h.0.len()), Err(e) => format!("error {e}") }).unwrap_or_else(|e| e);
    r.end();
    r.check(&["C06"], "cardinality", &input, &format!("{n} items"), &got);
}
fn showa<T: Debug>(r: Result<T, VisitorError>) -> String {
    match r {
        Ok(v) => format!("{v:?}"),
        Err(VisitorError::Wrap(e)) => format!("error: {e}"),
        Err(VisitorError::Propagate(e)) => format!("error: {e}"),
    }
}
fn attr<T: ParseText + Debug + DeserializeAttrField>(r: &mut Report, what: &str, v: Option<&str>) {
    let call = |v: Option<&str>| match v {
        Some(v) => format!("init({})", esc(v)),
        None => "missing()".into(),
    };
    let input = format!("<{what} as DeserializeAttrField>::{}", call(v));
    r.begin(&input, true);
    let got = guard(|| match v {
        Some(v) => showa(<T as DeserializeAttrField>::init(v.to_owned())),
        None => showa(<T as DeserializeAttrField>::missing(&NAME)),
    }).unwrap_or_else(|e| e);
    let goto = guard(|| match v {
        Some(v) => showa(<Option<T> as DeserializeAttrField>::init(v.to_owned())),
        None => showa(<Option<T> as DeserializeAttrField>::missing(&NAME)),
    }).unwrap_or_else(|e| e);
    r.end();
    let (e, eo) = match v {
        None => ("error: *".to_owned(), "None".to_owned()),
        Some(v) => match T::parse(v.to_owned()) {
            Ok(t) => (format!("{t:?}"), format!("Some({t:?})")),
            Err(e) => (format!("error: {e}"), format!("error: {e}")),
        },
    };
    if !same(&e, &got) {
        r.fail(Violation { props: vec!["C06"], what: "attribute".into(), input: input.clone(), expected: e, got });
    }
    if !same(&eo, &goto) {
        r.fail(Violation { props: vec!["C06"], what: "attribute".into(), input: format!("optional: {input}"), expected: eo, got: goto });
    }
}

pub fn run(r: &mut Report, rng: &mut Rng) {
    for v in [None, Some(""), Some("1"), Some(" 2 "), Some("x"), Some("true"), Some("-5"), Some("300")] {
        attr::<i32>(r, "i32", v);
        attr::<u8>(r, "u8", v);
        attr::<bool>(r, "bool", v);
        attr::<String>(r, "String", v);
    }
    for n in 0..5 {
        for _ in 0..200 {
            elements(r, rng, n);
            if r.violation.is_some() {
                return;
            }
        }
    }
    for n in [300usize, 1000].into_iter().chain(dict().nums.iter().copied().filter(|n| *n > 12)) {
        many(r, n);
    }
    while r.more() {
        let n = rng.size(rng.clone().below(12), 80);
        elements(r, rng, n);
    }
}
