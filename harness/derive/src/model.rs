//! Values and types as data, and what the documentation says reading, writing,
//! parsing and printing them does.
use corpus::{Tracked, LIVE};
use static_xml::de::{Deserialize, ParseText};
use static_xml::ser::{Serialize, SerializeRoot, ToText};
use static_xml::ExpandedNameRef;
use std::collections::HashMap;
use std::sync::atomic::Ordering;

pub type Name = (&'static str, &'static str);
pub const XML: &str = "http://www.w3.org/XML/1998/namespace";

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Scalar(String),
    Fields(Vec<Val>),
    Choice(&'static str, Option<Box<Val>>),
    Opt(Option<Box<Val>>),
    List(Vec<Val>),
}
impl Val {
    pub fn choice(c: &'static str, p: Option<Val>) -> Val {
        Val::Choice(c, p.map(Box::new))
    }
    pub fn scalar(&self) -> &str {
        match self {
            Val::Scalar(s) => s,
            _ => unreachable!(),
        }
    }
    pub fn fields(&self) -> &[Val] {
        match self {
            Val::Fields(s) => s,
            _ => unreachable!(),
        }
    }
    pub fn chosen(&self) -> (&'static str, Option<&Val>) {
        match self {
            Val::Choice(c, p) => (c, p.as_deref()),
            _ => unreachable!(),
        }
    }
}

pub trait Model: Sized {
    fn to_v(&self) -> Val;
    fn from_v(v: &Val) -> Self;
}
macro_rules! scalar {
    ($($t:ty),*) => { $(
        impl Model for $t {
            fn to_v(&self) -> Val { Val::Scalar(self.to_string()) }
            fn from_v(v: &Val) -> Self { v.scalar().parse().unwrap() }
        }
    )* };
}
scalar!(String, bool, i32, u64, f64);
impl Model for Tracked {
    fn to_v(&self) -> Val {
        Val::Scalar(self.get().to_owned())
    }
    fn from_v(v: &Val) -> Self {
        Tracked::new(v.scalar().to_owned())
    }
}
impl<T: Model> Model for Option<T> {
    fn to_v(&self) -> Val {
        Val::Opt(self.as_ref().map(|v| Box::new(v.to_v())))
    }
    fn from_v(v: &Val) -> Self {
        match v {
            Val::Opt(o) => o.as_ref().map(|v| T::from_v(v)),
            _ => unreachable!(),
        }
    }
}
impl<T: Model> Model for Vec<T> {
    fn to_v(&self) -> Val {
        Val::List(self.iter().map(|v| v.to_v()).collect())
    }
    fn from_v(v: &Val) -> Self {
        match v {
            Val::List(l) => l.iter().map(|v| T::from_v(v)).collect(),
            _ => unreachable!(),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Ty {
    Scalar(&'static str),
    Named(&'static str),
    Opt(Box<Ty>),
    Many(Box<Ty>),
}
#[derive(Clone, Debug)]
pub struct Field {
    pub ident: &'static str,
    pub name: Name,
    pub ty: Ty,
    pub mode: char,
    pub default: bool,
}
#[derive(Clone, Debug)]
pub struct Variant {
    pub ident: &'static str,
    pub name: Name,
    pub ty: Option<Ty>,
    pub skip: bool,
}
#[derive(Clone, Debug)]
pub enum Def {
    Restriction { ws: &'static str, variants: Vec<(&'static str, &'static str)>, unknown: Option<&'static str> },
    Union { ws: &'static str, variants: Vec<(&'static str, Ty)> },
    Std { ws: &'static str },
    Struct { root: Name, namespaces: Vec<(&'static str, &'static str)>, fields: Vec<Field> },
    Enum { root: Name, namespaces: Vec<(&'static str, &'static str)>, variants: Vec<Variant> },
}

/// The real code, per type.
#[derive(Clone, Copy)]
pub struct Ops {
    pub parse: Option<fn(String) -> Result<Val, String>>,
    pub print: Option<fn(&Val) -> Result<String, String>>,
    pub read: fn(&[u8]) -> Result<Val, String>,
    pub write: fn(&Val, Option<Name>, &mut dyn std::io::Write) -> Result<(), String>,
    pub root: Option<fn(&Val) -> (String, String)>,
}
fn read<T: Deserialize + Model>(b: &[u8]) -> Result<Val, String> {
    let before = LIVE.load(Ordering::SeqCst);
    let r = static_xml::de::read::<_, T>(b);
    match r {
        Ok(t) => {
            let v = t.to_v();
            drop(t);
            let d = LIVE.load(Ordering::SeqCst) - before;
            if d != 0 {
                return Ok(Val::Scalar(format!("LIVE VALUES OFF BY {d} after reading {v:?}")));
            }
            Ok(v)
        }
        Err(e) => {
            let d = LIVE.load(Ordering::SeqCst) - before;
            if d < 0 {
                return Ok(Val::Scalar(format!("LIVE VALUES OFF BY {d} after {e}")));
            }
            Err(e.to_string())
        }
    }
}
fn write_with<T: Serialize + Model>(v: &Val, name: Option<Name>, w: &mut dyn std::io::Write) -> Result<(), String> {
    let t = T::from_v(v);
    let n = name.unwrap();
    static_xml::ser::serialize_with_name(&t, ExpandedNameRef { namespace: n.0, local_name: n.1 }).to(w).map_err(|e| format!("{e:?}"))
}
fn write_root<T: SerializeRoot + Model>(v: &Val, name: Option<Name>, w: &mut dyn std::io::Write) -> Result<(), String> {
    if name.is_some() {
        return write_with::<T>(v, name, w);
    }
    let t = T::from_v(v);
    let r = static_xml::ser::serialize(&t).to(w).map_err(|e| format!("{e:?}"));
    r
}
pub fn text_ops<T: ParseText + ToText + Deserialize + Serialize + Model>() -> Ops {
    Ops {
        parse: Some(|s| T::parse(s).map(|t| t.to_v()).map_err(|e| e.to_string())),
        print: Some(|v| T::from_v(v).to_text().map_err(|e| format!("{e:?}"))),
        read: read::<T>,
        write: write_with::<T>,
        root: None,
    }
}
pub fn element_ops<T: Deserialize + SerializeRoot + Model>() -> Ops {
    Ops {
        parse: None,
        print: None,
        read: read::<T>,
        write: write_root::<T>,
        root: Some(|v| {
            let t = T::from_v(v);
            let n = t.root();
            (n.namespace.to_owned(), n.local_name.to_owned())
        }),
    }
}

// ------------------------------------------------------------------- documents
#[derive(Clone, Debug, PartialEq)]
pub struct Node {
    pub name: (String, String),
    pub attrs: Vec<((String, String), String)>,
    pub children: Vec<Child>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Child {
    Elem(Node),
    Text(String),
}
pub fn own(n: Name) -> (String, String) {
    (n.0.to_owned(), n.1.to_owned())
}
impl Node {
    pub fn new(name: (String, String)) -> Node {
        Node { name, attrs: vec![], children: vec![] }
    }
    fn text(&self) -> R<String> {
        let mut s = String::new();
        for c in &self.children {
            match c {
                Child::Elem(_) => return Err(()),
                Child::Text(t) => s.push_str(t),
            }
        }
        Ok(s)
    }
}

/// What xml-rs makes of a document: the tree, and per element the namespaces in scope.
pub fn tree(xml: &[u8]) -> Result<(Node, Vec<Vec<(String, String)>>), String> {
    use xml::reader::{EventReader, XmlEvent};
    let mut stack: Vec<Node> = vec![];
    let mut root = None;
    let mut scopes = vec![];
    let ex = |n: &xml::name::OwnedName| {
        let ns = match (&n.namespace, &n.prefix) {
            (Some(n), _) => n.clone(),
            (None, Some(p)) if p == "xml" => XML.to_owned(),
            _ => String::new(),
        };
        (ns, n.local_name.clone())
    };
    for e in EventReader::new(xml) {
        match e.map_err(|e| e.to_string())? {
            XmlEvent::StartElement { name, attributes, namespace } => {
                let mut n = Node::new(ex(&name));
                n.attrs = attributes.iter().map(|a| (ex(&a.name), a.value.clone())).collect();
                scopes.push(namespace.0.iter().map(|(p, u)| (p.clone(), u.clone())).collect());
                stack.push(n);
            }
            XmlEvent::EndElement { .. } => {
                let n = stack.pop().unwrap();
                match stack.last_mut() {
                    Some(p) => p.children.push(Child::Elem(n)),
                    None => root = Some(n),
                }
            }
            XmlEvent::Characters(t) | XmlEvent::CData(t) | XmlEvent::Whitespace(t) => {
                if let Some(p) = stack.last_mut() {
                    match p.children.last_mut() {
                        Some(Child::Text(o)) => o.push_str(&t),
                        _ => p.children.push(Child::Text(t)),
                    }
                }
            }
            _ => {}
        }
    }
    root.ok_or("no root".to_owned()).map(|r| (r, scopes))
}

// ---------------------------------------------------------------------- oracle
/// A value under construction.
enum Acc {
    Slot(Option<Val>),
    Fields(Vec<Acc>),
}
pub type R<T> = Result<T, ()>;
pub struct Oracle {
    pub defs: HashMap<&'static str, Def>,
}
pub fn normalize(s: &str, ws: &str) -> String {
    let r: String = s.chars().map(|c| if matches!(c, '\t' | '\n' | '\r') { ' ' } else { c }).collect();
    match ws {
        "preserve" => s.to_owned(),
        "replace" => r,
        _ => r.split(' ').filter(|w| !w.is_empty()).collect::<Vec<_>>().join(" "),
    }
}
fn scalar<T: ParseText + Model>(s: &str) -> R<Val> {
    T::parse(s.to_owned()).map(|v| v.to_v()).map_err(|_| ())
}
fn print_scalar<T: ToText + Model>(v: &Val) -> R<String> {
    T::from_v(v).to_text().map_err(|_| ())
}

impl Oracle {
    pub fn def(&self, n: &str) -> &Def {
        &self.defs[n]
    }
    pub fn is_text(&self, t: &Ty) -> bool {
        match t {
            Ty::Scalar(_) => true,
            Ty::Named(n) => matches!(self.def(n), Def::Restriction { .. } | Def::Union { .. } | Def::Std { .. }),
            _ => false,
        }
    }
    pub fn parse(&self, t: &Ty, s: &str) -> R<Val> {
        match t {
            Ty::Scalar("Tracked") => if s == "bad" { Err(()) } else { Ok(Val::Scalar(s.to_owned())) },
            Ty::Scalar("String") => Ok(Val::Scalar(s.to_owned())),
            Ty::Scalar("bool") => scalar::<bool>(s),
            Ty::Scalar("i32") => scalar::<i32>(s),
            Ty::Scalar("u64") => scalar::<u64>(s),
            Ty::Scalar("f64") => scalar::<f64>(s),
            Ty::Named(n) => match self.def(n) {
                Def::Restriction { ws, variants, unknown } => {
                    let s = normalize(s, ws);
                    match variants.iter().find(|(_, t)| **t == s) {
                        Some((v, _)) => Ok(Val::choice(v, None)),
                        None => unknown.map(|u| Val::choice(u, Some(Val::Scalar(s)))).ok_or(()),
                    }
                }
                Def::Union { ws, variants } => {
                    let s = normalize(s, ws);
                    variants.iter().find_map(|(v, t)| self.parse(t, &s).ok().map(|x| Val::choice(v, Some(x)))).ok_or(())
                }
                Def::Std { ws } => {
                    let s = normalize(s, ws);
                    let ok = match *n {
                        "Pair" => s.find(',').map(|i| i > 0).unwrap_or(false),
                        "Line" => s.len() <= 5,
                        _ => !s.is_empty(),
                    };
                    if ok { Ok(Val::Scalar(s)) } else { Err(()) }
                }
                _ => unreachable!(),
            },
            _ => unreachable!(),
        }
    }
    pub fn print(&self, t: &Ty, v: &Val) -> R<String> {
        match t {
            Ty::Scalar("Tracked") => if v.scalar() == "unprintable" { Err(()) } else { Ok(v.scalar().to_owned()) },
            Ty::Scalar("String") => Ok(v.scalar().to_owned()),
            Ty::Scalar("bool") => print_scalar::<bool>(v),
            Ty::Scalar("i32") => print_scalar::<i32>(v),
            Ty::Scalar("u64") => print_scalar::<u64>(v),
            Ty::Scalar("f64") => print_scalar::<f64>(v),
            Ty::Named(n) => match self.def(n) {
                Def::Restriction { variants, .. } => {
                    let (c, p) = v.chosen();
                    Ok(match p {
                        Some(p) => p.scalar().to_owned(),
                        None => variants.iter().find(|(v, _)| *v == c).unwrap().1.to_owned(),
                    })
                }
                Def::Union { variants, .. } => {
                    let (c, p) = v.chosen();
                    self.print(&variants.iter().find(|(v, _)| *v == c).unwrap().1, p.unwrap())
                }
                Def::Std { .. } => Ok(v.scalar().to_owned()),
                _ => unreachable!(),
            },
            _ => unreachable!(),
        }
    }

    // ---- reading
    pub fn read(&self, t: &Ty, n: &Node) -> R<Val> {
        if self.is_text(t) {
            return self.parse(t, &n.text()?);
        }
        let mut acc = self.start(t);
        for (an, av) in &n.attrs {
            self.take_attr(t, &mut acc, an, av)?;
        }
        for c in &n.children {
            if let Child::Elem(c) = c {
                self.take_child(t, &mut acc, c)?;
            }
        }
        self.finish(t, acc)
    }
    fn fields(&self, t: &Ty) -> Option<&Vec<Field>> {
        let Ty::Named(n) = t else { unreachable!() };
        match self.def(n) {
            Def::Struct { fields, .. } => Some(fields),
            _ => None,
        }
    }
    fn start(&self, t: &Ty) -> Acc {
        match self.fields(t) {
            Some(fs) => Acc::Fields(fs.iter().map(|f| if f.mode == 'f' { self.start(&f.ty) } else { Acc::Slot(None) }).collect()),
            None => Acc::Slot(None),
        }
    }
    /// Offers an attribute; true if it was taken.
    fn take_attr(&self, t: &Ty, acc: &mut Acc, an: &(String, String), av: &str) -> R<bool> {
        let (Some(fields), Acc::Fields(slots)) = (self.fields(t), acc) else { return Ok(false) };
        if let Some(i) = fields.iter().position(|f| f.mode == 'a' && own(f.name) == *an) {
            let Acc::Slot(s) = &mut slots[i] else { unreachable!() };
            if s.is_some() {
                return Err(());
            }
            *s = Some(match &fields[i].ty {
                Ty::Opt(t) => Val::Opt(Some(Box::new(self.parse(t, av)?))),
                t => self.parse(t, av)?,
            });
            return Ok(true);
        }
        for (f, s) in fields.iter().zip(slots) {
            if f.mode == 'f' && self.take_attr(&f.ty, s, an, av)? {
                return Ok(true);
            }
        }
        Ok(false)
    }
    /// Offers a child; true if it was taken.
    fn take_child(&self, t: &Ty, acc: &mut Acc, c: &Node) -> R<bool> {
        match (self.fields(t), acc) {
            (Some(fields), Acc::Fields(slots)) => {
                if let Some(i) = fields.iter().position(|f| f.mode == 'e' && own(f.name) == c.name) {
                    let Acc::Slot(s) = &mut slots[i] else { unreachable!() };
                    self.feed(&fields[i].ty, s, c)?;
                    return Ok(true);
                }
                for (f, s) in fields.iter().zip(slots) {
                    if f.mode == 'f' && self.take_child(&f.ty, s, c)? {
                        return Ok(true);
                    }
                }
                Ok(false)
            }
            (None, Acc::Slot(s)) => self.offer(t, s, c),
            _ => unreachable!(),
        }
    }
    fn finish(&self, t: &Ty, acc: Acc) -> R<Val> {
        match (self.fields(t), acc) {
            (Some(fields), Acc::Fields(slots)) => {
                let mut out = vec![];
                for (f, s) in fields.iter().zip(slots) {
                    out.push(match s {
                        s if f.mode == 'f' => self.finish(&f.ty, s)?,
                        Acc::Slot(Some(v)) => v,
                        _ if f.default => self.default(&f.ty),
                        _ => self.missing(&f.ty)?,
                    });
                }
                Ok(Val::Fields(out))
            }
            (None, Acc::Slot(s)) => s.ok_or(()),
            _ => unreachable!(),
        }
    }
    fn feed(&self, t: &Ty, slot: &mut Option<Val>, c: &Node) -> R<()> {
        match (slot, t) {
            (s @ None, Ty::Opt(t)) => *s = Some(Val::Opt(Some(Box::new(self.read(t, c)?)))),
            (s @ None, Ty::Many(t)) => *s = Some(Val::List(vec![self.read(t, c)?])),
            (s @ None, t) => *s = Some(self.read(t, c)?),
            (Some(Val::List(l)), Ty::Many(t)) => l.push(self.read(t, c)?),
            _ => return Err(()),
        }
        Ok(())
    }
    /// Offers a child to an enum; true if it took it.
    fn offer(&self, t: &Ty, slot: &mut Option<Val>, c: &Node) -> R<bool> {
        let Ty::Named(n) = t else { unreachable!() };
        let Def::Enum { variants, .. } = self.def(n) else { unreachable!() };
        let Some(v) = variants.iter().find(|v| !v.skip && own(v.name) == c.name) else { return Ok(false) };
        match slot {
            None => {
                let mut p = None;
                if let Some(t) = &v.ty {
                    self.feed(t, &mut p, c)?;
                }
                *slot = Some(Val::choice(v.ident, p));
            }
            Some(Val::Choice(k, p)) if *k == v.ident => {
                if let Some(t) = &v.ty {
                    let mut s = p.take().map(|b| *b);
                    self.feed(t, &mut s, c)?;
                    *p = s.map(Box::new);
                }
            }
            _ => return Err(()),
        }
        Ok(true)
    }
    fn missing(&self, t: &Ty) -> R<Val> {
        match t {
            Ty::Opt(_) => Ok(Val::Opt(None)),
            Ty::Many(_) => Ok(Val::List(vec![])),
            _ => Err(()),
        }
    }
    fn default(&self, t: &Ty) -> Val {
        match t {
            Ty::Opt(_) => Val::Opt(None),
            Ty::Many(_) => Val::List(vec![]),
            Ty::Scalar("Tracked") => Val::Scalar("default".into()),
            Ty::Scalar("String") => Val::Scalar(String::new()),
            Ty::Scalar("bool") => Val::Scalar("false".into()),
            Ty::Scalar(_) => Val::Scalar("0".into()),
            Ty::Named(_) => Val::Fields(self.fields(t).unwrap().iter().map(|f| self.default(&f.ty)).collect()),
        }
    }

    // ---- writing
    /// The element a value is written as, and per element the URIs it declares.
    pub fn write(&self, t: &Ty, v: &Val, name: (String, String), uris: &mut Vec<Vec<String>>) -> R<Node> {
        let mut n = Node::new(name);
        let k = uris.len();
        uris.push(vec![]);
        let mut u = vec![];
        self.write_attrs(t, v, &mut n, &mut u)?;
        uris[k] = u;
        self.write_children(t, v, &mut n, uris)?;
        Ok(n)
    }
    fn write_attrs(&self, t: &Ty, v: &Val, n: &mut Node, u: &mut Vec<String>) -> R<()> {
        if self.is_text(t) {
            return Ok(());
        }
        let Ty::Named(name) = t else { unreachable!() };
        match self.def(name) {
            Def::Struct { fields, namespaces, .. } => {
                u.extend(namespaces.iter().map(|(_, u)| u.to_string()));
                for (f, x) in fields.iter().zip(v.fields()).filter(|(f, _)| f.mode == 'a') {
                    match (&f.ty, x) {
                        (Ty::Opt(_), Val::Opt(None)) => {}
                        (Ty::Opt(t), Val::Opt(Some(x))) => n.attrs.push((own(f.name), self.print(t, x)?)),
                        (t, x) => n.attrs.push((own(f.name), self.print(t, x)?)),
                    }
                }
                for (f, x) in fields.iter().zip(v.fields()).filter(|(f, _)| f.mode == 'f') {
                    self.write_attrs(&f.ty, x, n, u)?;
                }
            }
            Def::Enum { namespaces, .. } => u.extend(namespaces.iter().map(|(_, u)| u.to_string())),
            _ => unreachable!(),
        }
        Ok(())
    }
    fn write_children(&self, t: &Ty, v: &Val, n: &mut Node, uris: &mut Vec<Vec<String>>) -> R<()> {
        if self.is_text(t) {
            let s = self.print(t, v)?;
            if !s.is_empty() {
                n.children.push(Child::Text(s));
            }
            return Ok(());
        }
        let Ty::Named(name) = t else { unreachable!() };
        match self.def(name) {
            Def::Struct { fields, .. } => {
                for (f, x) in fields.iter().zip(v.fields()).filter(|(f, _)| f.mode == 'e') {
                    self.write_field(&f.ty, x, f.name, n, uris)?;
                }
                for (f, x) in fields.iter().zip(v.fields()).filter(|(f, _)| f.mode == 'f') {
                    self.write_children(&f.ty, x, n, uris)?;
                }
            }
            Def::Enum { variants, .. } => {
                let (c, p) = v.chosen();
                let d = variants.iter().find(|d| d.ident == c).unwrap();
                if d.skip {
                    return Err(());
                }
                match (&d.ty, p) {
                    (Some(t), Some(p)) => self.write_field(t, p, d.name, n, uris)?,
                    _ => {
                        uris.push(vec![]);
                        n.children.push(Child::Elem(Node::new(own(d.name))));
                    }
                }
            }
            _ => unreachable!(),
        }
        Ok(())
    }
    fn write_field(&self, t: &Ty, v: &Val, name: Name, n: &mut Node, uris: &mut Vec<Vec<String>>) -> R<()> {
        match (t, v) {
            (Ty::Opt(_), Val::Opt(None)) => {}
            (Ty::Opt(t), Val::Opt(Some(v))) => n.children.push(Child::Elem(self.write(t, v, own(name), uris)?)),
            (Ty::Many(t), Val::List(l)) => {
                for v in l {
                    n.children.push(Child::Elem(self.write(t, v, own(name), uris)?));
                }
            }
            (t, v) => n.children.push(Child::Elem(self.write(t, v, own(name), uris)?)),
        }
        Ok(())
    }
}
