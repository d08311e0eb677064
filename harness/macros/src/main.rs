//! Declarations, good and bad, given to the derive macros' own code (C18).
#![allow(dead_code)]
#[path = "/repo/static-xml-derive/src/common.rs"]
mod common;
#[path = "/repo/static-xml-derive/src/deserialize.rs"]
mod deserialize;
#[path = "/repo/static-xml-derive/src/parse.rs"]
mod parse;
#[path = "/repo/static-xml-derive/src/serialize.rs"]
mod serialize;
#[path = "/repo/static-xml-derive/src/to_text.rs"]
mod to_text;
mod util;

use proc_macro2::{TokenStream, TokenTree};
use std::collections::BTreeSet;
use util::*;

/// What `mod common` calls the accumulated errors.
use common::Errors;

#[derive(Clone, Debug, PartialEq)]
enum Item {
    Word(&'static str),
    Nv(&'static str, String), // name = "string"
    NvOther(&'static str, &'static str), // name = something else than a string
    List(&'static str),
    Lit(&'static str),
}

impl Item {
    fn text(&self) -> String {
        match self {
            Item::Word(w) => w.to_string(),
            Item::Nv(n, v) => format!("{n} = {v:?}"),
            Item::NvOther(n, v) => format!("{n} = {v}"),
            Item::List(n) => format!("{n}(\"x\")"),
            Item::Lit(l) => l.to_string(),
        }
    }
    fn name(&self) -> &'static str {
        match self {
            Item::Word(n) | Item::Nv(n, _) | Item::NvOther(n, _) | Item::List(n) => n,
            Item::Lit(_) => "",
        }
    }
}

/// One attribute of an item: `#[static_xml(items)]`, or as written.
#[derive(Clone, Debug)]
enum Attr {
    Items(Vec<Item>),
    /// Not a `static_xml(...)` list, though it says `static_xml`.
    Broken(&'static str),
    /// Somebody else's.
    Other(&'static str),
}

#[derive(Clone, Debug)]
struct Field {
    attrs: Vec<Attr>,
    ident: &'static str,
    ty: &'static str,
}

#[derive(Clone, Debug)]
enum Shape {
    Named(Vec<Field>),
    Tuple(Vec<Field>),
    Unit,
}

#[derive(Clone, Debug)]
struct Variant {
    attrs: Vec<Attr>,
    ident: &'static str,
    shape: Shape,
}

#[derive(Clone, Debug)]
enum Body {
    Struct(Shape),
    Enum(Vec<Variant>),
    Union(Vec<Field>),
}

#[derive(Clone, Debug)]
struct Decl {
    attrs: Vec<Attr>,
    vis: &'static str,
    name: &'static str,
    body: Body,
}

/// The text, and which lines each part is on.
#[derive(Default)]
struct Text {
    out: String,
    line: usize,
}
impl Text {
    fn put(&mut self, s: &str) -> usize {
        self.line += 1;
        self.out.push_str(s);
        self.out.push('\n');
        self.line
    }
    fn attrs(&mut self, attrs: &[Attr]) -> Vec<usize> {
        attrs
            .iter()
            .map(|a| match a {
                Attr::Items(i) => self.put(&format!("#[static_xml({})]", i.iter().map(Item::text).collect::<Vec<_>>().join(", "))),
                Attr::Broken(s) | Attr::Other(s) => self.put(s),
            })
            .collect()
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Derive {
    De,
    Ser,
    Parse,
    ToText,
}

/// What the declaration must lead to: lines with something wrong on them, or don't-care.
#[derive(Default)]
struct Judge {
    bad: BTreeSet<usize>,
    unsure: bool,
    why: Vec<String>,
}

impl Judge {
    fn bad(&mut self, line: usize, why: &str) {
        self.bad.insert(line);
        self.why.push(format!("line {line}: {why}"));
    }
    /// The items of a part, each with its line; broken attributes are errors by themselves.
    fn items<'a>(&mut self, attrs: &'a [Attr], lines: &[usize]) -> Vec<(&'a Item, usize)> {
        let mut o = vec![];
        for (a, l) in attrs.iter().zip(lines) {
            match a {
                Attr::Items(i) => o.extend(i.iter().map(|i| (i, *l))),
                Attr::Broken(_) => self.bad(*l, "not static_xml(...)"),
                Attr::Other(_) => {}
            }
        }
        o
    }
    /// Every item must be one of these words or name-value pairs, each at most once (`many`: any number).
    fn allow<'a>(&mut self, items: &[(&'a Item, usize)], words: &[&str], nvs: &[&str], many: &[&str]) {
        let mut seen = BTreeSet::new();
        for (i, l) in items {
            let ok = match i {
                Item::Word(w) => words.contains(w),
                Item::Nv(n, _) => nvs.contains(n),
                _ => false,
            };
            if !ok {
                self.bad(*l, &format!("`{}` is not understood", i.text()));
            }
            if !seen.insert(i.name()) && ok && !many.contains(&i.name()) {
                self.bad(*l, &format!("a second `{}`", i.name()));
            }
        }
    }
    fn none(&mut self, fields: &[(Vec<Attr>, Vec<usize>)]) {
        for (a, l) in fields {
            let items = self.items(a, l);
            self.allow(&items, &[], &[], &[]);
        }
    }
}

fn value<'a>(items: &[(&'a Item, usize)], name: &str) -> Option<(&'a str, usize)> {
    items.iter().find_map(|(i, l)| match i {
        Item::Nv(n, v) if *n == name => Some((v.as_str(), *l)),
        _ => None,
    })
}
fn word(items: &[(&Item, usize)], name: &str) -> Option<usize> {
    items.iter().find_map(|(i, l)| match i {
        Item::Word(n) if *n == name => Some(*l),
        _ => None,
    })
}

const XMLNS: &str = "http://www.w3.org/XML/1998/namespace";

/// The prefixes a type declares.
fn namespaces(j: &mut Judge, items: &[(&Item, usize)]) -> BTreeSet<String> {
    let mut set = BTreeSet::new();
    for (i, l) in items {
        let (p, url) = match i {
            Item::Nv("namespace", v) => match v.split_once(": ") {
                Some((p, u)) => (p.trim().to_owned(), u.trim()),
                None => (String::new(), v.trim()),
            },
            Item::Nv("default_namespace", v) => (String::new(), v.trim()),
            _ => continue,
        };
        if matches!(i, Item::Nv("namespace", v) if v.contains(": ")) && p.starts_with("xml") {
            if p != "xml" || url != XMLNS {
                j.bad(*l, "reserved prefix");
            }
            continue;
        }
        if !set.insert(p) {
            j.bad(*l, "prefix declared twice");
        }
    }
    set
}

fn prefix_ok(j: &mut Judge, items: &[(&Item, usize)], ns: &BTreeSet<String>) {
    if let Some((p, l)) = value(items, "prefix") {
        let p = p.trim();
        if !p.is_empty() && p != "xml" && !ns.contains(p) {
            j.bad(l, "prefix not declared");
        }
    }
}

struct Part {
    attrs: Vec<Attr>,
    lines: Vec<usize>,
    own: usize,
    fields: Vec<(Vec<Attr>, Vec<usize>)>,
    shape: char, // u(nit), 1 (one unnamed), t(uple), n(amed)
}

fn put_fields(t: &mut Text, f: &[Field], named: bool) -> (Vec<(Vec<Attr>, Vec<usize>)>, Vec<usize>) {
    let mut o = vec![];
    let mut own = vec![];
    for f in f {
        let l = t.attrs(&f.attrs);
        own.push(if named { t.put(&format!("{}: {},", f.ident, f.ty)) } else { t.put(&format!("{},", f.ty)) });
        o.push((f.attrs.clone(), l));
    }
    (o, own)
}

/// The declaration's text and the verdict for each derive.
fn render(d: &Decl) -> (String, Vec<(Derive, Judge)>) {
    let mut t = Text::default();
    let tlines = t.attrs(&d.attrs);
    let mut parts = vec![];
    let mut sfields = vec![];
    let mut sown = vec![];
    let head;
    match &d.body {
        Body::Struct(Shape::Named(f)) => {
            head = t.put(&format!("{}struct {}", d.vis, d.name));
            t.put("{");
            let (a, b) = put_fields(&mut t, f, true);
            sfields = a;
            sown = b;
            t.put("}");
        }
        Body::Struct(Shape::Tuple(f)) => {
            head = t.put(&format!("{}struct {}", d.vis, d.name));
            t.put("(");
            let (a, b) = put_fields(&mut t, f, false);
            sfields = a;
            sown = b;
            t.put(");");
        }
        Body::Struct(Shape::Unit) => {
            head = t.put(&format!("{}struct {}", d.vis, d.name));
            t.put(";");
        }
        Body::Union(f) => {
            head = t.put(&format!("{}union {}", d.vis, d.name));
            t.put("{");
            let (a, b) = put_fields(&mut t, f, true);
            sfields = a;
            sown = b;
            t.put("}");
        }
        Body::Enum(v) => {
            head = t.put(&format!("{}enum {}", d.vis, d.name));
            t.put("{");
            for v in v {
                let lines = t.attrs(&v.attrs);
                let own = t.put(v.ident);
                let (shape, fields) = match &v.shape {
                    Shape::Unit => ('u', vec![]),
                    Shape::Tuple(f) => {
                        t.put("(");
                        let (a, _) = put_fields(&mut t, f, false);
                        t.put(")");
                        (if f.len() == 1 { '1' } else { 't' }, a)
                    }
                    Shape::Named(f) => {
                        t.put("{");
                        let (a, _) = put_fields(&mut t, f, true);
                        t.put("}");
                        ('n', a)
                    }
                };
                t.put(",");
                parts.push(Part { attrs: v.attrs.clone(), lines, own, fields, shape });
            }
            t.put("}");
        }
    }
    let mut out = vec![];
    for k in [Derive::De, Derive::Ser, Derive::Parse, Derive::ToText] {
        let mut j = Judge::default();
        let titems = j.items(&d.attrs, &tlines);
        if matches!(k, Derive::De | Derive::Ser) {
            match &d.body {
                Body::Union(_) => j.bad(head, "a union"),
                Body::Struct(Shape::Named(_)) => {
                    j.allow(&titems, &[], &["rename", "prefix", "namespace", "default_namespace"], &["namespace", "default_namespace"]);
                    let ns = namespaces(&mut j, &titems);
                    prefix_ok(&mut j, &titems, &ns);
                    for ((a, l), own) in sfields.iter().zip(&sown) {
                        let items = j.items(a, l);
                        j.allow(&items, &["attribute", "default", "flatten", "text"], &["rename", "prefix"], &[]);
                        prefix_ok(&mut j, &items, &ns);
                        let (at, fl, de, te) = (word(&items, "attribute"), word(&items, "flatten"), word(&items, "default"), word(&items, "text"));
                        let kinds = at.is_some() as u32 + fl.is_some() as u32 + te.is_some() as u32;
                        if kinds > 1 || te.is_some() || fl.is_some() && de.is_some() {
                            // the error may be on the field or on any of its attributes
                            for x in l.iter().chain([own]) {
                                j.bad(*x, "contradictory or unsupported field");
                            }
                        }
                    }
                }
                Body::Struct(_) => {
                    j.allow(&titems, &[], &["rename", "prefix", "namespace", "default_namespace"], &["namespace", "default_namespace"]);
                    let ns = namespaces(&mut j, &titems);
                    prefix_ok(&mut j, &titems, &ns);
                    j.bad(head, "fields without names");
                }
                Body::Enum(_) => {
                    j.allow(&titems, &[], &["rename", "prefix", "namespace", "default_namespace"], &["namespace", "default_namespace"]);
                    let ns = namespaces(&mut j, &titems);
                    prefix_ok(&mut j, &titems, &ns);
                    for p in &parts {
                        let items = j.items(&p.attrs, &p.lines);
                        j.allow(&items, &["skip"], &["rename", "prefix"], &[]);
                        prefix_ok(&mut j, &items, &ns);
                        j.none(&p.fields);
                        if word(&items, "skip").is_none() && !matches!(p.shape, 'u' | '1') {
                            j.bad(p.own, "shape of variant");
                        }
                    }
                }
            }
        } else {
            j.allow(&titems, &[], &["mode", "whitespace"], &[]);
            if let Some((w, l)) = value(&titems, "whitespace") {
                if !["preserve", "replace", "collapse"].contains(&w) {
                    j.bad(l, "unknown whitespace");
                }
            }
            let mode = value(&titems, "mode");
            // the first understood mode counts
            match mode {
                None => j.bad(head, "no mode"),
                Some((m, l)) if !["std", "restriction", "union"].contains(&m) => {
                    j.bad(l, "unknown mode");
                    j.bad(head, "no mode");
                }
                _ => {}
            }
            if titems.iter().filter(|(i, _)| i.name() == "mode").count() > 1 {
                // which one counts is not said
                j.unsure = j.bad.is_empty();
                for l in 1..=t.line {
                    j.bad.insert(l);
                }
            }
            match (mode.map(|m| m.0), &d.body) {
                (Some("std"), _) => {
                    j.none(&sfields);
                    for p in &parts {
                        let items = j.items(&p.attrs, &p.lines);
                        j.allow(&items, &[], &[], &[]);
                        j.none(&p.fields);
                    }
                }
                (Some("restriction"), Body::Enum(_)) => {
                    let mut unknown = false;
                    for p in &parts {
                        let items = j.items(&p.attrs, &p.lines);
                        j.allow(&items, &["unknown"], &["rename"], &[]);
                        j.none(&p.fields);
                        if word(&items, "unknown").is_some() {
                            if value(&items, "rename").is_some() {
                                j.bad(p.own, "unknown and rename");
                            }
                            if p.shape != '1' {
                                j.bad(p.own, "shape of unknown variant");
                            }
                            if unknown {
                                j.bad(p.own, "second unknown variant");
                            }
                            unknown = true;
                        } else if p.shape != 'u' {
                            j.bad(p.own, "shape of known variant");
                        }
                    }
                }
                (Some("union"), Body::Enum(_)) => {
                    for p in &parts {
                        let items = j.items(&p.attrs, &p.lines);
                        j.allow(&items, &[], &[], &[]);
                        j.none(&p.fields);
                        if p.shape != '1' {
                            j.bad(p.own, "shape of union variant");
                        }
                    }
                }
                (Some("restriction" | "union"), _) => j.bad(head, "not an enum"),
                _ => {}
            }
        }
        out.push((k, j));
    }
    (t.out, out)
}

// ---------------------------------------------------------------- generation

fn item(r: &mut Rng, good: &[Item], wild: usize) -> Item {
    if !r.chance(wild, 12) {
        return r.of(good);
    }
    let n = r.of(&["rename", "prefix", "namespace", "default_namespace", "attribute", "default", "flatten", "text", "skip", "unknown", "mode", "whitespace", "rename_all", "a::rename", "Rename", "attributes", "renamed", "skip_if", "ns", "name"]);
    let n = if r.chance(1, 4) { r.name(&[n]) } else { n };
    match r.below(7) {
        0 => Item::NvOther(n, r.of(&["5", "'c'", "b\"x\"", "true", "1.5"])),
        1 => Item::List(n),
        2 => Item::Lit(r.of(&["\"x\"", "5", "\"attribute\""])),
        3 | 4 => Item::Word(n),
        _ => Item::Nv(n, r.text(&["x", "", "std", "collapse", "ns", "ns: http://example.com/", "other", "Std", " std", "std ", "STD", "restriction ", "none"]).to_owned()),
    }
}

fn attrs(r: &mut Rng, good: &[Item], wild: usize, max: usize) -> Vec<Attr> {
    let mut o = vec![];
    let n = r.below(max + 1);
    let mut items: Vec<Item> = vec![];
    for _ in 0..n {
        let i = item(r, good, wild);
        // mostly without repetition
        if items.iter().any(|x| x.name() == i.name() && x.name() != "namespace") && !r.chance(wild, 12) {
            continue;
        }
        items.push(i);
    }
    let mut cur = vec![];
    for i in items {
        cur.push(i);
        if r.chance(1, 2) {
            o.push(Attr::Items(std::mem::take(&mut cur)));
        }
    }
    if !cur.is_empty() || r.chance(1, 20) {
        o.push(Attr::Items(cur));
    }
    if r.chance(1, 8) {
        let at = r.below(o.len() + 1);
        o.insert(at, Attr::Other(r.of(&["#[doc = \"x\"]", "#[serde(rename = \"x\", flatten)]", "#[allow(dead_code)]", "#[xml(bogus)]", "#[other::static_xml(bogus)]"])));
    }
    if r.chance(wild, 60) {
        let at = r.below(o.len() + 1);
        o.insert(at, Attr::Broken(r.of(&["#[static_xml]", "#[static_xml = \"x\"]", "#[static_xml(=)]", "#[static_xml(rename \"x\")]", "#[static_xml(rename = x)]"])));
    }
    o
}

const FIELDS: [&str; 6] = ["a", "b", "r#type", "c_d", "foo", "zed"];
const VARIANTS: [&str; 6] = ["A", "B", "Cd", "r#Self_", "Foo", "Zed"];

const TYPES: &[&str] = &["u32", "u32", "u32", "bool", "String", "Option<u32>", "Vec<String>", "std::option::Option<bool>", "f64", "Box<str>"];
/// Mostly few members, sometimes many.
fn some_size(r: &mut Rng) -> usize {
    let n = if r.chance(1, 40) { r.of(&[9, 17, 33, 40]) } else { r.below(5) };
    if r.chance(1, 10) { r.size(n, 100) } else { n }
}
fn some_ident(r: &mut Rng, usual: &[&'static str], i: usize) -> &'static str {
    if i < usual.len() + 5 && !r.chance(1, 12) {
        return usual[i % usual.len()];
    }
    // its own: nothing is said about two members of one name
    let w = r.name(&["x", "Y", "__a", "_b"]);
    let s = format!("{w}_{i}");
    if syn::parse_str::<syn::Ident>(&s).is_ok() { Box::leak(s.into_boxed_str()) } else { usual[i % usual.len()] }
}
fn nv(n: &'static str, v: &str) -> Item {
    Item::Nv(n, v.to_owned())
}

fn gen(r: &mut Rng) -> Decl {
    let wild = r.of(&[0usize, 0, 1, 1, 3]);
    let element = r.chance(1, 2);
    let mode = r.of(&["std", "restriction", "union"]);
    let mut tgood = if element {
        vec![nv("rename", "root"), nv("prefix", "ns"), nv("prefix", "xml"), nv("prefix", ""), nv("namespace", "ns: http://example.com/"), nv("namespace", "o:  http://other/ "),
             nv("namespace", "http://default/"), nv("default_namespace", "http://d2/")]
    } else {
        vec![nv("whitespace", r.of(&["preserve", "replace", "collapse"]))]
    };
    if wild > 0 {
        if !dict().texts.is_empty() {
            let w = r.text(&["x"]);
            tgood.extend(if element { [nv("prefix", w), nv("namespace", &format!("{w}: http://x/")), nv("namespace", w)] } else { [nv("whitespace", w), nv("mode", w), nv("whitespace", w)] });
        }
        if element {
            tgood.extend([nv("namespace", "xml: http://www.w3.org/XML/1998/namespace"), nv("namespace", "xml: http://example.com/"), nv("namespace", "xmlns: u"), nv("namespace", " xml: http://www.w3.org/XML/1998/namespace/"), nv("namespace", "xml: http://www.w3.org/XML/1998/namespaces"), nv("namespace", "xml2: http://www.w3.org/XML/1998/namespace"), nv("namespace", "xml: http://www.w3.org/XML/1998/"), nv("prefix", "undeclared"), nv("namespace", "ns: http://again/")]);
        } else {
            tgood.extend([nv("whitespace", "trim"), nv("mode", "restricted"), nv("mode", mode)]);
        }
    }
    let mut ta = attrs(r, &tgood, wild, 4);
    if !element && !r.chance(wild, 15) {
        let at = r.below(ta.len() + 1);
        ta.insert(at, Attr::Items(vec![nv("mode", mode)]));
    }
    let plain: Vec<Item> = vec![nv("rename", r.text(&["x"]))];
    let shape = |r: &mut Rng, good: &[Item], want: char, wild: usize, names: &[&'static str]| -> Shape {
        let k = if r.chance(wild, 12) { r.of(&['u', '1', 't', 'n', '0']) } else { want };
        let f = |r: &mut Rng, i: usize| {
            let a = if want == 'S' || r.chance(wild, 15) { attrs(r, good, wild, 3) } else { attrs(r, good, 0, 0) };
            Field { attrs: a, ident: some_ident(r, names, i), ty: r.of(TYPES) }
        };
        match k {
            'u' => Shape::Unit,
            '1' => Shape::Tuple(vec![f(r, 0)]),
            '0' => Shape::Tuple(vec![]),
            't' => Shape::Tuple(vec![f(r, 0), f(r, 1)]),
            _ => {
                let n = some_size(r);
                let s = r.below(6);
                Shape::Named((0..n).map(|i| f(r, i + s)).collect())
            }
        }
    };
    let fgood = {
        let mut g = vec![Item::Word("attribute"), Item::Word("default"), Item::Word("flatten"), nv("rename", "x"), nv("rename", "y"), nv("prefix", "ns"), nv("prefix", "xml")];
        if wild > 0 {
            g.push(Item::Word("text"));
            g.push(nv("prefix", "o"));
        }
        g
    };
    let is_struct = if element { r.chance(1, 2) } else { mode == "std" && r.chance(1, 3) || r.chance(wild, 20) };
    let body = if r.chance(wild, 60) {
        Body::Union(vec![Field { attrs: attrs(r, &fgood, wild, 1), ident: "a", ty: "u32" }])
    } else if is_struct {
        Body::Struct(if element { shape(r, &fgood, 'S', wild, &FIELDS) } else { shape(r, &plain, 'n', wild, &FIELDS) })
    } else {
        let n = some_size(r);
        let s = r.below(6);
        Body::Enum(
            (0..n)
                .map(|i| {
                    let unknown = mode == "restriction" && !element && r.chance(1, 4);
                    let good: Vec<Item> = if element {
                        vec![nv("rename", "x"), nv("rename", "y"), nv("prefix", "ns"), Item::Word("skip")]
                    } else if mode == "restriction" && !unknown {
                        vec![nv("rename", "some text")]
                    } else {
                        vec![]
                    };
                    let mut a = if good.is_empty() { if r.chance(wild, 12) { attrs(r, &plain, 12, 1) } else { attrs(r, &plain, 0, 0) } } else { attrs(r, &good, wild, 3) };
                    if unknown {
                        a.push(Attr::Items(vec![Item::Word("unknown")]));
                    }
                    let want = if element { r.of(&['u', '1']) } else if mode == "restriction" { if unknown { '1' } else { 'u' } } else if mode == "union" { '1' } else { 'u' };
                    Variant { attrs: a, ident: some_ident(r, &VARIANTS, i + s), shape: shape(r, &plain, want, wild, &FIELDS) }
                })
                .collect(),
        )
    };
    let vis = r.of(&["", "", "pub ", "pub(crate) "]);
    let name = if r.chance(1, 3) { r.name(&["T", "__T", "_T", "T2", "Value", "Élan", "Type", "Std", "Error", "lower"]) } else { "T" };
    let name = if syn::parse_str::<syn::Ident>(name).is_ok() { name } else { "T" };
    Decl { attrs: ta, vis, name, body }
}

// ---------------------------------------------------------------- running the macros

/// Lines of the `compile_error!`s in the output.
fn error_lines(ts: TokenStream, out: &mut Vec<usize>) {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    for (i, t) in v.iter().enumerate() {
        match t {
            TokenTree::Ident(id) if id == "compile_error" => {
                // `syn` gives the macro's name the start of the span and its argument the end
                out.push(v[i].span().start().line);
            }
            TokenTree::Group(g) => error_lines(g.stream(), out),
            _ => {}
        }
    }
}

fn expand(k: Derive, text: &str) -> Result<(Vec<usize>, bool), String> {
    let input: syn::DeriveInput = syn::parse_str(text).map_err(|e| format!("unparsable: {e}"))?;
    guard(|| {
        let errors = Errors::new();
        let r = match k {
            Derive::De => deserialize::derive(&errors, input),
            Derive::Ser => serialize::derive(&errors, input),
            Derive::Parse => parse::derive(&errors, input),
            Derive::ToText => to_text::derive(&errors, input),
        };
        let out = r.unwrap_or_default();
        let err = errors.take_compile_errors();
        let mut lines = vec![];
        error_lines(err, &mut lines);
        let whole = quote::quote! { const _: () = { #out }; };
        (lines, syn::parse2::<syn::File>(whole).is_ok())
    })
}

/// Rust that `syn` (1, without its `full` feature) cannot parse: the macros may reject it (a recorded finding), not panic.
const BEYOND_SYN: [&str; 8] = [
    "enum B { A = if true { 1 } else { 2 }, C = 9 }",
    "enum B { A = { 1 }, C = match 1 { _ => 7 } }",
    "enum B { A = loop { break 1 } }",
    "struct B { a: [u8; if true { 1 } else { 2 }] }",
    "struct B { a: [u8; { let x = 1; x }] }",
    "#[static_xml(prefix = \"x\")] struct B { a: Vec<[u8; unsafe { 3 }]> }",
    "struct B { #[static_xml(rename = \"y\")] a: [u8; match 2 { x => x }], b: String }",
    "enum B { #[static_xml(rename = \"y\")] A = [1][0], C = (|| 2) as isize }",
];

/// Declarations for the compiler itself to expand: one JSON line each, with what is wrong with it.
fn emit(rng: &mut Rng, n: usize) {
    for text in BEYOND_SYN {
        for name in ["Deserialize", "Serialize", "ParseText", "ToText"] {
            println!("{{\"derive\":{},\"text\":{},\"bad\":null,\"why\":\"\"}}", esc(name), esc(text));
        }
    }
    let mut k = 0;
    while k < n {
        let d = gen(rng);
        let (text, verdicts) = render(&d);
        // attributes of nobody are the compiler's own business
        if text.contains("#[serde") || text.contains("#[xml(") || text.contains("#[other") || syn::parse_str::<syn::DeriveInput>(&text).is_err() {
            continue;
        }
        let text_type = text.contains("mode = ");
        for (d, j) in verdicts {
            if j.unsure || text_type == matches!(d, Derive::De | Derive::Ser) && !rng.chance(1, 8) {
                continue;
            }
            let name = match d {
                Derive::De => "Deserialize",
                Derive::Ser => "Serialize",
                Derive::Parse => "ParseText",
                Derive::ToText => "ToText",
            };
            println!("{{\"derive\":{},\"text\":{},\"bad\":{},\"why\":{}}}", esc(name), esc(&text), !j.bad.is_empty(), esc(&j.why.join("; ")));
            k += 1;
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let prop = a[1].as_str();
    let get = |k: &str, d: &str| a.iter().position(|x| x == k).map(|i| a[i + 1].clone()).unwrap_or(d.to_owned());
    let seed: u64 = get("--seed", "1").parse().unwrap_or(1);
    let secs: f64 = get("--secs", "20").parse().unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    let mut rng = Rng::new(seed);
    if let Some(i) = a.iter().position(|x| x == "--emit") {
        emit(&mut rng, a[i + 1].parse().unwrap());
        return;
    }
    let mut r = Report::new(prop, secs, "declarations with known, unknown, repeated and contradictory attributes, each given to the four derives; non-trivial: at least one static_xml attribute");
    let (mut rejected, mut accepted) = (0u64, 0u64);
    while r.more() {
        let d = gen(&mut rng);
        let (text, verdicts) = render(&d);
        if std::env::var("SHOW").is_ok() { println!("{text}"); }
        if let Err(e) = syn::parse_str::<syn::DeriveInput>(&text) {
            // what is not Rust never reaches a macro
            r.notes = vec![format!("an unparsable declaration was skipped: {e}")];
            continue;
        }
        let text_type = text.contains("mode = ");
        for (k, j) in verdicts {
            if text_type == matches!(k, Derive::De | Derive::Ser) && !rng.chance(1, 8) {
                continue;
            }
            let input = format!("#[derive({k:?})]\n{text}");
            r.begin(&input, text.contains("static_xml"));
            let got = expand(k, &text);
            r.end();
            let fail = |r: &mut Report, what: &str, exp: String, got: String| {
                r.fail(Violation { props: vec!["C18"], what: what.into(), input: input.clone(), expected: exp, got });
            };
            match got {
                Err(e) => fail(&mut r, "the macro panics", "an expansion or a compile error".into(), e),
                Ok((lines, parses)) => {
                    if lines.is_empty() { accepted += 1 } else { rejected += 1 }
                    if j.unsure {
                        continue;
                    }
                    if j.bad.is_empty() && !lines.is_empty() {
                        fail(&mut r, "a declaration without mistakes is rejected", "no compile error".into(), format!("compile errors on lines {lines:?}"));
                    } else if !j.bad.is_empty() && lines.is_empty() {
                        fail(&mut r, "a declaration with a mistake is accepted", j.why.join("; "), "no compile error".into());
                    } else if let Some(l) = lines.iter().find(|l| !j.bad.contains(l)) {
                        fail(&mut r, "a compile error where nothing is wrong", format!("{}", j.why.join("; ")), format!("an error on line {l}"));
                    } else if lines.is_empty() && !parses {
                        fail(&mut r, "the generated code is not Rust", "items".into(), "unparsable tokens".into());
                    }
                }
            }
        }
    }
    r.notes.push(format!("{rejected} expansions rejected, {accepted} accepted"));
    r.print();
    std::process::exit(0);
}
