mod gen;
mod model;
mod util;
mod extra;
mod wide;
use model::*;
use std::collections::HashMap;
use util::*;

struct Run {
    o: Oracle,
    ops: HashMap<&'static str, Ops>,
    types: Vec<&'static str>,
    rng: Rng,
}

fn show(v: &Result<Val, String>) -> String {
    match v {
        Ok(v) => format!("Ok({v:?})"),
        Err(_) => "Err".to_owned(),
    }
}

impl Run {
    // ---------------------------------------------------------------- values
    fn some_text(&mut self, t: &Ty) -> String {
        match t {
            Ty::Scalar("String") | Ty::Scalar("Tracked") => self.rng.text(&["x", "", "a b", " pad ", "<&>\"'", "é", "bad", "t  u", "text\n"]).to_owned(),
            Ty::Scalar("bool") => self.rng.text(&["true", "false", "1", "0", "no", " true ", "TRUE", ""]).to_owned(),
            Ty::Scalar("f64") => self.rng.pick(&["1.5", "-2", "x", "1e9", "INF", "NaN"]).to_owned(),
            Ty::Scalar(_) => self.rng.text(&["0", "7", "-3", "12", "99999999999", "x", "", " 5 "]).to_owned(),
            Ty::Named(n) => match self.o.def(n).clone() {
                Def::Restriction { variants, .. } => {
                    let mut s = if self.rng.chance(5, 6) { variants[self.rng.below(variants.len())].1.to_owned() } else { self.rng.text(&["other", "", "RED", "x  y", "é", "a"]).to_owned() };
                    match self.rng.below(12) {
                        0 => s = format!(" {s}\n"),
                        1 => s = s.replace(' ', "  "),
                        2 => s = s.replace(' ', "\t"),
                        3 => s.push('x'),
                        4 => s = s.to_uppercase(),
                        5 => s = format!("\t{s}"),
                        6 => s = format!("{s}\u{a0}"),
                        7 => {
                            // pieces of declared texts and white space, in any order
                            let all: Vec<char> = variants.iter().flat_map(|v| v.1.chars()).chain(" \t\n\r\u{a0}x".chars()).collect();
                            s = (0..self.rng.below(7)).map(|_| all[self.rng.below(all.len())]).collect();
                        }
                        8 => {
                            // one character inserted, removed or changed
                            let mut c: Vec<char> = s.chars().collect();
                            let k = self.rng.below(c.len() + 1);
                            let x = self.rng.of(&[' ', '\t', '\n', '\r', 'e', 'é', '\u{a0}']);
                            match self.rng.below(3) {
                                0 => c.insert(k, x),
                                1 if k < c.len() => { c.remove(k); }
                                _ if k < c.len() => c[k] = x,
                                _ => {}
                            }
                            s = c.into_iter().collect();
                        }
                        _ => {}
                    }
                    s
                }
                Def::Union { variants, .. } => {
                    let t = variants[self.rng.below(variants.len())].1.clone();
                    self.some_text(&t)
                }
                _ => self.rng.text(&["a,b", "a,", ",b", "abc", "", " a , b ", "a,b,c", "x  y,z\t", "é,"]).to_owned(),
            },
            _ => unreachable!(),
        }
    }
    fn good_text(&mut self, t: &Ty) -> String {
        for _ in 0..30 {
            let s = self.some_text(t);
            if self.o.parse(t, &s).is_ok() {
                return s;
            }
        }
        self.some_text(t)
    }
    /// The huge types less often than the others.
    fn some_type(&mut self, l: &[&'static str]) -> &'static str {
        loop {
            let t = l[self.rng.below(l.len())];
            let big = t.starts_with('X') && (t.ends_with("Huge") || t.ends_with("Wide")) || t.starts_with("XN") && t.len() > 5;
            if !big || self.rng.chance(1, 4) {
                return t;
            }
        }
    }
    fn value(&mut self, t: &Ty, depth: usize) -> Val {
        match t {
            Ty::Opt(t) => Val::Opt(if self.rng.chance(1, 3) || depth == 0 { None } else { Some(Box::new(self.value(t, depth - 1))) }),
            Ty::Many(t) => {
                let n = if depth == 0 { 0 } else { [0, 1, 1, 2, 3, 5][self.rng.below(6)] };
                let n = if depth > 2 && self.rng.chance(1, 4) { self.rng.size(n, 40) } else { n };
                Val::List((0..n).map(|_| self.value(t, depth - 1)).collect())
            }
            Ty::Scalar("bool") => Val::Scalar(self.rng.pick(&["true", "false"]).into()),
            Ty::Scalar("f64") => Val::Scalar(self.rng.pick(&["1.5", "-2", "0", "1000000000"]).into()),
            Ty::Scalar("u64") => Val::Scalar(self.rng.pick(&["0", "7", "18446744073709551615"]).into()),
            Ty::Scalar("i32") => Val::Scalar(self.rng.pick(&["0", "7", "-2147483648"]).into()),
            Ty::Scalar("Tracked") => Val::Scalar(if self.rng.chance(1, 40) { "unprintable" } else { self.rng.pick(&["x", "tt", "a<b"]) }.into()),
            Ty::Scalar(_) => Val::Scalar(self.rng.text(&["", "x", "a b", "<&>\"'", "é日", "]]>"]).into()),
            Ty::Named(n) => match self.o.def(n).clone() {
                Def::Restriction { variants, unknown, .. } => match unknown {
                    Some(u) if self.rng.chance(1, 3) => Val::choice(u, Some(Val::Scalar(self.rng.text(&["other", "", "x  y", "small", "é"]).into()))),
                    _ => Val::choice(variants[self.rng.below(variants.len())].0, None),
                },
                Def::Union { variants, .. } => {
                    let (v, t) = variants[self.rng.below(variants.len())].clone();
                    Val::choice(v, Some(self.value(&t, depth)))
                }
                Def::Std { .. } => Val::Scalar(self.rng.pick(&["a,b", "xy,", "a,b c", "é,z"]).into()),
                Def::Struct { fields, .. } => Val::Fields(fields.iter().map(|f| self.value(&f.ty, depth.saturating_sub(1))).collect()),
                Def::Enum { variants, .. } => {
                    let live: Vec<&Variant> = variants.iter().filter(|v| !v.skip).collect();
                    let v = if self.rng.chance(1, 25) { &variants[self.rng.below(variants.len())] } else { live[self.rng.below(live.len())] };
                    Val::choice(v.ident, v.ty.as_ref().map(|t| self.value(t, depth.saturating_sub(1).max(1))))
                }
            },
        }
    }

    // ------------------------------------------------------------- documents
    /// Names an element of this type may contain: name, type of the content, repeatable
    fn menu(&self, t: &Ty) -> Vec<(Name, Option<Ty>, bool)> {
        let Ty::Named(n) = t else { return vec![] };
        let one = |t: &Ty| match t {
            Ty::Opt(t) => ((**t).clone(), false),
            Ty::Many(t) => ((**t).clone(), true),
            t => (t.clone(), false),
        };
        match self.o.def(n) {
            Def::Struct { fields, .. } => fields
                .iter()
                .flat_map(|f| match f.mode {
                    'e' => {
                        let (t, m) = one(&f.ty);
                        vec![(f.name, Some(t), m)]
                    }
                    'f' => self.menu(&f.ty),
                    _ => vec![],
                })
                .collect(),
            Def::Enum { variants, .. } => variants
                .iter()
                .map(|v| match &v.ty {
                    Some(t) => {
                        let (t, m) = one(t);
                        (v.name, Some(t), m)
                    }
                    None => (v.name, None, true),
                })
                .collect(),
            _ => vec![],
        }
    }
    /// The fields of a type and of the structs flattened into it, and the enums flattened into those.
    fn leaves(&self, t: &Ty) -> (Vec<Field>, Vec<Vec<Variant>>) {
        let Ty::Named(n) = t else { unreachable!() };
        match self.o.def(n) {
            Def::Struct { fields, .. } => {
                let (mut a, mut b) = (vec![], vec![]);
                for f in fields {
                    if f.mode == 'f' {
                        let (x, y) = self.leaves(&f.ty);
                        a.extend(x);
                        b.extend(y);
                    } else {
                        a.push(f.clone());
                    }
                }
                (a, b)
            }
            Def::Enum { variants, .. } => (vec![], vec![variants.clone()]),
            _ => unreachable!(),
        }
    }
    fn element(&mut self, t: Option<&Ty>, name: (String, String), depth: usize, wild: usize) -> Node {
        let mut n = Node::new(name);
        let Some(t) = t else {
            if self.rng.chance(1, 3) {
                n.children.push(Child::Text("x".into()));
            }
            if self.rng.chance(1, 4) {
                n.attrs.push((("".into(), "a".into()), "1".into()));
            }
            if depth > 0 && self.rng.chance(1, 4) {
                n.children.push(Child::Elem(Node::new(("".into(), self.rng.pick(&["a", "Dot", "one", "tail"]).into()))));
            }
            return n;
        };
        if self.o.is_text(t) {
            let s = if self.rng.chance(1, 6 + 40 / (wild + 1)) { self.some_text(t) } else { self.good_text(t) };
            if !s.is_empty() {
                n.children.push(Child::Text(s));
            }
            if self.rng.chance(1, 30) && wild > 0 {
                n.children.push(Child::Elem(Node::new(("".into(), "x".into()))));
            }
            return n;
        }
        let Ty::Named(tn) = t else { unreachable!() };
        let def = self.o.def(tn).clone();
        let (own_fields, enums) = self.leaves(t);
        // attributes
        if let Def::Struct { .. } = &def {
            for f in own_fields.iter().filter(|f| f.mode == 'a') {
                let inner = match &f.ty {
                    Ty::Opt(t) => (**t).clone(),
                    t => t.clone(),
                };
                let k = if matches!(f.ty, Ty::Opt(_)) || f.default { [0, 1][self.rng.below(2)] } else { [1, 1, 1, 0][self.rng.below(if wild > 1 { 4 } else { 3 })] };
                // twice, by two prefixes of one namespace
                let k = if self.rng.chance(wild, 16) && !f.name.0.is_empty() && f.name.0 != XML { 2 } else { k };
                for _ in 0..k {
                    let s = if self.rng.chance(wild, 20) { self.some_text(&inner) } else { self.good_text(&inner) };
                    n.attrs.push((own(f.name), s));
                }
                if self.rng.chance(wild, 12) {
                    let ns = self.rng.pick(&["urn:a", "urn:b", "", "urn:x", "urn:d"]).to_owned();
                    let a = ((ns, f.name.1.to_owned()), "near".to_owned());
                    if !n.attrs.iter().any(|(m, _)| *m == a.0) {
                        n.attrs.push(a);
                    }
                }
            }
            if self.rng.chance(1, 4) {
                n.attrs.push((("".into(), "unknown-attr".into()), "u".into()));
            }
            for i in (1..n.attrs.len()).rev() {
                let j = self.rng.below(i + 1);
                n.attrs.swap(i, j);
            }
        }
        // children: a plan from the structure, then shuffled and disturbed
        let mut plan: Vec<(Name, Option<Ty>)> = vec![];
        let push = |r: &mut Rng, plan: &mut Vec<(Name, Option<Ty>)>, name: Name, t: Option<&Ty>, dflt: bool| {
            let (inner, k) = match t {
                None => (None, [1, 1, 1, 2][r.below(4)]),
                Some(Ty::Opt(t)) | Some(Ty::Many(t)) if depth == 0 => (Some((**t).clone()), 0),
                Some(Ty::Opt(t)) => (Some((**t).clone()), [0, 1][r.below(2)]),
                Some(Ty::Many(t)) => (Some((**t).clone()), [0, 1, 2, 3, 7][r.below(if depth > 1 { 5 } else { 3 })]),
                Some(t) => (Some(t.clone()), if dflt { r.below(2) } else { 1 }),
            };
            for _ in 0..k {
                plan.push((name, inner.clone()));
            }
        };
        for f in own_fields.iter().filter(|f| f.mode == 'e') {
            push(&mut self.rng, &mut plan, f.name, Some(&f.ty), f.default);
        }
        for e in &enums {
            let v = &e[self.rng.below(e.len())];
            let before = plan.len();
            push(&mut self.rng, &mut plan, v.name, v.ty.as_ref(), false);
            if plan.len() == before && depth > 0 && self.rng.chance(2, 3) {
                let inner = match &v.ty { Some(Ty::Opt(t)) | Some(Ty::Many(t)) => Some((**t).clone()), t => t.clone() };
                plan.push((v.name, inner));
            }
        }
        for i in (1..plan.len()).rev() {
            let j = self.rng.below(i + 1);
            plan.swap(i, j);
        }
        // disturbances
        for _ in 0..[0, wild / 2, wild][self.rng.below(3)] {
            let menu = self.menu(t);
            match self.rng.below(6) {
                0 if !plan.is_empty() => {
                    let i = self.rng.below(plan.len());
                    plan.remove(i);
                }
                1 if !plan.is_empty() => {
                    let x = plan[self.rng.below(plan.len())].clone();
                    let i = self.rng.below(plan.len() + 1);
                    plan.insert(i, x);
                }
                2 | 3 if !menu.is_empty() => {
                    let (nm, t, _) = menu[self.rng.below(menu.len())].clone();
                    let i = self.rng.below(plan.len() + 1);
                    plan.insert(i, (nm, t));
                }
                _ => {
                    // unknown names, near misses
                    let mut nm: Name = ("", self.rng.name(&["zzz", "ab", "A", "Hidden", "one", "Yes", "x", "Dot"]));
                    if !menu.is_empty() && self.rng.chance(2, 3) {
                        let m = menu[self.rng.below(menu.len())].0;
                        nm = match self.rng.below(3) {
                            0 => (self.rng.uri(&["urn:a", "urn:b", "", "urn:d", "urn:zz", "urn:p", "URN:p", "urn:p/", "urn:r:"]), m.1),
                            1 => (m.0, self.rng.of(&["a", "abc", "aB", "circle", "Zeta2", "Al"])),
                            _ => (m.1, m.1),
                        };
                    }
                    let i = self.rng.below(plan.len() + 1);
                    plan.insert(i, (nm, None));
                }
            }
        }
        for (nm, t) in plan {
            if self.rng.chance(1, 6) {
                n.children.push(Child::Text(self.rng.pick(&["\n  ", "text", " "]).to_owned()));
            }
            let c = self.element(t.as_ref(), own(nm), depth.saturating_sub(1), if depth > 0 { wild } else { 0 });
            n.children.push(Child::Elem(c));
        }
        n
    }
    fn xml(&mut self, n: &Node, scope: &[(String, String)], out: &mut String) {
        let mut scope: Vec<(String, String)> = scope.to_vec();
        let mut decls: Vec<(String, String)> = vec![];
        let mut used: Vec<String> = vec![];
        fn lookup<'a>(s: &'a [(String, String)], p: &str) -> &'a str {
            s.iter().rev().find(|(q, _)| q == p).map(|(_, u)| u.as_str()).unwrap_or("")
        }
        let mut qname = |r: &mut Rng, name: &(String, String), attr: bool, taken: &[String]| -> String {
            let (ns, local) = name;
            if ns == XML {
                return format!("xml:{local}");
            }
            if ns.is_empty() {
                if !attr && !lookup(&scope, "").is_empty() {
                    scope.push(("".into(), "".into()));
                    decls.push(("".into(), "".into()));
                }
                if !attr {
                    used.push("".into());
                }
                return local.clone();
            }
            let mut cands: Vec<String> = scope.iter().map(|(p, _)| p.clone()).filter(|p| lookup(&scope, p) == ns && !(attr && p.is_empty())).collect();
            cands.retain(|p| !taken.contains(&(if p.is_empty() { local.clone() } else { format!("{p}:{local}") })));
            let p = if !cands.is_empty() && r.chance(2, 3) {
                cands[r.below(cands.len())].clone()
            } else {
                let mut p = r.pick(&["p", "q", "a", "b", "", "ns1"]).to_owned();
                let mut i = 0;
                while used.contains(&p) || decls.iter().any(|(q, _)| *q == p) || attr && p.is_empty() {
                    p = format!("v{i}");
                    i += 1;
                }
                scope.push((p.clone(), ns.clone()));
                decls.push((p.clone(), ns.clone()));
                p
            };
            used.push(p.clone());
            if p.is_empty() { local.clone() } else { format!("{p}:{local}") }
        };
        let name = qname(&mut self.rng, &n.name, false, &[]);
        let mut attrs = vec![];
        let mut taken = vec![];
        for (an, av) in &n.attrs {
            let q = qname(&mut self.rng, an, true, &taken);
            taken.push(q.clone());
            attrs.push(format!(" {q}=\"{}\"", escape(av)));
        }
        let ds: Vec<String> = decls.iter().map(|(p, u)| if p.is_empty() { format!(" xmlns=\"{u}\"") } else { format!(" xmlns:{p}=\"{u}\"") }).collect();
        let head = if self.rng.chance(1, 2) { ds.concat() + &attrs.concat() } else { attrs.concat() + &ds.concat() };
        if n.children.is_empty() && self.rng.chance(1, 2) {
            out.push_str(&format!("<{name}{head}/>"));
            return;
        }
        out.push_str(&format!("<{name}{head}>"));
        for c in &n.children {
            match c {
                Child::Elem(e) => self.xml(e, &scope, out),
                Child::Text(t) => match self.rng.below(8) {
                    0 => out.push_str(&format!("<![CDATA[{t}]]>")),
                    1 => {
                        let k = t.char_indices().nth(self.rng.below(t.chars().count().max(1))).map(|x| x.0).unwrap_or(0);
                        out.push_str(&format!("{}<!-- c -->{}", escape(&t[..k]), escape(&t[k..])));
                    }
                    _ => out.push_str(&escape(t)),
                },
            }
        }
        out.push_str(&format!("</{name}>"));
    }

    // ----------------------------------------------------------------- checks
    fn check_read(&mut self, r: &mut Report, tn: &'static str, props: &[&'static str], wild: usize) {
        let t = Ty::Named(tn);
        let depth = 3;
        let node = self.element(Some(&t), ("".into(), "root".into()), depth, wild);
        let mut xml = String::new();
        self.xml(&node, &[], &mut xml);
        let Ok((doc, _)) = tree(xml.as_bytes()) else { return };
        let want = self.o.read(&t, &doc);
        let input = format!("static_xml::de::from_str::<{tn}>({}) (harness/derive, type in corpus/src/lib.rs or harness/derive/src/extra.rs)", esc(&xml));
        r.begin(&input, !node.children.is_empty());
        let got = guard(|| (self.ops[tn].read)(xml.as_bytes()));
        r.end();
        let (w, g) = (show(&want.map_err(|_| String::new())), match &got { Ok(g) => show(g), Err(p) => p.clone() });
        let detail = match &got { Ok(Err(e)) => format!(" ({e})"), _ => String::new() };
        if w != g {
            r.check(props, "wrong result of reading", &input, &w, &format!("{g}{detail}"));
        }
    }
    fn check_text(&mut self, r: &mut Report, tn: &'static str, s: &str) {
        let t = Ty::Named(tn);
        let want = self.o.parse(&t, s);
        let input = format!("<{tn} as ParseText>::parse({})", esc(s));
        r.begin(&input, !s.is_empty());
        let got = guard(|| (self.ops[tn].parse.unwrap())(s.to_owned()));
        r.end();
        let g = match &got { Ok(g) => show(g), Err(p) => p.clone() };
        r.check(&["C15"], "wrong result of parsing", &input, &show(&want.clone().map_err(|_| String::new())), &g);
        if let Ok(v) = want {
            self.check_print(r, tn, &v, true);
        }
    }
    fn check_print(&mut self, r: &mut Report, tn: &'static str, v: &Val, parsed: bool) {
        let t = Ty::Named(tn);
        let input = format!("<{tn} as ToText>::to_text of {v:?}");
        let got = guard(|| (self.ops[tn].print.unwrap())(v));
        let want = self.o.print(&t, v);
        let g = match &got { Ok(Ok(s)) => esc(s), Ok(Err(_)) => "Err".into(), Err(p) => p.clone() };
        r.check(&["C15"], "wrong printed form", &input, &match &want { Ok(s) => esc(s), Err(_) => "Err".into() }, &g);
        if let (true, Ok(s)) = (parsed && !format!("{v:?}").contains("NaN"), want) {
            // a union's first variant that accepts the printed form may be an earlier one
            let back = guard(|| (self.ops[tn].parse.unwrap())(s.clone()));
            let b = match &back { Ok(g) => show(g), Err(p) => p.clone() };
            if matches!(self.o.def(tn), Def::Restriction { .. } | Def::Std { .. }) {
                r.check(&["C15"], "print then parse changes the value", &input, &format!("Ok({v:?})"), &b);
            }
        }
    }
    /// Values that reading what was written gives back.
    fn readable(&self, t: &Ty, v: &Val) -> bool {
        match (t, v) {
            (Ty::Opt(_), Val::Opt(None)) => true,
            (Ty::Opt(t), Val::Opt(Some(v))) => self.readable(t, v),
            (Ty::Many(t), Val::List(l)) => l.iter().all(|v| self.readable(t, v)),
            (t, v) if self.is_text(t) => match self.o.print(t, v) {
                Ok(s) => self.o.parse(t, &s).as_ref() == Ok(v),
                Err(_) => false,
            },
            (Ty::Named(n), v) => match self.o.def(n) {
                Def::Struct { fields, .. } => {
                    let mut names: Vec<Name> = self.menu(t).iter().map(|m| m.0).collect();
                    let k = names.len();
                    names.sort();
                    names.dedup();
                    k == names.len() && fields.iter().zip(v.fields()).all(|(f, v)| self.readable(&f.ty, v))
                }
                Def::Enum { variants, .. } => {
                    let (c, p) = v.chosen();
                    let d = variants.iter().find(|d| d.ident == c).unwrap();
                    !d.skip
                        && match p {
                            None | Some(Val::Opt(None)) => p.is_none(),
                            Some(Val::List(l)) if l.is_empty() => false,
                            Some(p) => self.readable(d.ty.as_ref().unwrap(), p),
                        }
                }
                _ => unreachable!(),
            },
            _ => unreachable!(),
        }
    }
    fn is_text(&self, t: &Ty) -> bool {
        self.o.is_text(t)
    }
    fn check_write(&mut self, r: &mut Report, tn: &'static str, props: &[&'static str]) {
        let t = Ty::Named(tn);
        let v = self.value(&t, 4);
        let (root, mut uris) = match self.o.def(tn) {
            Def::Struct { root, namespaces, .. } | Def::Enum { root, namespaces, .. } => (*root, namespaces.clone()),
            _ => unreachable!(),
        };
        // only names in a namespace the type declares are writable, and none without
        // a namespace if the type declares a default one
        if !uris.iter().any(|n| n.0.is_empty()) {
            uris.push(("", ""));
        }
        let name = if self.rng.chance(1, 2) { None } else { Some((uris[self.rng.below(uris.len())].1, self.rng.of(&["el", "r"]))) };
        let mut uris = vec![];
        let want = self.o.write(&t, &v, own(name.unwrap_or(root)), &mut uris);
        let input = format!("serializing the {tn} {v:?} as {name:?} (harness/derive)");
        r.begin(&input, true);
        let mut out = vec![];
        let got = guard(|| (self.ops[tn].write)(&v, name, &mut out));
        let rn = guard(|| (self.ops[tn].root.unwrap())(&v));
        r.end();
        r.check(props, "wrong root name", &input, &format!("{:?}", own(root)), &match rn { Ok(n) => format!("{n:?}"), Err(p) => p });
        let ok = match &got { Ok(Ok(())) => "Ok".to_owned(), Ok(Err(_)) => "Err".to_owned(), Err(p) => p.clone() };
        let w = match &want { Ok(_) => "Ok", Err(_) => "Err" };
        r.check(props, "wrong outcome of writing", &input, w, &ok);
        let (Ok(want), true) = (want, ok == "Ok") else { return };
        let text = String::from_utf8_lossy(&out).into_owned();
        match tree(&out) {
            Err(e) => r.check(props, "the output is not well-formed", &input, "a document", &format!("{text}: {e}")),
            Ok((doc, scopes)) => {
                if doc != want {
                    let mut a = String::new();
                    self.xml(&want, &[], &mut a);
                    r.check(props, "wrong output", &input, &format!("{want:?}"), &format!("{doc:?} from {text}"));
                }
                for (s, u) in scopes.iter().zip(&uris) {
                    for u in u {
                        if !s.iter().any(|(_, x)| x == u) {
                            r.check(props, "a namespace of the type is not declared", &input, u, &text);
                        }
                    }
                }
            }
        }
        // reading it back
        if self.readable(&t, &v) {
            let back = guard(|| (self.ops[tn].read)(&out));
            let b = match &back { Ok(g) => show(g), Err(p) => p.clone() };
            r.check(props, "what was written is not read back", &format!("{input} = {}", esc(&text)), &format!("Ok({v:?})"), &b);
        }
        // a failure at any point is returned
        for _ in 0..3 {
            let k = self.rng.below(out.len());
            let mut f = Failing { left: k };
            let got = guard(|| (self.ops[tn].write)(&v, name, &mut f));
            let ok = match &got { Ok(Ok(())) => "Ok".to_owned(), Ok(Err(_)) => "Err".to_owned(), Err(p) => p.clone() };
            r.check(props, &format!("the output fails at byte {k}"), &input, "Err", &ok);
        }
    }
}

struct Failing {
    left: usize,
}
impl std::io::Write for Failing {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        if self.left == 0 {
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "full"));
        }
        let n = b.len().min(self.left);
        self.left -= n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn escape(s: &str) -> String {
    s.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;").replace('"', "&quot;").replace('\n', "&#10;").replace('\t', "&#9;").replace('\r', "&#13;")
}

impl Run {
    /// A struct with 300 attributes and 300 elements, an enum with 300 variants: a few of them, and near misses.
    fn check_wide(&mut self, r: &mut Report) {
        let n = wide::NAMES.len();
        let mut want = (vec![None; n], vec![None; n]);
        let mut attrs = String::new();
        let mut elems = String::new();
        let name = |i: usize| match wide::NAMES[i] {
            ("urn:a", l) => format!("a:{l}"),
            ("urn:b", l) => format!("b:{l}"),
            (_, l) => l.to_owned(),
        };
        for _ in 0..self.rng.below(8) {
            let i = self.rng.below(n);
            if want.0[i].is_none() {
                want.0[i] = Some(i as u32);
                attrs += &format!(" {}=\"{i}\"", name(i));
            }
            let i = self.rng.below(n);
            if want.1[i].is_none() {
                want.1[i] = Some(i as u32);
                elems += &format!("<{}>{i}</{}>", name(i), name(i));
            }
            if self.rng.chance(1, 4) {
                elems += &format!("<c:{}>7</c:{}>", wide::NAMES[i].1, wide::NAMES[i].1);
            }
        }
        let doc = format!("<r xmlns:a=\"urn:a\" xmlns:b=\"urn:b\" xmlns:c=\"urn:c\"{attrs}>{elems}</r>");
        r.begin(&doc, !elems.is_empty());
        let got = std::panic::catch_unwind(|| static_xml::de::read::<_, wide::Wide>(doc.as_bytes()).map(|w| wide::wide(&w)).map_err(|e| e.to_string()));
        if !matches!(&got, Ok(Ok(g)) if *g == want) {
            let some = |v: &Vec<Option<u32>>| v.iter().enumerate().filter_map(|(i, x)| x.map(|x| format!("{}={x}", name(i)))).collect::<Vec<_>>();
            let got = match got {
                Ok(Ok(g)) => format!("attributes {:?} elements {:?}", some(&g.0), some(&g.1)),
                Ok(Err(e)) => e,
                Err(_) => "panic".to_owned(),
            };
            r.check(&["C11"], "a struct with 300 attributes and 300 elements (harness/derive/src/wide.rs) read", &doc, &format!("attributes {:?} elements {:?}", some(&want.0), some(&want.1)), &got);
        }
        r.end();
        let i = self.rng.below(n);
        let doc = format!("<r xmlns:a=\"urn:a\" xmlns:b=\"urn:b\"><{}>5</{}></r>", name(i), name(i));
        r.begin(&doc, true);
        let got = std::panic::catch_unwind(|| static_xml::de::read::<_, wide::Choice>(doc.as_bytes()).map(|w| wide::choice(&w)).map_err(|e| e.to_string()));
        if !matches!(&got, Ok(Ok(g)) if *g == (i, 5)) {
            r.check(&["C11"], "an enum with 300 variants (harness/derive/src/wide.rs) read", &doc, &format!("variant {i}"), &format!("{got:?}"));
        }
        r.end();
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let prop = a[1].as_str();
    let get = |k: &str, d: &str| a.iter().position(|x| x == k).map(|i| a[i + 1].clone()).unwrap_or(d.to_owned());
    let seed: u64 = get("--seed", "1").parse().unwrap_or(1);
    let secs: f64 = get("--secs", "20").parse().unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    let defs = gen::defs();
    let types: Vec<&'static str> = defs.iter().map(|(n, _)| *n).collect();
    let mut run = Run { o: Oracle { defs: defs.into_iter().collect() }, ops: gen::ops().into_iter().collect(), types, rng: Rng::new(seed) };
    let of = |run: &Run, f: fn(&Def) -> bool| -> Vec<&'static str> { run.types.iter().copied().filter(|t| f(run.o.def(t))).collect() };
    let text = of(&run, |d| !matches!(d, Def::Struct { .. } | Def::Enum { .. }));
    let structs = of(&run, |d| matches!(d, Def::Struct { .. }));
    let enums = of(&run, |d| matches!(d, Def::Enum { .. }));
    let flat: Vec<&'static str> = structs.iter().copied().filter(|t| matches!(run.o.def(t), Def::Struct { fields, .. } if fields.iter().any(|f| f.mode == 'f'))).collect();
    let leak = |p: &str| -> &'static str { Box::leak(p.to_owned().into_boxed_str()) };
    let me: Vec<&'static str> = vec![leak(prop)];
    let mut r;
    match prop {
        "C11" | "C13" => {
            r = Report::new(prop, secs, "documents in random order with repetitions, omissions, unknown and near-miss names, read into derived structs; non-trivial: at least one child");
            let all: Vec<&'static str> = if prop == "C11" { structs.iter().chain(&enums).copied().collect() } else { structs.clone() };
            while r.more() {
                if prop == "C11" && run.rng.chance(1, 20) {
                    run.check_wide(&mut r);
                    continue;
                }
                let t = run.some_type(&all);
                let wild = run.rng.below(4);
                run.check_read(&mut r, t, &me, wild);
            }
        }
        "C14" => {
            r = Report::new(prop, secs, "sequences of children offered to derived enums, alone and flattened, and values written (skipped variants too); non-trivial: at least one child");
            while r.more() {
                if run.rng.chance(1, 5) {
                    let t = run.some_type(&enums);
                    run.check_write(&mut r, t, &me);
                    continue;
                }
                let t = if run.rng.chance(1, 2) { run.some_type(&enums) } else { run.some_type(&flat) };
                let wild = run.rng.below(4);
                run.check_read(&mut r, t, &me, wild);
            }
        }
        "C15" => {
            r = Report::new(prop, secs, "strings around the declared texts offered to derived text enums, and values printed and parsed; non-trivial: not the empty string");
            while r.more() {
                let t = run.some_type(&text);
                if run.rng.chance(3, 4) {
                    let s = run.some_text(&Ty::Named(t));
                    run.check_text(&mut r, t, &s);
                } else {
                    let v = run.value(&Ty::Named(t), 1);
                    r.begin(&format!("{t} {v:?}"), true);
                    run.check_print(&mut r, t, &v, false);
                    r.end();
                }
            }
        }
        "C16" => {
            r = Report::new(prop, secs, "random values of derived types written, compared event by event, read back, and written to outputs failing at a byte; non-trivial: all");
            while r.more() {
                let all: Vec<&'static str> = structs.iter().chain(&enums).copied().collect();
                let t = run.some_type(&all);
                run.check_write(&mut r, t, &me);
            }
        }
        _ => panic!("no such property"),
    }
    r.print();
    std::process::exit(0);
}
