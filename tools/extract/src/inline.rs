//! Helper functions and constants that are new in the code are put back where they are used, so that the contracts
//! of the functions that use them still apply. "New" means: not among the names the code had when the
//! contracts were written (tools/known_fns.json). A text without new names comes back as it was.
//!
//! What is done, on the text, one use at a time:
//!   helper(a, b)         -> { let p: P = a; let q: Q = b; body }
//!   an argument that is a variable and a parameter that is not assigned: the parameter is renamed to the variable
//!   x: &mut P, &mut place: the parameter is replaced by the place
//!   self.helper(a), Self::helper(a): the same, `self` stays what it is
//!   if c { ..; return v; } rest   (directly in the helper's body) -> if c { ..; v } else { rest }
//!   NAME (a new constant) -> (its expression)
//! A helper that leaves in another way is put back only where leaving the helper is leaving its caller
//! (in tail position, under `return`, and for `?` and `return Err(..)` under `?`). Otherwise the use stays, and the
//! verifier's front end will not know the name: the function that uses it is undecided.
use crate::{base_of, br};
use proc_macro2::{TokenStream, TokenTree};
use std::collections::{BTreeSet, HashMap};
use syn::visit::{self, Visit};
use syn::{Expr, Item, Stmt};
use quote::ToTokens;

struct Helper {
    name: String,
    /// `Type::name` in an impl
    key: String,
    /// the header of the impl it is in
    owner: Option<(String, String)>,
    sig: syn::Signature,
    block: syn::Block,
    generics: BTreeSet<String>,
    owner_generics: BTreeSet<String>,
}

fn generic_names(g: &syn::Generics) -> BTreeSet<String> {
    g.params.iter().filter_map(|p| match p {
        syn::GenericParam::Type(t) => Some(t.ident.to_string()),
        syn::GenericParam::Const(c) => Some(c.ident.to_string()),
        _ => None,
    }).collect()
}

fn hidden(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("cfg"))
}

#[derive(Default)]
struct Defs {
    helpers: Vec<Helper>,
    consts: Vec<(String, syn::Type, Expr)>,
    seen: HashMap<String, usize>,
    keys: HashMap<String, usize>,
}

fn defs(items: &[Item], d: &mut Defs) {
    for i in items {
        match i {
            Item::Fn(f) if !hidden(&f.attrs) => {
                *d.seen.entry(f.sig.ident.to_string()).or_default() += 1;
                *d.keys.entry(f.sig.ident.to_string()).or_default() += 1;
                d.helpers.push(Helper {
                    key: f.sig.ident.to_string(),
                    name: f.sig.ident.to_string(),
                    owner: None,
                    sig: f.sig.clone(),
                    block: (*f.block).clone(),
                    generics: generic_names(&f.sig.generics),
                    owner_generics: BTreeSet::new(),
                });
            }
            Item::Impl(im) if !hidden(&im.attrs) => {
                for x in &im.items {
                    let (n, new) = match x {
                        syn::ImplItem::Fn(f) => (f.sig.ident.to_string(), im.trait_.is_none().then(|| f.clone())),
                        syn::ImplItem::Const(c) => (c.ident.to_string(), None),
                        _ => continue,
                    };
                    *d.seen.entry(n.clone()).or_default() += 1;
                    let ty = im.self_ty.to_token_stream().to_string();
                    let key = format!("{}{}::{n}", im.trait_.as_ref().map(|t| format!("{} for ", t.1.to_token_stream())).unwrap_or_default(), ty.split(['<', ' ']).next().unwrap());
                    *d.keys.entry(key.clone()).or_default() += 1;
                    if let Some(f) = new {
                        let generics = generic_names(&f.sig.generics);
                        d.helpers.push(Helper {
                            key,
                            name: n.clone(),
                            owner: Some((im.self_ty.to_token_stream().to_string(), im.generics.to_token_stream().to_string())),
                            sig: f.sig,
                            block: f.block,
                            generics,
                            owner_generics: generic_names(&im.generics),
                        });
                    }
                    if let syn::ImplItem::Const(c) = x {
                        if im.trait_.is_none() {
                            d.consts.push((c.ident.to_string(), c.ty.clone(), c.expr.clone()));
                        }
                    }
                }
            }
            Item::Trait(t) => {
                for x in &t.items {
                    if let syn::TraitItem::Fn(f) = x {
                        *d.seen.entry(f.sig.ident.to_string()).or_default() += 1;
                        *d.keys.entry(format!("{}::{}", t.ident, f.sig.ident)).or_default() += 1;
                    }
                }
            }
            Item::Const(c) if !hidden(&c.attrs) => {
                *d.seen.entry(c.ident.to_string()).or_default() += 1;
                *d.keys.entry(c.ident.to_string()).or_default() += 1;
                d.consts.push((c.ident.to_string(), (*c.ty).clone(), (*c.expr).clone()));
            }
            Item::Mod(m) if !hidden(&m.attrs) => {
                if let Some((_, items)) = &m.content {
                    defs(items, d);
                }
            }
            _ => {}
        }
    }
}

// ------------------------------------------------------------------ text of a helper's body

struct Text<'a> {
    text: &'a str,
    base: usize,
}
impl Text<'_> {
    fn of(&self, t: impl ToTokens) -> String {
        let (lo, hi) = self.span(t);
        self.text[lo..hi].to_string()
    }
    fn span(&self, t: impl ToTokens) -> (usize, usize) {
        let mut lo = usize::MAX;
        let mut hi = 0;
        for t in t.to_token_stream() {
            let (a, b) = br(t.span());
            lo = lo.min(a - self.base);
            hi = hi.max(b - self.base);
        }
        (lo.min(hi), hi)
    }
}

#[derive(Default)]
struct Exits {
    returns: usize,
    return_errs: usize,
    tries: usize,
}
impl<'ast> Visit<'ast> for Exits {
    fn visit_expr_return(&mut self, r: &'ast syn::ExprReturn) {
        self.returns += 1;
        if let Some(Expr::Call(c)) = r.expr.as_deref() {
            if matches!(&*c.func, Expr::Path(p) if p.path.is_ident("Err")) {
                self.return_errs += 1;
            }
        }
        visit::visit_expr_return(self, r);
    }
    fn visit_expr_try(&mut self, t: &'ast syn::ExprTry) {
        self.tries += 1;
        visit::visit_expr_try(self, t);
    }
    fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
    fn visit_item(&mut self, _: &'ast Item) {}
    fn visit_macro(&mut self, m: &'ast syn::Macro) {
        fn scan(ts: TokenStream, e: &mut Exits) {
            for t in ts {
                match t {
                    TokenTree::Group(g) => scan(g.stream(), e),
                    TokenTree::Ident(i) if i == "return" => e.returns += 1,
                    TokenTree::Punct(p) if p.as_char() == '?' => e.tries += 1,
                    _ => {}
                }
            }
        }
        scan(m.tokens.clone(), self)
    }
}

fn trailing_return(stmts: &[Stmt]) -> Option<(&[Stmt], Option<&Expr>)> {
    let (last, rest) = stmts.split_last()?;
    match last {
        Stmt::Expr(Expr::Return(r), _) => Some((rest, r.expr.as_deref())),
        _ => None,
    }
}

/// The statements with guards that return made into branches, and what leaves the helper all the same.
fn unreturn(stmts: &[Stmt], t: &Text, out: &mut Vec<Edit>, left: &mut Exits) {
    let Some(last) = stmts.last() else { return };
    let end = t.span(last).1;
    fn strip(s: &Stmt, t: &Text, out: &mut Vec<Edit>, left: &mut Exits) {
        let (lo, hi) = t.span(s);
        let Stmt::Expr(Expr::Return(e), _) = s else { return };
        match &e.expr {
            Some(e) => {
                left.visit_expr(e);
                let (a, b) = t.span(e);
                out.push((lo, a, String::new()));
                out.push((b, hi, String::new()));
            }
            None => out.push((lo, hi, String::new())),
        }
    }
    let mut closing = String::new();
    for (i, s) in stmts.iter().enumerate() {
        let is_last = i + 1 == stmts.len();
        match s {
            Stmt::Expr(Expr::If(f), _) if f.else_branch.is_none() && !is_last && trailing_return(&f.then_branch.stmts).is_some() => {
                left.visit_expr(&f.cond);
                let (last, rest) = f.then_branch.stmts.split_last().unwrap();
                rest.iter().for_each(|s| left.visit_stmt(s));
                strip(last, t, out, left);
                let at = t.span(s).1;
                out.push((at, at, " else {".into()));
                closing.insert(0, '}');
            }
            Stmt::Local(l) => {
                if let Some((init, Expr::Block(b))) = l.init.as_ref().and_then(|i| i.diverge.as_ref().map(|d| (i, &*d.1))) {
                    if let Some(([], v)) = trailing_return(&b.block.stmts) {
                        left.visit_expr(&init.expr);
                        v.iter().for_each(|v| left.visit_expr(v));
                        let v = v.map(|v| t.of(v)).unwrap_or_else(|| "()".into());
                        let (lo, hi) = t.span(s);
                        out.push((lo, hi, format!("if let {} = {} {{", t.of(&l.pat), t.of(&init.expr))));
                        closing = format!("}} else {{ {v} }}{closing}");
                        continue;
                    }
                }
                left.visit_stmt(s);
            }
            Stmt::Expr(Expr::Return(_), _) if is_last => strip(s, t, out, left),
            Stmt::Expr(e, _) if is_last => unreturn_tail(e, t, out, left),
            s => left.visit_stmt(s),
        }
    }
    if !closing.is_empty() {
        out.push((end, end, closing));
    }
}
fn unreturn_tail(e: &Expr, t: &Text, out: &mut Vec<Edit>, left: &mut Exits) {
    match e {
        Expr::If(f) => {
            left.visit_expr(&f.cond);
            unreturn(&f.then_branch.stmts, t, out, left);
            if let Some((_, e)) = &f.else_branch {
                unreturn_tail(e, t, out, left);
            }
        }
        Expr::Match(m) => {
            left.visit_expr(&m.expr);
            for a in &m.arms {
                a.guard.iter().for_each(|g| left.visit_expr(&g.1));
                unreturn_tail(&a.body, t, out, left);
            }
        }
        Expr::Block(b) if b.label.is_none() => unreturn(&b.block.stmts, t, out, left),
        // an arm that is nothing but a return
        Expr::Return(r) => {
            let (lo, hi) = t.span(e);
            match &r.expr {
                Some(x) => {
                    left.visit_expr(x);
                    out.push((lo, t.span(x).0, String::new()));
                }
                None => out.push((lo, hi, "()".into())),
            }
        }
        e => left.visit_expr(e),
    }
}

/// Where a name occurs, and whether it is bound anew.
struct Names<'a> {
    name: &'a str,
    bound: bool,
}
impl<'ast> Visit<'ast> for Names<'_> {
    fn visit_pat_ident(&mut self, p: &'ast syn::PatIdent) {
        self.bound |= p.ident == self.name;
        visit::visit_pat_ident(self, p);
    }
    fn visit_field_pat(&mut self, p: &'ast syn::FieldPat) {
        // `S { name }` binds it
        visit::visit_field_pat(self, p);
    }
    fn visit_expr_assign(&mut self, a: &'ast syn::ExprAssign) {
        self.bound |= matches!(&*a.left, Expr::Path(p) if p.path.is_ident(self.name));
        visit::visit_expr_assign(self, a);
    }
    fn visit_field_value(&mut self, f: &'ast syn::FieldValue) {
        // `S { name }` cannot be renamed
        self.bound |= f.colon_token.is_none() && matches!(&f.member, syn::Member::Named(i) if i == self.name);
        visit::visit_field_value(self, f);
    }
}
fn rebound(b: &syn::Block, name: &str) -> bool {
    let mut n = Names { name, bound: false };
    n.visit_block(b);
    n.bound
}

type Edit = (usize, usize, String);

/// Every use of the identifier, with the character that follows it and whether a `.` or `'` goes before it.
fn uses(ts: TokenStream, name: &str, t: &Text, out: &mut Vec<(usize, usize, bool)>) {
    let mut field = false;
    let mut deref = None;
    let mut toks = ts.into_iter().peekable();
    while let Some(x) = toks.next() {
        match &x {
            TokenTree::Group(g) => uses(g.stream(), name, t, out),
            TokenTree::Ident(i) if i == name && !field => {
                let (a, b) = br(i.span());
                let dot = matches!(toks.peek(), Some(TokenTree::Punct(p)) if p.as_char() == '.')
                    || matches!(toks.peek(), Some(TokenTree::Group(g)) if g.delimiter() == proc_macro2::Delimiter::Bracket);
                out.push((a - t.base, b - t.base, dot));
            }
            _ => {}
        }
        field = matches!(&x, TokenTree::Punct(p) if p.as_char() == '.' || p.as_char() == '\'');
        // `..name` is no field
        if let TokenTree::Punct(p) = &x {
            if p.as_char() == '.' && deref == Some('.') {
                field = false;
            }
            deref = Some(p.as_char());
        } else {
            deref = None;
        }
    }
}

fn place(e: &Expr) -> bool {
    match e {
        Expr::Path(p) => p.path.get_ident().is_some(),
        Expr::Field(f) => place(&f.base),
        Expr::Paren(p) => place(&p.expr),
        _ => false,
    }
}
fn ident(e: &Expr) -> Option<String> {
    match e {
        Expr::Path(p) if p.qself.is_none() => p.path.get_ident().map(|i| i.to_string()),
        _ => None,
    }
}
fn mentions(ts: TokenStream, name: &str) -> bool {
    ts.into_iter().any(|t| match t {
        TokenTree::Group(g) => mentions(g.stream(), name),
        TokenTree::Ident(i) => i == name,
        _ => false,
    })
}
fn any_of(ts: TokenStream, names: &BTreeSet<String>) -> bool {
    names.iter().any(|n| mentions(ts.clone(), n))
}
fn no_lifetimes(s: &str) -> String {
    let mut out = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\'' {
            while it.peek().is_some_and(|c| c.is_alphanumeric() || *c == '_') {
                it.next();
            }
            if it.peek() == Some(&' ') {
                it.next();
            }
        } else {
            out.push(c);
        }
    }
    out.replace("<>", "")
}

struct Find<'a> {
    helpers: &'a [&'a Helper],
    consts: &'a [(String, syn::Type, Expr)],
    t: &'a Text<'a>,
    seen: &'a HashMap<String, usize>,
    owner: Option<(String, String)>,
    /// the function we are in
    within: Vec<String>,
    ret: Vec<String>,
    /// spans of expressions in tail position of their function, of whole statements, and under `?`
    tails: BTreeSet<(usize, usize)>,
    whole: BTreeSet<(usize, usize)>,
    tried: HashMap<(usize, usize), (usize, usize)>,
    ends: BTreeSet<(usize, usize)>,
    semis: BTreeSet<(usize, usize)>,
    closure: usize,
    k: usize,
    found: Option<Edit>,
    put_back: String,
}

fn tail(e: &Expr, t: &Text, out: &mut BTreeSet<(usize, usize)>) {
    out.insert(t.span(e));
    match e {
        Expr::If(f) => {
            tail_block(&f.then_branch, t, out);
            if let Some((_, e)) = &f.else_branch {
                tail(e, t, out);
            }
        }
        Expr::Match(m) => m.arms.iter().for_each(|a| tail(&a.body, t, out)),
        Expr::Block(b) => tail_block(&b.block, t, out),
        Expr::Paren(p) => tail(&p.expr, t, out),
        _ => {}
    }
}
fn tail_block(b: &syn::Block, t: &Text, out: &mut BTreeSet<(usize, usize)>) {
    if let Some(Stmt::Expr(e, None)) = b.stmts.last() {
        tail(e, t, out);
    }
}
fn error_type(s: &str) -> Option<String> {
    let s: String = s.chars().filter(|c| !c.is_whitespace()).collect();
    let s = s.replace(",>", ">").replace(",)", ")");
    let s = s.trim_start_matches("->");
    let i = s.find("Result<")?;
    let inner = s[i + 7..].strip_suffix('>')?;
    let (mut d, mut at) = (0i32, None);
    for (k, c) in inner.char_indices() {
        match c {
            '<' | '(' | '[' => d += 1,
            '>' | ')' | ']' => d -= 1,
            ',' if d == 0 => at = Some(k),
            _ => {}
        }
    }
    Some(format!("{}{}", &s[..i], at.map(|k| &inner[k..]).unwrap_or("")))
}

impl Find<'_> {
    fn put(&mut self, h: &Helper, whole: (usize, usize), receiver: Option<&Expr>, args: Vec<&Expr>) -> Option<Edit> {
        if self.within.contains(&h.name) || h.sig.unsafety.is_some() || h.sig.asyncness.is_some() || h.sig.variadic.is_some() {
            return None;
        }
        let mut edits: Vec<Edit> = Vec::new();
        let mut lets = String::new();
        let t = self.t;
        let same_owner = h.owner.is_none() || h.owner == self.owner;
        let body_ts = h.block.to_token_stream();
        let mut params: Vec<&syn::FnArg> = h.sig.inputs.iter().collect();
        let mut args = args;
        let has_self = matches!(params.first(), Some(syn::FnArg::Receiver(_)));
        let receiver = match (has_self, receiver) {
            (true, None) if !args.is_empty() => {
                // UFCS: only with a plain place
                let a = args.remove(0);
                match a {
                    Expr::Reference(r) => Some(&*r.expr),
                    a => Some(a),
                }
            }
            (_, r) => r,
        };
        if has_self {
            params.remove(0);
            let r = receiver?;
            if ident(r).as_deref() != Some("self") {
                if !place(r) {
                    return None;
                }
                let mut us = Vec::new();
                uses(body_ts.clone(), "self", t, &mut us);
                if us.iter().any(|u| !u.2) {
                    return None;
                }
                let text = t.of(r);
                edits.extend(us.into_iter().map(|(a, b, _)| (a, b, text.clone())));
            }
        } else if receiver.is_some() {
            return None;
        }
        if params.len() != args.len() {
            return None;
        }
        if !same_owner && mentions(body_ts.clone(), "Self") {
            let (ty, _) = h.owner.as_ref().unwrap();
            if ty.contains('<') || ty.contains('\'') {
                return None;
            }
            let mut us = Vec::new();
            uses(body_ts.clone(), "Self", t, &mut us);
            edits.extend(us.into_iter().map(|(a, b, _)| (a, b, ty.clone())));
        }
        let mut generics = h.generics.clone();
        if !same_owner {
            generics.extend(h.owner_generics.iter().cloned());
        }
        if any_of(body_ts.clone(), &generics) {
            return None;
        }
        let mut plain: Vec<(String, String, String)> = Vec::new();
        // variables that parameters were replaced by, and whether as places that change
        let mut roots: Vec<(String, bool)> = Vec::new();
        for (p, a) in params.iter().zip(&args) {
            let syn::FnArg::Typed(p) = p else { return None };
            if matches!(a, Expr::Closure(_)) {
                return None;
            }
            let text = t.of(a);
            let name = match &*p.pat {
                syn::Pat::Ident(i) if i.by_ref.is_none() && i.subpat.is_none() && i.mutability.is_none() => Some(i.ident.to_string()),
                _ => None,
            };
            if let Some(n) = &name {
                let free = !rebound(&h.block, n);
                if let Some(q) = ident(a) {
                    if q == *n {
                        roots.push((q, false));
                        continue;
                    }
                    let other = params.iter().any(|p| matches!(p, syn::FnArg::Typed(p) if p.pat.to_token_stream().to_string() == q));
                    if free && !mentions(body_ts.clone(), &q) && !other && (q != "self" || !has_self) {
                        let mut us = Vec::new();
                        uses(body_ts.clone(), n, t, &mut us);
                        edits.extend(us.into_iter().map(|(x, y, _)| (x, y, q.clone())));
                        roots.push((q, false));
                        continue;
                    }
                }
                if let (syn::Type::Reference(r), Expr::Reference(x)) = (&*p.ty, a) {
                    if r.mutability.is_some() == x.mutability.is_some() && place(&x.expr) && free {
                        let pl = t.of(&x.expr);
                        let first = pl.split('.').next().unwrap().to_string();
                        if first == "self" || first == *n || !mentions(body_ts.clone(), &first) {
                            roots.push((first.clone(), r.mutability.is_some()));
                            let mut us = Vec::new();
                            uses(body_ts.clone(), n, t, &mut us);
                            for (x, y, dot) in us {
                                let before = t.text[..x].trim_end();
                                let deref = before.ends_with('*')
                                    && !before[..before.len() - 1].trim_end().ends_with(|c: char| c.is_alphanumeric() || c == ')' || c == ']' || c == '_');
                                if dot {
                                    edits.push((x, y, pl.clone()));
                                } else if deref {
                                    edits.push((before.len() - 1, y, pl.clone()));
                                } else {
                                    edits.push((x, y, format!("{}{pl}", if r.mutability.is_some() { "&mut " } else { "&" })));
                                }
                            }
                            continue;
                        }
                    }
                }
            }
            let ty = t.of(&*p.ty);
            let ann = if any_of(p.ty.to_token_stream(), &generics) || mentions(p.ty.to_token_stream(), "impl") || (!same_owner && mentions(p.ty.to_token_stream(), "Self")) {
                String::new()
            } else {
                format!(": {}", no_lifetimes(&ty))
            };
            plain.push((t.of(&*p.pat), ann, text));
        }
        if roots.iter().enumerate().any(|(i, (r, m))| *m && r != "self" && roots.iter().enumerate().any(|(j, (q, _))| i != j && q == r)) {
            return None;
        }
        // a parameter's name in a later argument would be taken for the parameter
        let clash = plain.iter().enumerate().any(|(i, (p, _, _))| {
            let names: BTreeSet<String> = p.split(|c: char| !c.is_alphanumeric() && c != '_').filter(|s| !s.is_empty() && *s != "mut" && *s != "ref").map(|s| s.to_string()).collect();
            let later = plain[i + 1..].iter().any(|(_, _, a)| a.parse::<TokenStream>().map(|ts| any_of(ts, &names)).unwrap_or(true));
            // and so would one in what the other parameters were replaced by
            later || edits.iter().any(|(_, _, a)| a.parse::<TokenStream>().map(|ts| any_of(ts, &names)).unwrap_or(true))
        });
        if clash {
            for (k, (_, _, a)) in plain.iter_mut().enumerate() {
                let v = format!("vx_a{}_{k}", self.k);
                lets.push_str(&format!("let {v} = {a}; "));
                *a = v;
            }
            if edits.iter().any(|(_, _, a)| plain.iter().any(|(p, _, _)| a.parse::<TokenStream>().map(|ts| mentions(ts, p)).unwrap_or(true))) {
                return None;
            }
        }
        for (p, ann, a) in &plain {
            lets.push_str(&format!("let {p}{ann} = {a}; "));
        }
        // how it leaves
        let stmts = &h.block.stmts;
        let ret = match &h.sig.output {
            syn::ReturnType::Default => "()".to_string(),
            syn::ReturnType::Type(_, ty) => t.of(&**ty),
        };
        let here = self.ret.last().cloned().unwrap_or_default();
        let in_tail = self.closure == 0 && self.tails.contains(&whole) && here.replace(' ', "") == ret.replace(' ', "");
        let under_try = self.closure == 0 && self.tried.contains_key(&whole) && error_type(&here).is_some() && error_type(&here) == error_type(&ret);
        let mut raw = Exits::default();
        stmts.iter().for_each(|s| raw.visit_stmt(s));
        if raw.returns + raw.tries > 0 && !in_tail {
            let ok = |e: &Exits| e.returns == e.return_errs && (under_try || e.returns + e.tries == 0);
            if !ok(&raw) {
                let (mut more, mut guarded) = (Vec::new(), Exits::default());
                unreturn(stmts, t, &mut more, &mut guarded);
                if !ok(&guarded) {
                    return None;
                }
                edits.extend(more);
            }
        }
        let (lo, hi) = match (stmts.first(), stmts.last()) {
            (Some(a), Some(b)) => (t.span(a).0, t.span(b).1),
            _ => (0, 0),
        };
        edits.sort();
        let mut body = String::new();
        let mut at = lo;
        for (a, b, s) in edits {
            if a < at || b > hi {
                if a >= lo && b <= hi {
                    return None;
                }
                continue;
            }
            body.push_str(&t.text[at..a]);
            body.push_str(&s);
            at = b;
        }
        body.push_str(&t.text[at..hi]);
        // `helper()?` where the helper ends in `Ok(v)`: the value
        let mut place_of = whole;
        if let (Some(&q), Some(Stmt::Expr(Expr::Call(c), None))) = (self.tried.get(&whole), stmts.last()) {
            if matches!(&*c.func, Expr::Path(p) if p.path.is_ident("Ok")) && c.args.len() == 1 {
                let tail = t.of(c);
                if let Some(front) = body.strip_suffix(tail.as_str()) {
                    let v = t.of(&c.args[0]);
                    body = if v == "()" { front.trim_end().to_string() } else { format!("{front}{v}") };
                    place_of = q;
                }
            }
        }
        let whole = place_of;
        let bare = self.whole.contains(&whole);
        // nothing to keep apart from what follows
        let end = self.ends.contains(&whole)
            || (self.semis.contains(&whole) && lets.is_empty() && !stmts.iter().any(|s| matches!(s, Stmt::Local(_) | Stmt::Item(_))));
        let annotate = self.tried.contains_key(&whole) || ret.contains("dyn") || (ret.starts_with('&') && !in_tail);
        let inner = if annotate && !ret.contains("impl ") && ret.parse::<TokenStream>().map(|r| !any_of(r, &generics)).unwrap_or(false) && (same_owner || !ret.contains("Self")) {
            format!("{lets}let vx_r{}: {} = {{ {body} }}; vx_r{}", self.k, no_lifetimes(&ret), self.k)
        } else {
            format!("{lets}{body}")
        };
        self.k += 1;
        self.put_back = h.name.clone();
        Some((whole.0, whole.1, if end { inner } else if bare { format!("{{ {inner} }}") } else { format!("({{ {inner} }})") }))
    }
    fn function(&mut self, sig: &syn::Signature, block: &syn::Block) {
        self.within.push(sig.ident.to_string());
        self.ret.push(match &sig.output {
            syn::ReturnType::Default => "()".into(),
            syn::ReturnType::Type(_, ty) => self.t.of(&**ty),
        });
        let c = std::mem::take(&mut self.closure);
        tail_block(block, self.t, &mut self.tails);
        self.visit_block(block);
        self.closure = c;
        self.ret.pop();
        self.within.pop();
    }
}

impl<'ast> Visit<'ast> for Find<'_> {
    fn visit_item_fn(&mut self, f: &'ast syn::ItemFn) {
        if !hidden(&f.attrs) {
            self.function(&f.sig, &f.block);
        }
    }
    fn visit_impl_item_fn(&mut self, f: &'ast syn::ImplItemFn) {
        self.function(&f.sig, &f.block);
    }
    fn visit_trait_item_fn(&mut self, f: &'ast syn::TraitItemFn) {
        if let Some(b) = &f.default {
            self.function(&f.sig, b);
        }
    }
    fn visit_item_mod(&mut self, m: &'ast syn::ItemMod) {
        if !hidden(&m.attrs) {
            visit::visit_item_mod(self, m);
        }
    }
    fn visit_item_impl(&mut self, im: &'ast syn::ItemImpl) {
        if hidden(&im.attrs) {
            return;
        }
        let old = self.owner.replace((im.self_ty.to_token_stream().to_string(), im.generics.to_token_stream().to_string()));
        visit::visit_item_impl(self, im);
        self.owner = old;
    }
    fn visit_expr_closure(&mut self, c: &'ast syn::ExprClosure) {
        self.closure += 1;
        visit::visit_expr_closure(self, c);
        self.closure -= 1;
    }
    fn visit_block(&mut self, b: &'ast syn::Block) {
        if let Some(Stmt::Expr(e, None)) = b.stmts.last() {
            self.ends.insert(self.t.span(e));
        }
        visit::visit_block(self, b);
    }
    fn visit_stmt(&mut self, s: &'ast Stmt) {
        match s {
            Stmt::Expr(e, semi) => {
                if semi.is_some() {
                    self.semis.insert(self.t.span(e));
                }
                self.whole.insert(self.t.span(e));
            }
            Stmt::Local(l) => {
                if let Some(i) = &l.init {
                    self.whole.insert(self.t.span(&i.expr));
                }
            }
            _ => {}
        }
        visit::visit_stmt(self, s);
    }
    fn visit_arm(&mut self, a: &'ast syn::Arm) {
        self.whole.insert(self.t.span(&a.body));
        visit::visit_arm(self, a);
    }
    fn visit_expr_return(&mut self, r: &'ast syn::ExprReturn) {
        if let Some(e) = &r.expr {
            if self.closure == 0 {
                tail(e, self.t, &mut self.tails);
            }
        }
        visit::visit_expr_return(self, r);
    }
    fn visit_expr_try(&mut self, r: &'ast syn::ExprTry) {
        self.tried.insert(self.t.span(&r.expr), self.t.span(r));
        visit::visit_expr_try(self, r);
    }
    fn visit_expr(&mut self, e: &'ast Expr) {
        // the innermost uses first
        visit::visit_expr(self, e);
        if self.found.is_some() {
            return;
        }
        let span = self.t.span(e);
        match e {
            Expr::Call(c) => {
                let Expr::Path(p) = &*c.func else { return };
                if p.qself.is_some() || p.path.segments.iter().any(|s| !s.arguments.is_empty()) {
                    return;
                }
                let n = p.path.segments.last().unwrap().ident.to_string();
                let q = p.path.segments.iter().rev().nth(1).map(|s| s.ident.to_string());
                for h in self.helpers.iter().filter(|h| h.name == n) {
                    let fits = match (&h.owner, q.as_deref()) {
                        (None, None | Some("self" | "crate" | "super")) => true,
                        (None, Some(m)) => m.chars().next().is_some_and(|c| c.is_lowercase()),
                        (Some(_), Some("Self")) => h.owner == self.owner,
                        (Some((ty, _)), Some(q)) => ty.split(['<', ' ']).next() == Some(q),
                        _ => false,
                    };
                    if fits {
                        self.found = self.put(h, span, None, c.args.iter().collect());
                    }
                }
            }
            Expr::MethodCall(m) if m.turbofish.is_none() => {
                let n = m.method.to_string();
                for h in self.helpers.iter().filter(|h| h.name == n && h.owner.is_some()) {
                    // whose method it is
                    let own = h.owner == self.owner && ident(&m.receiver).as_deref() == Some("self");
                    if !own && self.seen[&n] > 1 {
                        continue;
                    }
                    self.found = self.put(h, span, Some(&m.receiver), m.args.iter().collect());
                }
            }
            Expr::Path(p) if p.qself.is_none() => {
                let n = p.path.segments.last().unwrap().ident.to_string();
                if p.path.segments.len() > 1 && p.path.segments[0].ident != "Self" {
                    return;
                }
                if let Some((_, ty, x)) = self.consts.iter().find(|c| c.0 == n) {
                    let ty = ty.to_token_stream().to_string();
                    let x_ = self.t.of(x);
                    self.put_back = n.clone();
                    let number = matches!(x, Expr::Lit(l) if matches!(l.lit, syn::Lit::Int(_)));
                    self.found = Some((span.0, span.1, if number { format!("({x_} as {ty})") } else { format!("({x_})") }));
                }
            }
            _ => {}
        }
    }
}

/// The names the file had, if the list has the file.
fn known(file: &str) -> Option<BTreeSet<String>> {
    std::env::var("VX_KNOWN").ok().and_then(|p| std::fs::read_to_string(p).ok()).and_then(|s| {
        let v: serde_json::Value = serde_json::from_str(&s).ok()?;
        let l = v.get(file)?.as_array()?;
        Some(l.iter().filter_map(|x| x.as_str().map(|s| s.to_string())).collect())
    })
}

/// The functions and constants of a text, as the list of known ones names them.
pub fn names(text: &str) -> Vec<String> {
    let mut d = Defs::default();
    if let Ok(f) = syn::parse_file(text) {
        defs(&f.items, &mut d);
    }
    let all: BTreeSet<String> = d.keys.into_keys().collect();
    all.into_iter().collect()
}

/// The same for the expansion of a macro, which may use helpers of the file the macro is in.
pub fn expansion(text: String, source: &str, file: &str) -> String {
    let mut all = text.clone();
    if let Ok(f) = syn::parse_file(source) {
        let base = base_of(&f, source);
        let t = Text { text: source, base };
        for i in &f.items {
            if let Item::Fn(x) = i {
                if !hidden(&x.attrs) && !known(file).is_some_and(|k| k.contains(&x.sig.ident.to_string())) {
                    all.push('\n');
                    all.push_str(&t.of(x));
                }
            }
        }
    }
    if all.len() == text.len() {
        return text;
    }
    run(all, file)
}

/// The text with what is new put back where it is used.
pub fn run(text: String, file: &str) -> String {
    let known = known(file);
    let Some(known) = known else { return text };
    let bare: BTreeSet<String> = known.iter().map(|k| k.rsplit("::").next().unwrap().to_string()).collect();
    let mut text = text;
    for k in 0..80 {
        let Ok(parsed) = syn::parse_file(&text) else { return text };
        let mut d = Defs::default();
        defs(&parsed.items, &mut d);
        let helpers: Vec<&Helper> = d.helpers.iter().filter(|h| !known.contains(&h.key) && d.keys[&h.key] == 1).collect();
        let consts: Vec<(String, syn::Type, Expr)> = d.consts.iter().filter(|c| !bare.contains(&c.0) && d.seen[&c.0] == 1).cloned().collect();
        if helpers.is_empty() && consts.is_empty() {
            return text;
        }
        let base = base_of(&parsed, &text);
        let t = Text { text: &text, base };
        let mut f = Find {
            helpers: &helpers, consts: &consts, t: &t, owner: None, within: vec![], ret: vec![],
            seen: &d.seen, tails: BTreeSet::new(), whole: BTreeSet::new(), tried: HashMap::new(), ends: BTreeSet::new(), semis: BTreeSet::new(), closure: 0, k, found: None, put_back: String::new(),
        };
        f.visit_file(&parsed);
        let Some((a, b, s)) = f.found else { return text };
        let next = format!("{}{}{}", &text[..a], s, &text[b..]);
        if syn::parse_file(&next).is_err() {
            return text;
        }
        eprintln!("put back in {file}: {}", f.put_back);
        text = next;
    }
    text
}
