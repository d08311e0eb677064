//! `extract macros DIR OUT`: the macro crate's parsing code, in the subset of Rust the verifier reads.
//!
//! What is rewritten (and nothing else):
//!   errors: &Errors, &errors                 errors: &mut Errors, errors (the interior mutability of `Errors` made visible)
//!   h(a, b, &mut |l| BODY), where `h`'s last parameter is a `&mut dyn FnMut`
//!                                            h's body, its parameters replaced by the arguments, the call of the
//!                                            parameter by `{ let l = argument; BODY }` (a `return` in BODY only where the
//!                                            call is the last thing its function does)
//!   X.iter()[.enumerate()].map(|p| E).collect(), filter_map, flat_map
//!                                            { let mut v = Vec::new(); for p in X.iter()[.enumerate()] { v.push(E) } v }
//!                                            (`return`, `?` in E: that iteration ends, with the value pushed or none)
//!   for p in X.iter() / &X / X               an index loop over the slice of X's items
//!   for (i, p) in X.iter().enumerate()       the same, with the index as `i`
//!   for p in f(..)                           an index loop that takes the items out of the result one by one
//!   x == "literal"                           x.vx_is("literal")
//!   x.extend(y.into_iter())                  vx_extend(&mut x, y)
//!   x.unwrap_or_else(|| e)                   match x { Some(v) => v, None => e }
//!   v.sort_by_key(|p| K), v.sort_by(|a, b| K(a).cmp(&K(b)))
//!                                            { let mut k = Vec::new(); for p in &v { k.push(vx_sort_key(K)) } vx_sort(&mut v, k) }
//!   std::collections::btree_map::Entry       Entry
//!   f(errors, ..) with an unused parameter `_errors`   the argument is dropped
//! Functions of the files other than common.rs get the file's name in front.
//! In the impls of `Errors` and in lib.rs (which hand the errors to the compiler):
//!   RefCell<T>, RefCell::new(x), x.borrow(), x.borrow_mut(), &self
//!                                            T, x, &x, &mut x, &mut self (the verifier's borrow check takes the place of RefCell's)
//!   let e = Errors::new(); .. &e ..          let mut vx_errors = Errors::new(); .. &mut vx_errors .. (while that `e` is in scope)
//!   X.into_iter().map(F)                     the loop that makes a vector of it
//!   quote! { .. #a .. #(#b)* .. }            { let mut q = TokenStream::vx_quote(); q.vx_put(&a); q.vx_put_all(&b); q }
//!   parse_macro_input!(input as DeriveInput) match vx_parse_input(input) { Ok(d) => d, Err(e) => return e.to_compile_error() }
//!   x.into()                                 TokenStream::from(x)
//!   x.unwrap_or_default()                    vx_unwrap_or_default(x)
//!   h(a, file::function), where `h`'s parameter is a function pointer and the call is all its function does
//!                                            h's body, the parameter replaced by the function
use crate::flatten::{last, print};
use proc_macro2::Span;
use quote::ToTokens;
use std::collections::HashMap;
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Expr, Ident, Item, Stmt};

fn id(s: &str) -> Ident {
    Ident::new(s, Span::call_site())
}
fn is_errors(t: &syn::Type) -> bool {
    matches!(t, syn::Type::Reference(r) if matches!(&*r.elem, syn::Type::Path(p) if last(&p.path) == "Errors"))
}
fn path_is(e: &Expr, n: &str) -> bool {
    matches!(e, Expr::Path(p) if p.path.is_ident(n))
}

/// A function that takes a closure.
#[derive(Clone)]
struct Higher {
    params: Vec<String>,
    f: String,
    body: syn::Block,
}

/// Replaces names by expressions, and calls of `f` by the closure's body.
struct Inline<'a> {
    map: &'a HashMap<String, Expr>,
    f: &'a str,
    pat: &'a syn::Pat,
    body: &'a Expr,
}
impl VisitMut for Inline<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Call(c) = e {
            if path_is(&c.func, self.f) && c.args.len() == 1 {
                let mut a = c.args[0].clone();
                self.visit_expr_mut(&mut a);
                let (p, b) = (self.pat, self.body);
                *e = parse_quote!({ let #p = #a; #b });
                return;
            }
        }
        if let Expr::Path(p) = e {
            if let Some(i) = p.path.get_ident() {
                if let Some(x) = self.map.get(&i.to_string()) {
                    *e = x.clone();
                    return;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_macro_mut(&mut self, m: &mut syn::Macro) {
        macro_args(m, |e| self.visit_expr_mut(e));
    }
}

/// The arguments of `format!` and its like.
fn macro_args(m: &mut syn::Macro, mut f: impl FnMut(&mut Expr)) {
    use syn::punctuated::Punctuated;
    if let Ok(mut args) = m.parse_body_with(Punctuated::<Expr, syn::Token![,]>::parse_terminated) {
        for a in args.iter_mut() {
            f(a);
        }
        m.tokens = args.to_token_stream();
    }
}

/// Does a `return` or `?` of this very body occur in it?
#[derive(Default)]
struct Exits {
    ret: bool,
    question: bool,
}
impl<'ast> syn::visit::Visit<'ast> for Exits {
    fn visit_expr_return(&mut self, _: &'ast syn::ExprReturn) {
        self.ret = true;
    }
    fn visit_expr_try(&mut self, t: &'ast syn::ExprTry) {
        self.question = true;
        syn::visit::visit_expr_try(self, t);
    }
    fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
}
fn exits(e: &Expr) -> Exits {
    let mut x = Exits::default();
    syn::visit::Visit::visit_expr(&mut x, e);
    x
}

/// A closure's exits, where it has become the body of a loop.
struct Leave<'a> {
    how: &'a str,
    out: &'a Ident,
    label: &'a syn::Lifetime,
    depth: usize,
    used: bool,
}
impl Leave<'_> {
    fn cont(&mut self) -> Expr {
        if self.depth > 0 {
            self.used = true;
            let l = self.label;
            parse_quote!(continue #l)
        } else {
            parse_quote!(continue)
        }
    }
}
fn push(how: &str, out: &Ident, e: &Expr) -> Vec<Stmt> {
    match how {
        "map" => parse_quote!(#out.push(#e);),
        "filter_map" => parse_quote!(let vx_x = #e; vx_push_opt(&mut #out, vx_x);),
        _ => parse_quote!(let vx_x = #e; vx_flat(&mut #out, vx_x);),
    }
}
impl VisitMut for Leave<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let mut inner = false;
        match e {
            Expr::Closure(_) => return,
            Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) => {
                self.depth += 1;
                inner = true;
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
        if inner {
            self.depth -= 1;
        }
        match e {
            Expr::Return(r) => {
                let c = self.cont();
                let v = r.expr.as_deref().cloned();
                *e = match v {
                    Some(v) if !(self.how == "filter_map" && path_is(&v, "None")) => {
                        let p = push(self.how, self.out, &v);
                        parse_quote!({ #(#p)* #c })
                    }
                    _ => c,
                };
            }
            Expr::Try(t) if self.how == "filter_map" => {
                let c = self.cont();
                let x = &t.expr;
                *e = parse_quote!(match #x { Some(vx_v) => vx_v, None => #c });
            }
            _ => {}
        }
    }
}

struct M<'a> {
    higher: &'a HashMap<String, Higher>,
    /// local functions: their new names, and which parameters are dropped
    local: &'a HashMap<String, (String, Vec<bool>)>,
    errors: Vec<String>,
    k: usize,
    /// the statement is the last of a function without a result
    tail: bool,
}

impl M<'_> {
    fn chain(&mut self, m: &syn::ExprMethodCall) -> Option<Expr> {
        if m.method != "collect" {
            return None;
        }
        let Expr::MethodCall(a) = &*m.receiver else { return None };
        let how = a.method.to_string();
        if !["map", "filter_map", "flat_map"].contains(&how.as_str()) || a.args.len() != 1 {
            return None;
        }
        let Expr::Closure(c) = &a.args[0] else { return None };
        if c.inputs.len() != 1 {
            return None;
        }
        let it = &a.receiver;
        let Expr::MethodCall(im) = &**it else { return None };
        if im.method != "iter" && im.method != "enumerate" {
            return None;
        }
        let pat = &c.inputs[0];
        let x = exits(&c.body);
        if x.question && how != "filter_map" {
            return None;
        }
        self.k += 1;
        let out = id(&format!("vx_out_{}", self.k - 1));
        let label = syn::Lifetime::new(&format!("'vx_{}", self.k - 1), Span::call_site());
        let mut body = (*c.body).clone();
        let mut l = Leave { how: &how, out: &out, label: &label, depth: 0, used: false };
        l.visit_expr_mut(&mut body);
        let used = l.used;
        let mut stmts: Vec<Stmt> = vec![];
        let tail: Expr = match body {
            Expr::Block(mut b) if b.label.is_none() => match b.block.stmts.pop() {
                Some(Stmt::Expr(e, None)) => {
                    stmts = b.block.stmts;
                    e
                }
                _ => return None,
            },
            e => e,
        };
        stmts.extend(push(&how, &out, &tail));
        let l: Option<syn::Label> = if used { Some(parse_quote!(#label:)) } else { None };
        Some(parse_quote!({ let mut #out = Vec::new(); #l for #pat in #it { #(#stmts)* } #out }))
    }

    /// A sort by name: the names first, then the sort.
    fn sort(&mut self, m: &syn::ExprMethodCall) -> Option<Expr> {
        let how = m.method.to_string();
        let Expr::Closure(c) = m.args.first()? else { return None };
        if m.args.len() != 1 || !matches!(&*m.receiver, Expr::Path(_)) {
            return None;
        }
        let x = exits(&c.body);
        if x.ret || x.question {
            return None;
        }
        let (pat, key): (syn::Pat, Expr) = match how.as_str() {
            "sort_by_key" | "sort_by_cached_key" | "sort_unstable_by_key" if c.inputs.len() == 1 => (c.inputs[0].clone(), (*c.body).clone()),
            "sort_by" | "sort_unstable_by" if c.inputs.len() == 2 => {
                // |a, b| K(a).cmp(&K(b))
                let Expr::MethodCall(cmp) = &*c.body else { return None };
                let (syn::Pat::Ident(a), syn::Pat::Ident(b)) = (&c.inputs[0], &c.inputs[1]) else { return None };
                if cmp.method != "cmp" || cmp.args.len() != 1 {
                    return None;
                }
                let Expr::Reference(r) = &cmp.args[0] else { return None };
                let mut other = (*r.expr).clone();
                let map = HashMap::from([(b.ident.to_string(), { let a = &a.ident; parse_quote!(#a) })]);
                let unit: Expr = parse_quote!(());
                Inline { map: &map, f: "", pat: &c.inputs[0], body: &unit }.visit_expr_mut(&mut other);
                if other.to_token_stream().to_string() != cmp.receiver.to_token_stream().to_string() {
                    return None;
                }
                (c.inputs[0].clone(), (*cmp.receiver).clone())
            }
            _ => return None,
        };
        let v = &m.receiver;
        self.k += 1;
        let k = id(&format!("vx_k_{}", self.k - 1));
        Some(parse_quote!({ let mut #k: Vec<VxSortKey> = Vec::new(); for #pat in #v.iter() { #k.push(vx_sort_key(#key)); } vx_sort(&mut #v, #k); }))
    }

    fn index_loop(&mut self, f: &syn::ExprForLoop) -> Option<Vec<Stmt>> {
        fn strip(e: &Expr) -> &Expr {
            match e {
                Expr::MethodCall(m) if m.method == "iter" && m.args.is_empty() => &m.receiver,
                Expr::Reference(r) if r.mutability.is_none() => &r.expr,
                e => e,
            }
        }
        let mut enumerated = false;
        let base = match &*f.expr {
            Expr::MethodCall(m) if m.method == "enumerate" => {
                enumerated = true;
                match &*m.receiver {
                    Expr::MethodCall(i) if i.method == "iter" && i.args.is_empty() => strip(&m.receiver),
                    _ => return None,
                }
            }
            Expr::Macro(_) => return None,
            Expr::MethodCall(m) if m.method != "iter" => return None,
            // by value
            Expr::Call(c) => {
                self.k += 1;
                let s = id(&format!("vx_s_{}", self.k - 1));
                let i = id(&format!("vx_i_{}", self.k - 1));
                let (pat, label, body) = (&f.pat, &f.label, &f.body.stmts);
                return Some(parse_quote! {
                    let mut #s = vx_queue(#c);
                    let mut #i: usize = 0;
                    #label while #i < #s.vx_len() { let #pat = #s.vx_take(#i); #i += 1; #(#body)* }
                });
            }
            e => strip(e),
        };
        self.k += 1;
        let s = id(&format!("vx_s_{}", self.k - 1));
        let i = id(&format!("vx_i_{}", self.k - 1));
        let mut pat = &*f.pat;
        let mut lets: Vec<Stmt> = vec![];
        if enumerated {
            let syn::Pat::Tuple(t) = pat else { return None };
            if t.elems.len() != 2 {
                return None;
            }
            let p = &t.elems[0];
            lets.push(parse_quote!(let #p = #i;));
            pat = &t.elems[1];
        }
        if let syn::Pat::Reference(r) = pat {
            let p = &r.pat;
            lets.push(parse_quote!(let #p = #s[#i];));
        } else {
            lets.push(parse_quote!(let #pat = &#s[#i];));
        }
        let label = &f.label;
        let body = &f.body.stmts;
        Some(parse_quote! {
            let #s = #base.vx_seq();
            let mut #i: usize = 0;
            #label while #i < #s.len() { #(#lets)* #i += 1; #(#body)* }
        })
    }

    fn inline(&mut self, c: &syn::ExprCall) -> Option<Expr> {
        let Expr::Path(p) = &*c.func else { return None };
        let h = self.higher.get(&last(&p.path))?.clone();
        if c.args.len() != h.params.len() {
            return None;
        }
        let Expr::Reference(r) = c.args.last()? else { return None };
        let Expr::Closure(cl) = &*r.expr else { return None };
        if cl.inputs.len() != 1 {
            return None;
        }
        let x = exits(&cl.body);
        if x.question || x.ret && !self.tail {
            return None;
        }
        let mut map = HashMap::new();
        for (n, a) in h.params.iter().zip(&c.args) {
            let mut a = a;
            while let Expr::Reference(r) = a {
                a = &r.expr;
            }
            if *n == h.f {
                continue;
            }
            if !matches!(a, Expr::Path(_)) {
                return None;
            }
            map.insert(n.clone(), a.clone());
        }
        let mut b = h.body.clone();
        Inline { map: &map, f: &h.f, pat: &cl.inputs[0], body: &cl.body }.visit_block_mut(&mut b);
        Some(Expr::Block(syn::ExprBlock { attrs: vec![], label: None, block: b }))
    }
}

impl VisitMut for M<'_> {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        let tail = self.tail;
        let n = b.stmts.len();
        let mut out = vec![];
        for (i, s) in std::mem::take(&mut b.stmts).into_iter().enumerate() {
            self.tail = tail && i + 1 == n;
            let mut s = s;
            self.visit_stmt_mut(&mut s);
            if let Stmt::Expr(Expr::ForLoop(f), _) = &s {
                if let Some(v) = self.index_loop(f) {
                    out.extend(v);
                    continue;
                }
            }
            out.push(s);
        }
        self.tail = tail;
        b.stmts = out;
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        let tail = self.tail;
        if let Stmt::Local(_) = s {
            self.tail = false;
        }
        visit_mut::visit_stmt_mut(self, s);
        self.tail = tail;
    }
    fn visit_expr_closure_mut(&mut self, c: &mut syn::ExprClosure) {
        let tail = std::mem::replace(&mut self.tail, false);
        visit_mut::visit_expr_closure_mut(self, c);
        self.tail = tail;
    }
    fn visit_macro_mut(&mut self, m: &mut syn::Macro) {
        macro_args(m, |e| self.visit_expr_mut(e));
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // inlining first: what comes out is rewritten in turn
        if let Expr::Call(c) = e {
            if let Some(x) = self.inline(c) {
                *e = x;
            }
        }
        if let Expr::MethodCall(m) = e {
            if let Some(x) = self.chain(m).or_else(|| self.sort(m)) {
                *e = x;
            }
        }
        // only what a statement consists of is at the tail
        let keep = matches!(e, Expr::Block(_) | Expr::If(_) | Expr::Match(_));
        let tail = self.tail;
        if !keep {
            self.tail = false;
        }
        visit_mut::visit_expr_mut(self, e);
        self.tail = tail;
        match e {
            Expr::Reference(r) if r.mutability.is_none() => {
                if let Some(n) = self.errors.iter().find(|n| path_is(&r.expr, n)) {
                    let n = id(n);
                    *e = parse_quote!(#n);
                }
            }
            Expr::Binary(b) if matches!(b.op, syn::BinOp::Eq(_) | syn::BinOp::Ne(_)) => {
                if let Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(l), .. }) = &*b.right {
                    let x = &b.left;
                    *e = if matches!(b.op, syn::BinOp::Eq(_)) { parse_quote!((#x).vx_is(#l)) } else { parse_quote!(!(#x).vx_is(#l)) };
                }
            }
            Expr::MethodCall(m) if m.method == "extend" && m.args.len() == 1 => {
                if let Expr::MethodCall(i) = &m.args[0] {
                    if i.method == "into_iter" {
                        let (x, y) = (&m.receiver, &i.receiver);
                        *e = parse_quote!(vx_extend(&mut #x, #y));
                    }
                }
            }
            Expr::MethodCall(m) if m.method == "unwrap_or_else" && m.args.len() == 1 => {
                if let Expr::Closure(c) = &m.args[0] {
                    let x = exits(&c.body);
                    if c.inputs.is_empty() && !x.ret && !x.question {
                        let (x, y) = (&m.receiver, &c.body);
                        *e = parse_quote!(match #x { Some(vx_v) => vx_v, None => #y });
                    }
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    if let Some(n) = p.path.get_ident() {
                        if let Some((to, drop)) = self.local.get(&n.to_string()) {
                            let to = id(to);
                            let args: Vec<&Expr> = c.args.iter().zip(drop).filter(|(_, d)| !**d).map(|(a, _)| a).collect();
                            *e = parse_quote!(#to(#(#args),*));
                        }
                    }
                }
            }
            _ => {}
        }
    }
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        visit_mut::visit_path_mut(self, p);
        let at: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        if let Some(i) = at.iter().position(|s| s == "btree_map") {
            if at.get(i + 1).map(|s| s.as_str()) == Some("Entry") {
                p.leading_colon = None;
                p.segments = p.segments.iter().skip(i + 1).cloned().collect();
            }
        }
    }
    fn visit_item_fn_mut(&mut self, f: &mut syn::ItemFn) {
        let old = std::mem::take(&mut self.errors);
        self.k = 0;
        self.sig(&mut f.sig);
        self.tail = matches!(f.sig.output, syn::ReturnType::Default);
        self.visit_block_mut(&mut f.block);
        self.errors = old;
    }
    fn visit_impl_item_fn_mut(&mut self, f: &mut syn::ImplItemFn) {
        let old = std::mem::take(&mut self.errors);
        self.k = 0;
        self.sig(&mut f.sig);
        self.tail = matches!(f.sig.output, syn::ReturnType::Default);
        self.visit_block_mut(&mut f.block);
        self.errors = old;
    }
}
impl M<'_> {
    fn sig(&mut self, s: &mut syn::Signature) {
        for a in &mut s.inputs {
            if let syn::FnArg::Typed(t) = a {
                if is_errors(&t.ty) {
                    *t.ty = parse_quote!(&mut Errors);
                    if let syn::Pat::Ident(i) = &*t.pat {
                        self.errors.push(i.ident.to_string());
                    }
                }
            }
        }
    }
}

/// What becomes of the code around `Errors` (see above).
struct Handing {
    k: usize,
    /// what the owner of the errors is called here
    owner: Option<String>,
}

/// The interpolations of a `quote!`: their names, and whether they are repeated.
fn interpolations(ts: proc_macro2::TokenStream, out: &mut Vec<(Ident, bool)>) -> bool {
    use proc_macro2::TokenTree::*;
    let v: Vec<_> = ts.into_iter().collect();
    let mut i = 0;
    while i < v.len() {
        match (&v[i], v.get(i + 1)) {
            (Punct(p), Some(Ident(n))) if p.as_char() == '#' => {
                out.push((n.clone(), false));
                i += 1;
            }
            (Punct(p), Some(Group(g))) if p.as_char() == '#' && g.delimiter() == proc_macro2::Delimiter::Parenthesis => {
                let mut inner = vec![];
                if !interpolations(g.stream(), &mut inner) || inner.len() != 1 || inner[0].1 {
                    return false;
                }
                out.push((inner[0].0.clone(), true));
                i += 1;
                // the separator
                while !matches!(&v.get(i + 1), Some(Punct(p)) if p.as_char() == '*') {
                    i += 1;
                    if i >= v.len() {
                        return false;
                    }
                }
                i += 1;
            }
            (Ident(n), _) if n == "compile_error" => return false,
            (Group(g), _) => {
                if !interpolations(g.stream(), out) {
                    return false;
                }
            }
            _ => {}
        }
        i += 1;
    }
    true
}

impl Handing {
    fn in_macro(&mut self, m: &syn::Macro) -> Option<Expr> {
        let n = last(&m.path);
        if n == "quote" {
            let mut v = vec![];
            if !interpolations(m.tokens.clone(), &mut v) {
                return None;
            }
            self.k += 1;
            let q = id(&format!("vx_q_{}", self.k - 1));
            let puts: Vec<Stmt> = v.iter().map(|(x, all)| if *all { parse_quote!(#q.vx_put_all(&#x);) } else { parse_quote!(#q.vx_put(&#x);) }).collect();
            return Some(parse_quote!({ let mut #q = TokenStream::vx_quote(); #(#puts)* #q }));
        }
        if n == "parse_macro_input" {
            let v: Vec<String> = m.tokens.clone().into_iter().map(|t| t.to_string()).collect();
            let rest: String = v.get(1..)?.concat();
            if !["", "asDeriveInput", "assyn::DeriveInput"].contains(&rest.as_str()) {
                return None;
            }
            let x = id(&v[0]);
            return Some(parse_quote!(match vx_parse_input(#x) { Ok(vx_d) => vx_d, Err(vx_e) => return vx_e.to_compile_error() }));
        }
        None
    }
}
impl VisitMut for Handing {
    fn visit_type_mut(&mut self, t: &mut syn::Type) {
        visit_mut::visit_type_mut(self, t);
        if let syn::Type::Path(p) = t {
            if last(&p.path) == "RefCell" {
                if let syn::PathArguments::AngleBracketed(a) = &p.path.segments.last().unwrap().arguments {
                    if let Some(syn::GenericArgument::Type(x)) = a.args.first() {
                        *t = x.clone();
                    }
                }
            }
        }
    }
    fn visit_receiver_mut(&mut self, r: &mut syn::Receiver) {
        if r.reference.is_some() && r.mutability.is_none() {
            *r = parse_quote!(&mut self);
        }
    }
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        let old = self.owner.clone();
        visit_mut::visit_block_mut(self, b);
        self.owner = old;
    }
    fn visit_local_mut(&mut self, l: &mut syn::Local) {
        let made = match (&l.pat, &l.init) {
            (syn::Pat::Ident(_), Some(i)) => matches!(&*i.expr, Expr::Call(c) if c.args.is_empty() && c.func.to_token_stream().to_string().replace(' ', "") == "Errors::new"),
            _ => false,
        };
        if let Some(i) = &mut l.init {
            self.visit_local_init_mut(i);
        }
        let mut names = vec![];
        syn::visit::Visit::visit_pat(&mut crate::PatNames(&mut names), &l.pat);
        if made {
            self.owner = names.pop();
            l.pat = parse_quote!(mut vx_errors);
        } else if self.owner.as_ref().is_some_and(|o| names.contains(o)) {
            self.owner = None;
        }
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            if let Some(e) = self.in_macro(&m.mac) {
                *s = Stmt::Expr(e, m.semi_token);
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            if let Some(x) = self.in_macro(&m.mac) {
                *e = x;
            }
        }
        if let Expr::MethodCall(m) = e {
            if m.method == "map" && m.args.len() == 1 {
                if let Expr::MethodCall(i) = &*m.receiver {
                    if i.method == "into_iter" {
                        self.k += 1;
                        let out = id(&format!("vx_made_{}", self.k - 1));
                        let x = &i.receiver;
                        let f = &m.args[0];
                        let one: Expr = match f {
                            Expr::Closure(c) if c.inputs.len() == 1 => {
                                let (p, b) = (&c.inputs[0], &c.body);
                                parse_quote!({ let #p = vx_x; #b })
                            }
                            f => parse_quote!(#f(vx_x)),
                        };
                        *e = parse_quote!({ let mut #out: Vec<TokenStream> = Vec::new(); for vx_x in vx_owned(#x) { let vx_m = #one; #out.push(vx_m); } #out });
                    }
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::MethodCall(m) if (m.method == "borrow" || m.method == "borrow_mut") && m.args.is_empty() => {
                let x = &m.receiver;
                *e = if m.method == "borrow" { parse_quote!((&#x)) } else { parse_quote!((&mut #x)) };
            }
            Expr::MethodCall(m) if m.method == "into" && m.args.is_empty() => {
                let x = &m.receiver;
                *e = parse_quote!(TokenStream::from(#x));
            }
            Expr::MethodCall(m) if m.method == "unwrap_or_default" => {
                let x = &m.receiver;
                *e = parse_quote!(vx_unwrap_or_default(#x));
            }
            Expr::Call(c) if c.args.len() == 1 && c.func.to_token_stream().to_string().replace(' ', "").ends_with("RefCell::new") => *e = c.args[0].clone(),
            Expr::Reference(r) if r.mutability.is_none() && path_is(&r.expr, "vx_errors") => *e = parse_quote!(&mut vx_errors),
            Expr::Path(p) if self.owner.as_ref().is_some_and(|o| p.path.is_ident(o)) => *e = parse_quote!(vx_errors),
            _ => {}
        }
    }
}

const FILES: [&str; 6] = ["common", "parse", "to_text", "deserialize", "serialize", "lib"];

/// A function of lib.rs that takes a function, in the place of its calls.
fn pointed(f: &mut syn::ItemFn, pointers: &HashMap<String, syn::ItemFn>) {
    let [Stmt::Expr(Expr::Call(c), None)] = &f.block.stmts[..] else { return };
    let Expr::Path(p) = &*c.func else { return };
    let Some(h) = p.path.get_ident().and_then(|n| pointers.get(&n.to_string())) else { return };
    if h.sig.inputs.len() != c.args.len() {
        return;
    }
    let mut map = HashMap::new();
    let mut stmts: Vec<Stmt> = vec![];
    for (a, x) in h.sig.inputs.iter().zip(&c.args) {
        let syn::FnArg::Typed(t) = a else { return };
        let syn::Pat::Ident(n) = &*t.pat else { return };
        if matches!(&*t.ty, syn::Type::BareFn(_)) {
            map.insert(n.ident.to_string(), x.clone());
        } else if !path_is(x, &n.ident.to_string()) {
            stmts.push(parse_quote!(let #n = #x;));
        }
    }
    let mut body = (*h.block).clone();
    let (pat, unit): (syn::Pat, Expr) = (parse_quote!(_), parse_quote!(()));
    Inline { map: &map, f: "", pat: &pat, body: &unit }.visit_block_mut(&mut body);
    stmts.extend(body.stmts);
    f.block.stmts = stmts;
}

/// `file::function`, as the functions are called here.
struct Paths<'a>(&'a HashMap<String, Vec<bool>>);
impl VisitMut for Paths<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Path(p) = e {
            let v: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).filter(|s| s != "crate" && s != "self").collect();
            if v.len() == 2 && FILES.contains(&v[0].as_str()) {
                let n = if v[0] == "common" { id(&v[1]) } else { id(&format!("{}_{}", v[0], v[1])) };
                *e = parse_quote!(#n);
            }
        }
        if let Expr::Call(c) = e {
            if let Some(drop) = if let Expr::Path(p) = &*c.func { p.path.get_ident().and_then(|n| self.0.get(&n.to_string())) } else { None } {
                let args = c.args.iter().zip(drop).filter(|(_, d)| !**d).map(|(a, _)| a.clone()).collect();
                c.args = args;
            }
        }
    }
}

pub fn run(dir: &str, output: &str) -> Result<(), String> {
    let mut s = String::new();
    let mut higher: HashMap<String, Higher> = HashMap::new();
    let mut dropped: HashMap<String, Vec<bool>> = HashMap::new();
    for file in FILES {
        let p = std::path::Path::new(dir).join(format!("{file}.rs"));
        let text = std::fs::read_to_string(&p).map_err(|e| format!("{p:?}: {e}"))?;
        let text = crate::inline::run(text, &format!("static-xml-derive/src/{file}.rs"));
        let parsed = syn::parse_file(&text).map_err(|e| format!("{file}.rs: {e}"))?;
        let mut local: HashMap<String, (String, Vec<bool>)> = HashMap::new();
        for i in &parsed.items {
            let Item::Fn(f) = i else { continue };
            let names: Vec<String> = f.sig.inputs.iter().map(|a| match a {
                syn::FnArg::Typed(t) => t.pat.to_token_stream().to_string(),
                _ => "self".into(),
            }).collect();
            if file == "lib" {
            } else if file != "common" {
                let drop: Vec<bool> = f.sig.inputs.iter().zip(&names).map(|(a, n)| matches!(a, syn::FnArg::Typed(t) if is_errors(&t.ty)) && n.starts_with('_')).collect();
                dropped.insert(format!("{file}_{}", f.sig.ident), drop.clone());
                local.insert(f.sig.ident.to_string(), (format!("{file}_{}", f.sig.ident), drop));
            } else if let Some(syn::FnArg::Typed(t)) = f.sig.inputs.last() {
                if t.ty.to_token_stream().to_string().contains("dyn FnMut") {
                    higher.insert(f.sig.ident.to_string(), Higher { f: names.last().unwrap().clone(), params: names, body: (*f.block).clone() });
                }
            }
        }
        let mut pointers: HashMap<String, syn::ItemFn> = HashMap::new();
        if file == "lib" {
            for i in &parsed.items {
                if let Item::Fn(f) = i {
                    if f.sig.inputs.iter().any(|a| matches!(a, syn::FnArg::Typed(t) if matches!(&*t.ty, syn::Type::BareFn(_)))) {
                        pointers.insert(f.sig.ident.to_string(), f.clone());
                    }
                }
            }
        }
        for mut i in parsed.items {
            if let Item::Mod(_) | Item::Use(_) | Item::Macro(_) = i {
                continue;
            }
            match &mut i {
                Item::Fn(f) if file == "lib" => {
                    if pointers.contains_key(&f.sig.ident.to_string()) {
                        continue;
                    }
                    f.attrs.clear();
                    pointed(f, &pointers);
                    Paths(&dropped).visit_item_fn_mut(f);
                    Handing { k: 0, owner: None }.visit_item_fn_mut(f);
                }
                Item::Impl(x) if matches!(&*x.self_ty, syn::Type::Path(p) if last(&p.path) == "Errors") => Handing { k: 0, owner: None }.visit_item_impl_mut(x),
                Item::Struct(x) if x.ident == "Errors" => Handing { k: 0, owner: None }.visit_item_struct_mut(x),
                _ => {}
            }
            let mut m = M { higher: &higher, local: &local, errors: vec![], k: 0, tail: false };
            if let Item::Fn(f) = &mut i {
                let n = f.sig.ident.to_string();
                if higher.contains_key(&n) {
                    continue;
                }
                if let Some((to, drop)) = local.get(&n) {
                    f.sig.ident = id(to);
                    let kept: Vec<syn::FnArg> = f.sig.inputs.iter().zip(drop).filter(|(_, d)| !**d).map(|(a, _)| a.clone()).collect();
                    f.sig.inputs = kept.into_iter().collect();
                }
            }
            m.visit_item_mut(&mut i);
            print(i.to_token_stream(), &mut s);
            s.push('\n');
        }
    }
    syn::parse_file(&s).map_err(|e| format!("the rewritten text does not parse: {e}"))?;
    std::fs::write(output, s).map_err(|e| e.to_string())
}
