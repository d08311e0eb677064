//! `extract flatten IN OUT`: the derive macros' output, in the subset of Rust the verifier reads.
//!
//! What is rewritten (and nothing else):
//!   unsafe { .. }                              the block, without `unsafe`
//!   &raw mut (*BASE).f [as *mut T]             &mut *BASE.f : BASE is a struct of one slot per field
//!   &mut *(that)                               vx_deref(&mut *BASE.f)
//!   ptr::write(P, V)                           { let vx_v = V; vx_put(P, vx_v) }
//!   out.as_mut_ptr(), &mut *(&raw mut (*out.as_mut_ptr()).f as *mut MaybeUninit<F>)   in `new`:
//!                                              vx_p.out, vx_p.f  after  let vx_p = vx_split(out)
//!   out: *mut T in the visitor                 out: TOut<'out>; PhantomData is dropped, ghost fields are added
//!   P(x) if G => A, P(_) => B                  P(x) => if G { A } else { B }
//!   delegate_*(&mut [&mut a, ..], ..)          the array, its handlers and the result in variables of their own
//!   e.read_to(&mut v)                          e.read_to(vx_dyn(&mut v))
//!   fn() -> T, d(), <T as Default>::default()  VxFn<T>, vx_call(d), vx_call(vx_default_fn::<T>())
//!   const NAME: &[..] = ..                     fn T_NAME() -> &'static [..] { .. }
//!   panicking::panic..(..)                     unreachable!()
//! The visitor's own fields get names by kind and order: out, vx_present_K (the flags), vx_sub_K.
//! Parameters get fixed names (`let old = new;` in front where they differ).
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::HashMap;
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Expr, Item};

pub fn print(ts: TokenStream, out: &mut String) {
    for t in ts {
        match t {
            TokenTree::Group(g) => match g.delimiter() {
                Delimiter::Brace => {
                    out.push_str("{\n");
                    print(g.stream(), out);
                    out.push_str("\n}\n");
                }
                Delimiter::Parenthesis => {
                    out.push('(');
                    print(g.stream(), out);
                    out.push_str(") ");
                }
                Delimiter::Bracket => {
                    out.push('[');
                    print(g.stream(), out);
                    out.push_str("] ");
                }
                Delimiter::None => print(g.stream(), out),
            },
            TokenTree::Punct(p) => {
                out.push(p.as_char());
                if p.as_char() == ';' {
                    out.push('\n');
                } else if p.spacing() == Spacing::Alone {
                    out.push(' ');
                }
            }
            t => {
                out.push_str(&t.to_string());
                out.push(' ');
            }
        }
    }
}

pub fn last(p: &syn::Path) -> String {
    p.segments.last().map(|s| s.ident.to_string()).unwrap_or_default()
}
fn peel(mut e: &Expr) -> &Expr {
    loop {
        match e {
            Expr::Paren(p) => e = &p.expr,
            Expr::Group(p) => e = &p.expr,
            Expr::Cast(c) if matches!(&*c.ty, syn::Type::Ptr(_)) => e = &c.expr,
            Expr::Unsafe(u) => match u.block.stmts.as_slice() {
                [syn::Stmt::Expr(x, None)] => e = x,
                _ => return e,
            },
            Expr::Block(u) if u.label.is_none() => match u.block.stmts.as_slice() {
                [syn::Stmt::Expr(x, None)] => e = x,
                _ => return e,
            },
            _ => return e,
        }
    }
}
/// `&raw mut (*BASE).f`, possibly in parentheses, `unsafe` or a pointer cast.
fn raw_field(e: &Expr) -> Option<(Expr, syn::Member)> {
    let Expr::RawAddr(r) = peel(e) else { return None };
    let Expr::Field(f) = peel(&r.expr) else { return None };
    let Expr::Unary(syn::ExprUnary { op: syn::UnOp::Deref(_), expr, .. }) = peel(&f.base) else { return None };
    Some((peel(expr).clone(), f.member.clone()))
}
fn as_mut_ptr_of(e: &Expr) -> Option<String> {
    let Expr::MethodCall(m) = e else { return None };
    if m.method != "as_mut_ptr" || !m.args.is_empty() {
        return None;
    }
    match &*m.receiver {
        Expr::Path(p) => Some(last(&p.path)),
        _ => None,
    }
}

struct Flat<'a> {
    ty: String,
    /// the visitor's own field names, and the fixed ones
    fields: &'a HashMap<String, String>,
    consts: &'a HashMap<String, String>,
    /// `new` takes its place apart
    split: bool,
    delegates: usize,
    in_new: bool,
}

impl<'a> VisitMut for Flat<'a> {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        // a block that ends in a panic has whatever type is wanted of it
        if let Some(syn::Stmt::Expr(Expr::Call(c), semi)) = b.stmts.last_mut() {
            if c.func.to_token_stream().to_string().contains("panicking ::") {
                *semi = None;
            }
        }
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // places first: the inner forms only make sense inside these
        if let Expr::Reference(r) = e {
            if r.mutability.is_some() {
                if let Expr::Unary(syn::ExprUnary { op: syn::UnOp::Deref(_), expr, .. }) = &*r.expr {
                    if let Some((mut base, f)) = raw_field(expr) {
                        if as_mut_ptr_of(&base).is_none() {
                            self.visit_expr_mut(&mut base);
                        }
                        if as_mut_ptr_of(&base).is_some() && self.in_new {
                            self.split = true;
                            *e = parse_quote!(vx_p.#f);
                        } else {
                            *e = parse_quote!(vx_deref(&mut *#base.#f));
                        }
                        return;
                    }
                }
            }
        }
        if let Some((mut base, f)) = raw_field(e) {
            if as_mut_ptr_of(&base).is_none() {
                self.visit_expr_mut(&mut base);
            }
            *e = if as_mut_ptr_of(&base).is_some() && self.in_new {
                self.split = true;
                parse_quote!(vx_p.#f)
            } else {
                parse_quote!(&mut *#base.#f)
            };
            return;
        }
        if self.in_new && as_mut_ptr_of(e).is_some() {
            self.split = true;
            *e = parse_quote!(vx_p.out);
            return;
        }
        if let Expr::Unsafe(u) = e {
            let mut b = u.block.clone();
            self.visit_block_mut(&mut b);
            *e = match b.stmts.as_slice() {
                [syn::Stmt::Expr(x, None)] => parse_quote!((#x)),
                _ => parse_quote!(#b),
            };
            return;
        }
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                let name = last(&p.path);
                let full: String = p.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::");
                if full.ends_with("ptr::write") && c.args.len() == 2 {
                    let mut place = c.args[0].clone();
                    let mut value = c.args[1].clone();
                    self.visit_expr_mut(&mut place);
                    self.visit_expr_mut(&mut value);
                    *e = parse_quote!({ let vx_v = #value; vx_put(#place, vx_v) });
                    return;
                }
                if full.contains("panicking::") {
                    *e = parse_quote!(unreachable!());
                    return;
                }
                if name == "default" && c.args.is_empty() && p.qself.is_some() && full.ends_with("Default::default") {
                    let t = &p.qself.as_ref().unwrap().ty;
                    *e = parse_quote!(vx_call(vx_default_fn::<#t>()));
                    return;
                }
                if p.path.segments.len() == 1 && c.args.is_empty() && !self.consts.values().any(|v| *v == name) {
                    let f = &c.func;
                    *e = parse_quote!(vx_call(#f));
                    return;
                }
                if name.starts_with("delegate_") {
                    if let Some(Expr::Reference(syn::ExprReference { expr, mutability: Some(_), .. })) = c.args.first() {
                        if let Expr::Array(a) = &**expr {
                            let mut els: Vec<Expr> = a.elems.iter().cloned().collect();
                            els.iter_mut().for_each(|x| self.visit_expr_mut(x));
                            let mut rest: Vec<Expr> = c.args.iter().skip(1).cloned().collect();
                            rest.iter_mut().for_each(|x| self.visit_expr_mut(x));
                            let f = &c.func;
                            self.delegates += 1;
                            // one per function is what the contract is about
                            *e = if self.delegates > 1 {
                                parse_quote!(vx_second_delegation())
                            } else {
                                parse_quote!({
                                    let mut vx_arr = [#(vx_dyn(#els)),*];
                                    let vx_sl = vx_slice(&mut vx_arr);
                                    let vx_r = #f(vx_sl, #(#rest),*);
                                    vx_r
                                })
                            };
                            return;
                        }
                    }
                }
            }
        }
        if let Expr::Path(p) = e {
            if p.qself.is_none() && p.path.segments.len() == 1 {
                if let Some(f) = self.consts.get(&last(&p.path)) {
                    let f = syn::Ident::new(f, proc_macro2::Span::call_site());
                    *e = parse_quote!(#f());
                    return;
                }
            }
        }
        if let Expr::Field(f) = e {
            if matches!(&*f.base, Expr::Path(p) if last(&p.path) == "self") {
                if let Some(n) = self.fields.get(&f.member.to_token_stream().to_string()) {
                    let n = syn::Ident::new(n, proc_macro2::Span::call_site());
                    f.member = syn::Member::Named(n);
                }
                return;
            }
        }
        if let Expr::MethodCall(m) = e {
            if m.method == "read_to" && m.args.len() == 1 && matches!(&m.args[0], Expr::Reference(r) if r.mutability.is_some()) {
                let a = m.args[0].clone();
                m.args[0] = parse_quote!(vx_dyn(#a));
                self.visit_expr_mut(&mut m.receiver);
                return;
            }
        }
        if let Expr::Struct(s) = e {
            let fields: Vec<syn::FieldValue> = s.fields.iter().filter(|f| !matches!(&f.expr, Expr::Path(p) if last(&p.path) == "PhantomData")).cloned().collect();
            let is_self = last(&s.path) == "Self" || last(&s.path) == format!("{}Visitor", self.ty);
            s.fields = fields.into_iter().collect();
            if is_self && self.in_new {
                for f in s.fields.iter_mut() {
                    if let Some(n) = self.fields.get(&f.member.to_token_stream().to_string()) {
                        let n = syn::Ident::new(n, proc_macro2::Span::call_site());
                        f.colon_token = Some(Default::default());
                        f.member = syn::Member::Named(n);
                    }
                }
            }
            visit_mut::visit_expr_struct_mut(self, s);
            if is_self && self.in_new {
                s.fields.push(parse_quote!(vx_log: Ghost(Seq::empty())));
                s.fields.push(parse_quote!(vx_hist: Ghost(Seq::empty().push(init()))));
            }
            return;
        }
        if let Expr::Match(m) = e {
            let mut arms: Vec<syn::Arm> = Vec::new();
            let mut i = 0;
            while i < m.arms.len() {
                let mut a = m.arms[i].clone();
                if let (Some((_, g)), Some(k)) = (&a.guard, binding_of(&a.pat)) {
                    if let Some(b) = m.arms.get(i + 1) {
                        if b.guard.is_none() && wild_of(&b.pat).as_deref() == Some(k.as_str()) {
                            let (x, y) = (&a.body, &b.body);
                            let body: Expr = parse_quote!(if #g { #x } else { #y });
                            a.body = Box::new(body);
                            a.guard = None;
                            arms.push(a);
                            i += 2;
                            continue;
                        }
                    }
                }
                arms.push(a);
                i += 1;
            }
            m.arms = arms;
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_type_mut(&mut self, t: &mut syn::Type) {
        if let syn::Type::BareFn(f) = t {
            if f.inputs.is_empty() {
                if let syn::ReturnType::Type(_, r) = &f.output {
                    *t = parse_quote!(VxFn<#r>);
                }
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        let n = p.segments.len();
        if n >= 2 && p.segments[n - 2].ident == "MaybeUninit" || n >= 1 && p.segments[n - 1].ident == "MaybeUninit" {
            let k = p.segments.iter().position(|s| s.ident == "MaybeUninit").unwrap();
            p.leading_colon = None;
            p.segments = p.segments.iter().skip(k).cloned().collect();
        }
        if let Some(s) = p.segments.last_mut() {
            if s.ident == "RawDeserialize" && n >= 1 && s.arguments.is_empty() {
                // the lifetime is left to inference either way
            }
        }
        visit_mut::visit_path_mut(self, p);
    }
}

/// `V(x)`: its path, for a single plain binding.
fn binding_of(p: &syn::Pat) -> Option<String> {
    match p {
        syn::Pat::TupleStruct(t) if t.elems.len() == 1 && matches!(&t.elems[0], syn::Pat::Ident(i) if i.subpat.is_none()) => {
            Some(t.path.to_token_stream().to_string())
        }
        _ => None,
    }
}
/// `V(_)`: its path.
fn wild_of(p: &syn::Pat) -> Option<String> {
    match p {
        syn::Pat::TupleStruct(t) if t.elems.len() == 1 && matches!(&t.elems[0], syn::Pat::Wild(_)) => Some(t.path.to_token_stream().to_string()),
        _ => None,
    }
}

/// Fixed names for the parameters, whatever the source calls them.
fn canonical(sig: &mut syn::Signature, block: &mut syn::Block) {
    let names: &[&str] = match sig.ident.to_string().as_str() {
        "element" => &["child"],
        "attribute" => &["name", "value"],
        "characters" => &["s", "p"],
        "new" => &["out"],
        "finalize" => &["default"],
        "deserialize" => &["element"],
        "write_attributes" => &["builder"],
        "write_children" => &["writer"],
        _ => return,
    };
    let mut lets: Vec<syn::Stmt> = Vec::new();
    let typed: Vec<&mut syn::PatType> = sig.inputs.iter_mut().filter_map(|a| if let syn::FnArg::Typed(t) = a { Some(t) } else { None }).collect();
    for (t, n) in typed.into_iter().zip(names) {
        let id = syn::Ident::new(n, proc_macro2::Span::call_site());
        match &*t.pat {
            syn::Pat::Ident(i) if i.ident == *n && i.mutability.is_none() => {}
            syn::Pat::Ident(i) => {
                let used = i.ident.to_string();
                let pat = (*t.pat).clone();
                if !used.starts_with('_') {
                    lets.push(parse_quote!(let #pat = #id;));
                }
                t.pat = parse_quote!(#id);
            }
            _ => {}
        }
    }
    for (k, l) in lets.into_iter().enumerate() {
        block.stmts.insert(k, l);
    }
}

/// Elided lifetimes of the library's borrowed types, written out.
struct Lifetimes(&'static str);
impl VisitMut for Lifetimes {
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        if let Some(s) = p.segments.last_mut() {
            if (s.ident == "ExpandedNameRef" || s.ident == "ElementBuilder" || s.ident == "ElementWriter") && s.arguments.is_empty() {
                let l = syn::Lifetime::new(self.0, proc_macro2::Span::call_site());
                s.arguments = syn::PathArguments::AngleBracketed(parse_quote!(<#l>));
            }
        }
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_type_reference_mut(&mut self, t: &mut syn::TypeReference) {
        if self.0 == "'static" && t.lifetime.is_none() {
            t.lifetime = Some(parse_quote!('static));
        }
        visit_mut::visit_type_reference_mut(self, t);
    }
}

fn block_items(b: &syn::Block) -> Vec<Item> {
    b.stmts.iter().filter_map(|s| if let syn::Stmt::Item(i) = s { Some(i.clone()) } else { None }).collect()
}
fn self_name(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => last(&p.path),
        _ => String::new(),
    }
}

/// Raw identifiers make the verifier lose track of borrows: r#x becomes vxr_x.
struct Unraw;
impl VisitMut for Unraw {
    fn visit_ident_mut(&mut self, i: &mut syn::Ident) {
        if let Some(plain) = i.to_string().strip_prefix("r#") {
            *i = syn::Ident::new(&format!("vxr_{plain}"), i.span());
        }
    }
}

pub fn run(input: &str, output: &str) -> Result<(), String> {
    let text = std::fs::read_to_string(input).map_err(|e| format!("{input}: {e}"))?;
    let mut file = syn::parse_file(&text).map_err(|e| format!("{input}: {e}"))?;
    Unraw.visit_file_mut(&mut file);
    let mut out: Vec<Item> = Vec::new();
    for it in file.items {
        let Item::Const(c) = &it else { continue };
        let Expr::Block(b) = &*c.expr else { continue };
        let items = block_items(&b.block);
        // the type the block is for: of its Deserialize / Serialize impl
        let ty = items.iter().find_map(|i| match i {
            Item::Impl(im) => match &im.trait_ {
                Some((_, p, _)) if matches!(last(p).as_str(), "Deserialize" | "Serialize") => Some(self_name(&im.self_ty)),
                _ => None,
            },
            _ => None,
        });
        let Some(ty) = ty else { continue };
        let mut consts = HashMap::new();
        for i in &items {
            if let Item::Const(c) = i {
                consts.insert(c.ident.to_string(), format!("{ty}_{}", c.ident));
            }
        }
        let mut fields = HashMap::new();
        for i in &items {
            if let Item::Struct(s) = i {
                let (mut flags, mut subs) = (0, 0);
                for f in &s.fields {
                    let n = f.ident.as_ref().map(|i| i.to_string()).unwrap_or_default();
                    let to = match &f.ty {
                        syn::Type::Path(p) if last(&p.path) == "PhantomData" => continue,
                        syn::Type::Ptr(_) | syn::Type::Reference(_) => "out".to_string(),
                        syn::Type::Path(p) if last(&p.path) == "bool" => {
                            flags += 1;
                            format!("vx_present_{}", flags - 1)
                        }
                        _ => {
                            subs += 1;
                            format!("vx_sub_{}", subs - 1)
                        }
                    };
                    fields.insert(n, to);
                }
            }
        }
        for mut i in items {
            match &mut i {
                Item::Const(c) => {
                    let f = syn::Ident::new(&consts[&c.ident.to_string()], c.ident.span());
                    let (mut t, e) = (c.ty.clone(), &c.expr);
                    Lifetimes("'static").visit_type_mut(&mut t);
                    out.push(parse_quote!(fn #f() -> #t { #e }));
                    continue;
                }
                Item::Struct(s) => {
                    s.attrs.clear();
                    if let syn::Fields::Named(n) = &mut s.fields {
                        let o = syn::Ident::new(&format!("{ty}Out"), s.ident.span());
                        let kept: Vec<syn::Field> = n
                            .named
                            .iter()
                            .filter(|f| !matches!(&f.ty, syn::Type::Path(p) if last(&p.path) == "PhantomData"))
                            .cloned()
                            .map(|mut f| {
                                if let Some(n) = f.ident.as_ref().and_then(|i| fields.get(&i.to_string())) {
                                    f.ident = Some(syn::Ident::new(n, proc_macro2::Span::call_site()));
                                }
                                if let syn::Type::Ptr(_) = &f.ty {
                                    f.ty = parse_quote!(#o<'out>);
                                }
                                f
                            })
                            .collect();
                        n.named = kept.into_iter().collect();
                        n.named.push(parse_quote!(vx_log: Ghost<Seq<Entry>>));
                        n.named.push(parse_quote!(vx_hist: Ghost<Seq<State>>));
                    }
                    Flat { ty: ty.clone(), fields: &fields, consts: &consts, split: false, delegates: 0, in_new: false }.visit_item_struct_mut(s);
                }
                Item::Impl(im) => {
                    im.attrs.clear();
                    im.unsafety = None;
                    for x in &mut im.items {
                        if let syn::ImplItem::Fn(f) = x {
                            f.attrs.clear();
                            canonical(&mut f.sig, &mut f.block);
                            Lifetimes("'_").visit_signature_mut(&mut f.sig);
                            let mut v = Flat { ty: ty.clone(), fields: &fields, consts: &consts, split: false, delegates: 0, in_new: f.sig.ident == "new" };
                            v.visit_signature_mut(&mut f.sig);
                            v.visit_block_mut(&mut f.block);
                            if v.split {
                                f.block.stmts.insert(0, parse_quote!(let vx_p = vx_split(out);));
                            }
                        }
                    }
                }
                _ => {}
            }
            out.push(i);
        }
    }
    let mut s = String::new();
    for i in out {
        print(i.to_token_stream(), &mut s);
        s.push('\n');
    }
    syn::parse_file(&s).map_err(|e| format!("flattened text does not parse: {e}"))?;
    std::fs::write(output, s).map_err(|e| e.to_string())
}
