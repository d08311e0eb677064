//! Mechanical extraction of functions and types of /repo into Verus input.
//!
//! usage: extract TEMPLATE REPO OUT.rs OUT.json [--trust KEY]... [--canary]
//!
//! The template is Verus text with `//@` directives. Every `//@fn` directive
//! copies one function of the repository *verbatim from its current source
//! text*, applies the edits listed in DESIGN.md ("what the extraction drops or
//! changes"), and attaches the contract written below the directive. Nothing
//! of the function's body is written in the template.

use proc_macro2::{Span, TokenStream, TokenTree};
use quote::ToTokens;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

#[derive(Clone, Debug)]
struct Edit {
    start: usize,
    end: usize,
    text: String,
    seq: usize,
    pri: i32,
}

#[derive(Default)]
struct Edits(Vec<Edit>);
impl Edits {
    fn ins(&mut self, at: usize, text: impl Into<String>) {
        let seq = self.0.len();
        self.0.push(Edit { start: at, end: at, text: text.into(), seq, pri: 0 });
    }
    fn ins_pri(&mut self, at: usize, text: impl Into<String>, pri: i32) {
        let seq = self.0.len();
        self.0.push(Edit { start: at, end: at, text: text.into(), seq, pri });
    }
    fn rep(&mut self, start: usize, end: usize, text: impl Into<String>) {
        let seq = self.0.len();
        self.0.push(Edit { start, end, text: text.into(), seq, pri: 0 });
    }
    /// Applies the edits to `src[lo..hi]`. A deletion swallows edits inside it.
    fn apply(&self, src: &str, lo: usize, hi: usize) -> String {
        let mut v: Vec<&Edit> = self.0.iter().filter(|e| e.start >= lo && e.end <= hi).collect();
        v.sort_by_key(|e| (e.start, if e.start == e.end { 0 } else { 1 }, e.pri, usize::MAX - e.end, e.seq));
        let mut out = String::new();
        let mut p = lo;
        for e in v {
            if e.start < p {
                continue; // inside something already replaced
            }
            out.push_str(&src[p..e.start]);
            out.push_str(&e.text);
            p = e.end;
        }
        out.push_str(&src[p..hi]);
        out
    }
}

fn br(s: Span) -> (usize, usize) {
    let r = s.byte_range();
    (r.start, r.end)
}

/// A source text to extract from (a repo file, or the expansion of a macro).
struct Source {
    text: String,
    file: syn::File,
}

impl Source {
    fn new(text: String, what: &str) -> Result<Source, String> {
        // Spans are relative to a global source map; pad so that offsets match.
        let file = syn::parse_file(&text).map_err(|e| format!("{what}: {e}"))?;
        Ok(Source { text, file })
    }
}

/// proc_macro2 spans are global byte offsets; find the base offset of a file.
fn base_of(file: &syn::File, text: &str) -> usize {
    // The first token's local position in the text gives the base.
    let ts = file.to_token_stream();
    fn first(ts: &TokenStream) -> Option<Span> {
        for t in ts.clone() {
            match t {
                TokenTree::Group(g) => return Some(g.span_open()),
                t => return Some(t.span()),
            }
        }
        None
    }
    match first(&ts) {
        None => 0,
        Some(s) => {
            let lc = s.start();
            let mut off = 0;
            for (i, l) in text.split_inclusive('\n').enumerate() {
                if i + 1 == lc.line {
                    off += l.char_indices().nth(lc.column).map(|(b, _)| b).unwrap_or(0);
                    break;
                }
                off += l.len();
            }
            br(s).0 - off
        }
    }
}

// ---------------------------------------------------------------- locating

fn norm_ty(ts: TokenStream, generics: &HashMap<String, String>) -> String {
    let mut out = String::new();
    let toks: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    while i < toks.len() {
        match &toks[i] {
            TokenTree::Punct(p) if p.as_char() == '\'' => {
                // lifetime: skip it, its ident, and a following comma
                i += 2;
                if let Some(TokenTree::Punct(c)) = toks.get(i) {
                    if c.as_char() == ',' {
                        i += 1;
                    }
                }
                continue;
            }
            TokenTree::Ident(id) => {
                let s = id.to_string();
                out.push_str(generics.get(&s).map(|x| x.as_str()).unwrap_or(&s));
            }
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() {
                    proc_macro2::Delimiter::Parenthesis => ("(", ")"),
                    proc_macro2::Delimiter::Bracket => ("[", "]"),
                    proc_macro2::Delimiter::Brace => ("{", "}"),
                    _ => ("", ""),
                };
                out.push_str(a);
                out.push_str(&norm_ty(g.stream(), generics));
                out.push_str(b);
            }
            t => out.push_str(&t.to_string()),
        }
        i += 1;
    }
    out.replace("<>", "")
}

fn impl_key(im: &syn::ItemImpl) -> String {
    let mut g = HashMap::new();
    for (i, p) in im.generics.type_params().enumerate() {
        g.insert(p.ident.to_string(), format!("T{i}"));
    }
    let self_ty = norm_ty(im.self_ty.to_token_stream(), &g);
    match &im.trait_ {
        Some((_, path, _)) => {
            let last = path.segments.last().unwrap();
            let t = norm_ty(last.to_token_stream(), &g);
            format!("{} for {}", t, self_ty)
        }
        None => self_ty,
    }
}

struct Found<'a> {
    attrs: &'a [syn::Attribute],
    sig: &'a syn::Signature,
    block: Option<&'a syn::Block>,
    semi_end: usize,
}

fn all_items(items: &[syn::Item]) -> Vec<&syn::Item> {
    let mut v = Vec::new();
    for it in items {
        v.push(it);
        match it {
            syn::Item::Mod(m) => {
                if m.attrs.iter().any(|a| a.path().is_ident("cfg")) {
                    continue;
                }
                if let Some((_, its)) = &m.content {
                    v.extend(all_items(its));
                }
            }
            syn::Item::Const(c) => {
                // derive output: const _: () = { ... };
                if let syn::Expr::Block(b) = &*c.expr {
                    for s in &b.block.stmts {
                        if let syn::Stmt::Item(i) = s {
                            v.push(i);
                        }
                    }
                }
            }
            _ => {}
        }
    }
    v
}

fn find_impl<'a>(src: &'a Source, key: &str) -> Option<&'a syn::ItemImpl> {
    all_items(&src.file.items).into_iter().find_map(|i| match i {
        syn::Item::Impl(im) if impl_key(im) == key => Some(im),
        _ => None,
    })
}

fn find_fn<'a>(src: &'a Source, path: &str) -> Option<Found<'a>> {
    if let Some((owner, name)) = path.rsplit_once("::") {
        for it in all_items(&src.file.items) {
            match it {
                syn::Item::Impl(im) if impl_key(im) == owner => {
                    for m in &im.items {
                        if let syn::ImplItem::Fn(f) = m {
                            if f.sig.ident == name {
                                return Some(Found {
                                    attrs: &f.attrs,
                                    sig: &f.sig,
                                    block: Some(&f.block),
                                    semi_end: 0,
                                });
                            }
                        }
                    }
                }
                syn::Item::Trait(t) if format!("trait {}", t.ident) == owner => {
                    for m in &t.items {
                        if let syn::TraitItem::Fn(f) = m {
                            if f.sig.ident == name {
                                return Some(Found {
                                    attrs: &f.attrs,
                                    sig: &f.sig,
                                    block: f.default.as_ref(),
                                    semi_end: f.semi_token.map(|s| br(s.span()).1).unwrap_or(0),
                                });
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        None
    } else {
        all_items(&src.file.items).into_iter().find_map(|i| match i {
            syn::Item::Fn(f) if f.sig.ident == path => Some(Found {
                attrs: &f.attrs,
                sig: &f.sig,
                block: Some(&f.block),
                semi_end: 0,
            }),
            _ => None,
        })
    }
}

// ------------------------------------------------------- macro_rules support

/// Expands `name!(args)` invocations (item position) of a one-arm
/// `macro_rules!` whose pattern is a list of `$x:ident`, textually.
fn expand_macros(src: &Source, base: usize, name: &str) -> Result<String, String> {
    let mut def: Option<(Vec<String>, String)> = None;
    for it in all_items(&src.file.items) {
        if let syn::Item::Macro(m) = it {
            if m.ident.as_ref().map(|i| i == name).unwrap_or(false) {
                let toks: Vec<TokenTree> = m.mac.tokens.clone().into_iter().collect();
                let (pat, body) = match (&toks.first(), toks.iter().rev().find_map(|t| if let TokenTree::Group(g) = t { Some(g) } else { None })) {
                    (Some(TokenTree::Group(p)), Some(b)) => (p.clone(), b.clone()),
                    _ => return Err(format!("macro {name}: unexpected shape")),
                };
                let mut ps = Vec::new();
                let pt: Vec<TokenTree> = pat.stream().into_iter().collect();
                for w in pt.windows(2) {
                    if let (TokenTree::Punct(p), TokenTree::Ident(i)) = (&w[0], &w[1]) {
                        if p.as_char() == '$' {
                            ps.push(i.to_string());
                        }
                    }
                }
                let (lo, hi) = (br(body.span_open()).1 - base, br(body.span_close()).0 - base);
                def = Some((ps, src.text[lo..hi].to_string()));
            }
        }
    }
    let (ps, body) = def.ok_or(format!("macro {name} not found"))?;
    let mut out = String::new();
    for it in all_items(&src.file.items) {
        if let syn::Item::Macro(m) = it {
            if m.ident.is_none() && m.mac.path.segments.last().map(|s| s.ident == name).unwrap_or(false) {
                let args: Vec<String> = m.mac.tokens.to_string().split(',').map(|s| s.trim().to_string()).collect();
                out.push_str(&subst_macro(&ps, &body, &args)?);
                out.push('\n');
            }
        }
    }
    Ok(out)
}

fn subst_macro(ps: &[String], body: &str, args: &[String]) -> Result<String, String> {
    if ps.len() != args.len() {
        return Err("macro arity".into());
    }
    let mut b = body.to_string();
    for (p, a) in ps.iter().zip(args) {
        b = b.replace(&format!("${p}"), a);
    }
    Ok(b)
}

// ---------------------------------------------------------------- directives

#[derive(Default, Clone, Debug)]
struct FnDir {
    src: String,
    path: String,
    key: String,
    props: Vec<String>,
    opts: BTreeMap<String, String>,
    spec: Vec<String>,
    loops: BTreeMap<usize, (BTreeMap<String, String>, Vec<String>)>,
    closures: BTreeMap<usize, Vec<String>>,
    ats: Vec<(String, Vec<String>)>,
    locals: Vec<String>,
    sigs: Vec<String>,
}

#[derive(Clone)]
struct MethodRule {
    name: String,
    target: String,
    mode: String, // "ref", "mut", "val"
    args: bool,
}

struct Ctx<'a> {
    text: &'a str,
    base: usize,
    ed: Edits,
    lost: Vec<String>,
    fmt_args: usize,
    write_lits: usize,
    loop_i: usize,
    clos_i: usize,
    dir: &'a FnDir,
    methods: &'a [MethodRule],
    fcalls: &'a [(String, String)],
    ctors: &'a [(String, String)],
    used_loops: BTreeSet<usize>,
    used_closures: BTreeSet<usize>,
    trust: bool,
    /// What the contract does not know about: no reason to refuse the function, but a reason
    /// not to believe a refusal.
    soft: Vec<String>,
    // anchor bookkeeping: innermost statement ranges
    stmt_stack: Vec<(usize, usize)>,
    call_seen: HashMap<String, usize>,
    anchors: HashMap<String, (usize, usize)>,
    ret_i: usize,
    ren: HashMap<String, String>,
    canary: bool,
    canaries: usize,
    qmarks: Vec<String>,
    self_ren: bool,
}

const DROP_MACROS: &[&str] = &["trace", "debug", "info", "warn", "error"];
const PANIC_MACROS: &[&str] = &["panic", "todo", "unimplemented", "unreachable"];

impl<'a> Ctx<'a> {
    fn r(&self, s: Span) -> (usize, usize) {
        let (a, b) = br(s);
        (a - self.base, b - self.base)
    }
    fn sub(&self, lines: &[String]) -> String {
        let mut ren = self.ren.clone();
        if self.self_ren {
            ren.insert("self".into(), "self_".into());
        }
        subst_idents(&lines.join("\n"), &ren)
    }
    /// `write!(f, "a{}b{:4x}", x, y)`: what is written, one piece after the other, up to the first failure.
    fn write_parts(&mut self, m: &syn::Macro, ln: bool) -> Option<String> {
        use syn::parse::Parser;
        let p = syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated;
        let args: Vec<syn::Expr> = p.parse2(m.tokens.clone()).ok()?.into_iter().collect();
        let (fs, fe) = self.r(args.first()?.span());
        let f = match &args[0] {
            syn::Expr::Path(_) => format!("&mut *{}", &self.text[fs..fe]),
            _ => self.text[fs..fe].to_string(),
        };
        let mut text = match args.get(1) {
            None => String::new(),
            Some(syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(l), .. })) => l.value(),
            _ => return None,
        };
        if ln {
            text.push('\n');
        }
        let mut steps = vec![];
        let mut lit = String::new();
        let mut next = 2;
        let mut cs = text.chars().peekable();
        let flush = |lit: &mut String, steps: &mut Vec<String>| {
            if !lit.is_empty() {
                steps.push(format!("vx_write_lit({f}, {lit:?})"));
                lit.clear();
                true
            } else { false }
        };
        let mut lits = 0;
        while let Some(c) = cs.next() {
            match c {
                '{' | '}' if cs.peek() == Some(&c) => { cs.next(); lit.push(c); }
                '{' => {
                    lits += flush(&mut lit, &mut steps) as usize;
                    let mut spec = String::new();
                    loop {
                        match cs.next()? { '}' => break, c => spec.push(c) }
                    }
                    let (name, spec) = match spec.split_once(':') { Some((n, s)) => (n.trim().to_string(), s.to_string()), None => (spec.trim().to_string(), String::new()) };
                    if spec.contains('$') || spec.contains('*') { return None; }
                    let arg = if name.is_empty() {
                        next += 1;
                        let (a, b) = self.r(args.get(next - 1)?.span());
                        self.text[a..b].to_string()
                    } else if let Ok(k) = name.parse::<usize>() {
                        let (a, b) = self.r(args.get(2 + k)?.span());
                        self.text[a..b].to_string()
                    } else { name };
                    steps.push(format!("vx_write_arg({f}, {spec:?}, &({arg}))"));
                }
                c => lit.push(c),
            }
        }
        lits += flush(&mut lit, &mut steps) as usize;
        self.write_lits += lits;
        let mut t = steps.pop().unwrap_or("Ok(())".into());
        for s in steps.into_iter().rev() {
            t = format!("match {s} {{ Err(vx_e) => Err(vx_e), Ok(_) => {t} }}");
        }
        Some(format!("({t})"))
    }
    fn handle_macro(&mut self, m: &syn::Macro, stmt: Option<(usize, usize)>) {
        let name = m.path.segments.last().unwrap().ident.to_string();
        let (s, e) = self.r(m.span());
        if DROP_MACROS.contains(&name.as_str()) {
            match stmt {
                Some((a, b)) => self.ed.rep(a, b, ""),
                None => self.ed.rep(s, e, "()"),
            }
        } else if PANIC_MACROS.contains(&name.as_str()) {
            match self.dir.opts.get("panic_ok").cloned() {
                Some(c) => {
                    let c = self.sub(&[c]);
                    self.ed.rep(s, e, format!("vx_panic_if(Ghost({c}))"))
                }
                // `panic!(..);`
                None if stmt.is_some() && self.text[e..].trim_start().starts_with(';') => self.ed.rep(s, e, "vx_panic::<()>()"),
                None => self.ed.rep(s, e, "vx_panic()"),
            }
        } else if name == "format" {
            let k = self.fmt_args;
            self.fmt_args += 1;
            match self.dir.opts.get(&format!("fmt{k}")) {
                Some(f) => {
                    // format!("lit", a, b)  =>  f(lit, &(a), &(b))
                    use syn::parse::Parser;
                    let p = syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated;
                    if let Ok(args) = p.parse2(m.tokens.clone()) {
                        let mut t = format!("{f}(");
                        for a in args.iter() {
                            let (x, y) = self.r(a.span());
                            t.push_str(&format!("&({}), ", &self.text[x..y]));
                        }
                        t.push(')');
                        self.ed.rep(s, e, t);
                    } else {
                        self.ed.rep(s, e, "vx_fmt()");
                    }
                }
                None => self.ed.rep(s, e, "vx_fmt()"),
            }
        } else if (name == "write" || name == "writeln") && self.dir.opts.contains_key("write") {
            match self.write_parts(m, name == "writeln") {
                Some(t) => self.ed.rep(s, e, t),
                None => self.lost.push(format!("macro {name}")),
            }
        } else if name == "write" {
            self.ed.rep(s, e, "vx_write()");
        } else if name == "stringify" {
            self.ed.rep(s, e, format!("{:?}", m.tokens.to_string()));
        } else if name == "vec" {
            use syn::parse::Parser;
            let p = syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated;
            if let Ok(args) = p.parse2(m.tokens.clone()) {
                for a in args.iter() {
                    self.visit_expr_leak(a.clone());
                }
            }
        } else if matches!(name.as_str(), "debug_assert" | "assert" | "debug_assert_eq" | "assert_eq" | "debug_assert_ne" | "assert_ne") {
            use syn::parse::Parser;
            let p = syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated;
            match p.parse2(m.tokens.clone()) {
                Ok(args) => {
                    let n = if name.ends_with("_eq") || name.ends_with("_ne") { 2 } else { 1 };
                    let target = match name.trim_start_matches("debug_") {
                        "assert" => "vx_assert",
                        "assert_eq" => "vx_assert_eq",
                        _ => "vx_assert_ne",
                    };
                    if args.len() < n {
                        self.lost.push(format!("macro {name}"));
                        return;
                    }
                    let first = self.r(args[0].span()).0;
                    let last = self.r(args[n - 1].span()).1;
                    self.ed.rep(s, first, format!("{target}("));
                    self.ed.rep(last, e, ")");
                    for a in args.iter().take(n) {
                        self.visit_expr_leak(a.clone());
                    }
                }
                Err(_) => self.lost.push(format!("macro {name}")),
            }
        }
    }
    fn visit_expr_leak(&mut self, e: syn::Expr) {
        let e: &'static syn::Expr = Box::leak(Box::new(e));
        self.visit_expr(e);
    }
    /// Paths passed as function values: `map_err(Enum::Variant)`.
    fn fn_values<'x>(&mut self, args: impl Iterator<Item = &'x syn::Expr>) {
        for a in args {
            if let syn::Expr::Path(p) = a {
                let full: String = norm_ty(p.to_token_stream(), &HashMap::new());
                if let Some((_, t)) = self.ctors.iter().find(|(f, _)| *f == full) {
                    let (s, e) = self.r(p.span());
                    self.ed.rep(s, e, t.clone());
                }
            }
        }
    }
    fn note_call(&mut self, name: &str) {
        let n = self.call_seen.entry(name.to_string()).or_insert(0);
        let k = format!("call {}#{}", name, *n);
        *n += 1;
        if let Some(s) = self.stmt_stack.last() {
            self.anchors.insert(k, *s);
        }
    }
    fn loop_contract(&mut self, kind: &str, body: &syn::Block, for_expr: Option<&syn::Expr>) {
        let i = self.loop_i;
        self.loop_i += 1;
        let (bs, be) = self.r(body.span());
        if let Some((opts, lines)) = self.dir.loops.get(&i).cloned() {
            if let Some(k) = opts.get("kind") {
                if k != kind {
                    self.lost.push(format!("loop {i} is `{kind}`, contract expects `{k}`"));
                    return;
                }
            }
            self.used_loops.insert(i);
            if let (Some(it), Some(fe)) = (opts.get("iter"), for_expr) {
                let (fs, _) = self.r(fe.span());
                self.ed.ins(fs, format!("{it}: "));
            }
            let t = self.sub(&lines);
            self.ed.ins(bs, format!("\n{t}\n"));
        } else {
            self.lost.push(format!("loop {i} has no invariant in the contract"));
        }
        let mut st = String::new();
        if self.canary {
            self.canaries += 1;
            st.push_str(&format!("\nproof {{ if vx_any({}) {{ assert(false); }} }} //#canary\n", self.canaries));
        }
        if let Some(st) = self.stmt_stack.last() {
            self.anchors.insert(format!("loop {i}"), *st);
        }
        self.anchors.insert(format!("loop {i} start"), (bs + 1, bs + 1));
        self.anchors.insert(format!("loop {i} end"), (be - 1, be - 1));
        if !st.is_empty() {
            self.ed.ins(bs + 1, st);
        }
    }
}

/// An expression that only puts the given parameters into constructors.
fn builds(e: &syn::Expr, params: &[String]) -> bool {
    match e {
        syn::Expr::Paren(p) => builds(&p.expr, params),
        syn::Expr::Tuple(t) => t.elems.iter().all(|e| builds(e, params)),
        syn::Expr::Lit(l) => matches!(l.lit, syn::Lit::Bool(_)),
        syn::Expr::Path(p) if p.qself.is_none() => match p.path.get_ident() {
            Some(i) if params.contains(&i.to_string()) => true,
            _ => p.path.segments.last().unwrap().ident.to_string().starts_with(char::is_uppercase),
        },
        syn::Expr::Call(c) => matches!(&*c.func, syn::Expr::Path(p) if p.qself.is_none()
                && p.path.segments.last().unwrap().ident.to_string().starts_with(char::is_uppercase))
            && c.args.iter().all(|e| builds(e, params)),
        _ => false,
    }
}

impl<'a, 'ast> Visit<'ast> for Ctx<'a> {
    fn visit_attribute(&mut self, a: &'ast syn::Attribute) {
        let (s, e) = self.r(a.span());
        self.ed.rep(s, e, "");
    }
    fn visit_stmt(&mut self, s: &'ast syn::Stmt) {
        let r = self.r(s.span());
        self.stmt_stack.push(r);
        match s {
            syn::Stmt::Local(l) => {
                let mut names = Vec::new();
                PatNames(&mut names).visit_pat(&l.pat);
                for n in names {
                    self.anchors.entry(format!("let {n}")).or_insert(r);
                }
                visit::visit_stmt(self, s);
            }
            syn::Stmt::Macro(m) => {
                for a in &m.attrs {
                    self.visit_attribute(a);
                }
                self.handle_macro(&m.mac, Some(r));
            }
            syn::Stmt::Item(syn::Item::Use(_)) => self.ed.rep(r.0, r.1, ""),
            _ => visit::visit_stmt(self, s),
        }
        self.stmt_stack.pop();
    }
    fn visit_arm(&mut self, a: &'ast syn::Arm) {
        // `p => return e,` is `p => { return e },` so that a proof can precede it
        if let syn::Expr::Return(_) = &*a.body {
            let r = self.r(a.body.span());
            self.ed.ins_pri(r.0, "{ ", -9);
            self.ed.ins_pri(r.1, " }", 9);
            self.stmt_stack.push(r);
            visit::visit_arm(self, a);
            self.stmt_stack.pop();
        } else {
            visit::visit_arm(self, a);
        }
    }
    fn visit_expr_macro(&mut self, m: &'ast syn::ExprMacro) {
        for a in &m.attrs {
            self.visit_attribute(a);
        }
        self.handle_macro(&m.mac, None);
    }
    fn visit_expr_while(&mut self, w: &'ast syn::ExprWhile) {
        self.loop_contract("while", &w.body, None);
        visit::visit_expr_while(self, w);
    }
    fn visit_expr_loop(&mut self, w: &'ast syn::ExprLoop) {
        self.loop_contract("loop", &w.body, None);
        visit::visit_expr_loop(self, w);
    }
    fn visit_expr_for_loop(&mut self, w: &'ast syn::ExprForLoop) {
        let i = self.loop_i;
        let opts = self.dir.loops.get(&i).map(|x| x.0.clone()).unwrap_or_default();
        if let Some(mode) = opts.get("map") {
            // `for (k, v) in EXPR { body }` over a map, as an index loop over its sorted keys
            self.loop_i += 1;
            self.used_loops.insert(i);
            let (ws, we) = self.r(w.span());
            let (es, ee) = self.r(w.expr.span());
            let (bs, be) = self.r(w.body.span());
            let mut names = Vec::new();
            let ok = match &*w.pat {
                syn::Pat::Tuple(t) if t.elems.len() == 2 => {
                    for e in &t.elems {
                        names.push(e.to_token_stream().to_string());
                    }
                    true
                }
                _ => false,
            };
            if !ok {
                self.lost.push(format!("loop {i}: pattern"));
                return;
            }
            let mut e = &*w.expr;
            if let syn::Expr::Reference(r) = e {
                e = &r.expr;
            }
            let (xs, xe) = self.r(e.span());
            let map = self.sub(&[self.text[xs..xe].to_string()]);
            let lines = self.dir.loops.get(&i).unwrap().1.clone();
            let inv = self.sub(&lines);
            let get = if mode == "mut" {
                format!("let {} = {}.vx_value_mut(&vx_keys_{i}, vx_i_{i});", names[1], map)
            } else {
                format!("let {} = {}.vx_value(&vx_keys_{i}, vx_i_{i});", names[1], map)
            };
            let can = if self.canary { self.canaries += 1; format!("\nproof {{ if vx_any({}) {{ assert(false); }} }} //#canary\n", self.canaries) } else { String::new() };
            self.ed.rep(ws, es, format!("let vx_keys_{i} = {map}.vx_keys(); let mut vx_i_{i}: usize = 0;\nwhile vx_i_{i} < vx_keys_{i}.len() "));
            self.ed.rep(es, ee, "");
            self.ed.ins(bs, format!("\n{inv}\n"));
            self.ed.ins(bs + 1, format!(" {can} let {} = vx_keys_{i}.vx_get(vx_i_{i}); {get} vx_i_{i} += 1; ", names[0]));
            if let Some(st) = self.stmt_stack.last() {
                self.anchors.insert(format!("loop {i}"), *st);
            }
            self.anchors.insert(format!("loop {i} start"), (bs + 1, bs + 1));
            self.anchors.insert(format!("loop {i} end"), (be - 1, be - 1));
            let _ = we;
            self.visit_block(&w.body);
            return;
        }
        if opts.get("walk").is_some() {
            // `for p in X.iter()[.enumerate()][.rev()]`, as an index loop over the slice X
            self.loop_i += 1;
            self.used_loops.insert(i);
            let (ws, _) = self.r(w.span());
            let (es, ee) = self.r(w.expr.span());
            let (bs, be) = self.r(w.body.span());
            let (ps, pe) = self.r(w.pat.span());
            let mut pat = self.text[ps..pe].to_string();
            let mut e = &*w.expr;
            let (mut rev, mut count, mut iter) = (false, false, false);
            while let syn::Expr::MethodCall(c) = e {
                match c.method.to_string().as_str() {
                    "rev" if !rev && !iter => rev = true,
                    "enumerate" if !count && !iter && c.args.is_empty() => count = true,
                    "iter" if !iter && c.args.is_empty() => iter = true,
                    _ => { iter = false; break }
                }
                e = &c.receiver;
                if iter { break; }
            }
            // (only the order `.enumerate().rev()` counts like the index)
            let order = !(rev && count) || matches!(&*w.expr, syn::Expr::MethodCall(c) if c.method == "rev");
            let idx = if count {
                match &*w.pat {
                    syn::Pat::Tuple(t) if t.elems.len() == 2 => match &t.elems[0] {
                        syn::Pat::Ident(n) => { let (a, b) = self.r(t.elems[1].span()); pat = self.text[a..b].to_string(); Some(n.ident.to_string()) }
                        syn::Pat::Wild(_) => { let (a, b) = self.r(t.elems[1].span()); pat = self.text[a..b].to_string(); None }
                        _ => { self.lost.push(format!("loop {i}: pattern")); return }
                    },
                    _ => { self.lost.push(format!("loop {i}: pattern")); return }
                }
            } else { None };
            if !iter || !order || opts.get("walk").map(|x| x == "rev") != Some(rev) {
                self.lost.push(format!("loop {i}: expression"));
                return;
            }
            let (xs, xe) = self.r(e.span());
            let slice = self.sub(&[self.text[xs..xe].to_string()]);
            let lines = self.dir.loops.get(&i).unwrap().1.clone();
            let inv = self.sub(&lines);
            let can = if self.canary { self.canaries += 1; format!("\nproof {{ if vx_any({}) {{ assert(false); }} }} //#canary\n", self.canaries) } else { String::new() };
            let idx = idx.map(|n| format!("let {n} = vx_k_{i}; ")).unwrap_or_default();
            let (init, cond, step) = if rev {
                (format!("vx_s_{i}.len()"), format!("vx_i_{i} > 0"), format!("vx_i_{i} -= 1; let vx_k_{i} = vx_i_{i}; "))
            } else {
                ("0".into(), format!("vx_i_{i} < vx_s_{i}.len()"), format!("let vx_k_{i} = vx_i_{i}; vx_i_{i} += 1; "))
            };
            self.ed.rep(ws, es, format!("let vx_s_{i} = &{slice}; let mut vx_i_{i}: usize = {init};\nwhile {cond} "));
            self.ed.rep(es, ee, "");
            self.ed.ins(bs, format!("\n{inv}\n"));
            self.ed.ins(bs + 1, format!(" {can} {step} {idx} let {pat} = &vx_s_{i}[vx_k_{i}]; "));
            if let Some(st) = self.stmt_stack.last() {
                self.anchors.insert(format!("loop {i}"), *st);
            }
            self.anchors.insert(format!("loop {i} start"), (bs + 1, bs + 1));
            self.anchors.insert(format!("loop {i} end"), (be - 1, be - 1));
            self.visit_block(&w.body);
            return;
        }
        if opts.get("slice").is_some() {
            // `for f in SLICE { body }` over a `&[T]` or `&Vec<T>`, as an index loop
            self.loop_i += 1;
            self.used_loops.insert(i);
            let (ws, _) = self.r(w.span());
            let (es, ee) = self.r(w.expr.span());
            let (bs, be) = self.r(w.body.span());
            let (ps, pe) = self.r(w.pat.span());
            let pat = self.text[ps..pe].to_string();
            let mut slice = self.sub(&[self.text[es..ee].to_string()]);
            if let Some(x) = slice.strip_suffix(".iter()") {
                slice = format!("&{x}");
            }
            if !matches!(&*w.pat, syn::Pat::Ident(_)) {
                self.lost.push(format!("loop {i}: pattern"));
                return;
            }
            let lines = self.dir.loops.get(&i).unwrap().1.clone();
            let inv = self.sub(&lines);
            let can = if self.canary { self.canaries += 1; format!("\nproof {{ if vx_any({}) {{ assert(false); }} }} //#canary\n", self.canaries) } else { String::new() };
            self.ed.rep(ws, es, format!("let vx_s_{i} = {slice}; let mut vx_i_{i}: usize = 0;\nwhile vx_i_{i} < vx_s_{i}.len() "));
            self.ed.rep(es, ee, "");
            self.ed.ins(bs, format!("\n{inv}\n"));
            self.ed.ins(bs + 1, format!(" {can} let {pat} = &vx_s_{i}[vx_i_{i}]; vx_i_{i} += 1; "));
            if let Some(st) = self.stmt_stack.last() {
                self.anchors.insert(format!("loop {i}"), *st);
            }
            self.anchors.insert(format!("loop {i} start"), (bs + 1, bs + 1));
            self.anchors.insert(format!("loop {i} end"), (be - 1, be - 1));
            self.visit_block(&w.body);
            return;
        }
        if opts.get("slicemut").is_some() {
            // `for f in SLICE { body }` over a `&mut [T]`, as an index loop
            self.loop_i += 1;
            self.used_loops.insert(i);
            let (ws, _) = self.r(w.span());
            let (es, ee) = self.r(w.expr.span());
            let (bs, be) = self.r(w.body.span());
            let (ps, pe) = self.r(w.pat.span());
            let pat = self.text[ps..pe].to_string();
            let slice = self.sub(&[self.text[es..ee].trim_end_matches(".iter_mut()").to_string()]);
            if !slice.chars().all(|c| c.is_alphanumeric() || c == '_') || !matches!(&*w.pat, syn::Pat::Ident(_)) {
                self.lost.push(format!("loop {i}: not over a plain slice"));
                return;
            }
            let lines = self.dir.loops.get(&i).unwrap().1.clone();
            let inv = self.sub(&lines);
            let can = if self.canary { self.canaries += 1; format!("\nproof {{ if vx_any({}) {{ assert(false); }} }} //#canary\n", self.canaries) } else { String::new() };
            self.ed.rep(ws, es, format!("let vx_n_{i} = {slice}.len(); let mut vx_i_{i}: usize = 0;\nwhile vx_i_{i} < vx_n_{i} "));
            self.ed.rep(es, ee, "");
            self.ed.ins(bs, format!("\n{inv}\n"));
            self.ed.ins(bs + 1, format!(" {can} let {pat} = vx_get_mut({slice}, vx_i_{i}); vx_i_{i} += 1; "));
            if let Some(st) = self.stmt_stack.last() {
                self.anchors.insert(format!("loop {i}"), *st);
            }
            self.anchors.insert(format!("loop {i} start"), (bs + 1, bs + 1));
            self.anchors.insert(format!("loop {i} end"), (be - 1, be - 1));
            self.visit_block(&w.body);
            return;
        }
        self.loop_contract("for", &w.body, Some(&w.expr));
        visit::visit_expr_for_loop(self, w);
    }
    fn visit_expr_closure(&mut self, c: &'ast syn::ExprClosure) {
        let i = self.clos_i;
        self.clos_i += 1;
        // `|&&x| e` / `|(a, b)| e`  =>  `|vx_p| { let x = **vx_p; e }`
        let mut lets = String::new();
        let mut subst: Vec<String> = Vec::new();
        for (k, p) in c.inputs.iter().enumerate() {
            let inner = match p {
                syn::Pat::Type(t) => &*t.pat,
                p => p,
            };
            let (ps, pe) = self.r(inner.span());
            let v = format!("vx_p{i}_{k}");
            match inner {
                syn::Pat::Ident(_) | syn::Pat::Wild(_) => {
                    if let syn::Pat::Ident(id) = inner {
                        subst.push(id.ident.to_string());
                    } else {
                        subst.push(v.clone());
                        self.ed.rep(ps, pe, v);
                    }
                }
                syn::Pat::Reference(_) => {
                    let mut q = inner;
                    let mut stars = String::new();
                    while let syn::Pat::Reference(r) = q {
                        stars.push('*');
                        q = &r.pat;
                    }
                    if let syn::Pat::Ident(id) = q {
                        lets.push_str(&format!("let {} = {stars}{v}; ", id.ident));
                        subst.push(format!("({stars}{v})"));
                        self.ed.rep(ps, pe, v);
                    } else {
                        self.lost.push(format!("closure {i}: parameter pattern"));
                        subst.push(v);
                    }
                }
                syn::Pat::Tuple(t) => {
                    for (j, e) in t.elems.iter().enumerate() {
                        if let syn::Pat::Ident(id) = e {
                            lets.push_str(&format!("let {} = &{v}.{j}; ", id.ident));
                        }
                    }
                    subst.push(v.clone());
                    self.ed.rep(ps, pe, v);
                }
                _ => {
                    self.lost.push(format!("closure {i}: parameter pattern"));
                    subst.push(v);
                }
            }
        }
        let (bs, be) = self.r(c.body.span());
        let is_block = matches!(&*c.body, syn::Expr::Block(b) if b.attrs.is_empty() && b.label.is_none());
        let mut wrap = !lets.is_empty();
        if let Some(lines) = self.dir.closures.get(&i).cloned() {
            self.used_closures.insert(i);
            // `$0`, `$1` ... are the (pattern-bound) parameters
            let mut t = self.sub(&lines);
            for (k, n) in subst.iter().enumerate() {
                t = t.replace(&format!("${k}"), n);
            }
            let or2 = self.r(c.or2_token.span()).1;
            self.ed.rep(or2, bs, format!(" {t} "));
            wrap = wrap || !is_block;
        } else if !self.trust {
            // no contract: a closure that only builds a value of its parameters gets the
            // obvious one, any other is unknown to its caller
            let or2 = self.r(c.or2_token.span()).1;
            let body = self.text[bs..be].to_string();
            let plain = c.inputs.iter().all(|p| matches!(p, syn::Pat::Ident(i) if i.by_ref.is_none() && i.subpat.is_none()) || matches!(p, syn::Pat::Wild(_)))
                && matches!(c.output, syn::ReturnType::Default);
            let one = match &*c.body {
                syn::Expr::Macro(m) if m.mac.path.is_ident("vec") => m.mac.parse_body::<syn::Expr>().ok().filter(|e| builds(e, &subst)),
                _ => None,
            };
            if let (true, Some(e)) = (plain, &one) {
                self.ed.rep(or2, bs, format!(" -> (vx_r: _) ensures vx_vec1(vx_r, {}) ", e.to_token_stream()));
                wrap = true;
            } else if plain && builds(&c.body, &subst) {
                self.ed.rep(or2, bs, format!(" -> (vx_r: _) ensures vx_same(vx_r, {body}) "));
                wrap = true;
            } else {
                self.soft.push(format!("closure {i} has no contract"));
            }
        }
        if wrap {
            self.ed.ins(bs, format!("{{ {lets}"));
            self.ed.ins(be, " }");
        }
        visit::visit_expr_closure(self, c);
    }
    fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
        let name = m.method.to_string();
        self.note_call(&name);
        self.fn_values(m.args.iter());
        if let Some(rule) = self.methods.iter().find(|r| r.name == name).cloned() {
            let (ms, me) = self.r(m.span());
            let (_, re) = self.r(m.receiver.span());
            if rule.mode == "name" {
                let (s, e) = self.r(m.method.span());
                self.ed.rep(s, e, rule.target.clone());
                visit::visit_expr_method_call(self, m);
                return;
            }
            let pre = match rule.mode.as_str() {
                "ref" => "&",
                "mut" => "&mut ",
                _ => "",
            };
            self.ed.ins(ms, format!("{}({}", rule.target, pre));
            if rule.args && !m.args.is_empty() {
                let (as_, _) = self.r(m.args[0].span());
                self.ed.rep(re, as_, ", ");
            } else {
                self.ed.rep(re, me, ")");
            }
        }
        visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_call(&mut self, c: &'ast syn::ExprCall) {
        self.fn_values(c.args.iter());
        if let syn::Expr::Path(p) = &*c.func {
            let n = p.path.segments.last().unwrap().ident.to_string();
            self.note_call(&n);
            let full: String = norm_ty(p.to_token_stream(), &HashMap::new());
            // `<T as Trait>::f` and `prim::f`: listed as `<_>::f`, with `$T` in the target
            let prim = ["bool","i8","u8","i16","u16","i32","u32","i64","u64","i128","u128","isize","usize","f32","f64","String","char"];
            let recv = match &p.qself {
                Some(q) => Some(q.ty.to_token_stream().to_string()),
                None if p.path.segments.len() == 2 && prim.contains(&&*p.path.segments[0].ident.to_string()) =>
                    Some(p.path.segments[0].ident.to_string()),
                None => None,
            };
            let any = format!("<_>::{n}");
            if let Some(t) = self.dir.opts.get(&format!("call.{full}")).cloned() {
                let (s, e) = self.r(p.span());
                self.ed.rep(s, e, t);
            } else if let Some((_, t)) = self.fcalls.iter().find(|(f, _)| *f == full) {
                let (s, e) = self.r(p.span());
                self.ed.rep(s, e, t.clone());
            } else if let (Some(ty), Some((_, t))) = (recv, self.fcalls.iter().find(|(f, _)| *f == any)) {
                let (s, e) = self.r(p.span());
                self.ed.rep(s, e, t.replace("$T", &ty));
            }
        }
        visit::visit_expr_call(self, c);
    }
    fn visit_expr_cast(&mut self, c: &'ast syn::ExprCast) {
        // coercion of a boxed error to the opaque type that stands for it
        let t = norm_ty(c.ty.to_token_stream(), &HashMap::new());
        if t.ends_with("BoxedStdError") {
            let (_, s) = self.r(c.expr.span());
            let (_, e) = self.r(c.span());
            self.ed.rep(s, e, "");
        }
        visit::visit_expr_cast(self, c);
    }
    fn visit_expr_return(&mut self, c: &'ast syn::ExprReturn) {
        let i = self.ret_i;
        self.ret_i += 1;
        if let Some(s) = self.stmt_stack.last() {
            self.anchors.insert(format!("return {i}"), *s);
        }
        visit::visit_expr_return(self, c);
    }
    fn visit_expr_struct(&mut self, c: &'ast syn::ExprStruct) {
        for f in &c.fields {
            let n = f.member.to_token_stream().to_string();
            if let Some(w) = self.dir.opts.get(&format!("wrapfield.{n}")) {
                let (s, e) = self.r(f.expr.span());
                if f.colon_token.is_some() {
                    self.ed.ins(s, format!("{w}("));
                    self.ed.ins(e, ")");
                } else {
                    self.ed.rep(s, e, format!("{n}: {w}({n})"));
                }
            }
        }
        visit::visit_expr_struct(self, c);
    }
    fn visit_path(&mut self, p: &'ast syn::Path) {
        if let Some(l) = p.leading_colon {
            let (s, e) = self.r(l.span());
            // `::std` stays external; other crates are modelled in this file
            let first = p.segments[0].ident.to_string();
            if first != "std" && first != "core" && first != "alloc" {
                self.ed.rep(s, e, "");
            }
        }
        visit::visit_path(self, p);
    }
}

struct PatNames<'b>(&'b mut Vec<String>);
impl<'b, 'ast> Visit<'ast> for PatNames<'b> {
    fn visit_pat_ident(&mut self, p: &'ast syn::PatIdent) {
        self.0.push(p.ident.to_string());
        visit::visit_pat_ident(self, p);
    }
    fn visit_expr(&mut self, _e: &'ast syn::Expr) {}
}

/// Writes the implicit `drop` calls of owned values whose type has a `Drop` impl under
/// contract (`//@owner`): at every `?`, `return` and block end where they are still live.
struct Drops<'a, 'b> {
    text: &'a str,
    base: usize,
    owners: &'a [String],
    scopes: Vec<Vec<String>>,
    ed: &'b mut Edits,
    lost: &'b mut Vec<String>,
}
impl<'a, 'b> Drops<'a, 'b> {
    fn r(&self, s: Span) -> (usize, usize) {
        let (a, b) = br(s);
        (a - self.base, b - self.base)
    }
    fn live(&self) -> Vec<String> {
        self.scopes.iter().flatten().cloned().collect()
    }
    fn calls(v: &[String]) -> String {
        v.iter().rev().map(|x| format!("{x}.vx_drop(); ")).collect()
    }
    fn consume(&mut self, n: &str) {
        for sc in self.scopes.iter_mut().rev() {
            if let Some(p) = sc.iter().rposition(|x| x == n) {
                sc.remove(p);
                return;
            }
        }
    }
    /// Does this expression make a value that owns something to drop?
    fn makes(&self, e: &syn::Expr) -> bool {
        match e {
            syn::Expr::Try(t) => self.makes(&t.expr),
            syn::Expr::Paren(t) => self.makes(&t.expr),
            syn::Expr::MethodCall(m) => self.owners.iter().any(|o| m.method == o.as_str()),
            syn::Expr::Call(c) => match &*c.func {
                syn::Expr::Path(p) => {
                    let whole: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    self.owners.iter().any(|o| whole.last() == Some(o) || whole.join("::") == *o)
                }
                _ => false,
            },
            _ => false,
        }
    }
    fn branch(&mut self, e: &syn::Expr) {
        let before = self.scopes.clone();
        self.expr(e);
        if self.scopes != before && !diverges(e) {
            self.lost.push("a value is moved on one path only".into());
        }
        self.scopes = before;
    }
    fn expr(&mut self, e: &syn::Expr) {
        use syn::Expr::*;
        match e {
            Path(p) => {
                if let Some(i) = p.path.get_ident() {
                    self.consume(&i.to_string());
                }
            }
            Reference(r) => match &*r.expr {
                Path(_) => {}
                x => self.place(x),
            },
            Field(_) | Index(_) => self.place(e),
            Try(t) => {
                self.expr(&t.expr);
                let v = self.live();
                if !v.is_empty() {
                    let (s, _) = self.r(t.expr.span());
                    let (qs, qe) = self.r(t.question_token.span());
                    self.ed.ins_pri(s, "(match ", -6);
                    self.ed.rep(qs, qe, format!(" {{ Ok(vx_v) => vx_v, Err(vx_e) => {{ {}return Err(vx_e); }} }})", Self::calls(&v)));
                }
            }
            Return(r) => {
                if let Some(x) = &r.expr {
                    self.expr(x);
                }
                let v = self.live();
                if !v.is_empty() {
                    let (s, en) = self.r(r.span());
                    match &r.expr {
                        Some(x) => {
                            let (xs, xe) = self.r(x.span());
                            self.ed.rep(s, xs, "{ let vx_t = ");
                            self.ed.ins_pri(xe, format!("; {}return vx_t; }}", Self::calls(&v)), 6);
                        }
                        None => self.ed.rep(s, en, format!("{{ {}return; }}", Self::calls(&v))),
                    }
                }
            }
            MethodCall(m) => {
                match &*m.receiver {
                    Path(p) if !matches!(m.method.to_string().as_str(), "start" | "finish" | "vx_drop") => { let _ = p; }
                    x => {
                        if !matches!(x, Path(_)) {
                            self.expr(x)
                        }
                    }
                }
                for a in &m.args {
                    self.expr(a);
                }
                if let (Path(p), "start" | "finish" | "vx_drop") = (&*m.receiver, m.method.to_string().as_str()) {
                    if let Some(i) = p.path.get_ident() {
                        self.consume(&i.to_string());
                    }
                }
            }
            Call(c) => {
                for a in &c.args {
                    self.expr(a);
                }
            }
            Macro(_) | Lit(_) | Continue(_) | Closure(_) => {}
            Break(_) => {
                if self.scopes.iter().skip(1).any(|s| !s.is_empty()) {
                    self.lost.push("break past a live value".into());
                }
            }
            Block(b) => self.block(&b.block, &[]),
            Unsafe(b) => self.block(&b.block, &[]),
            If(i) => {
                self.expr(&i.cond);
                let b = syn::Expr::Block(syn::ExprBlock { attrs: vec![], label: None, block: i.then_branch.clone() });
                self.branch(&b);
                if let Some((_, x)) = &i.else_branch {
                    self.branch(x);
                }
            }
            Match(m) => {
                match &*m.expr {
                    Path(_) => {}
                    x => self.expr(x),
                }
                for a in &m.arms {
                    if let Some((_, g)) = &a.guard {
                        self.expr(g);
                    }
                    self.branch(&a.body);
                }
            }
            While(w) => {
                self.expr(&w.cond);
                let b = syn::Expr::Block(syn::ExprBlock { attrs: vec![], label: None, block: w.body.clone() });
                self.branch(&b);
            }
            Loop(w) => {
                let b = syn::Expr::Block(syn::ExprBlock { attrs: vec![], label: None, block: w.body.clone() });
                self.branch(&b);
            }
            ForLoop(w) => {
                match &*w.expr {
                    Path(_) => {}
                    x => self.expr(x),
                }
                let b = syn::Expr::Block(syn::ExprBlock { attrs: vec![], label: None, block: w.body.clone() });
                self.branch(&b);
            }
            Struct(s) => {
                for f in &s.fields {
                    self.expr(&f.expr);
                }
            }
            Tuple(t) => t.elems.iter().for_each(|x| self.expr(x)),
            Array(t) => t.elems.iter().for_each(|x| self.expr(x)),
            Paren(p) => self.expr(&p.expr),
            Group(p) => self.expr(&p.expr),
            Binary(b) => {
                self.expr(&b.left);
                self.expr(&b.right);
            }
            Unary(u) => self.place(&u.expr),
            Cast(c) => self.expr(&c.expr),
            Assign(a) => {
                self.expr(&a.right);
                self.place(&a.left);
            }
            Let(l) => match &*l.expr {
                Path(_) => {}
                x => self.expr(x),
            },
            Range(_) => {}
            _ => {
                if !self.live().is_empty() {
                    self.lost.push("expression kind with live values to drop".into());
                }
            }
        }
    }
    fn place(&mut self, e: &syn::Expr) {
        match e {
            syn::Expr::Path(_) => {}
            syn::Expr::Field(f) => self.place(&f.base),
            syn::Expr::Index(f) => {
                self.place(&f.expr);
                self.expr(&f.index);
            }
            syn::Expr::Unary(f) => self.place(&f.expr),
            syn::Expr::Paren(f) => self.place(&f.expr),
            x => self.expr(x),
        }
    }
    fn block(&mut self, b: &syn::Block, initial: &[String]) {
        self.scopes.push(initial.to_vec());
        let n = b.stmts.len();
        let mut tail_done = false;
        for (k, st) in b.stmts.iter().enumerate() {
            match st {
                syn::Stmt::Local(l) => {
                    let Some(i) = &l.init else { continue };
                    self.expr(&i.expr);
                    if let Some((_, d)) = &i.diverge {
                        self.branch(d);
                    }
                    if self.makes(&i.expr) {
                        let pat = match &l.pat {
                            syn::Pat::Type(t) => &*t.pat,
                            p => p,
                        };
                        match pat {
                            syn::Pat::Ident(id) => {
                                let s = id.ident.to_string();
                                if s.starts_with('_') && !matches!(&*i.expr, syn::Expr::Try(_)) {
                                    // may be a Result: only the plain form is known
                                }
                                self.scopes.last_mut().unwrap().push(s);
                            }
                            _ => self.lost.push("a value to drop is bound by a pattern".into()),
                        }
                    }
                }
                syn::Stmt::Expr(e, semi) => {
                    if k + 1 == n && semi.is_none() {
                        self.expr(e);
                        let v = self.scopes.last().unwrap().clone();
                        if !v.is_empty() && !diverges(e) {
                            let (s, en) = self.r(e.span());
                            self.ed.ins_pri(s, "{ let vx_t = ", -7);
                            self.ed.ins_pri(en, format!("; {}vx_t }}", Self::calls(&v)), 7);
                        }
                        tail_done = true;
                    } else {
                        self.expr(e);
                        if semi.is_some() && self.makes(e) {
                            let (s, en) = self.r(e.span());
                            self.ed.ins_pri(s, "(", -7);
                            self.ed.ins_pri(en, ").vx_drop()", 7);
                        }
                    }
                }
                _ => {}
            }
        }
        let v = self.scopes.pop().unwrap();
        let last_div = matches!(b.stmts.last(), Some(syn::Stmt::Expr(e, _)) if diverges(e));
        if !tail_done && !v.is_empty() && !last_div {
            let (_, e) = self.r(b.span());
            self.ed.ins_pri(e - 1, format!(" {}", Self::calls(&v)), 8);
        }
        let _ = self.text;
    }
}
fn diverges(e: &syn::Expr) -> bool {
    match e {
        syn::Expr::Return(_) | syn::Expr::Break(_) | syn::Expr::Continue(_) => true,
        syn::Expr::Block(b) => matches!(b.block.stmts.last(), Some(syn::Stmt::Expr(x, _)) if diverges(x)),
        _ => false,
    }
}

/// All names bound in a function, in order of appearance (params first).
fn bound_names(f: &Found) -> Vec<String> {
    struct All(Vec<String>);
    impl<'ast> Visit<'ast> for All {
        fn visit_pat_ident(&mut self, p: &'ast syn::PatIdent) {
            let n = p.ident.to_string();
            if n.chars().next().map(|c| c.is_lowercase() || c == '_').unwrap_or(false) {
                self.0.push(n);
            }
            visit::visit_pat_ident(self, p);
        }
    }
    let mut a = All(Vec::new());
    for i in &f.sig.inputs {
        if let syn::FnArg::Typed(t) = i {
            a.visit_pat(&t.pat);
        }
    }
    if let Some(b) = f.block {
        a.visit_block(b);
    }
    a.0
}

/// Locals declared outside a loop that the loop changes.
fn carried(b: &syn::Block, bindings: &[String]) -> BTreeSet<String> {
    #[derive(Default)]
    struct Muts(BTreeSet<String>, Vec<String>);
    fn root(e: &syn::Expr) -> Option<String> {
        match e {
            syn::Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
            syn::Expr::Field(f) => root(&f.base),
            syn::Expr::Index(i) => root(&i.expr),
            syn::Expr::Paren(p) => root(&p.expr),
            syn::Expr::Unary(u) => root(&u.expr),
            _ => None,
        }
    }
    impl<'ast> Visit<'ast> for Muts {
        fn visit_pat_ident(&mut self, p: &'ast syn::PatIdent) {
            self.1.push(p.ident.to_string());
            visit::visit_pat_ident(self, p);
        }
        fn visit_expr_assign(&mut self, e: &'ast syn::ExprAssign) {
            self.0.extend(root(&e.left));
            visit::visit_expr_assign(self, e);
        }
        fn visit_expr_binary(&mut self, e: &'ast syn::ExprBinary) {
            use syn::BinOp::*;
            if matches!(
                e.op,
                AddAssign(_) | SubAssign(_) | MulAssign(_) | DivAssign(_) | RemAssign(_) | BitAndAssign(_) | BitOrAssign(_) | BitXorAssign(_) | ShlAssign(_) | ShrAssign(_)
            ) {
                self.0.extend(root(&e.left));
            }
            visit::visit_expr_binary(self, e);
        }
        fn visit_expr_reference(&mut self, e: &'ast syn::ExprReference) {
            if e.mutability.is_some() {
                self.0.extend(root(&e.expr));
            }
            visit::visit_expr_reference(self, e);
        }
        fn visit_expr_method_call(&mut self, e: &'ast syn::ExprMethodCall) {
            const CHANGES: &[&str] = &["push", "push_str", "insert", "extend", "pop", "remove", "clear", "truncate", "replace", "take", "next", "get_or_insert_with", "append", "retain", "drain"];
            if CHANGES.contains(&e.method.to_string().as_str()) {
                self.0.extend(root(&e.receiver));
            }
            visit::visit_expr_method_call(self, e);
        }
    }
    struct Loops<'a>(&'a [String], BTreeSet<String>);
    impl Loops<'_> {
        fn body(&mut self, f: impl Fn(&mut Muts)) {
            let mut m = Muts::default();
            f(&mut m);
            let (mut outer, mut inner) = (HashMap::new(), HashMap::new());
            for n in self.0 {
                *outer.entry(n.as_str()).or_insert(0) += 1;
            }
            for n in &m.1 {
                *inner.entry(n.as_str()).or_insert(0) += 1;
            }
            let own: Vec<String> = m.0.iter().filter(|n| outer.get(n.as_str()).copied().unwrap_or(0) > inner.get(n.as_str()).copied().unwrap_or(0)).cloned().collect();
            self.1.extend(own);
        }
    }
    impl<'ast> Visit<'ast> for Loops<'_> {
        fn visit_expr_while(&mut self, w: &'ast syn::ExprWhile) {
            self.body(|m| {
                m.visit_expr(&w.cond);
                m.visit_block(&w.body)
            });
            visit::visit_expr_while(self, w);
        }
        fn visit_expr_loop(&mut self, w: &'ast syn::ExprLoop) {
            self.body(|m| m.visit_block(&w.body));
            visit::visit_expr_loop(self, w);
        }
        fn visit_expr_for_loop(&mut self, w: &'ast syn::ExprForLoop) {
            self.body(|m| m.visit_block(&w.body));
            visit::visit_expr_for_loop(self, w);
        }
    }
    let mut l = Loops(bindings, BTreeSet::new());
    l.visit_block(b);
    l.1
}

/// A longest common subsequence, as pairs of positions.
fn common(a: &[String], b: &[String]) -> Vec<(usize, usize)> {
    let mut t = vec![vec![0usize; b.len() + 1]; a.len() + 1];
    for i in (0..a.len()).rev() {
        for j in (0..b.len()).rev() {
            t[i][j] = if a[i] == b[j] { t[i + 1][j + 1] + 1 } else { t[i + 1][j].max(t[i][j + 1]) };
        }
    }
    let (mut i, mut j, mut out) = (0, 0, vec![]);
    while i < a.len() && j < b.len() {
        if a[i] == b[j] {
            out.push((i, j));
            i += 1;
            j += 1;
        } else if t[i + 1][j] >= t[i][j + 1] {
            i += 1;
        } else {
            j += 1;
        }
    }
    out
}

fn subst_idents(text: &str, ren: &HashMap<String, String>) -> String {
    if ren.is_empty() {
        return text.to_string();
    }
    let mut out = String::new();
    let mut id = String::new();
    let mut prev_dot = false;
    // what is called is a function, not a local
    let flush = |id: &mut String, out: &mut String, prev_dot: bool, called: bool| {
        if !id.is_empty() {
            match ren.get(id.as_str()) {
                Some(r) if !prev_dot && !called => out.push_str(r),
                _ => out.push_str(id),
            }
            id.clear();
        }
    };
    let mut last = ' ';
    for c in text.chars() {
        if c.is_alphanumeric() || c == '_' {
            if id.is_empty() {
                prev_dot = last == '.';
            }
            id.push(c);
        } else {
            flush(&mut id, &mut out, prev_dot, c == '(');
            out.push(c);
            // `..x` is a range, not a field access
            last = if c == '.' && last == '.' { ' ' } else { c };
            continue;
        }
        last = c;
    }
    flush(&mut id, &mut out, prev_dot, false);
    out
}

fn mentions(text: &str, id: &str) -> bool {
    let b = text.as_bytes();
    let mut i = 0;
    while let Some(p) = text[i..].find(id) {
        let s = i + p;
        let e = s + id.len();
        let okl = s == 0 || !(b[s - 1].is_ascii_alphanumeric() || b[s - 1] == b'_' || b[s - 1] == b'.');
        let okr = e >= b.len() || !(b[e].is_ascii_alphanumeric() || b[e] == b'_');
        if okl && okr {
            return true;
        }
        i = e;
    }
    false
}

fn tokens_self(ts: TokenStream, f: &mut dyn FnMut(Span)) {
    for t in ts {
        match t {
            TokenTree::Group(g) => tokens_self(g.stream(), f),
            TokenTree::Ident(i) if i == "self" => f(i.span()),
            _ => {}
        }
    }
}

struct Emitted {
    text: String,
    lost: Vec<String>,
    soft: Vec<String>,
    canaries: usize,
    bindings: Vec<String>,
    src_line: usize,
    trusted: bool,
}

fn emit_fn(
    src: &Source,
    base: usize,
    d: &FnDir,
    methods: &[MethodRule],
    fcalls: &[(String, String)],
    ctors: &[(String, String)],
    owners: &[String],
    trust: bool,
    canary: bool,
) -> Result<Emitted, String> {
    let mut found = find_fn(src, &d.path);
    if found.is_none() {
        // a method the impl does not define: the trait's own body
        if let Some(t) = d.opts.get("inherit") {
            found = find_fn(src, t);
        }
    }
    let Some(f) = found else {
        // an absent `Drop` impl is one that does nothing
        if let Some(sig) = d.opts.get("absent") {
            let text = format!("pub {sig}\n{}\n{{ }}\n", d.spec.join("\n"));
            return Ok(Emitted { text, lost: vec![], soft: vec![], canaries: 0, bindings: vec![], src_line: 0, trusted: false });
        }
        return Err(format!("function `{}` not found", d.path));
    };
    let bindings = bound_names(&f);
    let contract_text: String = {
        let mut s = d.spec.join("\n");
        for (_, (_, l)) in &d.loops {
            s.push_str(&l.join("\n"));
        }
        for (_, l) in &d.closures {
            s.push_str(&l.join("\n"));
        }
        for (_, l) in &d.ats {
            s.push_str(&l.join("\n"));
        }
        s
    };
    // alpha-renaming of the contract's names for locals, by order of binding
    let mut ren = HashMap::new();
    let mut lost = Vec::new();
    if !d.locals.is_empty() {
        let ex = &d.locals;
        if ex != &bindings {
            // what is in both lists stands for itself; where as many names stand between two such
            // names in one list as in the other, they are the same locals under other names
            let pairs = common(ex, &bindings);
            let (mut i, mut j) = (0, 0);
            for (p, q) in pairs.into_iter().chain([(ex.len(), bindings.len())]) {
                if p - i == q - j {
                    for (a, b) in ex[i..p].iter().zip(&bindings[j..q]) {
                        if bindings.contains(a) {
                            continue;
                        }
                        if let Some(o) = ren.insert(a.clone(), b.clone()) {
                            if o != *b {
                                lost.push(format!("locals: `{a}` maps to both `{o}` and `{b}`"));
                            }
                        }
                    }
                } else {
                    for a in &ex[i..p] {
                        if !bindings.contains(a) && mentions(&contract_text, a) {
                            lost.push(format!("local `{a}` named by the contract is gone"));
                        }
                    }
                }
                (i, j) = (p + 1, q + 1);
            }
        }
    }
    // a local that a loop carries from one turn to the next and that no invariant knows
    let strangers: Vec<String> = match f.block {
        Some(b) if !trust => carried(b, &bindings)
            .into_iter()
            .filter(|n| {
                let count = |l: &[String]| l.iter().filter(|x| *x == n).count();
                if d.locals.is_empty() {
                    !mentions(&contract_text, n)
                } else {
                    count(&bindings) > count(&d.locals) && !ren.values().any(|v| v == n)
                }
            })
            .map(|n| format!("no invariant knows of `{n}`"))
            .collect(),
        _ => vec![],
    };
    let (sig_s, sig_e) = {
        let (a, b) = br(f.sig.span());
        (a - base, b - base)
    };
    let mut ctx = Ctx {
        text: &src.text,
        base,
        ed: Edits::default(),
        lost,
        fmt_args: 0,
        write_lits: 0,
        loop_i: 0,
        clos_i: 0,
        dir: d,
        methods,
        fcalls,
        ctors,
        used_loops: BTreeSet::new(),
        used_closures: BTreeSet::new(),
        trust,
        soft: Vec::new(),
        stmt_stack: Vec::new(),
        call_seen: HashMap::new(),
        anchors: HashMap::new(),
        ret_i: 0,
        ren,
        canary,
        canaries: 0,
        qmarks: Vec::new(),
        self_ren: false,
    };
    // signature
    let mut prologue = String::new();
    ctx.visit_signature(f.sig);
    let retname = d.opts.get("ret").cloned().unwrap_or("r".into());
    if let syn::ReturnType::Type(_, t) = &f.sig.output {
        let (a, b) = ctx.r(t.span());
        ctx.ed.ins(a, format!("({retname}: "));
        ctx.ed.ins(b, ")");
    }
    let mut self_ren = None;
    if let Some(syn::FnArg::Receiver(r)) = f.sig.inputs.first() {
        if r.mutability.is_some() && r.reference.is_none() {
            let (a, b) = ctx.r(r.mutability.unwrap().span());
            ctx.ed.rep(a, b, "");
            prologue.push_str(" let mut self_ = self; ");
            self_ren = Some("self_");
            ctx.self_ren = true;
        } else if d.opts.contains_key("selfval") {
            let (a, b) = ctx.r(r.span());
            ctx.ed.rep(a, b, "self");
            prologue.push_str(" let mut self_ = self; ");
            self_ren = Some("self_");
            ctx.self_ren = true;
        }
    }
    for t in &d.sigs {
        // textual signature edits: `old => new`
        let (a, b) = t.split_once("=>").ok_or("bad //@sig")?;
        let (a, b) = (a.trim(), b.trim());
        match src.text[sig_s..sig_e].find(a) {
            Some(p) => ctx.ed.rep(sig_s + p, sig_s + p + a.len(), b),
            None => ctx.lost.push(format!("signature text `{a}`")),
        }
    }
    if let Some(n) = d.opts.get("rename") {
        let (a, b) = ctx.r(f.sig.ident.span());
        ctx.ed.rep(a, b, n.clone());
    }
    let block = if d.opts.contains_key("nobody") { None } else { f.block };
    if let Some(b) = block {
        if !trust {
            ctx.visit_block(b);
            if !owners.is_empty() && !d.opts.contains_key("nodrops") {
                let init: Vec<String> = if d.opts.contains_key("dropself") { vec!["self_".to_string()] } else { vec![] };
                let (mut ed, mut lost) = (std::mem::take(&mut ctx.ed), Vec::new());
                Drops { text: &src.text, base, owners, scopes: vec![], ed: &mut ed, lost: &mut lost }.block(b, &init);
                ctx.ed = ed;
                ctx.lost.extend(lost);
            }
        }
        if let Some(n) = self_ren {
            let mut spans = Vec::new();
            tokens_self(b.to_token_stream(), &mut |s| spans.push(s));
            for s in spans {
                let (x, y) = ctx.r(s);
                ctx.ed.rep(x, y, n);
            }
        }
        // text cut into other pieces: the same characters, but not for the prover
        if let Some(n) = d.opts.get("write").and_then(|x| x.parse::<usize>().ok()) {
            if !trust && ctx.write_lits != n {
                ctx.lost.push(format!("{} literal pieces are written, contract expects {n}", ctx.write_lits));
            }
        }
        for (i, _) in &d.loops {
            if !trust && !ctx.used_loops.contains(i) {
                ctx.lost.push(format!("loop {i} of the contract is gone"));
            }
        }
        for (i, _) in &d.closures {
            if !trust && !ctx.used_closures.contains(i) {
                ctx.lost.push(format!("closure {i} of the contract is gone"));
            }
        }
        let (bs, be) = ctx.r(b.span());
        ctx.anchors.insert("start".into(), (bs + 1, bs + 1));
        ctx.anchors.insert("end".into(), (be - 1, be - 1));
        if let Some(syn::Stmt::Expr(e, None)) = b.stmts.last() {
            let r = ctx.r(e.span());
            ctx.anchors.insert("tail".into(), r);
        }
        if !trust {
            for (anchor, lines) in &d.ats {
                let t = ctx.sub(lines);
                let (pos, key) = match anchor.split_once(' ') {
                    Some(("before", k)) => (0, k.to_string()),
                    Some(("after", k)) => (1, k.to_string()),
                    _ => (0, anchor.clone()),
                };
                let key = match key.strip_prefix("let ") {
                    Some(n) => format!("let {}", ctx.ren.get(n).cloned().unwrap_or(n.to_string())),
                    None => key,
                };
                match ctx.anchors.get(&key) {
                    Some((a, b)) if anchor == "after tail" => {
                        let (a, b) = (*a, *b);
                        if ctx.ret_i > 0 {
                            ctx.lost.push("more than one exit".into());
                        }
                        ctx.ed.ins_pri(a, "{ let vx_r = ", -19);
                        ctx.ed.ins_pri(b, format!(";\n{t}\nvx_r }}"), 19);
                    }
                    Some((a, b)) => {
                        let at = if pos == 0 { *a } else { *b };
                        ctx.ed.ins_pri(at, format!("\n{t}\n"), if key == "tail" { -20 } else if pos == 0 { -1 } else { 1 });
                    }
                    None => ctx.lost.push(format!("anchor `{anchor}`")),
                }
            }
        }
        let mut pro = prologue.clone();
        if canary && !trust {
            ctx.canaries += 1;
            pro.push_str(&format!("\nproof {{ if vx_any({}) {{ assert(false); }} }} //#canary\n", ctx.canaries));
        }
        if !pro.is_empty() {
            ctx.ed.0.insert(0, Edit { start: bs + 1, end: bs + 1, text: pro, seq: 0, pri: -2 });
            for (i, e) in ctx.ed.0.iter_mut().enumerate() {
                e.seq = i;
            }
        }
    }
    let _ = (&f.attrs, &ctx.qmarks);
    let sig = ctx.ed.apply(&src.text, sig_s, sig_e);
    let spec = subst_idents(&d.spec.join("\n"), &ctx.ren);
    let vis = if d.path.contains(" for ") && !d.opts.contains_key("rename") || d.path.starts_with("trait ") { "" } else { "pub " };
    let mut out = String::new();
    if let Some(a) = d.opts.get("attr") {
        out.push_str(&format!("#[verifier::{a}] "));
    }
    if let Some(a) = d.opts.get("attr2") {
        out.push_str(&format!("#[verifier::{a}] "));
    }
    if trust {
        out.push_str("#[verifier::external_body] ");
    }
    out.push_str(vis);
    out.push_str(sig.trim());
    out.push('\n');
    out.push_str(&spec);
    out.push('\n');
    match block {
        Some(b) => {
            if trust {
                out.push_str("{ unimplemented!() }\n");
            } else {
                let (bs, be) = ctx.r(b.span());
                out.push_str(&ctx.ed.apply(&src.text, bs, be));
                out.push('\n');
            }
        }
        None => out.push_str(";\n"),
    }
    Ok(Emitted {
        text: out,
        lost: ctx.lost.clone(),
        // `closures=N`: as many that need no contract
        soft: (if ctx.soft.len() > d.opts.get("closures").and_then(|n| n.parse().ok()).unwrap_or(0) { ctx.soft.clone() } else { vec![] }).into_iter().chain(strangers).collect(),
        canaries: ctx.canaries,
        bindings,
        src_line: f.sig.span().start().line,
        trusted: trust,
    })
}

fn emit_item(src: &Source, base: usize, kind: &str, name: &str, opts: &BTreeMap<String, String>) -> Result<String, String> {
    for it in all_items(&src.file.items) {
        let (ok, attrs, vis) = match it {
            syn::Item::Struct(s) if kind == "struct" && s.ident == name => (true, &s.attrs, &s.vis),
            syn::Item::Enum(s) if kind == "enum" && s.ident == name => (true, &s.attrs, &s.vis),
            syn::Item::Const(s) if kind == "const" && s.ident == name => (true, &s.attrs, &s.vis),
            syn::Item::Type(s) if kind == "type" && s.ident == name => (true, &s.attrs, &s.vis),
            _ => continue,
        };
        if !ok {
            continue;
        }
        let mut ed = Edits::default();
        let r = |s: Span| {
            let (a, b) = br(s);
            (a - base, b - base)
        };
        let (s0, e0) = r(it.span());
        struct A<'x> {
            ed: &'x mut Edits,
            base: usize,
        }
        impl<'x, 'ast> Visit<'ast> for A<'x> {
            fn visit_attribute(&mut self, a: &'ast syn::Attribute) {
                let (s, e) = br(a.span());
                self.ed.rep(s - self.base, e - self.base, "");
            }
            fn visit_path(&mut self, p: &'ast syn::Path) {
                if let Some(l) = p.leading_colon {
                    let first = p.segments[0].ident.to_string();
                    if first != "std" {
                        let (s, e) = br(l.span());
                        self.ed.rep(s - self.base, e - self.base, "");
                    }
                }
                visit::visit_path(self, p);
            }
        }
        A { ed: &mut ed, base }.visit_item(it);
        let _ = vis;
        if let Some(need) = opts.get("needs") {
            let mut have: Vec<String> = Vec::new();
            for a in attrs {
                if a.path().is_ident("derive") {
                    let _ = a.parse_nested_meta(|m| {
                        have.push(m.path.segments.last().unwrap().ident.to_string());
                        Ok(())
                    });
                }
            }
            for n in need.split('+') {
                if !have.iter().any(|h| h == n) {
                    return Err(format!("{kind} {name} no longer derives {n}"));
                }
            }
        }
        if let syn::Item::Const(c) = it {
            if let syn::Type::Reference(t) = &*c.ty {
                if t.lifetime.is_none() {
                    ed.ins(r(t.and_token.span()).1, "'static ");
                }
            }
        }
        if let syn::Item::Struct(s) = it {
            for f in &s.fields {
                let (vs, ve) = r(f.vis.span());
                if !matches!(f.vis, syn::Visibility::Inherited) {
                    ed.rep(vs, ve, "pub");
                } else {
                    let at = f.ident.as_ref().map(|i| r(i.span()).0).unwrap_or(r(f.ty.span()).0);
                    ed.ins(at, "pub ");
                }
            }
        }
        let v = match it {
            syn::Item::Struct(s) => (&s.vis, r(s.struct_token.span()).0),
            syn::Item::Enum(s) => (&s.vis, r(s.enum_token.span()).0),
            syn::Item::Const(s) => (&s.vis, r(s.const_token.span()).0),
            syn::Item::Type(s) => (&s.vis, r(s.type_token.span()).0),
            _ => unreachable!(),
        };
        if !matches!(v.0, syn::Visibility::Inherited) {
            let (a, b) = r(v.0.span());
            ed.rep(a, b, "pub");
        } else {
            ed.ins(v.1, "pub ");
        }
        let mut out = String::new();
        if let Some(d) = opts.get("derive") {
            out.push_str(&format!("#[derive({})]\n", d.replace('+', ", ")));
        }
        if let Some(a) = opts.get("attr") {
            out.push_str(&format!("#[verifier::{a}]\n"));
        }
        let body = ed.apply(&src.text, s0, e0);
        out.push_str(body.trim());
        out.push('\n');
        return Ok(out);
    }
    Err(format!("{kind} {name} not found"))
}

fn emit_header(src: &Source, base: usize, path: &str) -> Result<(String, Vec<String>), String> {
    let r = |s: Span| {
        let (a, b) = br(s);
        (a - base, b - base)
    };
    for it in all_items(&src.file.items) {
        match it {
            syn::Item::Impl(im) if impl_key(im) == path => {
                let s = r(im.unsafety.map(|u| u.span()).unwrap_or(im.impl_token.span())).0;
                let e = r(im.brace_token.span.open()).0;
                let names = im
                    .items
                    .iter()
                    .filter_map(|m| if let syn::ImplItem::Fn(f) = m { Some(f.sig.ident.to_string()) } else { None })
                    .collect();
                let mut ed = Edits::default();
                struct P<'x>(&'x mut Edits, usize);
                impl<'x, 'ast> Visit<'ast> for P<'x> {
                    fn visit_path(&mut self, p: &'ast syn::Path) {
                        if let Some(l) = p.leading_colon {
                            let first = p.segments[0].ident.to_string();
                            if first != "std" {
                                let (s, e) = br(l.span());
                                self.0.rep(s - self.1, e - self.1, "");
                            }
                        }
                        visit::visit_path(self, p);
                    }
                }
                let mut p = P(&mut ed, base);
                if let Some((_, t, _)) = &im.trait_ {
                    p.visit_path(t);
                }
                p.visit_type(&im.self_ty);
                return Ok((format!("{} {{\n", ed.apply(&src.text, s, e).trim()), names));
            }
            syn::Item::Trait(t) if format!("trait {}", t.ident) == path => {
                let s = r(t.trait_token.span()).0;
                let e = r(t.brace_token.span.open()).0;
                let names = t
                    .items
                    .iter()
                    .filter_map(|m| if let syn::TraitItem::Fn(f) = m { Some(f.sig.ident.to_string()) } else { None })
                    .collect();
                let mut types = String::new();
                for m in &t.items {
                    if let syn::TraitItem::Type(ty) = m {
                        let (a, b) = (r(ty.type_token.span()).0, r(ty.semi_token.span()).1);
                        types.push_str(&format!("    {}\n", src.text[a..b].trim()));
                    }
                }
                return Ok((format!("pub {} {{\n{types}", src.text[s..e].trim()), names));
            }
            _ => {}
        }
    }
    Err(format!("`{path}` not found"))
}

fn kv(parts: &[&str]) -> BTreeMap<String, String> {
    parts
        .iter()
        .filter_map(|p| p.split_once('=').map(|(a, b)| (a.to_string(), b.to_string())))
        .collect()
}

/// Splits a directive line into words; double quotes group.
fn words(s: &str) -> Vec<String> {
    let mut v = Vec::new();
    let mut cur = String::new();
    let mut q = false;
    for c in s.chars() {
        match c {
            '"' => q = !q,
            ' ' if !q => {
                if !cur.is_empty() {
                    v.push(std::mem::take(&mut cur));
                }
            }
            c => cur.push(c),
        }
    }
    if !cur.is_empty() {
        v.push(cur);
    }
    v
}

mod flatten;
mod inline;
mod macros;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|s| s.as_str()) == Some("macros") {
        if let Err(e) = macros::run(&a[2], &a[3]) {
            eprintln!("{e}");
            std::process::exit(1);
        }
        return;
    }
    if a.get(1).map(|s| s.as_str()) == Some("inline") {
        // for a look at what is put back: inline FILE NAME-IN-THE-LIST
        print!("{}", inline::run(std::fs::read_to_string(&a[2]).expect("file"), &a[3]));
        return;
    }
    if a.get(1).map(|s| s.as_str()) == Some("names") {
        // names FILE..: the functions and constants of each
        let all: BTreeMap<&String, Vec<String>> = a[2..].iter().map(|f| (f, inline::names(&std::fs::read_to_string(f).expect("file")))).collect();
        println!("{}", serde_json::to_string_pretty(&all).unwrap());
        return;
    }
    if a.get(1).map(|s| s.as_str()) == Some("flatten") {
        if let Err(e) = flatten::run(&a[2], &a[3]) {
            eprintln!("{e}");
            std::process::exit(1);
        }
        return;
    }
    let args: Vec<String> = std::env::args().collect();
    let (tpl, repo, out_rs, out_json) = (&args[1], &args[2], &args[3], &args[4]);
    let mut trust = BTreeSet::new();
    let mut canary = false;
    let mut i = 5;
    while i < args.len() {
        match args[i].as_str() {
            "--trust" => {
                trust.insert(args[i + 1].clone());
                i += 1;
            }
            "--canary" => canary = true,
            _ => {}
        }
        i += 1;
    }
    let mut sources: HashMap<String, (Source, usize)> = HashMap::new();
    let mut files: HashMap<String, String> = HashMap::new();
    let mut methods: Vec<MethodRule> = Vec::new();
    let mut fcalls: Vec<(String, String)> = Vec::new();
    let mut ctors: Vec<(String, String)> = Vec::new();
    let mut owners: Vec<String> = Vec::new();
    let mut fatal: Vec<String> = Vec::new();
    let mut lost: Vec<Value> = Vec::new();
    let mut fns: Vec<Value> = Vec::new();
    let mut uncovered: Vec<String> = Vec::new();
    let mut out = String::new();
    let mut canaries = 0;
    let tpl_dir = std::path::Path::new(tpl).parent().unwrap().to_path_buf();
    let mut lines: Vec<String> = Vec::new();
    fn load(p: &std::path::Path, dir: &std::path::Path, lines: &mut Vec<String>) {
        for l in std::fs::read_to_string(p).unwrap_or_else(|e| panic!("{p:?}: {e}")).lines() {
            if let Some(f) = l.trim().strip_prefix("//@include ") {
                load(&dir.join(f.trim()), dir, lines);
            } else {
                lines.push(l.to_string());
            }
        }
    }
    load(std::path::Path::new(tpl), &tpl_dir, &mut lines);
    let mut n = 0;
    let mut open_impl: Option<(String, Vec<String>, Vec<String>)> = None;
    while n < lines.len() {
        let l = lines[n].clone();
        let t = l.trim();
        n += 1;
        let Some(d) = t.strip_prefix("//@") else {
            out.push_str(&l);
            out.push('\n');
            continue;
        };
        let w = words(d);
        let ws: Vec<&str> = w.iter().map(|s| s.as_str()).collect();
        match ws[0] {
            "source" => {
                // //@source alias path
                // a leading `@`: in the build directory
                let p = match ws[2].strip_prefix('@') {
                    Some(f) => std::path::Path::new(&std::env::var("VX_BUILD").unwrap_or_default()).join(f),
                    None => std::path::Path::new(repo).join(ws[2]),
                };
                match std::fs::read_to_string(&p).map_err(|e| e.to_string()).and_then(|t| Source::new(inline::run(t, ws[2]), ws[2])) {
                    Ok(s) => {
                        let b = base_of(&s.file, &s.text);
                        files.insert(ws[1].to_string(), ws[2].to_string());
                        sources.insert(ws[1].to_string(), (s, b));
                    }
                    Err(e) => fatal.push(format!("{}: {e}", ws[2])),
                }
            }
            "macrosource" => {
                // //@macrosource alias from macro_name : expand item-position uses of a macro_rules
                let r = match sources.get(ws[2]) {
                    Some((s, b)) => expand_macros(s, *b, ws[3]).and_then(|t| Source::new(inline::expansion(t, &s.text, files.get(ws[2]).map(|f| f.as_str()).unwrap_or("")), ws[3])),
                    None => Err("no source".into()),
                };
                match r {
                    Ok(s) => {
                        let b = base_of(&s.file, &s.text);
                        sources.insert(ws[1].to_string(), (s, b));
                    }
                    Err(e) => fatal.push(e),
                }
            }
            "method" => methods.push(MethodRule {
                name: ws[1].into(),
                target: ws[2].into(),
                mode: ws[3].into(),
                args: ws.get(4) == Some(&"args"),
            }),
            "owner" => owners.extend(ws[1..].iter().map(|s| s.to_string())),
            // what follows is this file's own; before it comes what another unit proves
            "own" => out.push_str("//#own\n"),
            "nomethod" => methods.retain(|m| m.name != ws[1]),
            "ctor" => ctors.push((ws[1].into(), ws[2].into())),
            "call" => fcalls.push((ws[1].into(), ws[2].into())),
            "item" => {
                // //@item alias kind name [derive=..]
                let o = kv(&ws[4..]);
                match sources.get(ws[1]).ok_or("no source".to_string()).and_then(|(s, b)| emit_item(s, *b, ws[2], ws[3], &o)) {
                    Ok(s) => out.push_str(&s),
                    Err(e) => fatal.push(e),
                }
            }
            "impl" | "trait" => {
                let path = if ws[0] == "trait" { format!("trait {}", ws[2]) } else { ws[2].to_string() };
                let o = kv(&ws[3..]);
                match sources.get(ws[1]).ok_or("no source".to_string()).and_then(|(s, b)| emit_header(s, *b, &path)) {
                    Ok((h, names)) => {
                        let h = match o.get("bounds") {
                            Some(b) => h.replace(" {\n", &format!("{} {{\n", b)),
                            None => h,
                        };
                        out.push_str(&h);
                        open_impl = Some((path, names, Vec::new()));
                    }
                    Err(e) => {
                        lost.push(json!({"key": path, "why": [e], "impl": true}));
                        // skip to //@endimpl
                        while n < lines.len() && !lines[n].trim().starts_with("//@endimpl") {
                            n += 1;
                        }
                        n += 1;
                    }
                }
            }
            "endimpl" => {
                out.push_str("}\n");
                if let Some((p, names, seen)) = open_impl.take() {
                    for x in names {
                        if !seen.contains(&x) {
                            uncovered.push(format!("{p}::{x}"));
                        }
                    }
                }
            }
            "skip" => {
                // a member known not to be under contract (reported as such)
                if let Some(o) = open_impl.as_mut() {
                    uncovered.push(format!("{}::{} (by design)", o.0, ws[1]));
                    o.2.push(ws[1].to_string());
                }
            }
            "fn" => {
                let mut fd = FnDir::default();
                fd.src = ws[1].into();
                fd.path = ws[2].into();
                let (path, key) = match &open_impl {
                    Some((p, _, _)) if !ws[2].contains("::") => (format!("{p}::{}", ws[2]), format!("{p}::{}", ws[2])),
                    _ => (ws[2].to_string(), ws[2].to_string()),
                };
                fd.path = path;
                fd.opts = kv(&ws[3..]);
                fd.key = fd.opts.get("key").cloned().unwrap_or(key);
                fd.props = fd.opts.get("props").map(|p| p.split(',').map(|s| s.to_string()).collect()).unwrap_or_default();
                if let Some(o) = open_impl.as_mut() {
                    o.2.push(ws[2].to_string());
                }
                let mut sect: (u8, String, usize) = (0, String::new(), 0);
                while n < lines.len() {
                    let l = lines[n].clone();
                    n += 1;
                    let t = l.trim();
                    if let Some(d) = t.strip_prefix("//@") {
                        let w = words(d);
                        match w[0].as_str() {
                            "end" => break,
                            "spec" => sect = (0, String::new(), 0),
                            "loop" => {
                                let k: usize = w[1].parse().unwrap();
                                let ws: Vec<&str> = w[2..].iter().map(|s| s.as_str()).collect();
                                fd.loops.insert(k, (kv(&ws), Vec::new()));
                                sect = (1, String::new(), k);
                            }
                            "closure" => {
                                let k: usize = w[1].parse().unwrap();
                                fd.closures.insert(k, Vec::new());
                                sect = (2, String::new(), k);
                            }
                            "at" => {
                                fd.ats.push((w[1..].join(" "), Vec::new()));
                                sect = (3, String::new(), 0);
                            }
                            "locals" => fd.locals = w[1..].to_vec(),
                            "sig" => fd.sigs.push(d.strip_prefix("sig ").unwrap().to_string()),
                            o => panic!("unknown directive {o} in fn"),
                        }
                        continue;
                    }
                    match sect.0 {
                        0 => fd.spec.push(l),
                        1 => fd.loops.get_mut(&sect.2).unwrap().1.push(l),
                        2 => fd.closures.get_mut(&sect.2).unwrap().push(l),
                        _ => fd.ats.last_mut().unwrap().1.push(l),
                    }
                }
                let Some((s, b)) = sources.get(&fd.src) else {
                    fatal.push(format!("no source {}", fd.src));
                    continue;
                };
                let tr = trust.contains(&fd.key);
                match emit_fn(s, *b, &fd, &methods, &fcalls, &ctors, &owners, tr, canary && !fd.opts.contains_key("nocanary")) {
                    Ok(e) => {
                        if !e.lost.is_empty() {
                            lost.push(json!({"key": fd.key, "why": e.lost, "props": fd.props}));
                        }
                        canaries += e.canaries;
                        let start = out.matches('\n').count() + 1;
                        out.push_str(&e.text);
                        let end = out.matches('\n').count();
                        fns.push(json!({"key": fd.key, "props": fd.props, "start": start, "end": end, "trusted": e.trusted, "soft": e.soft,
                            "src": fd.src, "src_line": e.src_line, "bindings": e.bindings, "canaries": e.canaries,
                            "has_body": !e.text.trim_end().ends_with(';')}));
                    }
                    Err(e) => lost.push(json!({"key": fd.key, "why": [e], "props": fd.props, "missing": true})),
                }
            }
            o => panic!("unknown directive {o}"),
        }
    }
    // labels: `//#label` comments in the output, by line
    let mut labels = serde_json::Map::new();
    for (i, l) in out.lines().enumerate() {
        if let Some(p) = l.find("//#") {
            labels.insert((i + 1).to_string(), json!(l[p + 3..].trim()));
        }
    }
    std::fs::write(out_rs, &out).unwrap();
    let j = json!({"fatal": fatal, "lost": lost, "fns": fns, "labels": labels, "uncovered": uncovered, "canaries": canaries});
    std::fs::write(out_json, serde_json::to_string_pretty(&j).unwrap()).unwrap();
}
