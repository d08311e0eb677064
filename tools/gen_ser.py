"""Contracts on what #[derive(Serialize)] generates for the element types of the corpus."""
from corpus import q, strlits, SCALARS

HEAD = '''// Written by tools/corpus.py. Contracts on the code that #[derive(Serialize)]
// generates for the element types of the corpus (corpus/src/lib.rs).
use vstd::prelude::*;
use vstd::utf8::*;
use std::io::Write;

verus! {

//@include ser_body.rs
//@include derive_paths.rs
//@own
//@source fx @flat.rs

pub type Outcome = Result<(), Error>;
pub type Bindings = Map<Seq<char>, Seq<char>>;
pub broadcast proof fn lemma_attributes_trans(a: BS, m: BS, b: BS)
    requires #[trigger] attributes_added(a, m), #[trigger] attributes_added(m, b)
    ensures attributes_added(a, b)
{
    assert(b.attrs.take(a.attrs.len() as int) =~= b.attrs.take(m.attrs.len() as int).take(a.attrs.len() as int));
}
pub broadcast proof fn lemma_declared_added(a: BS, n: Map<Key, NsV>)
    ensures #[trigger] attributes_added(a, BS { nss: n, ..a })
{
    assert(a.attrs.take(a.attrs.len() as int) =~= a.attrs);
}
pub broadcast proof fn lemma_grew_chain(a: WS, m: WS, b: WS)
    requires #[trigger] grew(a, m), #[trigger] grew(m, b)
    ensures grew(a, b)
{ lemma_grew_trans(a, m, b); }
/// From `a` to `b` an element without attributes or content was written.
pub open spec fn empty_element(name: Key, ctx: Bindings, a: WS, b: WS, r: Outcome) -> bool {
    match r {
        Ok(_) => exists|nss: Map<Key, NsV>, s: WS| #[trigger] inherited(ctx, name.0, nss)
            && started(a, s) && #[trigger] start_tag(BS { name: name, attrs: Seq::empty(), nss: nss }, s.log.last())
            && #[trigger] wrote(s, b, Ev::End, Ok(())),
        Err(_) => b.poison is Some,
    }
}
pub broadcast proof fn lemma_empty_element(ctx: Bindings, b0: BS, a: WS, s: WS, b: WS, r: Outcome)
    requires
        #[trigger] inherited(ctx, b0.name.0, b0.nss), b0.attrs.len() == 0,
        #[trigger] started(a, s), start_tag(b0, s.log.last()), #[trigger] wrote(s, b, Ev::End, r),
    ensures
        empty_element(b0.name, ctx, a, b, r), grew(a, b)
{
    broadcast use {lemma_grew_same, lemma_element_finished};
    assert(b0.attrs =~= Seq::empty());
    assert(start_tag(BS { name: b0.name, attrs: Seq::empty(), nss: b0.nss }, s.log.last()));
    assert(grew(s, s));
}
pub broadcast proof fn lemma_empty_failed(name: Key, ctx: Bindings, a: WS, b: WS, r: Outcome)
    requires #[trigger] poisoned(a, b), r is Err
    ensures #[trigger] empty_element(name, ctx, a, b, r)
{ }

'''


def stub_text(t):
    return f'''impl ToText for {t} {{
    uninterp spec fn prints(&self, r: Result<String, Error>) -> bool;
    #[verifier::external_body]
    fn to_text(&self) -> (r: Result<String, Error>) {{ unimplemented!() }}
}}
'''


def nm(name):
    return f"({q(name[0])}@, {q(name[1])}@)"


def chain(steps, a, b, S, indent="        ", k=1):
    """steps: functions of (from, to, outcome) -> text; the first failure ends it and is returned."""
    if not steps:
        return f"{indent}r is Ok && {b} == {a}"
    m, x = f"m{k}", f"r{k}"
    return (f"{indent}exists|{m}: {S}, {x}: Outcome| #[trigger] {steps[0](a, m, x)} && match {x} {{\n"
            f"{indent}    Err(_) => r == {x} && {b} == {m},\n"
            f"{indent}    Ok(_) => {{\n" + chain(steps[1:], m, b, S, indent + "        ", k + 1) + f"\n{indent}    }}\n{indent}}}")


def serialize(t):
    n = t.name
    nss = "a.nss"
    for p, u in t.ns_table().items():
        nss = f"declared({nss}, {q(p)}@, {q(u)}@)"
    asteps, csteps = [], []
    lits = {x for kv in t.ns_table().items() for x in kv}
    if t.kind == "struct":
        for f in t.own("a"):
            asteps.append(lambda a, b, r, f=f: f"self.{f.ident}.attr({nm(t.name_of(f))}, {a}, {b}, {r})")
        for f in t.own("f"):
            asteps.append(lambda a, b, r, f=f: f"self.{f.ident}.attributes({a}, {b}, {r})")
        for f in t.own("e"):
            csteps.append(lambda a, b, r, f=f: f"self.{f.ident}.field({nm(t.name_of(f))}, ctx, {a}, {b}, {r})")
        for f in t.own("f"):
            csteps.append(lambda a, b, r, f=f: f"self.{f.ident}.children(ctx, {a}, {b}, {r})")
        children = chain(csteps, "a", "b", "WS")
        lits |= {x for f in t.members for x in t.name_of(f)}
    else:
        arms = ""
        for v in t.members:
            name = nm(t.name_of(v))
            pat = f"{n}::{v.ident}" + ("(f)" if v.ty and not v.skip else "(_)" if v.ty else "")
            if v.skip:
                arms += f"            {pat} => r is Err && b == a,\n"
            elif v.ty:
                arms += f"            {pat} => f.field({name}, ctx, a, b, r),\n"
            else:
                arms += f"            {pat} => empty_element({name}, ctx, a, b, r),\n"
        children = f"        match self {{\n{arms}        }}"
        lits |= {x for f in t.live() for x in t.name_of(f)}
    prop = "C16" + (",C14" if t.kind == "enum" and any(v.skip for v in t.members) else "")
    reveal = strlits(sorted({p for p, _ in t.ns_table().items()} | {"xml"}), "        ") if t.ns_table() else ""
    root = t.root_name()
    o = f'''impl Serialize for {n} {{
    open spec fn attributes(&self, a: BS, b: BS, r: Outcome) -> bool {{
        let a1 = BS {{ nss: {nss}, ..a }};
{chain(asteps, "a1", "b", "BS")}
    }}
    open spec fn children(&self, ctx: Bindings, a: WS, b: WS, r: Outcome) -> bool {{
{children}
    }}
//@fn fx "Serialize for {n}::write_attributes" props=C16 inherit="trait Serialize::write_attributes"
//@at start
    broadcast use {{lemma_attributes_same, lemma_attributes_added, lemma_attributes_trans, lemma_declared_added}};
    proof {{
{reveal}    }}
//@end
//@fn fx "Serialize for {n}::write_children" props={prop} inherit="trait Serialize::write_children"
//@at start
    broadcast use {{lemma_grew_same, lemma_grew_poisoned, lemma_grew_chain, lemma_empty_element, lemma_empty_failed}};
//@end
}}
impl SerializeRoot for {n} {{
    open spec fn root_name(&self) -> Key {{ {nm(root)} }}
//@fn fx "SerializeRoot for {n}::root" props=C16 inherit="trait SerializeRoot::root"
//@end
}}
'''
    return o


def dser_rs(types):
    o = HEAD
    for t in types:
        if t.kind in ("restriction", "union", "std"):
            o += f"pub struct {t.name} {{ x: u8 }}\n" + stub_text(t.name)
    o += "pub struct Tracked { x: u8 }\n"
    for s in SCALARS:
        o += stub_text(s)
    for t in types:
        if t.kind == "struct":
            o += f"// ------------------------------------------------------------------- {t.name}\n"
            o += f"pub struct {t.name} {{ " + ", ".join(f"pub {f.ident}: {f.ty}" for f in t.members) + " }\n"
        elif t.kind == "enum":
            o += f"// ------------------------------------------------------------------- {t.name}\n"
            o += f"pub enum {t.name} {{ " + ", ".join(v.ident + (f"({v.ty})" if v.ty else "") for v in t.members) + " }\n"
        else:
            continue
        o += f"pub mod {t.name}_ser {{\nuse super::*;\n" + serialize(t) + "}\n\n"
    return o + "} // verus!\nfn main() {}\n"


def modules(types):
    return [f"{t.name}_ser" for t in types if t.kind in ("struct", "enum")]
