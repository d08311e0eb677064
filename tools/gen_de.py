"""Contracts on what #[derive(Deserialize)] generates for the element types of the corpus."""
from corpus import q, strlits, parse_ty, SCALARS

HEAD = '''// Written by tools/corpus.py. Contracts on the code that #[derive(Deserialize)]
// generates for the element types of the corpus (corpus/src/lib.rs).
use vstd::prelude::*;
use vstd::utf8::*;
use std::sync::Arc;

verus! {

//@include de_body.rs
//@include derive_paths.rs
//@own
//@source fx @flat.rs

//@trait de RawDeserializeVisitor
    /// `r` is an outcome of having seen exactly `log`.
    spec fn finished(log: Seq<Entry>, default: Option<VxFn<Self::Out>>, r: Result<Self::Out, VisitorError>) -> bool;
//@fn de new props=C13 nobody=1
    requires old(out)@ is None
    ensures r.inv(), r.log() == Seq::<Entry>::empty(), r.place() == place_of(final(out)@),
//@end
//@fn de finalize props=C13 nobody=1
    requires self.inv()
    ensures match r {
        Ok(_) => value_at::<Self::Out>(self.place()) matches Some(v) && Self::finished(self.log(), default, Ok(v)),
        Err(e) => Self::finished(self.log(), default, Err(e)),
    },
//@sig fn() -> Self::Out => VxFn<Self::Out>
//@end
//@endimpl
//@trait de RawDeserialize
//@endimpl

//@include dde_model.rs

'''


def stub_text(t):
    return f'''impl ParseText for {t} {{
    uninterp spec fn parses(text: Seq<char>, r: Result<Self, BoxedStdError>) -> bool;
    #[verifier::external_body]
    fn parse(text: String) -> (r: Result<Self, BoxedStdError>) {{ unimplemented!() }}
}}
'''


def nm(name):
    return f"({q(name[0])}@, {q(name[1])}@)"


def lt_proof(a, b):
    """Proof that name a < name b (and so they differ); assumes the literals revealed."""
    if a[0] != b[0]:
        x, y = a[0], b[0]
    else:
        x, y = a[1], b[1]
    k = 0
    while k < len(x) and k < len(y) and x[k] == y[k]:
        k += 1
    return f"lemma_str_lt_at({q(x)}@, {q(y)}@, {k});"


def table(t, which, names, props):
    names = sorted(names)
    o = f"//@fn fx {t.name}_{which} props=C11,{props} nocanary=1\n    ensures names_sorted(r@), r@.len() == {len(names)}, //# C11,{props}\n"
    for i, n in enumerate(names):
        o += f"        name_of(r@[{i}]) == {nm(n)}, //# C11,{props}\n"
    for i in range(len(names)):
        for j in range(i):
            o += f"        {nm(names[j])} != {nm(names[i])},\n"
    o += "//@at start\n    proof {\n        reveal(names_sorted);\n" + strlits(sorted({x for n in names for x in n}), "        ")
    for i in range(len(names)):
        for j in range(i):
            o += f"        {lt_proof(names[j], names[i])}\n"
    return o + "    }\n//@end\n"


METHODS = [
    ("attribute", "name: &ExpandedNameRef<'_>, value: String", "Result<Option<String>, VisitorError>", "name, value",
     "Call::Attr { ns: name.namespace@, local: name.local_name@, value: value@ }", "answer_text(r)"),
    ("element", "child: ElementReader<'a>", "Result<Option<ElementReader<'a>>, VisitorError>", "child",
     "Call::Elem { src: at(child).src, at: at(child).idx }", "answer_element(r)"),
    ("characters", "s: String, p: TextPosition", "Result<Option<String>, BoxedStdError>", "s, p",
     "Call::Chars { s: s@, pos: p }", "answer_chars(r)"),
]


def method_contract(t, m, props, at_more=""):
    """The generated method, as a function of its own."""
    name, args, ret, passed, call, ans = next(x for x in METHODS if x[0] == m)
    req = "old(self).vx_ok(), fresh(child)," if m == "element" else "old(self).vx_ok(),"
    o = f'''//@fn fx "ElementVisitor for {t.name}Visitor::{m}" rename=vx_{m} props={props}
    requires {req}
    ensures
        final(self).vx_ok(), final(self).vx_log == old(self).vx_log, final(self).vx_hist == old(self).vx_hist,
        final(self).vx_place() == old(self).vx_place(),
        step(old(self).vx_state(), final(self).vx_state(), Entry {{ call: {call}, answer: {ans} }}), //# {props}
'''
    if m == "element":
        o += '''        match r {
            // passed on: the very same child, untouched
            Ok(Some(c)) => c == child && (has_resolved(r) ==> has_resolved(c.reader))
                && (has_resolved(c.reader) ==> final(c.reader).st() == (*c.reader).st()),
            _ => advanced(old(child.reader).st(), final(child.reader).st(), child.stack_pos as int),
        },
//@at start
    broadcast use lemma_child_name;
'''
    return o + at_more + "//@end\n"


def delegation(subs):
    if not subs:
        return ""
    n = len(subs)
    res = " ".join(f"assert(has_resolved(vx_arr@[{i}]));" for i in range(n))
    return f'''//@at before let vx_r
    let ghost g0 = logs(vx_sl@);
//@at after let vx_r
    proof {{
        assert(has_resolved(vx_sl)); assert(has_resolved(vx_arr)); {res}
        assert(g0 =~= old(self).vx_state().subs);
        assert(logs(vx_sl@) =~= self.vx_state().subs);
    }}
'''


def wrappers(t, own):
    """The trait's methods: the generated one (or what the trait does by default), and the history kept."""
    o = ""
    for name, args, ret, passed, call, ans in METHODS:
        gen = "<'a>" if name == "element" else ""
        body = f"self.vx_{name}({passed})" if name in own else f"{{ let mut d = VxDefault {{ log: Ghost(Seq::empty()) }}; d.{name}({passed}) }}"
        o += f'''    fn {name}{gen}(&mut self, {args}) -> (r: {ret}) {{
        let r = {body};
        proof {{
            let e = Entry {{ call: {call}, answer: {ans} }};
            lemma_chain(self.vx_hist@, self.vx_log@, init(), steps(), self.vx_state(), e);
            self.vx_log@ = self.vx_log@.push(e); self.vx_hist@ = self.vx_hist@.push(self.vx_state());
        }}
        r
    }}
'''
    return o


def common(t, props, own, finished_args):
    n = t.name
    return f'''impl<'out> ElementVisitor for {n}Visitor<'out> {{
    closed spec fn log(&self) -> Seq<Entry> {{ self.vx_log@ }}
    closed spec fn inv(&self) -> bool {{ self.vx_ok() && chain(self.vx_hist@, self.vx_log@, init(), steps()) && self.vx_hist@.last() == self.vx_state() }}
    #[verifier::prophetic]
    closed spec fn place(&self) -> Place {{ self.vx_place() }}
{wrappers(t, own)}}}
'''


def deserialize(t, props):
    n = t.name
    d = "None, " if t.kind == "enum" else ""
    return f'''impl Deserialize for {n} {{
    open spec fn reads(src: Src, i: int, r: Result<Self, VisitorError>) -> bool {{
        ||| exists|log: Seq<Entry>| #[trigger] visited(src, i, log) && finished(log, {d}r)
        ||| r is Err && r->Err_0 is Propagate && exists|log: Seq<Entry>, s: State| #[trigger] visit_failed(src, i, log, r->Err_0->Propagate_0) && #[trigger] took(log, init(), steps(), s)
    }}
//@fn fx "Deserialize for {n}::deserialize" props={props}
//@at start
    broadcast use {{lemma_visited, axiom_value_at, lemma_took}};
//@end
}}
'''


def enum(t):
    n = t.name
    live = t.live()
    names = [t.name_of(v) for v in live]
    skipped = [v for v in t.members if v.skip]
    not_skipped = "".join(f" && !(v is {v.ident})" for v in skipped)
    o = f"pub enum {n} {{ " + ", ".join(v.ident + (f"({v.ty})" if v.ty else "") for v in t.members) + " }\n"
    o += f"pub mod {n}_code {{\nuse super::*;\npub type State = Option<{n}>;\npub open spec fn init() -> State {{ None }}\n"
    o += "/// An entry takes the enum from `a` to `b`.\npub open spec fn step(a: State, b: State, e: Entry) -> bool {\n    "
    for v in live:
        o += f"if is_elem(e, {q(t.name_of(v)[0])}@, {q(t.name_of(v)[1])}@) {{\n        match a {{\n"
        if v.ty:
            o += f'''            Some({n}::{v.ident}(f)) => b is Some && b.unwrap() is {v.ident} && elem_step(Some(f), Some(b.unwrap()->{v.ident}_0), e),
            None => (b is Some ==> b.unwrap() is {v.ident}) && elem_step(None, (if b is Some {{ Some(b.unwrap()->{v.ident}_0) }} else {{ None }}), e),
'''
        else:
            o += f'''            Some({n}::{v.ident}) => b == a && e.answer is Consumed,
            None => b == Some({n}::{v.ident}) && e.answer is Consumed,
'''
        if len(t.members) > 1:
            o += "            // another variant was chosen before\n            _ => b == a && e.answer is Failed && e.answer->Failed_0 is Wrap,\n"
        o += "        }\n    } else "
    o += "{ b == a && e.answer == handed_on(e) }\n}\n"
    o += "pub open spec fn steps() -> spec_fn(State, State, Entry) -> bool { |a: State, b: State, e: Entry| step(a, b, e) }\n"
    o += f'''pub open spec fn finished(log: Seq<Entry>, default: Option<VxFn<{n}>>, r: Result<{n}, VisitorError>) -> bool {{
    exists|s: State| #[trigger] took(log, init(), steps(), s) && match s {{
        Some(v) => r == Ok::<{n}, VisitorError>(v){not_skipped},
        None => match default {{ Some(d) => r is Ok && d.gives(r->Ok_0), None => r is Err && r->Err_0 is Wrap }},
    }}
}}
'''
    o += table(t, "ELEMENTS", names, "C14")
    o += f"//@item fx struct {n}Visitor\n"
    ok_skip = "".join(f" && !((*self.out)@ matches Some({n}::{v.ident}{'(_)' if v.ty else ''}))" for v in skipped)
    o += f'''impl<'out> {n}Visitor<'out> {{
    pub closed spec fn vx_state(&self) -> State {{ (*self.out)@ }}
    #[verifier::prophetic]
    pub closed spec fn vx_place(&self) -> Place {{ place_of(final(self.out)@) }}
    pub closed spec fn vx_ok(&self) -> bool {{ self.vx_present_0 == (*self.out)@ is Some{ok_skip} }}
{method_contract(t, "element", "C14")}}}
'''
    o += common(t, "C14", {"element"}, "")
    o += f'''impl<'out> RawDeserializeVisitor<'out> for {n}Visitor<'out> {{
    type Out = {n};
    open spec fn finished(log: Seq<Entry>, default: Option<VxFn<{n}>>, r: Result<{n}, VisitorError>) -> bool {{ finished(log, default, r) }}
//@fn fx "RawDeserializeVisitor for {n}Visitor::new" props=C14
//@at start
    proof {{ lemma_chain0::<State>(init(), steps()); }}
//@end
//@fn fx "RawDeserializeVisitor for {n}Visitor::finalize" props=C14
//@at start
    broadcast use axiom_value_at;
    proof {{
        assert(took(self.vx_log@, init(), steps(), self.vx_state()));
        assert forall|r: Result<{n}, VisitorError>| #[trigger] finished(self.vx_log@, default, r) implies <Self as RawDeserializeVisitor>::finished(self.log(), default, r) by {{}}
    }}
//@end
}}
impl<'out> RawDeserialize<'out> for {n} {{ type Visitor = {n}Visitor<'out>; }}
'''
    o += deserialize(t, "C14")
    return o + "}\n\n"


def struct(t):
    n = t.name
    el, at, fl = t.own("e"), t.own("a"), t.own("f")
    own = [f for f in t.members if f.mode != "f"]
    o = f"pub struct {n} {{ " + ", ".join(f"pub {f.ident}: {f.ty}" for f in t.members) + " }\n"
    o += f"pub mod {n}_code {{\nuse super::*;\n"
    slots = ", ".join(f"pub {f.ident}: &'out mut MaybeUninit<{f.ty}>" for f in own) or "pub vx_none: std::marker::PhantomData<&'out ()>"
    o += f"/// One slot of memory per field the struct fills itself.\npub struct {n}Out<'out> {{ {slots} }}\n"
    o += f"pub struct Places<'out> {{ pub out: {n}Out<'out>" + "".join(f", pub {f.ident}: &'out mut MaybeUninit<{f.ty}>" for f in fl) + " }\n"
    params = ", ".join(f"{f.ident}: Option<{f.ty}>" for f in t.members)
    cond = " && ".join(f"{f.ident} is Some" for f in t.members) or "true"
    build = ", ".join(f"{f.ident}: {f.ident}.unwrap()" for f in t.members)
    o += f'''/// What the struct's own memory holds once its fields hold these.
pub open spec fn assembled({params}) -> Option<{n}> {{
    if {cond} {{ Some({n} {{ {build} }}) }} else {{ None }}
}}
'''
    slot = lambda f: f"p.out.{f.ident}" if f.mode != "f" else f"p.{f.ident}"
    empty = "".join(f"(*{slot(f)})@ is None, " for f in t.members)
    args = ", ".join(f"final({slot(f)})@" for f in t.members)
    o += f'''#[verifier::external_body]
pub fn vx_split<'out>(out: &'out mut MaybeUninit<{n}>) -> (p: Places<'out>)
    requires old(out)@ is None
    ensures {empty}final(out)@ == assembled({args})
{{ unimplemented!() }}
'''
    o += "pub ghost struct State { " + "".join(f"pub {f.ident}: Option<{f.ty}>, " for f in own) + "pub subs: Seq<Seq<Entry>> }\n"
    subs0 = "seq![" + ", ".join("Seq::<Entry>::empty()" for f in fl) + "]" if fl else "Seq::<Seq<Entry>>::empty()"
    o += "pub open spec fn init() -> State { State { " + "".join(f"{f.ident}: None, " for f in own) + f"subs: {subs0} }} }}\n"
    o += "/// The field an entry is for.\npub open spec fn field_of(e: Entry) -> int {\n    "
    for k, f in enumerate(own):
        u, l = t.name_of(f)
        o += f"if is_{'elem' if f.mode == 'e' else 'attr'}(e, {q(u)}@, {q(l)}@) {{ {k} }} else "
    o += "{ -1 }\n}\n/// An entry takes the struct from `a` to `b`.\npub open spec fn step(a: State, b: State, e: Entry) -> bool {\n"
    assert len({(f.mode, t.name_of(f)) for f in own}) == len(own)
    for k, f in enumerate(own):
        o += f"    &&& if field_of(e) == {k} {{ {'elem' if f.mode == 'e' else 'attr'}_step(a.{f.ident}, b.{f.ident}, e) }} else {{ b.{f.ident} == a.{f.ident} }}\n"
    o += "    &&& if field_of(e) >= 0 { b.subs == a.subs } else { routed(a.subs, b.subs, e) }\n}\n"
    o += "pub open spec fn steps() -> spec_fn(State, State, Entry) -> bool { |a: State, b: State, e: Entry| step(a, b, e) }\n"
    ok, err, k = "", "", 0
    for f in t.members:
        if f.mode == "f":
            ok += f"            &&& {f.ty}_code::finished(s.subs[{k}], None, Ok(v.{f.ident}))\n"
            err += f"            ||| {f.ty}_code::finished(s.subs[{k}], None, Err(e))\n"
            k += 1
        elif f.default:
            ok += f"            &&& default_value(s.{f.ident}, v.{f.ident})\n"
        else:
            p = "elem" if f.mode == "e" else "attr"
            ok += f"            &&& {p}_value(s.{f.ident}, v.{f.ident})\n"
            err += f"            ||| {p}_missing(s.{f.ident}, e)\n"
    o += f'''/// What becomes of the struct after its last entry.
pub open spec fn filled(s: State, r: Result<{n}, VisitorError>) -> bool {{
    match r {{
        Ok(v) => {{
{ok or "            true"}
        }}
        Err(e) => {{
{err or "            false"}
        }}
    }}
}}
pub open spec fn finished(log: Seq<Entry>, r: Result<{n}, VisitorError>) -> bool {{
    exists|s: State| #[trigger] took(log, init(), steps(), s) && filled(s, r)
}}
'''
    o += table(t, "ELEMENTS", [t.name_of(f) for f in el], "C13")
    o += table(t, "ATTRIBUTES", [t.name_of(f) for f in at], "C13")
    o += f"//@item fx struct {n}Visitor\n"
    subs = "seq![" + ", ".join(f"self.vx_sub_{k}.log()" for k in range(len(fl))) + "]" if fl else "Seq::<Seq<Entry>>::empty()"
    st = "".join(f"{f.ident}: (*self.out.{f.ident})@, " for f in own)
    oks = [f"self.vx_present_{k} == (*self.out.{f.ident})@ is Some" for k, f in enumerate(own)] + [f"self.vx_sub_{k}.inv()" for k in range(len(fl))]
    kk = {f.ident: k for k, f in enumerate(fl)}
    place = ", ".join(f"value_at(self.vx_sub_{kk[f.ident]}.place())" if f.mode == "f" else f"final(self.out.{f.ident})@" for f in t.members)
    deleg = delegation(fl)
    o += f'''impl<'out> {n}Visitor<'out> {{
    pub closed spec fn vx_state(&self) -> State {{ State {{ {st}subs: {subs} }} }}
    pub closed spec fn vx_ok(&self) -> bool {{ {" && ".join(oks) or "true"} }}
    #[verifier::prophetic]
    pub closed spec fn vx_place(&self) -> Place {{ place_of(assembled({place})) }}
{method_contract(t, "element", "C13", deleg)}{method_contract(t, "attribute", "C13", ("//@at start" + chr(10) + "    broadcast use axiom_str_inj;" + chr(10) if 0 else "") + deleg)}'''
    own_methods = {"element", "attribute"}
    if fl:
        o += method_contract(t, "characters", "C13", deleg)
        own_methods.add("characters")
    o += "}\n"
    o += common(t, "C13", own_methods, "")
    o += f'''impl<'out> RawDeserializeVisitor<'out> for {n}Visitor<'out> {{
    type Out = {n};
    open spec fn finished(log: Seq<Entry>, default: Option<VxFn<{n}>>, r: Result<{n}, VisitorError>) -> bool {{ finished(log, r) }}
//@fn fx "RawDeserializeVisitor for {n}Visitor::new" props=C13
//@at start
    proof {{ broadcast use axiom_value_at; lemma_chain0::<State>(init(), steps()); }}
//@at after tail
    proof {{ assert(vx_r.vx_state().subs =~= init().subs); }}
//@end
//@fn fx "RawDeserializeVisitor for {n}Visitor::finalize" props=C13
//@at start
    broadcast use {{lemma_took, axiom_value_at}};
    proof {{
        assert(took(self.vx_log@, init(), steps(), self.vx_state()));
        assert forall|r: Result<{n}, VisitorError>| #[trigger] filled(self.vx_state(), r) implies <Self as RawDeserializeVisitor>::finished(self.log(), default, r) by {{}}
    }}
//@end
}}
'''
    o += deserialize(t, "C13")
    return o + "}\n\n"


def dde_rs(types):
    o = HEAD
    used = set()
    for t in types:
        if t.kind in ("restriction", "union", "std"):
            used.add(t.name)
            o += f"pub struct {t.name} {{ x: u8 }}\n" + stub_text(t.name)
    o += "pub struct Tracked { x: u8 }\n"
    for s in SCALARS:
        o += stub_text(s)
    for t in types:
        if t.kind == "struct":
            o += f"// ------------------------------------------------------------------- {t.name}\n" + struct(t)
        elif t.kind == "enum":
            o += f"// ------------------------------------------------------------------- {t.name}\n" + enum(t)
    return o + "} // verus!\nfn main() {}\n"


def modules(types):
    return [f"{t.name}_code" for t in types if t.kind in ("struct", "enum")]
