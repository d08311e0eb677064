// Written by tools/corpus.py. Contracts on the code that #[derive(Deserialize)]
// generates for the element types of the corpus (corpus/src/lib.rs).
use vstd::prelude::*;
use vstd::utf8::*;
use std::sync::Arc;

verus! {

//@include de_body.rs
//@include derive_paths.rs
//@own
//@source fx @flat.rs

//@trait de RawDeserializeVisitor
    /// `r` is an outcome of having seen exactly `log`.
    spec fn finished(log: Seq<Entry>, default: Option<VxFn<Self::Out>>, r: Result<Self::Out, VisitorError>) -> bool;
//@fn de new props=C13 nobody=1
    requires old(out)@ is None
    ensures r.inv(), r.log() == Seq::<Entry>::empty(), r.place() == place_of(final(out)@),
//@end
//@fn de finalize props=C13 nobody=1
    requires self.inv()
    ensures match r {
        Ok(_) => value_at::<Self::Out>(self.place()) matches Some(v) && Self::finished(self.log(), default, Ok(v)),
        Err(e) => Self::finished(self.log(), default, Err(e)),
    },
//@sig fn() -> Self::Out => VxFn<Self::Out>
//@end
//@endimpl
//@trait de RawDeserialize
//@endimpl

//@include dde_model.rs

pub struct Color { x: u8 }
impl ParseText for Color {
    uninterp spec fn parses(text: Seq<char>, r: Result<Self, BoxedStdError>) -> bool;
    #[verifier::external_body]
    fn parse(text: String) -> (r: Result<Self, BoxedStdError>) { unimplemented!() }
}
pub struct Size { x: u8 }
impl ParseText for Size {
    uninterp spec fn parses(text: Seq<char>, r: Result<Self, BoxedStdError>) -> bool;
    #[verifier::external_body]
    fn parse(text: String) -> (r: Result<Self, BoxedStdError>) { unimplemented!() }
}
pub struct Code { x: u8 }
impl ParseText for Code {
    uninterp spec fn parses(text: Seq<char>, r: Result<Self, BoxedStdError>) -> bool;
    #[verifier::external_body]
    fn parse(text: String) -> (r: Result<Self, BoxedStdError>) { unimplemented!() }
}
pub struct Keep { x: u8 }
impl ParseText for Keep {
    uninterp spec fn parses(text: Seq<char>, r: Result<Self, BoxedStdError>) -> bool;
    #[verifier::external_body]
    fn parse(text: String) -> (r: Result<Self, BoxedStdError>) { unimplemented!() }
}
pub struct Tight { x: u8 }
impl ParseText for Tight {
    uninterp spec fn parses(text: Seq<char>, r: Result<Self, BoxedStdError>) -> bool;
    #[verifier::external_body]
    fn parse(text: String) -> (r: Result<Self, BoxedStdError>) { unimplemented!() }
}
pub struct Vowel { x: u8 }
impl ParseText for Vowel {
    uninterp spec fn parses(text: Seq<char>, r: Result<Self, BoxedStdError>) -> bool;
    #[verifier::external_body]
    fn parse(text: String) -> (r: Result<Self, BoxedStdError>) { unimplemented!() }
}
pub struct Pair { x: u8 }
impl ParseText for Pair {
    uninterp spec fn parses(text: Seq<char>, r: Result<Self, BoxedStdError>) -> bool;
    #[verifier::external_body]
    fn parse(text: String) -> (r: Result<Self, BoxedStdError>) { unimplemented!() }
}
pub struct Word { x: u8 }
impl ParseText for Word {
    uninterp spec fn parses(text: Seq<char>, r: Result<Self, BoxedStdError>) -> bool;
    #[verifier::external_body]
    fn parse(text: String) -> (r: Result<Self, BoxedStdError>) { unimplemented!() }
}
pub struct ColorOrNum { x: u8 }
impl ParseText for ColorOrNum {
    uninterp spec fn parses(text: Seq<char>, r: Result<Self, BoxedStdError>) -> bool;
    #[verifier::external_body]
    fn parse(text: String) -> (r: Result<Self, BoxedStdError>) { unimplemented!() }
}
pub struct Loose { x: u8 }
impl ParseText for Loose {
    uninterp spec fn parses(text: Seq<char>, r: Result<Self, BoxedStdError>) -> bool;
    #[verifier::external_body]
    fn parse(text: String) -> (r: Result<Self, BoxedStdError>) { unimplemented!() }
}
pub struct TwoTexts { x: u8 }
impl ParseText for TwoTexts {
    uninterp spec fn parses(text: Seq<char>, r: Result<Self, BoxedStdError>) -> bool;
    #[verifier::external_body]
    fn parse(text: String) -> (r: Result<Self, BoxedStdError>) { unimplemented!() }
}
pub struct Nested { x: u8 }
impl ParseText for Nested {
    uninterp spec fn parses(text: Seq<char>, r: Result<Self, BoxedStdError>) -> bool;
    #[verifier::external_body]
    fn parse(text: String) -> (r: Result<Self, BoxedStdError>) { unimplemented!() }
}
pub struct Early { x: u8 }
impl ParseText for Early {
    uninterp spec fn parses(text: Seq<char>, r: Result<Self, BoxedStdError>) -> bool;
    #[verifier::external_body]
    fn parse(text: String) -> (r: Result<Self, BoxedStdError>) { unimplemented!() }
}
pub struct Front { x: u8 }
impl ParseText for Front {
    uninterp spec fn parses(text: Seq<char>, r: Result<Self, BoxedStdError>) -> bool;
    #[verifier::external_body]
    fn parse(text: String) -> (r: Result<Self, BoxedStdError>) { unimplemented!() }
}
pub struct Alone { x: u8 }
impl ParseText for Alone {
    uninterp spec fn parses(text: Seq<char>, r: Result<Self, BoxedStdError>) -> bool;
    #[verifier::external_body]
    fn parse(text: String) -> (r: Result<Self, BoxedStdError>) { unimplemented!() }
}
pub struct TwoRest { x: u8 }
impl ParseText for TwoRest {
    uninterp spec fn parses(text: Seq<char>, r: Result<Self, BoxedStdError>) -> bool;
    #[verifier::external_body]
    fn parse(text: String) -> (r: Result<Self, BoxedStdError>) { unimplemented!() }
}
pub struct Ahead { x: u8 }
impl ParseText for Ahead {
    uninterp spec fn parses(text: Seq<char>, r: Result<Self, BoxedStdError>) -> bool;
    #[verifier::external_body]
    fn parse(text: String) -> (r: Result<Self, BoxedStdError>) { unimplemented!() }
}
pub struct Foreign { x: u8 }
impl ParseText for Foreign {
    uninterp spec fn parses(text: Seq<char>, r: Result<Self, BoxedStdError>) -> bool;
    #[verifier::external_body]
    fn parse(text: String) -> (r: Result<Self, BoxedStdError>) { unimplemented!() }
}
pub struct Line { x: u8 }
impl ParseText for Line {
    uninterp spec fn parses(text: Seq<char>, r: Result<Self, BoxedStdError>) -> bool;
    #[verifier::external_body]
    fn parse(text: String) -> (r: Result<Self, BoxedStdError>) { unimplemented!() }
}
pub struct Strings { x: u8 }
impl ParseText for Strings {
    uninterp spec fn parses(text: Seq<char>, r: Result<Self, BoxedStdError>) -> bool;
    #[verifier::external_body]
    fn parse(text: String) -> (r: Result<Self, BoxedStdError>) { unimplemented!() }
}
pub struct Tracked { x: u8 }
impl ParseText for String {
    uninterp spec fn parses(text: Seq<char>, r: Result<Self, BoxedStdError>) -> bool;
    #[verifier::external_body]
    fn parse(text: String) -> (r: Result<Self, BoxedStdError>) { unimplemented!() }
}
impl ParseText for bool {
    uninterp spec fn parses(text: Seq<char>, r: Result<Self, BoxedStdError>) -> bool;
    #[verifier::external_body]
    fn parse(text: String) -> (r: Result<Self, BoxedStdError>) { unimplemented!() }
}
impl ParseText for i32 {
    uninterp spec fn parses(text: Seq<char>, r: Result<Self, BoxedStdError>) -> bool;
    #[verifier::external_body]
    fn parse(text: String) -> (r: Result<Self, BoxedStdError>) { unimplemented!() }
}
impl ParseText for u64 {
    uninterp spec fn parses(text: Seq<char>, r: Result<Self, BoxedStdError>) -> bool;
    #[verifier::external_body]
    fn parse(text: String) -> (r: Result<Self, BoxedStdError>) { unimplemented!() }
}
impl ParseText for f64 {
    uninterp spec fn parses(text: Seq<char>, r: Result<Self, BoxedStdError>) -> bool;
    #[verifier::external_body]
    fn parse(text: String) -> (r: Result<Self, BoxedStdError>) { unimplemented!() }
}
impl ParseText for Tracked {
    uninterp spec fn parses(text: Seq<char>, r: Result<Self, BoxedStdError>) -> bool;
    #[verifier::external_body]
    fn parse(text: String) -> (r: Result<Self, BoxedStdError>) { unimplemented!() }
}
// ------------------------------------------------------------------- Plain
pub struct Plain { pub one: String, pub two: Option<i32>, pub three: Vec<String>, pub attr: String, pub attr_opt: Option<i32> }
pub mod Plain_code {
use super::*;
/// One slot of memory per field the struct fills itself.
pub struct PlainOut<'out> { pub one: &'out mut MaybeUninit<String>, pub two: &'out mut MaybeUninit<Option<i32>>, pub three: &'out mut MaybeUninit<Vec<String>>, pub attr: &'out mut MaybeUninit<String>, pub attr_opt: &'out mut MaybeUninit<Option<i32>> }
pub struct Places<'out> { pub out: PlainOut<'out> }
/// What the struct's own memory holds once its fields hold these.
pub open spec fn assembled(one: Option<String>, two: Option<Option<i32>>, three: Option<Vec<String>>, attr: Option<String>, attr_opt: Option<Option<i32>>) -> Option<Plain> {
    if one is Some && two is Some && three is Some && attr is Some && attr_opt is Some { Some(Plain { one: one.unwrap(), two: two.unwrap(), three: three.unwrap(), attr: attr.unwrap(), attr_opt: attr_opt.unwrap() }) } else { None }
}
#[verifier::external_body]
pub fn vx_split<'out>(out: &'out mut MaybeUninit<Plain>) -> (p: Places<'out>)
    requires old(out)@ is None
    ensures (*p.out.one)@ is None, (*p.out.two)@ is None, (*p.out.three)@ is None, (*p.out.attr)@ is None, (*p.out.attr_opt)@ is None, final(out)@ == assembled(final(p.out.one)@, final(p.out.two)@, final(p.out.three)@, final(p.out.attr)@, final(p.out.attr_opt)@)
{ unimplemented!() }
pub ghost struct State { pub one: Option<String>, pub two: Option<Option<i32>>, pub three: Option<Vec<String>>, pub attr: Option<String>, pub attr_opt: Option<Option<i32>>, pub subs: Seq<Seq<Entry>> }
pub open spec fn init() -> State { State { one: None, two: None, three: None, attr: None, attr_opt: None, subs: Seq::<Seq<Entry>>::empty() } }
/// The field an entry is for.
pub open spec fn field_of(e: Entry) -> int {
    if is_elem(e, ""@, "one"@) { 0 } else if is_elem(e, ""@, "two"@) { 1 } else if is_elem(e, ""@, "three"@) { 2 } else if is_attr(e, ""@, "attr"@) { 3 } else if is_attr(e, ""@, "attr_opt"@) { 4 } else { -1 }
}
/// An entry takes the struct from `a` to `b`.
pub open spec fn step(a: State, b: State, e: Entry) -> bool {
    &&& if field_of(e) == 0 { elem_step(a.one, b.one, e) } else { b.one == a.one }
    &&& if field_of(e) == 1 { elem_step(a.two, b.two, e) } else { b.two == a.two }
    &&& if field_of(e) == 2 { elem_step(a.three, b.three, e) } else { b.three == a.three }
    &&& if field_of(e) == 3 { attr_step(a.attr, b.attr, e) } else { b.attr == a.attr }
    &&& if field_of(e) == 4 { attr_step(a.attr_opt, b.attr_opt, e) } else { b.attr_opt == a.attr_opt }
    &&& if field_of(e) >= 0 { b.subs == a.subs } else { routed(a.subs, b.subs, e) }
}
pub open spec fn steps() -> spec_fn(State, State, Entry) -> bool { |a: State, b: State, e: Entry| step(a, b, e) }
/// What becomes of the struct after its last entry.
pub open spec fn filled(s: State, r: Result<Plain, VisitorError>) -> bool {
    match r {
        Ok(v) => {
            &&& elem_value(s.one, v.one)
            &&& elem_value(s.two, v.two)
            &&& elem_value(s.three, v.three)
            &&& attr_value(s.attr, v.attr)
            &&& attr_value(s.attr_opt, v.attr_opt)

        }
        Err(e) => {
            ||| elem_missing(s.one, e)
            ||| elem_missing(s.two, e)
            ||| elem_missing(s.three, e)
            ||| attr_missing(s.attr, e)
            ||| attr_missing(s.attr_opt, e)

        }
    }
}
pub open spec fn finished(log: Seq<Entry>, r: Result<Plain, VisitorError>) -> bool {
    exists|s: State| #[trigger] took(log, init(), steps(), s) && filled(s, r)
}
//@fn fx Plain_ELEMENTS props=C11,C13 nocanary=1
    ensures names_sorted(r@), r@.len() == 3, //# C11,C13
        name_of(r@[0]) == (""@, "one"@), //# C11,C13
        name_of(r@[1]) == (""@, "three"@), //# C11,C13
        name_of(r@[2]) == (""@, "two"@), //# C11,C13
        (""@, "one"@) != (""@, "three"@),
        (""@, "one"@) != (""@, "two"@),
        (""@, "three"@) != (""@, "two"@),
//@at start
    proof {
        reveal(names_sorted);
        reveal_strlit("");
        reveal_strlit("one");
        reveal_strlit("three");
        reveal_strlit("two");
        lemma_str_lt_at("one"@, "three"@, 0);
        lemma_str_lt_at("one"@, "two"@, 0);
        lemma_str_lt_at("three"@, "two"@, 1);
    }
//@end
//@fn fx Plain_ATTRIBUTES props=C11,C13 nocanary=1
    ensures names_sorted(r@), r@.len() == 2, //# C11,C13
        name_of(r@[0]) == (""@, "attr"@), //# C11,C13
        name_of(r@[1]) == (""@, "attr_opt"@), //# C11,C13
        (""@, "attr"@) != (""@, "attr_opt"@),
//@at start
    proof {
        reveal(names_sorted);
        reveal_strlit("");
        reveal_strlit("attr");
        reveal_strlit("attr_opt");
        lemma_str_lt_at("attr"@, "attr_opt"@, 4);
    }
//@end
//@item fx struct PlainVisitor
impl<'out> PlainVisitor<'out> {
    pub closed spec fn vx_state(&self) -> State { State { one: (*self.out.one)@, two: (*self.out.two)@, three: (*self.out.three)@, attr: (*self.out.attr)@, attr_opt: (*self.out.attr_opt)@, subs: Seq::<Seq<Entry>>::empty() } }
    pub closed spec fn vx_ok(&self) -> bool { self.vx_present_0 == (*self.out.one)@ is Some && self.vx_present_1 == (*self.out.two)@ is Some && self.vx_present_2 == (*self.out.three)@ is Some && self.vx_present_3 == (*self.out.attr)@ is Some && self.vx_present_4 == (*self.out.attr_opt)@ is Some }
    #[verifier::prophetic]
    pub closed spec fn vx_place(&self) -> Place { place_of(assembled(final(self.out.one)@, final(self.out.two)@, final(self.out.three)@, final(self.out.attr)@, final(self.out.attr_opt)@)) }
//@fn fx "ElementVisitor for PlainVisitor::element" rename=vx_element props=C13
    requires old(self).vx_ok(), fresh(child),
    ensures
        final(self).vx_ok(), final(self).vx_log == old(self).vx_log, final(self).vx_hist == old(self).vx_hist,
        final(self).vx_place() == old(self).vx_place(),
        step(old(self).vx_state(), final(self).vx_state(), Entry { call: Call::Elem { src: at(child).src, at: at(child).idx }, answer: answer_element(r) }), //# C13
        match r {
            // passed on: the very same child, untouched
            Ok(Some(c)) => c == child && (has_resolved(r) ==> has_resolved(c.reader))
                && (has_resolved(c.reader) ==> final(c.reader).st() == (*c.reader).st()),
            _ => advanced(old(child.reader).st(), final(child.reader).st(), child.stack_pos as int),
        },
//@at start
    broadcast use lemma_child_name;
//@end
//@fn fx "ElementVisitor for PlainVisitor::attribute" rename=vx_attribute props=C13
    requires old(self).vx_ok(),
    ensures
        final(self).vx_ok(), final(self).vx_log == old(self).vx_log, final(self).vx_hist == old(self).vx_hist,
        final(self).vx_place() == old(self).vx_place(),
        step(old(self).vx_state(), final(self).vx_state(), Entry { call: Call::Attr { ns: name.namespace@, local: name.local_name@, value: value@ }, answer: answer_text(r) }), //# C13
//@end
}
impl<'out> ElementVisitor for PlainVisitor<'out> {
    closed spec fn log(&self) -> Seq<Entry> { self.vx_log@ }
    closed spec fn inv(&self) -> bool { self.vx_ok() && chain(self.vx_hist@, self.vx_log@, init(), steps()) && self.vx_hist@.last() == self.vx_state() }
    #[verifier::prophetic]
    closed spec fn place(&self) -> Place { self.vx_place() }
    fn attribute(&mut self, name: &ExpandedNameRef<'_>, value: String) -> (r: Result<Option<String>, VisitorError>) {
        let r = self.vx_attribute(name, value);
        proof {
            let e = Entry { call: Call::Attr { ns: name.namespace@, local: name.local_name@, value: value@ }, answer: answer_text(r) };
            lemma_chain(self.vx_hist@, self.vx_log@, init(), steps(), self.vx_state(), e);
            self.vx_log@ = self.vx_log@.push(e); self.vx_hist@ = self.vx_hist@.push(self.vx_state());
        }
        r
    }
    fn element<'a>(&mut self, child: ElementReader<'a>) -> (r: Result<Option<ElementReader<'a>>, VisitorError>) {
        let r = self.vx_element(child);
        proof {
            let e = Entry { call: Call::Elem { src: at(child).src, at: at(child).idx }, answer: answer_element(r) };
            lemma_chain(self.vx_hist@, self.vx_log@, init(), steps(), self.vx_state(), e);
            self.vx_log@ = self.vx_log@.push(e); self.vx_hist@ = self.vx_hist@.push(self.vx_state());
        }
        r
    }
    fn characters(&mut self, s: String, p: TextPosition) -> (r: Result<Option<String>, BoxedStdError>) {
        let r = { let mut d = VxDefault { log: Ghost(Seq::empty()) }; d.characters(s, p) };
        proof {
            let e = Entry { call: Call::Chars { s: s@, pos: p }, answer: answer_chars(r) };
            lemma_chain(self.vx_hist@, self.vx_log@, init(), steps(), self.vx_state(), e);
            self.vx_log@ = self.vx_log@.push(e); self.vx_hist@ = self.vx_hist@.push(self.vx_state());
        }
        r
    }
}
impl<'out> RawDeserializeVisitor<'out> for PlainVisitor<'out> {
    type Out = Plain;
    open spec fn finished(log: Seq<Entry>, default: Option<VxFn<Plain>>, r: Result<Plain, VisitorError>) -> bool { finished(log, r) }
//@fn fx "RawDeserializeVisitor for PlainVisitor::new" props=C13
//@at start
    proof { broadcast use axiom_value_at; lemma_chain0::<State>(init(), steps()); }
//@at after tail
    proof { assert(vx_r.vx_state().subs =~= init().subs); }
//@end
//@fn fx "RawDeserializeVisitor for PlainVisitor::finalize" props=C13
//@at start
    broadcast use {lemma_took, axiom_value_at};
    proof {
        assert(took(self.vx_log@, init(), steps(), self.vx_state()));
        assert forall|r: Result<Plain, VisitorError>| #[trigger] filled(self.vx_state(), r) implies <Self as RawDeserializeVisitor>::finished(self.log(), default, r) by {}
    }
//@end
}
impl Deserialize for Plain {
    open spec fn reads(src: Src, i: int, r: Result<Self, VisitorError>) -> bool {
        ||| exists|log: Seq<Entry>| #[trigger] visited(src, i, log) && finished(log, r)
        ||| r is Err && r->Err_0 is Propagate && exists|log: Seq<Entry>, s: State| #[trigger] visit_failed(src, i, log, r->Err_0->Propagate_0) && #[trigger] took(log, init(), steps(), s)
    }
//@fn fx "Deserialize for Plain::deserialize" props=C13
//@at start
    broadcast use {lemma_visited, axiom_value_at, lemma_took};
//@end
}
}

// ------------------------------------------------------------------- Empty
pub struct Empty {  }
pub mod Empty_code {
use super::*;
/// One slot of memory per field the struct fills itself.
pub struct EmptyOut<'out> { pub vx_none: std::marker::PhantomData<&'out ()> }
pub struct Places<'out> { pub out: EmptyOut<'out> }
/// What the struct's own memory holds once its fields hold these.
pub open spec fn assembled() -> Option<Empty> {
    if true { Some(Empty {  }) } else { None }
}
#[verifier::external_body]
pub fn vx_split<'out>(out: &'out mut MaybeUninit<Empty>) -> (p: Places<'out>)
    requires old(out)@ is None
    ensures final(out)@ == assembled()
{ unimplemented!() }
pub ghost struct State { pub subs: Seq<Seq<Entry>> }
pub open spec fn init() -> State { State { subs: Seq::<Seq<Entry>>::empty() } }
/// The field an entry is for.
pub open spec fn field_of(e: Entry) -> int {
    { -1 }
}
/// An entry takes the struct from `a` to `b`.
pub open spec fn step(a: State, b: State, e: Entry) -> bool {
    &&& if field_of(e) >= 0 { b.subs == a.subs } else { routed(a.subs, b.subs, e) }
}
pub open spec fn steps() -> spec_fn(State, State, Entry) -> bool { |a: State, b: State, e: Entry| step(a, b, e) }
/// What becomes of the struct after its last entry.
pub open spec fn filled(s: State, r: Result<Empty, VisitorError>) -> bool {
    match r {
        Ok(v) => {
            true
        }
        Err(e) => {
            false
        }
    }
}
pub open spec fn finished(log: Seq<Entry>, r: Result<Empty, VisitorError>) -> bool {
    exists|s: State| #[trigger] took(log, init(), steps(), s) && filled(s, r)
}
//@fn fx Empty_ELEMENTS props=C11,C13 nocanary=1
    ensures names_sorted(r@), r@.len() == 0, //# C11,C13
//@at start
    proof {
        reveal(names_sorted);
    }
//@end
//@fn fx Empty_ATTRIBUTES props=C11,C13 nocanary=1
    ensures names_sorted(r@), r@.len() == 0, //# C11,C13
//@at start
    proof {
        reveal(names_sorted);
    }
//@end
//@item fx struct EmptyVisitor
impl<'out> EmptyVisitor<'out> {
    pub closed spec fn vx_state(&self) -> State { State { subs: Seq::<Seq<Entry>>::empty() } }
    pub closed spec fn vx_ok(&self) -> bool { true }
    #[verifier::prophetic]
    pub closed spec fn vx_place(&self) -> Place { place_of(assembled()) }
//@fn fx "ElementVisitor for EmptyVisitor::element" rename=vx_element props=C13
    requires old(self).vx_ok(), fresh(child),
    ensures
        final(self).vx_ok(), final(self).vx_log == old(self).vx_log, final(self).vx_hist == old(self).vx_hist,
        final(self).vx_place() == old(self).vx_place(),
        step(old(self).vx_state(), final(self).vx_state(), Entry { call: Call::Elem { src: at(child).src, at: at(child).idx }, answer: answer_element(r) }), //# C13
        match r {
            // passed on: the very same child, untouched
            Ok(Some(c)) => c == child && (has_resolved(r) ==> has_resolved(c.reader))
                && (has_resolved(c.reader) ==> final(c.reader).st() == (*c.reader).st()),
            _ => advanced(old(child.reader).st(), final(child.reader).st(), child.stack_pos as int),
        },
//@at start
    broadcast use lemma_child_name;
//@end
//@fn fx "ElementVisitor for EmptyVisitor::attribute" rename=vx_attribute props=C13
    requires old(self).vx_ok(),
    ensures
        final(self).vx_ok(), final(self).vx_log == old(self).vx_log, final(self).vx_hist == old(self).vx_hist,
        final(self).vx_place() == old(self).vx_place(),
        step(old(self).vx_state(), final(self).vx_state(), Entry { call: Call::Attr { ns: name.namespace@, local: name.local_name@, value: value@ }, answer: answer_text(r) }), //# C13
//@end
}
impl<'out> ElementVisitor for EmptyVisitor<'out> {
    closed spec fn log(&self) -> Seq<Entry> { self.vx_log@ }
    closed spec fn inv(&self) -> bool { self.vx_ok() && chain(self.vx_hist@, self.vx_log@, init(), steps()) && self.vx_hist@.last() == self.vx_state() }
    #[verifier::prophetic]
    closed spec fn place(&self) -> Place { self.vx_place() }
    fn attribute(&mut self, name: &ExpandedNameRef<'_>, value: String) -> (r: Result<Option<String>, VisitorError>) {
        let r = self.vx_attribute(name, value);
        proof {
            let e = Entry { call: Call::Attr { ns: name.namespace@, local: name.local_name@, value: value@ }, answer: answer_text(r) };
            lemma_chain(self.vx_hist@, self.vx_log@, init(), steps(), self.vx_state(), e);
            self.vx_log@ = self.vx_log@.push(e); self.vx_hist@ = self.vx_hist@.push(self.vx_state());
        }
        r
    }
    fn element<'a>(&mut self, child: ElementReader<'a>) -> (r: Result<Option<ElementReader<'a>>, VisitorError>) {
        let r = self.vx_element(child);
        proof {
            let e = Entry { call: Call::Elem { src: at(child).src, at: at(child).idx }, answer: answer_element(r) };
            lemma_chain(self.vx_hist@, self.vx_log@, init(), steps(), self.vx_state(), e);
            self.vx_log@ = self.vx_log@.push(e); self.vx_hist@ = self.vx_hist@.push(self.vx_state());
        }
        r
    }
    fn characters(&mut self, s: String, p: TextPosition) -> (r: Result<Option<String>, BoxedStdError>) {
        let r = { let mut d = VxDefault { log: Ghost(Seq::empty()) }; d.characters(s, p) };
        proof {
            let e = Entry { call: Call::Chars { s: s@, pos: p }, answer: answer_chars(r) };
            lemma_chain(self.vx_hist@, self.vx_log@, init(), steps(), self.vx_state(), e);
            self.vx_log@ = self.vx_log@.push(e); self.vx_hist@ = self.vx_hist@.push(self.vx_state());
        }
        r
    }
}
impl<'out> RawDeserializeVisitor<'out> for EmptyVisitor<'out> {
    type Out = Empty;
    open spec fn finished(log: Seq<Entry>, default: Option<VxFn<Empty>>, r: Result<Empty, VisitorError>) -> bool { finished(log, r) }
//@fn fx "RawDeserializeVisitor for EmptyVisitor::new" props=C13
//@at start
    proof { broadcast use axiom_value_at; lemma_chain0::<State>(init(), steps()); }
//@at after tail
    proof { assert(vx_r.vx_state().subs =~= init().subs); }
//@end
//@fn fx "RawDeserializeVisitor for EmptyVisitor::finalize" props=C13
//@at start
    broadcast use {lemma_took, axiom_value_at};
    proof {
        assert(took(self.vx_log@, init(), steps(), self.vx_state()));
        assert forall|r: Result<Empty, VisitorError>| #[trigger] filled(self.vx_state(), r) implies <Self as RawDeserializeVisitor>::finished(self.log(), default, r) by {}
    }
//@end
}
impl Deserialize for Empty {
    open spec fn reads(src: Src, i: int, r: Result<Self, VisitorError>) -> bool {
        ||| exists|log: Seq<Entry>| #[trigger] visited(src, i, log) && finished(log, r)
        ||| r is Err && r->Err_0 is Propagate && exists|log: Seq<Entry>, s: State| #[trigger] visit_failed(src, i, log, r->Err_0->Propagate_0) && #[trigger] took(log, init(), steps(), s)
    }
//@fn fx "Deserialize for Empty::deserialize" props=C13
//@at start
    broadcast use {lemma_visited, axiom_value_at, lemma_took};
//@end
}
}

// ------------------------------------------------------------------- Big
pub struct Big { pub a: i32, pub b: String, pub c: Vec<i32>, pub d: Tracked, pub e: Option<String>, pub f: Option<u64> }
pub mod Big_code {
use super::*;
/// One slot of memory per field the struct fills itself.
pub struct BigOut<'out> { pub a: &'out mut MaybeUninit<i32>, pub b: &'out mut MaybeUninit<String>, pub c: &'out mut MaybeUninit<Vec<i32>>, pub d: &'out mut MaybeUninit<Tracked>, pub e: &'out mut MaybeUninit<Option<String>>, pub f: &'out mut MaybeUninit<Option<u64>> }
pub struct Places<'out> { pub out: BigOut<'out> }
/// What the struct's own memory holds once its fields hold these.
pub open spec fn assembled(a: Option<i32>, b: Option<String>, c: Option<Vec<i32>>, d: Option<Tracked>, e: Option<Option<String>>, f: Option<Option<u64>>) -> Option<Big> {
    if a is Some && b is Some && c is Some && d is Some && e is Some && f is Some { Some(Big { a: a.unwrap(), b: b.unwrap(), c: c.unwrap(), d: d.unwrap(), e: e.unwrap(), f: f.unwrap() }) } else { None }
}
#[verifier::external_body]
pub fn vx_split<'out>(out: &'out mut MaybeUninit<Big>) -> (p: Places<'out>)
    requires old(out)@ is None
    ensures (*p.out.a)@ is None, (*p.out.b)@ is None, (*p.out.c)@ is None, (*p.out.d)@ is None, (*p.out.e)@ is None, (*p.out.f)@ is None, final(out)@ == assembled(final(p.out.a)@, final(p.out.b)@, final(p.out.c)@, final(p.out.d)@, final(p.out.e)@, final(p.out.f)@)
{ unimplemented!() }
pub ghost struct State { pub a: Option<i32>, pub b: Option<String>, pub c: Option<Vec<i32>>, pub d: Option<Tracked>, pub e: Option<Option<String>>, pub f: Option<Option<u64>>, pub subs: Seq<Seq<Entry>> }
pub open spec fn init() -> State { State { a: None, b: None, c: None, d: None, e: None, f: None, subs: Seq::<Seq<Entry>>::empty() } }
/// The field an entry is for.
pub open spec fn field_of(e: Entry) -> int {
    if is_elem(e, ""@, "a"@) { 0 } else if is_elem(e, ""@, "b"@) { 1 } else if is_elem(e, ""@, "c"@) { 2 } else if is_elem(e, ""@, "d"@) { 3 } else if is_attr(e, ""@, "e"@) { 4 } else if is_attr(e, ""@, "f"@) { 5 } else { -1 }
}
/// An entry takes the struct from `a` to `b`.
pub open spec fn step(a: State, b: State, e: Entry) -> bool {
    &&& if field_of(e) == 0 { elem_step(a.a, b.a, e) } else { b.a == a.a }
    &&& if field_of(e) == 1 { elem_step(a.b, b.b, e) } else { b.b == a.b }
    &&& if field_of(e) == 2 { elem_step(a.c, b.c, e) } else { b.c == a.c }
    &&& if field_of(e) == 3 { elem_step(a.d, b.d, e) } else { b.d == a.d }
    &&& if field_of(e) == 4 { attr_step(a.e, b.e, e) } else { b.e == a.e }
    &&& if field_of(e) == 5 { attr_step(a.f, b.f, e) } else { b.f == a.f }
    &&& if field_of(e) >= 0 { b.subs == a.subs } else { routed(a.subs, b.subs, e) }
}
pub open spec fn steps() -> spec_fn(State, State, Entry) -> bool { |a: State, b: State, e: Entry| step(a, b, e) }
/// What becomes of the struct after its last entry.
pub open spec fn filled(s: State, r: Result<Big, VisitorError>) -> bool {
    match r {
        Ok(v) => {
            &&& elem_value(s.a, v.a)
            &&& elem_value(s.b, v.b)
            &&& elem_value(s.c, v.c)
            &&& elem_value(s.d, v.d)
            &&& attr_value(s.e, v.e)
            &&& attr_value(s.f, v.f)

        }
        Err(e) => {
            ||| elem_missing(s.a, e)
            ||| elem_missing(s.b, e)
            ||| elem_missing(s.c, e)
            ||| elem_missing(s.d, e)
            ||| attr_missing(s.e, e)
            ||| attr_missing(s.f, e)

        }
    }
}
pub open spec fn finished(log: Seq<Entry>, r: Result<Big, VisitorError>) -> bool {
    exists|s: State| #[trigger] took(log, init(), steps(), s) && filled(s, r)
}
//@fn fx Big_ELEMENTS props=C11,C13 nocanary=1
    ensures names_sorted(r@), r@.len() == 4, //# C11,C13
        name_of(r@[0]) == (""@, "a"@), //# C11,C13
        name_of(r@[1]) == (""@, "b"@), //# C11,C13
        name_of(r@[2]) == (""@, "c"@), //# C11,C13
        name_of(r@[3]) == (""@, "d"@), //# C11,C13
        (""@, "a"@) != (""@, "b"@),
        (""@, "a"@) != (""@, "c"@),
        (""@, "b"@) != (""@, "c"@),
        (""@, "a"@) != (""@, "d"@),
        (""@, "b"@) != (""@, "d"@),
        (""@, "c"@) != (""@, "d"@),
//@at start
    proof {
        reveal(names_sorted);
        reveal_strlit("");
        reveal_strlit("a");
        reveal_strlit("b");
        reveal_strlit("c");
        reveal_strlit("d");
        lemma_str_lt_at("a"@, "b"@, 0);
        lemma_str_lt_at("a"@, "c"@, 0);
        lemma_str_lt_at("b"@, "c"@, 0);
        lemma_str_lt_at("a"@, "d"@, 0);
        lemma_str_lt_at("b"@, "d"@, 0);
        lemma_str_lt_at("c"@, "d"@, 0);
    }
//@end
//@fn fx Big_ATTRIBUTES props=C11,C13 nocanary=1
    ensures names_sorted(r@), r@.len() == 2, //# C11,C13
        name_of(r@[0]) == (""@, "e"@), //# C11,C13
        name_of(r@[1]) == (""@, "f"@), //# C11,C13
        (""@, "e"@) != (""@, "f"@),
//@at start
    proof {
        reveal(names_sorted);
        reveal_strlit("");
        reveal_strlit("e");
        reveal_strlit("f");
        lemma_str_lt_at("e"@, "f"@, 0);
    }
//@end
//@item fx struct BigVisitor
impl<'out> BigVisitor<'out> {
    pub closed spec fn vx_state(&self) -> State { State { a: (*self.out.a)@, b: (*self.out.b)@, c: (*self.out.c)@, d: (*self.out.d)@, e: (*self.out.e)@, f: (*self.out.f)@, subs: Seq::<Seq<Entry>>::empty() } }
    pub closed spec fn vx_ok(&self) -> bool { self.vx_present_0 == (*self.out.a)@ is Some && self.vx_present_1 == (*self.out.b)@ is Some && self.vx_present_2 == (*self.out.c)@ is Some && self.vx_present_3 == (*self.out.d)@ is Some && self.vx_present_4 == (*self.out.e)@ is Some && self.vx_present_5 == (*self.out.f)@ is Some }
    #[verifier::prophetic]
    pub closed spec fn vx_place(&self) -> Place { place_of(assembled(final(self.out.a)@, final(self.out.b)@, final(self.out.c)@, final(self.out.d)@, final(self.out.e)@, final(self.out.f)@)) }
//@fn fx "ElementVisitor for BigVisitor::element" rename=vx_element props=C13
    requires old(self).vx_ok(), fresh(child),
    ensures
        final(self).vx_ok(), final(self).vx_log == old(self).vx_log, final(self).vx_hist == old(self).vx_hist,
        final(self).vx_place() == old(self).vx_place(),
        step(old(self).vx_state(), final(self).vx_state(), Entry { call: Call::Elem { src: at(child).src, at: at(child).idx }, answer: answer_element(r) }), //# C13
        match r {
            // passed on: the very same child, untouched
            Ok(Some(c)) => c == child && (has_resolved(r) ==> has_resolved(c.reader))
                && (has_resolved(c.reader) ==> final(c.reader).st() == (*c.reader).st()),
            _ => advanced(old(child.reader).st(), final(child.reader).st(), child.stack_pos as int),
        },
//@at start
    broadcast use lemma_child_name;
//@end
//@fn fx "ElementVisitor for BigVisitor::attribute" rename=vx_attribute props=C13
    requires old(self).vx_ok(),
    ensures
        final(self).vx_ok(), final(self).vx_log == old(self).vx_log, final(self).vx_hist == old(self).vx_hist,
        final(self).vx_place() == old(self).vx_place(),
        step(old(self).vx_state(), final(self).vx_state(), Entry { call: Call::Attr { ns: name.namespace@, local: name.local_name@, value: value@ }, answer: answer_text(r) }), //# C13
//@end
}
impl<'out> ElementVisitor for BigVisitor<'out> {
    closed spec fn log(&self) -> Seq<Entry> { self.vx_log@ }
    closed spec fn inv(&self) -> bool { self.vx_ok() && chain(self.vx_hist@, self.vx_log@, init(), steps()) && self.vx_hist@.last() == self.vx_state() }
    #[verifier::prophetic]
    closed spec fn place(&self) -> Place { self.vx_place() }
    fn attribute(&mut self, name: &ExpandedNameRef<'_>, value: String) -> (r: Result<Option<String>, VisitorError>) {
        let r = self.vx_attribute(name, value);
        proof {
            let e = Entry { call: Call::Attr { ns: name.namespace@, local: name.local_name@, value: value@ }, answer: answer_text(r) };
            lemma_chain(self.vx_hist@, self.vx_log@, init(), steps(), self.vx_state(), e);
            self.vx_log@ = self.vx_log@.push(e); self.vx_hist@ = self.vx_hist@.push(self.vx_state());
        }
        r
    }
    fn element<'a>(&mut self, child: ElementReader<'a>) -> (r: Result<Option<ElementReader<'a>>, VisitorError>) {
        let r = self.vx_element(child);
        proof {
            let e = Entry { call: Call::Elem { src: at(child).src, at: at(child).idx }, answer: answer_element(r) };
            lemma_chain(self.vx_hist@, self.vx_log@, init(), steps(), self.vx_state(), e);
            self.vx_log@ = self.vx_log@.push(e); self.vx_hist@ = self.vx_hist@.push(self.vx_state());
        }
        r
    }
    fn characters(&mut self, s: String, p: TextPosition) -> (r: Result<Option<String>, BoxedStdError>) {
        let r = { let mut d = VxDefault { log: Ghost(Seq::empty()) }; d.characters(s, p) };
        proof {
            let e = Entry { call: Call::Chars { s: s@, pos: p }, answer: answer_chars(r) };
            lemma_chain(self.vx_hist@, self.vx_log@, init(), steps(), self.vx_state(), e);
            self.vx_log@ = self.vx_log@.push(e); self.vx_hist@ = self.vx_hist@.push(self.vx_state());
        }
        r
    }
}
impl<'out> RawDeserializeVisitor<'out> for BigVisitor<'out> {
    type Out = Big;
    open spec fn finished(log: Seq<Entry>, default: Option<VxFn<Big>>, r: Result<Big, VisitorError>) -> bool { finished(log, r) }
//@fn fx "RawDeserializeVisitor for BigVisitor::new" props=C13
//@at start
    proof { broadcast use axiom_value_at; lemma_chain0::<State>(init(), steps()); }
//@at after tail
    proof { assert(vx_r.vx_state().subs =~= init().subs); }
//@end
//@fn fx "RawDeserializeVisitor for BigVisitor::finalize" props=C13
//@at start
    broadcast use {lemma_took, axiom_value_at};
    proof {
        assert(took(self.vx_log@, init(), steps(), self.vx_state()));
        assert forall|r: Result<Big, VisitorError>| #[trigger] filled(self.vx_state(), r) implies <Self as RawDeserializeVisitor>::finished(self.log(), default, r) by {}
    }
//@end
}
impl Deserialize for Big {
    open spec fn reads(src: Src, i: int, r: Result<Self, VisitorError>) -> bool {
        ||| exists|log: Seq<Entry>| #[trigger] visited(src, i, log) && finished(log, r)
        ||| r is Err && r->Err_0 is Propagate && exists|log: Seq<Entry>, s: State| #[trigger] visit_failed(src, i, log, r->Err_0->Propagate_0) && #[trigger] took(log, init(), steps(), s)
    }
//@fn fx "Deserialize for Big::deserialize" props=C13
//@at start
    broadcast use {lemma_visited, axiom_value_at, lemma_took};
//@end
}
}

// ------------------------------------------------------------------- Defaults
pub struct Defaults { pub z: i32, pub y: Vec<Tracked>, pub x: Tracked, pub w: Tracked, pub v: Option<Tracked>, pub big: Big, pub u: Option<Big>, pub t: bool }
pub mod Defaults_code {
use super::*;
/// One slot of memory per field the struct fills itself.
pub struct DefaultsOut<'out> { pub z: &'out mut MaybeUninit<i32>, pub y: &'out mut MaybeUninit<Vec<Tracked>>, pub x: &'out mut MaybeUninit<Tracked>, pub w: &'out mut MaybeUninit<Tracked>, pub v: &'out mut MaybeUninit<Option<Tracked>>, pub big: &'out mut MaybeUninit<Big>, pub u: &'out mut MaybeUninit<Option<Big>>, pub t: &'out mut MaybeUninit<bool> }
pub struct Places<'out> { pub out: DefaultsOut<'out> }
/// What the struct's own memory holds once its fields hold these.
pub open spec fn assembled(z: Option<i32>, y: Option<Vec<Tracked>>, x: Option<Tracked>, w: Option<Tracked>, v: Option<Option<Tracked>>, big: Option<Big>, u: Option<Option<Big>>, t: Option<bool>) -> Option<Defaults> {
    if z is Some && y is Some && x is Some && w is Some && v is Some && big is Some && u is Some && t is Some { Some(Defaults { z: z.unwrap(), y: y.unwrap(), x: x.unwrap(), w: w.unwrap(), v: v.unwrap(), big: big.unwrap(), u: u.unwrap(), t: t.unwrap() }) } else { None }
}
#[verifier::external_body]
pub fn vx_split<'out>(out: &'out mut MaybeUninit<Defaults>) -> (p: Places<'out>)
    requires old(out)@ is None
    ensures (*p.out.z)@ is None, (*p.out.y)@ is None, (*p.out.x)@ is None, (*p.out.w)@ is None, (*p.out.v)@ is None, (*p.out.big)@ is None, (*p.out.u)@ is None, (*p.out.t)@ is None, final(out)@ == assembled(final(p.out.z)@, final(p.out.y)@, final(p.out.x)@, final(p.out.w)@, final(p.out.v)@, final(p.out.big)@, final(p.out.u)@, final(p.out.t)@)
{ unimplemented!() }
pub ghost struct State { pub z: Option<i32>, pub y: Option<Vec<Tracked>>, pub x: Option<Tracked>, pub w: Option<Tracked>, pub v: Option<Option<Tracked>>, pub big: Option<Big>, pub u: Option<Option<Big>>, pub t: Option<bool>, pub subs: Seq<Seq<Entry>> }
pub open spec fn init() -> State { State { z: None, y: None, x: None, w: None, v: None, big: None, u: None, t: None, subs: Seq::<Seq<Entry>>::empty() } }
/// The field an entry is for.
pub open spec fn field_of(e: Entry) -> int {
    if is_elem(e, ""@, "z"@) { 0 } else if is_elem(e, ""@, "y"@) { 1 } else if is_attr(e, ""@, "x"@) { 2 } else if is_elem(e, ""@, "w"@) { 3 } else if is_attr(e, ""@, "v"@) { 4 } else if is_elem(e, ""@, "big"@) { 5 } else if is_elem(e, ""@, "u"@) { 6 } else if is_attr(e, ""@, "t"@) { 7 } else { -1 }
}
/// An entry takes the struct from `a` to `b`.
pub open spec fn step(a: State, b: State, e: Entry) -> bool {
    &&& if field_of(e) == 0 { elem_step(a.z, b.z, e) } else { b.z == a.z }
    &&& if field_of(e) == 1 { elem_step(a.y, b.y, e) } else { b.y == a.y }
    &&& if field_of(e) == 2 { attr_step(a.x, b.x, e) } else { b.x == a.x }
    &&& if field_of(e) == 3 { elem_step(a.w, b.w, e) } else { b.w == a.w }
    &&& if field_of(e) == 4 { attr_step(a.v, b.v, e) } else { b.v == a.v }
    &&& if field_of(e) == 5 { elem_step(a.big, b.big, e) } else { b.big == a.big }
    &&& if field_of(e) == 6 { elem_step(a.u, b.u, e) } else { b.u == a.u }
    &&& if field_of(e) == 7 { attr_step(a.t, b.t, e) } else { b.t == a.t }
    &&& if field_of(e) >= 0 { b.subs == a.subs } else { routed(a.subs, b.subs, e) }
}
pub open spec fn steps() -> spec_fn(State, State, Entry) -> bool { |a: State, b: State, e: Entry| step(a, b, e) }
/// What becomes of the struct after its last entry.
pub open spec fn filled(s: State, r: Result<Defaults, VisitorError>) -> bool {
    match r {
        Ok(v) => {
            &&& default_value(s.z, v.z)
            &&& default_value(s.y, v.y)
            &&& default_value(s.x, v.x)
            &&& default_value(s.w, v.w)
            &&& attr_value(s.v, v.v)
            &&& default_value(s.big, v.big)
            &&& default_value(s.u, v.u)
            &&& default_value(s.t, v.t)

        }
        Err(e) => {
            ||| attr_missing(s.v, e)

        }
    }
}
pub open spec fn finished(log: Seq<Entry>, r: Result<Defaults, VisitorError>) -> bool {
    exists|s: State| #[trigger] took(log, init(), steps(), s) && filled(s, r)
}
//@fn fx Defaults_ELEMENTS props=C11,C13 nocanary=1
    ensures names_sorted(r@), r@.len() == 5, //# C11,C13
        name_of(r@[0]) == (""@, "big"@), //# C11,C13
        name_of(r@[1]) == (""@, "u"@), //# C11,C13
        name_of(r@[2]) == (""@, "w"@), //# C11,C13
        name_of(r@[3]) == (""@, "y"@), //# C11,C13
        name_of(r@[4]) == (""@, "z"@), //# C11,C13
        (""@, "big"@) != (""@, "u"@),
        (""@, "big"@) != (""@, "w"@),
        (""@, "u"@) != (""@, "w"@),
        (""@, "big"@) != (""@, "y"@),
        (""@, "u"@) != (""@, "y"@),
        (""@, "w"@) != (""@, "y"@),
        (""@, "big"@) != (""@, "z"@),
        (""@, "u"@) != (""@, "z"@),
        (""@, "w"@) != (""@, "z"@),
        (""@, "y"@) != (""@, "z"@),
//@at start
    proof {
        reveal(names_sorted);
        reveal_strlit("");
        reveal_strlit("big");
        reveal_strlit("u");
        reveal_strlit("w");
        reveal_strlit("y");
        reveal_strlit("z");
        lemma_str_lt_at("big"@, "u"@, 0);
        lemma_str_lt_at("big"@, "w"@, 0);
        lemma_str_lt_at("u"@, "w"@, 0);
        lemma_str_lt_at("big"@, "y"@, 0);
        lemma_str_lt_at("u"@, "y"@, 0);
        lemma_str_lt_at("w"@, "y"@, 0);
        lemma_str_lt_at("big"@, "z"@, 0);
        lemma_str_lt_at("u"@, "z"@, 0);
        lemma_str_lt_at("w"@, "z"@, 0);
        lemma_str_lt_at("y"@, "z"@, 0);
    }
//@end
//@fn fx Defaults_ATTRIBUTES props=C11,C13 nocanary=1
    ensures names_sorted(r@), r@.len() == 3, //# C11,C13
        name_of(r@[0]) == (""@, "t"@), //# C11,C13
        name_of(r@[1]) == (""@, "v"@), //# C11,C13
        name_of(r@[2]) == (""@, "x"@), //# C11,C13
        (""@, "t"@) != (""@, "v"@),
        (""@, "t"@) != (""@, "x"@),
        (""@, "v"@) != (""@, "x"@),
//@at start
    proof {
        reveal(names_sorted);
        reveal_strlit("");
        reveal_strlit("t");
        reveal_strlit("v");
        reveal_strlit("x");
        lemma_str_lt_at("t"@, "v"@, 0);
        lemma_str_lt_at("t"@, "x"@, 0);
        lemma_str_lt_at("v"@, "x"@, 0);
    }
//@end
//@item fx struct DefaultsVisitor
impl<'out> DefaultsVisitor<'out> {
    pub closed spec fn vx_state(&self) -> State { State { z: (*self.out.z)@, y: (*self.out.y)@, x: (*self.out.x)@, w: (*self.out.w)@, v: (*self.out.v)@, big: (*self.out.big)@, u: (*self.out.u)@, t: (*self.out.t)@, subs: Seq::<Seq<Entry>>::empty() } }
    pub closed spec fn vx_ok(&self) -> bool { self.vx_present_0 == (*self.out.z)@ is Some && self.vx_present_1 == (*self.out.y)@ is Some && self.vx_present_2 == (*self.out.x)@ is Some && self.vx_present_3 == (*self.out.w)@ is Some && self.vx_present_4 == (*self.out.v)@ is Some && self.vx_present_5 == (*self.out.big)@ is Some && self.vx_present_6 == (*self.out.u)@ is Some && self.vx_present_7 == (*self.out.t)@ is Some }
    #[verifier::prophetic]
    pub closed spec fn vx_place(&self) -> Place { place_of(assembled(final(self.out.z)@, final(self.out.y)@, final(self.out.x)@, final(self.out.w)@, final(self.out.v)@, final(self.out.big)@, final(self.out.u)@, final(self.out.t)@)) }
//@fn fx "ElementVisitor for DefaultsVisitor::element" rename=vx_element props=C13
    requires old(self).vx_ok(), fresh(child),
    ensures
        final(self).vx_ok(), final(self).vx_log == old(self).vx_log, final(self).vx_hist == old(self).vx_hist,
        final(self).vx_place() == old(self).vx_place(),
        step(old(self).vx_state(), final(self).vx_state(), Entry { call: Call::Elem { src: at(child).src, at: at(child).idx }, answer: answer_element(r) }), //# C13
        match r {
            // passed on: the very same child, untouched
            Ok(Some(c)) => c == child && (has_resolved(r) ==> has_resolved(c.reader))
                && (has_resolved(c.reader) ==> final(c.reader).st() == (*c.reader).st()),
            _ => advanced(old(child.reader).st(), final(child.reader).st(), child.stack_pos as int),
        },
//@at start
    broadcast use lemma_child_name;
//@end
//@fn fx "ElementVisitor for DefaultsVisitor::attribute" rename=vx_attribute props=C13
    requires old(self).vx_ok(),
    ensures
        final(self).vx_ok(), final(self).vx_log == old(self).vx_log, final(self).vx_hist == old(self).vx_hist,
        final(self).vx_place() == old(self).vx_place(),
        step(old(self).vx_state(), final(self).vx_state(), Entry { call: Call::Attr { ns: name.namespace@, local: name.local_name@, value: value@ }, answer: answer_text(r) }), //# C13
//@end
}
impl<'out> ElementVisitor for DefaultsVisitor<'out> {
    closed spec fn log(&self) -> Seq<Entry> { self.vx_log@ }
    closed spec fn inv(&self) -> bool { self.vx_ok() && chain(self.vx_hist@, self.vx_log@, init(), steps()) && self.vx_hist@.last() == self.vx_state() }
    #[verifier::prophetic]
    closed spec fn place(&self) -> Place { self.vx_place() }
    fn attribute(&mut self, name: &ExpandedNameRef<'_>, value: String) -> (r: Result<Option<String>, VisitorError>) {
        let r = self.vx_attribute(name, value);
        proof {
            let e = Entry { call: Call::Attr { ns: name.namespace@, local: name.local_name@, value: value@ }, answer: answer_text(r) };
            lemma_chain(self.vx_hist@, self.vx_log@, init(), steps(), self.vx_state(), e);
            self.vx_log@ = self.vx_log@.push(e); self.vx_hist@ = self.vx_hist@.push(self.vx_state());
        }
        r
    }
    fn element<'a>(&mut self, child: ElementReader<'a>) -> (r: Result<Option<ElementReader<'a>>, VisitorError>) {
        let r = self.vx_element(child);
        proof {
            let e = Entry { call: Call::Elem { src: at(child).src, at: at(child).idx }, answer: answer_element(r) };
            lemma_chain(self.vx_hist@, self.vx_log@, init(), steps(), self.vx_state(), e);
            self.vx_log@ = self.vx_log@.push(e); self.vx_hist@ = self.vx_hist@.push(self.vx_state());
        }
        r
    }
    fn characters(&mut self, s: String, p: TextPosition) -> (r: Result<Option<String>, BoxedStdError>) {
        let r = { let mut d = VxDefault { log: Ghost(Seq::empty()) }; d.characters(s, p) };
        proof {
            let e = Entry { call: Call::Chars { s: s@, pos: p }, answer: answer_chars(r) };
            lemma_chain(self.vx_hist@, self.vx_log@, init(), steps(), self.vx_state(), e);
            self.vx_log@ = self.vx_log@.push(e); self.vx_hist@ = self.vx_hist@.push(self.vx_state());
        }
        r
    }
}
impl<'out> RawDeserializeVisitor<'out> for DefaultsVisitor<'out> {
    type Out = Defaults;
    open spec fn finished(log: Seq<Entry>, default: Option<VxFn<Defaults>>, r: Result<Defaults, VisitorError>) -> bool { finished(log, r) }
//@fn fx "RawDeserializeVisitor for DefaultsVisitor::new" props=C13
//@at start
    proof { broadcast use axiom_value_at; lemma_chain0::<State>(init(), steps()); }
//@at after tail
    proof { assert(vx_r.vx_state().subs =~= init().subs); }
//@end
//@fn fx "RawDeserializeVisitor for DefaultsVisitor::finalize" props=C13
//@at start
    broadcast use {lemma_took, axiom_value_at};
    proof {
        assert(took(self.vx_log@, init(), steps(), self.vx_state()));
        assert forall|r: Result<Defaults, VisitorError>| #[trigger] filled(self.vx_state(), r) implies <Self as RawDeserializeVisitor>::finished(self.log(), default, r) by {}
    }
//@end
}
impl Deserialize for Defaults {
    open spec fn reads(src: Src, i: int, r: Result<Self, VisitorError>) -> bool {
        ||| exists|log: Seq<Entry>| #[trigger] visited(src, i, log) && finished(log, r)
        ||| r is Err && r->Err_0 is Propagate && exists|log: Seq<Entry>, s: State| #[trigger] visit_failed(src, i, log, r->Err_0->Propagate_0) && #[trigger] took(log, init(), steps(), s)
    }
//@fn fx "Deserialize for Defaults::deserialize" props=C13
//@at start
    broadcast use {lemma_visited, axiom_value_at, lemma_took};
//@end
}
}

// ------------------------------------------------------------------- Spaced
pub struct Spaced { pub x: String, pub x2: String, pub x3: Option<String>, pub p: i32, pub p2: Option<i32>, pub q: Option<String> }
pub mod Spaced_code {
use super::*;
/// One slot of memory per field the struct fills itself.
pub struct SpacedOut<'out> { pub x: &'out mut MaybeUninit<String>, pub x2: &'out mut MaybeUninit<String>, pub x3: &'out mut MaybeUninit<Option<String>>, pub p: &'out mut MaybeUninit<i32>, pub p2: &'out mut MaybeUninit<Option<i32>>, pub q: &'out mut MaybeUninit<Option<String>> }
pub struct Places<'out> { pub out: SpacedOut<'out> }
/// What the struct's own memory holds once its fields hold these.
pub open spec fn assembled(x: Option<String>, x2: Option<String>, x3: Option<Option<String>>, p: Option<i32>, p2: Option<Option<i32>>, q: Option<Option<String>>) -> Option<Spaced> {
    if x is Some && x2 is Some && x3 is Some && p is Some && p2 is Some && q is Some { Some(Spaced { x: x.unwrap(), x2: x2.unwrap(), x3: x3.unwrap(), p: p.unwrap(), p2: p2.unwrap(), q: q.unwrap() }) } else { None }
}
#[verifier::external_body]
pub fn vx_split<'out>(out: &'out mut MaybeUninit<Spaced>) -> (p: Places<'out>)
    requires old(out)@ is None
    ensures (*p.out.x)@ is None, (*p.out.x2)@ is None, (*p.out.x3)@ is None, (*p.out.p)@ is None, (*p.out.p2)@ is None, (*p.out.q)@ is None, final(out)@ == assembled(final(p.out.x)@, final(p.out.x2)@, final(p.out.x3)@, final(p.out.p)@, final(p.out.p2)@, final(p.out.q)@)
{ unimplemented!() }
pub ghost struct State { pub x: Option<String>, pub x2: Option<String>, pub x3: Option<Option<String>>, pub p: Option<i32>, pub p2: Option<Option<i32>>, pub q: Option<Option<String>>, pub subs: Seq<Seq<Entry>> }
pub open spec fn init() -> State { State { x: None, x2: None, x3: None, p: None, p2: None, q: None, subs: Seq::<Seq<Entry>>::empty() } }
/// The field an entry is for.
pub open spec fn field_of(e: Entry) -> int {
    if is_elem(e, "urn:a"@, "x"@) { 0 } else if is_elem(e, "urn:b"@, "x"@) { 1 } else if is_elem(e, ""@, "x"@) { 2 } else if is_attr(e, "urn:b"@, "p"@) { 3 } else if is_attr(e, ""@, "p"@) { 4 } else if is_attr(e, "http://www.w3.org/XML/1998/namespace"@, "lang"@) { 5 } else { -1 }
}
/// An entry takes the struct from `a` to `b`.
pub open spec fn step(a: State, b: State, e: Entry) -> bool {
    &&& if field_of(e) == 0 { elem_step(a.x, b.x, e) } else { b.x == a.x }
    &&& if field_of(e) == 1 { elem_step(a.x2, b.x2, e) } else { b.x2 == a.x2 }
    &&& if field_of(e) == 2 { elem_step(a.x3, b.x3, e) } else { b.x3 == a.x3 }
    &&& if field_of(e) == 3 { attr_step(a.p, b.p, e) } else { b.p == a.p }
    &&& if field_of(e) == 4 { attr_step(a.p2, b.p2, e) } else { b.p2 == a.p2 }
    &&& if field_of(e) == 5 { attr_step(a.q, b.q, e) } else { b.q == a.q }
    &&& if field_of(e) >= 0 { b.subs == a.subs } else { routed(a.subs, b.subs, e) }
}
pub open spec fn steps() -> spec_fn(State, State, Entry) -> bool { |a: State, b: State, e: Entry| step(a, b, e) }
/// What becomes of the struct after its last entry.
pub open spec fn filled(s: State, r: Result<Spaced, VisitorError>) -> bool {
    match r {
        Ok(v) => {
            &&& elem_value(s.x, v.x)
            &&& elem_value(s.x2, v.x2)
            &&& elem_value(s.x3, v.x3)
            &&& attr_value(s.p, v.p)
            &&& attr_value(s.p2, v.p2)
            &&& attr_value(s.q, v.q)

        }
        Err(e) => {
            ||| elem_missing(s.x, e)
            ||| elem_missing(s.x2, e)
            ||| elem_missing(s.x3, e)
            ||| attr_missing(s.p, e)
            ||| attr_missing(s.p2, e)
            ||| attr_missing(s.q, e)

        }
    }
}
pub open spec fn finished(log: Seq<Entry>, r: Result<Spaced, VisitorError>) -> bool {
    exists|s: State| #[trigger] took(log, init(), steps(), s) && filled(s, r)
}
//@fn fx Spaced_ELEMENTS props=C11,C13 nocanary=1
    ensures names_sorted(r@), r@.len() == 3, //# C11,C13
        name_of(r@[0]) == (""@, "x"@), //# C11,C13
        name_of(r@[1]) == ("urn:a"@, "x"@), //# C11,C13
        name_of(r@[2]) == ("urn:b"@, "x"@), //# C11,C13
        (""@, "x"@) != ("urn:a"@, "x"@),
        (""@, "x"@) != ("urn:b"@, "x"@),
        ("urn:a"@, "x"@) != ("urn:b"@, "x"@),
//@at start
    proof {
        reveal(names_sorted);
        reveal_strlit("");
        reveal_strlit("urn:a");
        reveal_strlit("urn:b");
        reveal_strlit("x");
        lemma_str_lt_at(""@, "urn:a"@, 0);
        lemma_str_lt_at(""@, "urn:b"@, 0);
        lemma_str_lt_at("urn:a"@, "urn:b"@, 4);
    }
//@end
//@fn fx Spaced_ATTRIBUTES props=C11,C13 nocanary=1
    ensures names_sorted(r@), r@.len() == 3, //# C11,C13
        name_of(r@[0]) == (""@, "p"@), //# C11,C13
        name_of(r@[1]) == ("http://www.w3.org/XML/1998/namespace"@, "lang"@), //# C11,C13
        name_of(r@[2]) == ("urn:b"@, "p"@), //# C11,C13
        (""@, "p"@) != ("http://www.w3.org/XML/1998/namespace"@, "lang"@),
        (""@, "p"@) != ("urn:b"@, "p"@),
        ("http://www.w3.org/XML/1998/namespace"@, "lang"@) != ("urn:b"@, "p"@),
//@at start
    proof {
        reveal(names_sorted);
        reveal_strlit("");
        reveal_strlit("http://www.w3.org/XML/1998/namespace");
        reveal_strlit("lang");
        reveal_strlit("p");
        reveal_strlit("urn:b");
        lemma_str_lt_at(""@, "http://www.w3.org/XML/1998/namespace"@, 0);
        lemma_str_lt_at(""@, "urn:b"@, 0);
        lemma_str_lt_at("http://www.w3.org/XML/1998/namespace"@, "urn:b"@, 0);
    }
//@end
//@item fx struct SpacedVisitor
impl<'out> SpacedVisitor<'out> {
    pub closed spec fn vx_state(&self) -> State { State { x: (*self.out.x)@, x2: (*self.out.x2)@, x3: (*self.out.x3)@, p: (*self.out.p)@, p2: (*self.out.p2)@, q: (*self.out.q)@, subs: Seq::<Seq<Entry>>::empty() } }
    pub closed spec fn vx_ok(&self) -> bool { self.vx_present_0 == (*self.out.x)@ is Some && self.vx_present_1 == (*self.out.x2)@ is Some && self.vx_present_2 == (*self.out.x3)@ is Some && self.vx_present_3 == (*self.out.p)@ is Some && self.vx_present_4 == (*self.out.p2)@ is Some && self.vx_present_5 == (*self.out.q)@ is Some }
    #[verifier::prophetic]
    pub closed spec fn vx_place(&self) -> Place { place_of(assembled(final(self.out.x)@, final(self.out.x2)@, final(self.out.x3)@, final(self.out.p)@, final(self.out.p2)@, final(self.out.q)@)) }
//@fn fx "ElementVisitor for SpacedVisitor::element" rename=vx_element props=C13
    requires old(self).vx_ok(), fresh(child),
    ensures
        final(self).vx_ok(), final(self).vx_log == old(self).vx_log, final(self).vx_hist == old(self).vx_hist,
        final(self).vx_place() == old(self).vx_place(),
        step(old(self).vx_state(), final(self).vx_state(), Entry { call: Call::Elem { src: at(child).src, at: at(child).idx }, answer: answer_element(r) }), //# C13
        match r {
            // passed on: the very same child, untouched
            Ok(Some(c)) => c == child && (has_resolved(r) ==> has_resolved(c.reader))
                && (has_resolved(c.reader) ==> final(c.reader).st() == (*c.reader).st()),
            _ => advanced(old(child.reader).st(), final(child.reader).st(), child.stack_pos as int),
        },
//@at start
    broadcast use lemma_child_name;
//@end
//@fn fx "ElementVisitor for SpacedVisitor::attribute" rename=vx_attribute props=C13
    requires old(self).vx_ok(),
    ensures
        final(self).vx_ok(), final(self).vx_log == old(self).vx_log, final(self).vx_hist == old(self).vx_hist,
        final(self).vx_place() == old(self).vx_place(),
        step(old(self).vx_state(), final(self).vx_state(), Entry { call: Call::Attr { ns: name.namespace@, local: name.local_name@, value: value@ }, answer: answer_text(r) }), //# C13
//@end
}
impl<'out> ElementVisitor for SpacedVisitor<'out> {
    closed spec fn log(&self) -> Seq<Entry> { self.vx_log@ }
    closed spec fn inv(&self) -> bool { self.vx_ok() && chain(self.vx_hist@, self.vx_log@, init(), steps()) && self.vx_hist@.last() == self.vx_state() }
    #[verifier::prophetic]
    closed spec fn place(&self) -> Place { self.vx_place() }
    fn attribute(&mut self, name: &ExpandedNameRef<'_>, value: String) -> (r: Result<Option<String>, VisitorError>) {
        let r = self.vx_attribute(name, value);
        proof {
            let e = Entry { call: Call::Attr { ns: name.namespace@, local: name.local_name@, value: value@ }, answer: answer_text(r) };
            lemma_chain(self.vx_hist@, self.vx_log@, init(), steps(), self.vx_state(), e);
            self.vx_log@ = self.vx_log@.push(e); self.vx_hist@ = self.vx_hist@.push(self.vx_state());
        }
        r
    }
    fn element<'a>(&mut self, child: ElementReader<'a>) -> (r: Result<Option<ElementReader<'a>>, VisitorError>) {
        let r = self.vx_element(child);
        proof {
            let e = Entry { call: Call::Elem { src: at(child).src, at: at(child).idx }, answer: answer_element(r) };
            lemma_chain(self.vx_hist@, self.vx_log@, init(), steps(), self.vx_state(), e);
            self.vx_log@ = self.vx_log@.push(e); self.vx_hist@ = self.vx_hist@.push(self.vx_state());
        }
        r
    }
    fn characters(&mut self, s: String, p: TextPosition) -> (r: Result<Option<String>, BoxedStdError>) {
        let r = { let mut d = VxDefault { log: Ghost(Seq::empty()) }; d.characters(s, p) };
        proof {
            let e = Entry { call: Call::Chars { s: s@, pos: p }, answer: answer_chars(r) };
            lemma_chain(self.vx_hist@, self.vx_log@, init(), steps(), self.vx_state(), e);
            self.vx_log@ = self.vx_log@.push(e); self.vx_hist@ = self.vx_hist@.push(self.vx_state());
        }
        r
    }
}
impl<'out> RawDeserializeVisitor<'out> for SpacedVisitor<'out> {
    type Out = Spaced;
    open spec fn finished(log: Seq<Entry>, default: Option<VxFn<Spaced>>, r: Result<Spaced, VisitorError>) -> bool { finished(log, r) }
//@fn fx "RawDeserializeVisitor for SpacedVisitor::new" props=C13
//@at start
    proof { broadcast use axiom_value_at; lemma_chain0::<State>(init(), steps()); }
//@at after tail
    proof { assert(vx_r.vx_state().subs =~= init().subs); }
//@end
//@fn fx "RawDeserializeVisitor for SpacedVisitor::finalize" props=C13
//@at start
    broadcast use {lemma_took, axiom_value_at};
    proof {
        assert(took(self.vx_log@, init(), steps(), self.vx_state()));
        assert forall|r: Result<Spaced, VisitorError>| #[trigger] filled(self.vx_state(), r) implies <Self as RawDeserializeVisitor>::finished(self.log(), default, r) by {}
    }
//@end
}
impl Deserialize for Spaced {
    open spec fn reads(src: Src, i: int, r: Result<Self, VisitorError>) -> bool {
        ||| exists|log: Seq<Entry>| #[trigger] visited(src, i, log) && finished(log, r)
        ||| r is Err && r->Err_0 is Propagate && exists|log: Seq<Entry>, s: State| #[trigger] visit_failed(src, i, log, r->Err_0->Propagate_0) && #[trigger] took(log, init(), steps(), s)
    }
//@fn fx "Deserialize for Spaced::deserialize" props=C13
//@at start
    broadcast use {lemma_visited, axiom_value_at, lemma_took};
//@end
}
}

// ------------------------------------------------------------------- Defaulted
pub struct Defaulted { pub a: String, pub ab: Vec<i32>, pub b: Color, pub a2: Option<Color>, pub c: Option<i32>, pub c2: Option<i32> }
pub mod Defaulted_code {
use super::*;
/// One slot of memory per field the struct fills itself.
pub struct DefaultedOut<'out> { pub a: &'out mut MaybeUninit<String>, pub ab: &'out mut MaybeUninit<Vec<i32>>, pub b: &'out mut MaybeUninit<Color>, pub a2: &'out mut MaybeUninit<Option<Color>>, pub c: &'out mut MaybeUninit<Option<i32>>, pub c2: &'out mut MaybeUninit<Option<i32>> }
pub struct Places<'out> { pub out: DefaultedOut<'out> }
/// What the struct's own memory holds once its fields hold these.
pub open spec fn assembled(a: Option<String>, ab: Option<Vec<i32>>, b: Option<Color>, a2: Option<Option<Color>>, c: Option<Option<i32>>, c2: Option<Option<i32>>) -> Option<Defaulted> {
    if a is Some && ab is Some && b is Some && a2 is Some && c is Some && c2 is Some { Some(Defaulted { a: a.unwrap(), ab: ab.unwrap(), b: b.unwrap(), a2: a2.unwrap(), c: c.unwrap(), c2: c2.unwrap() }) } else { None }
}
#[verifier::external_body]
pub fn vx_split<'out>(out: &'out mut MaybeUninit<Defaulted>) -> (p: Places<'out>)
    requires old(out)@ is None
    ensures (*p.out.a)@ is None, (*p.out.ab)@ is None, (*p.out.b)@ is None, (*p.out.a2)@ is None, (*p.out.c)@ is None, (*p.out.c2)@ is None, final(out)@ == assembled(final(p.out.a)@, final(p.out.ab)@, final(p.out.b)@, final(p.out.a2)@, final(p.out.c)@, final(p.out.c2)@)
{ unimplemented!() }
pub ghost struct State { pub a: Option<String>, pub ab: Option<Vec<i32>>, pub b: Option<Color>, pub a2: Option<Option<Color>>, pub c: Option<Option<i32>>, pub c2: Option<Option<i32>>, pub subs: Seq<Seq<Entry>> }
pub open spec fn init() -> State { State { a: None, ab: None, b: None, a2: None, c: None, c2: None, subs: Seq::<Seq<Entry>>::empty() } }
/// The field an entry is for.
pub open spec fn field_of(e: Entry) -> int {
    if is_elem(e, "urn:d"@, "a"@) { 0 } else if is_elem(e, "urn:d"@, "ab"@) { 1 } else if is_attr(e, ""@, "b"@) { 2 } else if is_attr(e, ""@, "a"@) { 3 } else if is_attr(e, "urn:d"@, "c"@) { 4 } else if is_attr(e, ""@, "c"@) { 5 } else { -1 }
}
/// An entry takes the struct from `a` to `b`.
pub open spec fn step(a: State, b: State, e: Entry) -> bool {
    &&& if field_of(e) == 0 { elem_step(a.a, b.a, e) } else { b.a == a.a }
    &&& if field_of(e) == 1 { elem_step(a.ab, b.ab, e) } else { b.ab == a.ab }
    &&& if field_of(e) == 2 { attr_step(a.b, b.b, e) } else { b.b == a.b }
    &&& if field_of(e) == 3 { attr_step(a.a2, b.a2, e) } else { b.a2 == a.a2 }
    &&& if field_of(e) == 4 { attr_step(a.c, b.c, e) } else { b.c == a.c }
    &&& if field_of(e) == 5 { attr_step(a.c2, b.c2, e) } else { b.c2 == a.c2 }
    &&& if field_of(e) >= 0 { b.subs == a.subs } else { routed(a.subs, b.subs, e) }
}
pub open spec fn steps() -> spec_fn(State, State, Entry) -> bool { |a: State, b: State, e: Entry| step(a, b, e) }
/// What becomes of the struct after its last entry.
pub open spec fn filled(s: State, r: Result<Defaulted, VisitorError>) -> bool {
    match r {
        Ok(v) => {
            &&& elem_value(s.a, v.a)
            &&& elem_value(s.ab, v.ab)
            &&& attr_value(s.b, v.b)
            &&& attr_value(s.a2, v.a2)
            &&& attr_value(s.c, v.c)
            &&& attr_value(s.c2, v.c2)

        }
        Err(e) => {
            ||| elem_missing(s.a, e)
            ||| elem_missing(s.ab, e)
            ||| attr_missing(s.b, e)
            ||| attr_missing(s.a2, e)
            ||| attr_missing(s.c, e)
            ||| attr_missing(s.c2, e)

        }
    }
}
pub open spec fn finished(log: Seq<Entry>, r: Result<Defaulted, VisitorError>) -> bool {
    exists|s: State| #[trigger] took(log, init(), steps(), s) && filled(s, r)
}
//@fn fx Defaulted_ELEMENTS props=C11,C13 nocanary=1
    ensures names_sorted(r@), r@.len() == 2, //# C11,C13
        name_of(r@[0]) == ("urn:d"@, "a"@), //# C11,C13
        name_of(r@[1]) == ("urn:d"@, "ab"@), //# C11,C13
        ("urn:d"@, "a"@) != ("urn:d"@, "ab"@),
//@at start
    proof {
        reveal(names_sorted);
        reveal_strlit("a");
        reveal_strlit("ab");
        reveal_strlit("urn:d");
        lemma_str_lt_at("a"@, "ab"@, 1);
    }
//@end
//@fn fx Defaulted_ATTRIBUTES props=C11,C13 nocanary=1
    ensures names_sorted(r@), r@.len() == 4, //# C11,C13
        name_of(r@[0]) == (""@, "a"@), //# C11,C13
        name_of(r@[1]) == (""@, "b"@), //# C11,C13
        name_of(r@[2]) == (""@, "c"@), //# C11,C13
        name_of(r@[3]) == ("urn:d"@, "c"@), //# C11,C13
        (""@, "a"@) != (""@, "b"@),
        (""@, "a"@) != (""@, "c"@),
        (""@, "b"@) != (""@, "c"@),
        (""@, "a"@) != ("urn:d"@, "c"@),
        (""@, "b"@) != ("urn:d"@, "c"@),
        (""@, "c"@) != ("urn:d"@, "c"@),
//@at start
    proof {
        reveal(names_sorted);
        reveal_strlit("");
        reveal_strlit("a");
        reveal_strlit("b");
        reveal_strlit("c");
        reveal_strlit("urn:d");
        lemma_str_lt_at("a"@, "b"@, 0);
        lemma_str_lt_at("a"@, "c"@, 0);
        lemma_str_lt_at("b"@, "c"@, 0);
        lemma_str_lt_at(""@, "urn:d"@, 0);
        lemma_str_lt_at(""@, "urn:d"@, 0);
        lemma_str_lt_at(""@, "urn:d"@, 0);
    }
//@end
//@item fx struct DefaultedVisitor
impl<'out> DefaultedVisitor<'out> {
    pub closed spec fn vx_state(&self) -> State { State { a: (*self.out.a)@, ab: (*self.out.ab)@, b: (*self.out.b)@, a2: (*self.out.a2)@, c: (*self.out.c)@, c2: (*self.out.c2)@, subs: Seq::<Seq<Entry>>::empty() } }
    pub closed spec fn vx_ok(&self) -> bool { self.vx_present_0 == (*self.out.a)@ is Some && self.vx_present_1 == (*self.out.ab)@ is Some && self.vx_present_2 == (*self.out.b)@ is Some && self.vx_present_3 == (*self.out.a2)@ is Some && self.vx_present_4 == (*self.out.c)@ is Some && self.vx_present_5 == (*self.out.c2)@ is Some }
    #[verifier::prophetic]
    pub closed spec fn vx_place(&self) -> Place { place_of(assembled(final(self.out.a)@, final(self.out.ab)@, final(self.out.b)@, final(self.out.a2)@, final(self.out.c)@, final(self.out.c2)@)) }
//@fn fx "ElementVisitor for DefaultedVisitor::element" rename=vx_element props=C13
    requires old(self).vx_ok(), fresh(child),
    ensures
        final(self).vx_ok(), final(self).vx_log == old(self).vx_log, final(self).vx_hist == old(self).vx_hist,
        final(self).vx_place() == old(self).vx_place(),
        step(old(self).vx_state(), final(self).vx_state(), Entry { call: Call::Elem { src: at(child).src, at: at(child).idx }, answer: answer_element(r) }), //# C13
        match r {
            // passed on: the very same child, untouched
            Ok(Some(c)) => c == child && (has_resolved(r) ==> has_resolved(c.reader))
                && (has_resolved(c.reader) ==> final(c.reader).st() == (*c.reader).st()),
            _ => advanced(old(child.reader).st(), final(child.reader).st(), child.stack_pos as int),
        },
//@at start
    broadcast use lemma_child_name;
//@end
//@fn fx "ElementVisitor for DefaultedVisitor::attribute" rename=vx_attribute props=C13
    requires old(self).vx_ok(),
    ensures
        final(self).vx_ok(), final(self).vx_log == old(self).vx_log, final(self).vx_hist == old(self).vx_hist,
        final(self).vx_place() == old(self).vx_place(),
        step(old(self).vx_state(), final(self).vx_state(), Entry { call: Call::Attr { ns: name.namespace@, local: name.local_name@, value: value@ }, answer: answer_text(r) }), //# C13
//@end
}
impl<'out> ElementVisitor for DefaultedVisitor<'out> {
    closed spec fn log(&self) -> Seq<Entry> { self.vx_log@ }
    closed spec fn inv(&self) -> bool { self.vx_ok() && chain(self.vx_hist@, self.vx_log@, init(), steps()) && self.vx_hist@.last() == self.vx_state() }
    #[verifier::prophetic]
    closed spec fn place(&self) -> Place { self.vx_place() }
    fn attribute(&mut self, name: &ExpandedNameRef<'_>, value: String) -> (r: Result<Option<String>, VisitorError>) {
        let r = self.vx_attribute(name, value);
        proof {
            let e = Entry { call: Call::Attr { ns: name.namespace@, local: name.local_name@, value: value@ }, answer: answer_text(r) };
            lemma_chain(self.vx_hist@, self.vx_log@, init(), steps(), self.vx_state(), e);
            self.vx_log@ = self.vx_log@.push(e); self.vx_hist@ = self.vx_hist@.push(self.vx_state());
        }
        r
    }
    fn element<'a>(&mut self, child: ElementReader<'a>) -> (r: Result<Option<ElementReader<'a>>, VisitorError>) {
        let r = self.vx_element(child);
        proof {
            let e = Entry { call: Call::Elem { src: at(child).src, at: at(child).idx }, answer: answer_element(r) };
            lemma_chain(self.vx_hist@, self.vx_log@, init(), steps(), self.vx_state(), e);
            self.vx_log@ = self.vx_log@.push(e); self.vx_hist@ = self.vx_hist@.push(self.vx_state());
        }
        r
    }
    fn characters(&mut self, s: String, p: TextPosition) -> (r: Result<Option<String>, BoxedStdError>) {
        let r = { let mut d = VxDefault { log: Ghost(Seq::empty()) }; d.characters(s, p) };
        proof {
            let e = Entry { call: Call::Chars { s: s@, pos: p }, answer: answer_chars(r) };
            lemma_chain(self.vx_hist@, self.vx_log@, init(), steps(), self.vx_state(), e);
            self.vx_log@ = self.vx_log@.push(e); self.vx_hist@ = self.vx_hist@.push(self.vx_state());
        }
        r
    }
}
impl<'out> RawDeserializeVisitor<'out> for DefaultedVisitor<'out> {
    type Out = Defaulted;
    open spec fn finished(log: Seq<Entry>, default: Option<VxFn<Defaulted>>, r: Result<Defaulted, VisitorError>) -> bool { finished(log, r) }
//@fn fx "RawDeserializeVisitor for DefaultedVisitor::new" props=C13
//@at start
    proof { broadcast use axiom_value_at; lemma_chain0::<State>(init(), steps()); }
//@at after tail
    proof { assert(vx_r.vx_state().subs =~= init().subs); }
//@end
//@fn fx "RawDeserializeVisitor for DefaultedVisitor::finalize" props=C13
//@at start
    broadcast use {lemma_took, axiom_value_at};
    proof {
        assert(took(self.vx_log@, init(), steps(), self.vx_state()));
        assert forall|r: Result<Defaulted, VisitorError>| #[trigger] filled(self.vx_state(), r) implies <Self as RawDeserializeVisitor>::finished(self.log(), default, r) by {}
    }
//@end
}
impl Deserialize for Defaulted {
    open spec fn reads(src: Src, i: int, r: Result<Self, VisitorError>) -> bool {
        ||| exists|log: Seq<Entry>| #[trigger] visited(src, i, log) && finished(log, r)
        ||| r is Err && r->Err_0 is Propagate && exists|log: Seq<Entry>, s: State| #[trigger] visit_failed(src, i, log, r->Err_0->Propagate_0) && #[trigger] took(log, init(), steps(), s)
    }
//@fn fx "Deserialize for Defaulted::deserialize" props=C13
//@at start
    broadcast use {lemma_visited, axiom_value_at, lemma_took};
//@end
}
}

// ------------------------------------------------------------------- Near
pub struct Near { pub ab: i32, pub a: i32, pub abc: Option<i32>, pub aB: Option<i32>, pub b: Vec<i32>, pub a_: Option<i32> }
pub mod Near_code {
use super::*;
/// One slot of memory per field the struct fills itself.
pub struct NearOut<'out> { pub ab: &'out mut MaybeUninit<i32>, pub a: &'out mut MaybeUninit<i32>, pub abc: &'out mut MaybeUninit<Option<i32>>, pub aB: &'out mut MaybeUninit<Option<i32>>, pub b: &'out mut MaybeUninit<Vec<i32>>, pub a_: &'out mut MaybeUninit<Option<i32>> }
pub struct Places<'out> { pub out: NearOut<'out> }
/// What the struct's own memory holds once its fields hold these.
pub open spec fn assembled(ab: Option<i32>, a: Option<i32>, abc: Option<Option<i32>>, aB: Option<Option<i32>>, b: Option<Vec<i32>>, a_: Option<Option<i32>>) -> Option<Near> {
    if ab is Some && a is Some && abc is Some && aB is Some && b is Some && a_ is Some { Some(Near { ab: ab.unwrap(), a: a.unwrap(), abc: abc.unwrap(), aB: aB.unwrap(), b: b.unwrap(), a_: a_.unwrap() }) } else { None }
}
#[verifier::external_body]
pub fn vx_split<'out>(out: &'out mut MaybeUninit<Near>) -> (p: Places<'out>)
    requires old(out)@ is None
    ensures (*p.out.ab)@ is None, (*p.out.a)@ is None, (*p.out.abc)@ is None, (*p.out.aB)@ is None, (*p.out.b)@ is None, (*p.out.a_)@ is None, final(out)@ == assembled(final(p.out.ab)@, final(p.out.a)@, final(p.out.abc)@, final(p.out.aB)@, final(p.out.b)@, final(p.out.a_)@)
{ unimplemented!() }
pub ghost struct State { pub ab: Option<i32>, pub a: Option<i32>, pub abc: Option<Option<i32>>, pub aB: Option<Option<i32>>, pub b: Option<Vec<i32>>, pub a_: Option<Option<i32>>, pub subs: Seq<Seq<Entry>> }
pub open spec fn init() -> State { State { ab: None, a: None, abc: None, aB: None, b: None, a_: None, subs: Seq::<Seq<Entry>>::empty() } }
/// The field an entry is for.
pub open spec fn field_of(e: Entry) -> int {
    if is_elem(e, ""@, "ab"@) { 0 } else if is_elem(e, ""@, "a"@) { 1 } else if is_elem(e, ""@, "abc"@) { 2 } else if is_elem(e, ""@, "aB"@) { 3 } else if is_elem(e, ""@, "b"@) { 4 } else if is_elem(e, ""@, "a_"@) { 5 } else { -1 }
}
/// An entry takes the struct from `a` to `b`.
pub open spec fn step(a: State, b: State, e: Entry) -> bool {
    &&& if field_of(e) == 0 { elem_step(a.ab, b.ab, e) } else { b.ab == a.ab }
    &&& if field_of(e) == 1 { elem_step(a.a, b.a, e) } else { b.a == a.a }
    &&& if field_of(e) == 2 { elem_step(a.abc, b.abc, e) } else { b.abc == a.abc }
    &&& if field_of(e) == 3 { elem_step(a.aB, b.aB, e) } else { b.aB == a.aB }
    &&& if field_of(e) == 4 { elem_step(a.b, b.b, e) } else { b.b == a.b }
    &&& if field_of(e) == 5 { elem_step(a.a_, b.a_, e) } else { b.a_ == a.a_ }
    &&& if field_of(e) >= 0 { b.subs == a.subs } else { routed(a.subs, b.subs, e) }
}
pub open spec fn steps() -> spec_fn(State, State, Entry) -> bool { |a: State, b: State, e: Entry| step(a, b, e) }
/// What becomes of the struct after its last entry.
pub open spec fn filled(s: State, r: Result<Near, VisitorError>) -> bool {
    match r {
        Ok(v) => {
            &&& elem_value(s.ab, v.ab)
            &&& elem_value(s.a, v.a)
            &&& elem_value(s.abc, v.abc)
            &&& elem_value(s.aB, v.aB)
            &&& elem_value(s.b, v.b)
            &&& elem_value(s.a_, v.a_)

        }
        Err(e) => {
            ||| elem_missing(s.ab, e)
            ||| elem_missing(s.a, e)
            ||| elem_missing(s.abc, e)
            ||| elem_missing(s.aB, e)
            ||| elem_missing(s.b, e)
            ||| elem_missing(s.a_, e)

        }
    }
}
pub open spec fn finished(log: Seq<Entry>, r: Result<Near, VisitorError>) -> bool {
    exists|s: State| #[trigger] took(log, init(), steps(), s) && filled(s, r)
}
//@fn fx Near_ELEMENTS props=C11,C13 nocanary=1
    ensures names_sorted(r@), r@.len() == 6, //# C11,C13
        name_of(r@[0]) == (""@, "a"@), //# C11,C13
        name_of(r@[1]) == (""@, "aB"@), //# C11,C13
        name_of(r@[2]) == (""@, "a_"@), //# C11,C13
        name_of(r@[3]) == (""@, "ab"@), //# C11,C13
        name_of(r@[4]) == (""@, "abc"@), //# C11,C13
        name_of(r@[5]) == (""@, "b"@), //# C11,C13
        (""@, "a"@) != (""@, "aB"@),
        (""@, "a"@) != (""@, "a_"@),
        (""@, "aB"@) != (""@, "a_"@),
        (""@, "a"@) != (""@, "ab"@),
        (""@, "aB"@) != (""@, "ab"@),
        (""@, "a_"@) != (""@, "ab"@),
        (""@, "a"@) != (""@, "abc"@),
        (""@, "aB"@) != (""@, "abc"@),
        (""@, "a_"@) != (""@, "abc"@),
        (""@, "ab"@) != (""@, "abc"@),
        (""@, "a"@) != (""@, "b"@),
        (""@, "aB"@) != (""@, "b"@),
        (""@, "a_"@) != (""@, "b"@),
        (""@, "ab"@) != (""@, "b"@),
        (""@, "abc"@) != (""@, "b"@),
//@at start
    proof {
        reveal(names_sorted);
        reveal_strlit("");
        reveal_strlit("a");
        reveal_strlit("aB");
        reveal_strlit("a_");
        reveal_strlit("ab");
        reveal_strlit("abc");
        reveal_strlit("b");
        lemma_str_lt_at("a"@, "aB"@, 1);
        lemma_str_lt_at("a"@, "a_"@, 1);
        lemma_str_lt_at("aB"@, "a_"@, 1);
        lemma_str_lt_at("a"@, "ab"@, 1);
        lemma_str_lt_at("aB"@, "ab"@, 1);
        lemma_str_lt_at("a_"@, "ab"@, 1);
        lemma_str_lt_at("a"@, "abc"@, 1);
        lemma_str_lt_at("aB"@, "abc"@, 1);
        lemma_str_lt_at("a_"@, "abc"@, 1);
        lemma_str_lt_at("ab"@, "abc"@, 2);
        lemma_str_lt_at("a"@, "b"@, 0);
        lemma_str_lt_at("aB"@, "b"@, 0);
        lemma_str_lt_at("a_"@, "b"@, 0);
        lemma_str_lt_at("ab"@, "b"@, 0);
        lemma_str_lt_at("abc"@, "b"@, 0);
    }
//@end
//@fn fx Near_ATTRIBUTES props=C11,C13 nocanary=1
    ensures names_sorted(r@), r@.len() == 0, //# C11,C13
//@at start
    proof {
        reveal(names_sorted);
    }
//@end
//@item fx struct NearVisitor
impl<'out> NearVisitor<'out> {
    pub closed spec fn vx_state(&self) -> State { State { ab: (*self.out.ab)@, a: (*self.out.a)@, abc: (*self.out.abc)@, aB: (*self.out.aB)@, b: (*self.out.b)@, a_: (*self.out.a_)@, subs: Seq::<Seq<Entry>>::empty() } }
    pub closed spec fn vx_ok(&self) -> bool { self.vx_present_0 == (*self.out.ab)@ is Some && self.vx_present_1 == (*self.out.a)@ is Some && self.vx_present_2 == (*self.out.abc)@ is Some && self.vx_present_3 == (*self.out.aB)@ is Some && self.vx_present_4 == (*self.out.b)@ is Some && self.vx_present_5 == (*self.out.a_)@ is Some }
    #[verifier::prophetic]
    pub closed spec fn vx_place(&self) -> Place { place_of(assembled(final(self.out.ab)@, final(self.out.a)@, final(self.out.abc)@, final(self.out.aB)@, final(self.out.b)@, final(self.out.a_)@)) }
//@fn fx "ElementVisitor for NearVisitor::element" rename=vx_element props=C13
    requires old(self).vx_ok(), fresh(child),
    ensures
        final(self).vx_ok(), final(self).vx_log == old(self).vx_log, final(self).vx_hist == old(self).vx_hist,
        final(self).vx_place() == old(self).vx_place(),
        step(old(self).vx_state(), final(self).vx_state(), Entry { call: Call::Elem { src: at(child).src, at: at(child).idx }, answer: answer_element(r) }), //# C13
        match r {
            // passed on: the very same child, untouched
            Ok(Some(c)) => c == child && (has_resolved(r) ==> has_resolved(c.reader))
                && (has_resolved(c.reader) ==> final(c.reader).st() == (*c.reader).st()),
            _ => advanced(old(child.reader).st(), final(child.reader).st(), child.stack_pos as int),
        },
//@at start
    broadcast use lemma_child_name;
//@end
//@fn fx "ElementVisitor for NearVisitor::attribute" rename=vx_attribute props=C13
    requires old(self).vx_ok(),
    ensures
        final(self).vx_ok(), final(self).vx_log == old(self).vx_log, final(self).vx_hist == old(self).vx_hist,
        final(self).vx_place() == old(self).vx_place(),
        step(old(self).vx_state(), final(self).vx_state(), Entry { call: Call::Attr { ns: name.namespace@, local: name.local_name@, value: value@ }, answer: answer_text(r) }), //# C13
//@end
}
impl<'out> ElementVisitor for NearVisitor<'out> {
    closed spec fn log(&self) -> Seq<Entry> { self.vx_log@ }
    closed spec fn inv(&self) -> bool { self.vx_ok() && chain(self.vx_hist@, self.vx_log@, init(), steps()) && self.vx_hist@.last() == self.vx_state() }
    #[verifier::prophetic]
    closed spec fn place(&self) -> Place { self.vx_place() }
    fn attribute(&mut self, name: &ExpandedNameRef<'_>, value: String) -> (r: Result<Option<String>, VisitorError>) {
        let r = self.vx_attribute(name, value);
        proof {
            let e = Entry { call: Call::Attr { ns: name.namespace@, local: name.local_name@, value: value@ }, answer: answer_text(r) };
            lemma_chain(self.vx_hist@, self.vx_log@, init(), steps(), self.vx_state(), e);
            self.vx_log@ = self.vx_log@.push(e); self.vx_hist@ = self.vx_hist@.push(self.vx_state());
        }
        r
    }
    fn element<'a>(&mut self, child: ElementReader<'a>) -> (r: Result<Option<ElementReader<'a>>, VisitorError>) {
        let r = self.vx_element(child);
        proof {
            let e = Entry { call: Call::Elem { src: at(child).src, at: at(child).idx }, answer: answer_element(r) };
            lemma_chain(self.vx_hist@, self.vx_log@, init(), steps(), self.vx_state(), e);
            self.vx_log@ = self.vx_log@.push(e); self.vx_hist@ = self.vx_hist@.push(self.vx_state());
        }
        r
    }
    fn characters(&mut self, s: String, p: TextPosition) -> (r: Result<Option<String>, BoxedStdError>) {
        let r = { let mut d = VxDefault { log: Ghost(Seq::empty()) }; d.characters(s, p) };
        proof {
            let e = Entry { call: Call::Chars { s: s@, pos: p }, answer: answer_chars(r) };
            lemma_chain(self.vx_hist@, self.vx_log@, init(), steps(), self.vx_state(), e);
            self.vx_log@ = self.vx_log@.push(e); self.vx_hist@ = self.vx_hist@.push(self.vx_state());
        }
        r
    }
}
impl<'out> RawDeserializeVisitor<'out> for NearVisitor<'out> {
    type Out = Near;
    open spec fn finished(log: Seq<Entry>, default: Option<VxFn<Near>>, r: Result<Near, VisitorError>) -> bool { finished(log, r) }
//@fn fx "RawDeserializeVisitor for NearVisitor::new" props=C13
//@at start
    proof { broadcast use axiom_value_at; lemma_chain0::<State>(init(), steps()); }
//@at after tail
    proof { assert(vx_r.vx_state().subs =~= init().subs); }
//@end
//@fn fx "RawDeserializeVisitor for NearVisitor::finalize" props=C13
//@at start
    broadcast use {lemma_took, axiom_value_at};
    proof {
        assert(took(self.vx_log@, init(), steps(), self.vx_state()));
        assert forall|r: Result<Near, VisitorError>| #[trigger] filled(self.vx_state(), r) implies <Self as RawDeserializeVisitor>::finished(self.log(), default, r) by {}
    }
//@end
}
impl Deserialize for Near {
    open spec fn reads(src: Src, i: int, r: Result<Self, VisitorError>) -> bool {
        ||| exists|log: Seq<Entry>| #[trigger] visited(src, i, log) && finished(log, r)
        ||| r is Err && r->Err_0 is Propagate && exists|log: Seq<Entry>, s: State| #[trigger] visit_failed(src, i, log, r->Err_0->Propagate_0) && #[trigger] took(log, init(), steps(), s)
    }
//@fn fx "Deserialize for Near::deserialize" props=C13
//@at start
    broadcast use {lemma_visited, axiom_value_at, lemma_took};
//@end
}
}

// ------------------------------------------------------------------- Shape
pub enum Shape { Circle(i32), Square(Plain), Dot, Line(Vec<String>) }
pub mod Shape_code {
use super::*;
pub type State = Option<Shape>;
pub open spec fn init() -> State { None }
/// An entry takes the enum from `a` to `b`.
pub open spec fn step(a: State, b: State, e: Entry) -> bool {
    if is_elem(e, ""@, "Circle"@) {
        match a {
            Some(Shape::Circle(f)) => b is Some && b.unwrap() is Circle && elem_step(Some(f), Some(b.unwrap()->Circle_0), e),
            None => (b is Some ==> b.unwrap() is Circle) && elem_step(None, (if b is Some { Some(b.unwrap()->Circle_0) } else { None }), e),
            // another variant was chosen before
            _ => b == a && e.answer is Failed && e.answer->Failed_0 is Wrap,
        }
    } else if is_elem(e, ""@, "Square"@) {
        match a {
            Some(Shape::Square(f)) => b is Some && b.unwrap() is Square && elem_step(Some(f), Some(b.unwrap()->Square_0), e),
            None => (b is Some ==> b.unwrap() is Square) && elem_step(None, (if b is Some { Some(b.unwrap()->Square_0) } else { None }), e),
            // another variant was chosen before
            _ => b == a && e.answer is Failed && e.answer->Failed_0 is Wrap,
        }
    } else if is_elem(e, ""@, "Dot"@) {
        match a {
            Some(Shape::Dot) => b == a && e.answer is Consumed,
            None => b == Some(Shape::Dot) && e.answer is Consumed,
            // another variant was chosen before
            _ => b == a && e.answer is Failed && e.answer->Failed_0 is Wrap,
        }
    } else if is_elem(e, ""@, "Line"@) {
        match a {
            Some(Shape::Line(f)) => b is Some && b.unwrap() is Line && elem_step(Some(f), Some(b.unwrap()->Line_0), e),
            None => (b is Some ==> b.unwrap() is Line) && elem_step(None, (if b is Some { Some(b.unwrap()->Line_0) } else { None }), e),
            // another variant was chosen before
            _ => b == a && e.answer is Failed && e.answer->Failed_0 is Wrap,
        }
    } else { b == a && e.answer == handed_on(e) }
}
pub open spec fn steps() -> spec_fn(State, State, Entry) -> bool { |a: State, b: State, e: Entry| step(a, b, e) }
pub open spec fn finished(log: Seq<Entry>, default: Option<VxFn<Shape>>, r: Result<Shape, VisitorError>) -> bool {
    exists|s: State| #[trigger] took(log, init(), steps(), s) && match s {
        Some(v) => r == Ok::<Shape, VisitorError>(v),
        None => match default { Some(d) => r is Ok && d.gives(r->Ok_0), None => r is Err && r->Err_0 is Wrap },
    }
}
//@fn fx Shape_ELEMENTS props=C11,C14 nocanary=1
    ensures names_sorted(r@), r@.len() == 4, //# C11,C14
        name_of(r@[0]) == (""@, "Circle"@), //# C11,C14
        name_of(r@[1]) == (""@, "Dot"@), //# C11,C14
        name_of(r@[2]) == (""@, "Line"@), //# C11,C14
        name_of(r@[3]) == (""@, "Square"@), //# C11,C14
        (""@, "Circle"@) != (""@, "Dot"@),
        (""@, "Circle"@) != (""@, "Line"@),
        (""@, "Dot"@) != (""@, "Line"@),
        (""@, "Circle"@) != (""@, "Square"@),
        (""@, "Dot"@) != (""@, "Square"@),
        (""@, "Line"@) != (""@, "Square"@),
//@at start
    proof {
        reveal(names_sorted);
        reveal_strlit("");
        reveal_strlit("Circle");
        reveal_strlit("Dot");
        reveal_strlit("Line");
        reveal_strlit("Square");
        lemma_str_lt_at("Circle"@, "Dot"@, 0);
        lemma_str_lt_at("Circle"@, "Line"@, 0);
        lemma_str_lt_at("Dot"@, "Line"@, 0);
        lemma_str_lt_at("Circle"@, "Square"@, 0);
        lemma_str_lt_at("Dot"@, "Square"@, 0);
        lemma_str_lt_at("Line"@, "Square"@, 0);
    }
//@end
//@item fx struct ShapeVisitor
impl<'out> ShapeVisitor<'out> {
    pub closed spec fn vx_state(&self) -> State { (*self.out)@ }
    #[verifier::prophetic]
    pub closed spec fn vx_place(&self) -> Place { place_of(final(self.out)@) }
    pub closed spec fn vx_ok(&self) -> bool { self.vx_present_0 == (*self.out)@ is Some }
//@fn fx "ElementVisitor for ShapeVisitor::element" rename=vx_element props=C14
    requires old(self).vx_ok(), fresh(child),
    ensures
        final(self).vx_ok(), final(self).vx_log == old(self).vx_log, final(self).vx_hist == old(self).vx_hist,
        final(self).vx_place() == old(self).vx_place(),
        step(old(self).vx_state(), final(self).vx_state(), Entry { call: Call::Elem { src: at(child).src, at: at(child).idx }, answer: answer_element(r) }), //# C14
        match r {
            // passed on: the very same child, untouched
            Ok(Some(c)) => c == child && (has_resolved(r) ==> has_resolved(c.reader))
                && (has_resolved(c.reader) ==> final(c.reader).st() == (*c.reader).st()),
            _ => advanced(old(child.reader).st(), final(child.reader).st(), child.stack_pos as int),
        },
//@at start
    broadcast use lemma_child_name;
//@end
}
impl<'out> ElementVisitor for ShapeVisitor<'out> {
    closed spec fn log(&self) -> Seq<Entry> { self.vx_log@ }
    closed spec fn inv(&self) -> bool { self.vx_ok() && chain(self.vx_hist@, self.vx_log@, init(), steps()) && self.vx_hist@.last() == self.vx_state() }
    #[verifier::prophetic]
    closed spec fn place(&self) -> Place { self.vx_place() }
    fn attribute(&mut self, name: &ExpandedNameRef<'_>, value: String) -> (r: Result<Option<String>, VisitorError>) {
        let r = { let mut d = VxDefault { log: Ghost(Seq::empty()) }; d.attribute(name, value) };
        proof {
            let e = Entry { call: Call::Attr { ns: name.namespace@, local: name.local_name@, value: value@ }, answer: answer_text(r) };
            lemma_chain(self.vx_hist@, self.vx_log@, init(), steps(), self.vx_state(), e);
            self.vx_log@ = self.vx_log@.push(e); self.vx_hist@ = self.vx_hist@.push(self.vx_state());
        }
        r
    }
    fn element<'a>(&mut self, child: ElementReader<'a>) -> (r: Result<Option<ElementReader<'a>>, VisitorError>) {
        let r = self.vx_element(child);
        proof {
            let e = Entry { call: Call::Elem { src: at(child).src, at: at(child).idx }, answer: answer_element(r) };
            lemma_chain(self.vx_hist@, self.vx_log@, init(), steps(), self.vx_state(), e);
            self.vx_log@ = self.vx_log@.push(e); self.vx_hist@ = self.vx_hist@.push(self.vx_state());
        }
        r
    }
    fn characters(&mut self, s: String, p: TextPosition) -> (r: Result<Option<String>, BoxedStdError>) {
        let r = { let mut d = VxDefault { log: Ghost(Seq::empty()) }; d.characters(s, p) };
        proof {
            let e = Entry { call: Call::Chars { s: s@, pos: p }, answer: answer_chars(r) };
            lemma_chain(self.vx_hist@, self.vx_log@, init(), steps(), self.vx_state(), e);
            self.vx_log@ = self.vx_log@.push(e); self.vx_hist@ = self.vx_hist@.push(self.vx_state());
        }
        r
    }
}
impl<'out> RawDeserializeVisitor<'out> for ShapeVisitor<'out> {
    type Out = Shape;
    open spec fn finished(log: Seq<Entry>, default: Option<VxFn<Shape>>, r: Result<Shape, VisitorError>) -> bool { finished(log, default, r) }
//@fn fx "RawDeserializeVisitor for ShapeVisitor::new" props=C14
//@at start
    proof { lemma_chain0::<State>(init(), steps()); }
//@end
//@fn fx "RawDeserializeVisitor for ShapeVisitor::finalize" props=C14
//@at start
    broadcast use axiom_value_at;
    proof {
        assert(took(self.vx_log@, init(), steps(), self.vx_state()));
        assert forall|r: Result<Shape, VisitorError>| #[trigger] finished(self.vx_log@, default, r) implies <Self as RawDeserializeVisitor>::finished(self.log(), default, r) by {}
    }
//@end
}
impl<'out> RawDeserialize<'out> for Shape { type Visitor = ShapeVisitor<'out>; }
impl Deserialize for Shape {
    open spec fn reads(src: Src, i: int, r: Result<Self, VisitorError>) -> bool {
        ||| exists|log: Seq<Entry>| #[trigger] visited(src, i, log) && finished(log, None, r)
        ||| r is Err && r->Err_0 is Propagate && exists|log: Seq<Entry>, s: State| #[trigger] visit_failed(src, i, log, r->Err_0->Propagate_0) && #[trigger] took(log, init(), steps(), s)
    }
//@fn fx "Deserialize for Shape::deserialize" props=C14
//@at start
    broadcast use {lemma_visited, axiom_value_at, lemma_took};
//@end
}
}

// ------------------------------------------------------------------- Tone
pub enum Tone { Zeta(Color), Alpha(Option<Tracked>), Mid, Other(Vec<Tracked>) }
pub mod Tone_code {
use super::*;
pub type State = Option<Tone>;
pub open spec fn init() -> State { None }
/// An entry takes the enum from `a` to `b`.
pub open spec fn step(a: State, b: State, e: Entry) -> bool {
    if is_elem(e, ""@, "Zeta"@) {
        match a {
            Some(Tone::Zeta(f)) => b is Some && b.unwrap() is Zeta && elem_step(Some(f), Some(b.unwrap()->Zeta_0), e),
            None => (b is Some ==> b.unwrap() is Zeta) && elem_step(None, (if b is Some { Some(b.unwrap()->Zeta_0) } else { None }), e),
            // another variant was chosen before
            _ => b == a && e.answer is Failed && e.answer->Failed_0 is Wrap,
        }
    } else if is_elem(e, ""@, "Alpha"@) {
        match a {
            Some(Tone::Alpha(f)) => b is Some && b.unwrap() is Alpha && elem_step(Some(f), Some(b.unwrap()->Alpha_0), e),
            None => (b is Some ==> b.unwrap() is Alpha) && elem_step(None, (if b is Some { Some(b.unwrap()->Alpha_0) } else { None }), e),
            // another variant was chosen before
            _ => b == a && e.answer is Failed && e.answer->Failed_0 is Wrap,
        }
    } else if is_elem(e, ""@, "Mid"@) {
        match a {
            Some(Tone::Mid) => b == a && e.answer is Consumed,
            None => b == Some(Tone::Mid) && e.answer is Consumed,
            // another variant was chosen before
            _ => b == a && e.answer is Failed && e.answer->Failed_0 is Wrap,
        }
    } else if is_elem(e, ""@, "beta"@) {
        match a {
            Some(Tone::Other(f)) => b is Some && b.unwrap() is Other && elem_step(Some(f), Some(b.unwrap()->Other_0), e),
            None => (b is Some ==> b.unwrap() is Other) && elem_step(None, (if b is Some { Some(b.unwrap()->Other_0) } else { None }), e),
            // another variant was chosen before
            _ => b == a && e.answer is Failed && e.answer->Failed_0 is Wrap,
        }
    } else { b == a && e.answer == handed_on(e) }
}
pub open spec fn steps() -> spec_fn(State, State, Entry) -> bool { |a: State, b: State, e: Entry| step(a, b, e) }
pub open spec fn finished(log: Seq<Entry>, default: Option<VxFn<Tone>>, r: Result<Tone, VisitorError>) -> bool {
    exists|s: State| #[trigger] took(log, init(), steps(), s) && match s {
        Some(v) => r == Ok::<Tone, VisitorError>(v),
        None => match default { Some(d) => r is Ok && d.gives(r->Ok_0), None => r is Err && r->Err_0 is Wrap },
    }
}
//@fn fx Tone_ELEMENTS props=C11,C14 nocanary=1
    ensures names_sorted(r@), r@.len() == 4, //# C11,C14
        name_of(r@[0]) == (""@, "Alpha"@), //# C11,C14
        name_of(r@[1]) == (""@, "Mid"@), //# C11,C14
        name_of(r@[2]) == (""@, "Zeta"@), //# C11,C14
        name_of(r@[3]) == (""@, "beta"@), //# C11,C14
        (""@, "Alpha"@) != (""@, "Mid"@),
        (""@, "Alpha"@) != (""@, "Zeta"@),
        (""@, "Mid"@) != (""@, "Zeta"@),
        (""@, "Alpha"@) != (""@, "beta"@),
        (""@, "Mid"@) != (""@, "beta"@),
        (""@, "Zeta"@) != (""@, "beta"@),
//@at start
    proof {
        reveal(names_sorted);
        reveal_strlit("");
        reveal_strlit("Alpha");
        reveal_strlit("Mid");
        reveal_strlit("Zeta");
        reveal_strlit("beta");
        lemma_str_lt_at("Alpha"@, "Mid"@, 0);
        lemma_str_lt_at("Alpha"@, "Zeta"@, 0);
        lemma_str_lt_at("Mid"@, "Zeta"@, 0);
        lemma_str_lt_at("Alpha"@, "beta"@, 0);
        lemma_str_lt_at("Mid"@, "beta"@, 0);
        lemma_str_lt_at("Zeta"@, "beta"@, 0);
    }
//@end
//@item fx struct ToneVisitor
impl<'out> ToneVisitor<'out> {
    pub closed spec fn vx_state(&self) -> State { (*self.out)@ }
    #[verifier::prophetic]
    pub closed spec fn vx_place(&self) -> Place { place_of(final(self.out)@) }
    pub closed spec fn vx_ok(&self) -> bool { self.vx_present_0 == (*self.out)@ is Some }
//@fn fx "ElementVisitor for ToneVisitor::element" rename=vx_element props=C14
    requires old(self).vx_ok(), fresh(child),
    ensures
        final(self).vx_ok(), final(self).vx_log == old(self).vx_log, final(self).vx_hist == old(self).vx_hist,
        final(self).vx_place() == old(self).vx_place(),
        step(old(self).vx_state(), final(self).vx_state(), Entry { call: Call::Elem { src: at(child).src, at: at(child).idx }, answer: answer_element(r) }), //# C14
        match r {
            // passed on: the very same child, untouched
            Ok(Some(c)) => c == child && (has_resolved(r) ==> has_resolved(c.reader))
                && (has_resolved(c.reader) ==> final(c.reader).st() == (*c.reader).st()),
            _ => advanced(old(child.reader).st(), final(child.reader).st(), child.stack_pos as int),
        },
//@at start
    broadcast use lemma_child_name;
//@end
}
impl<'out> ElementVisitor for ToneVisitor<'out> {
    closed spec fn log(&self) -> Seq<Entry> { self.vx_log@ }
    closed spec fn inv(&self) -> bool { self.vx_ok() && chain(self.vx_hist@, self.vx_log@, init(), steps()) && self.vx_hist@.last() == self.vx_state() }
    #[verifier::prophetic]
    closed spec fn place(&self) -> Place { self.vx_place() }
    fn attribute(&mut self, name: &ExpandedNameRef<'_>, value: String) -> (r: Result<Option<String>, VisitorError>) {
        let r = { let mut d = VxDefault { log: Ghost(Seq::empty()) }; d.attribute(name, value) };
        proof {
            let e = Entry { call: Call::Attr { ns: name.namespace@, local: name.local_name@, value: value@ }, answer: answer_text(r) };
            lemma_chain(self.vx_hist@, self.vx_log@, init(), steps(), self.vx_state(), e);
            self.vx_log@ = self.vx_log@.push(e); self.vx_hist@ = self.vx_hist@.push(self.vx_state());
        }
        r
    }
    fn element<'a>(&mut self, child: ElementReader<'a>) -> (r: Result<Option<ElementReader<'a>>, VisitorError>) {
        let r = self.vx_element(child);
        proof {
            let e = Entry { call: Call::Elem { src: at(child).src, at: at(child).idx }, answer: answer_element(r) };
            lemma_chain(self.vx_hist@, self.vx_log@, init(), steps(), self.vx_state(), e);
            self.vx_log@ = self.vx_log@.push(e); self.vx_hist@ = self.vx_hist@.push(self.vx_state());
        }
        r
    }
    fn characters(&mut self, s: String, p: TextPosition) -> (r: Result<Option<String>, BoxedStdError>) {
        let r = { let mut d = VxDefault { log: Ghost(Seq::empty()) }; d.characters(s, p) };
        proof {
            let e = Entry { call: Call::Chars { s: s@, pos: p }, answer: answer_chars(r) };
            lemma_chain(self.vx_hist@, self.vx_log@, init(), steps(), self.vx_state(), e);
            self.vx_log@ = self.vx_log@.push(e); self.vx_hist@ = self.vx_hist@.push(self.vx_state());
        }
        r
    }
}
impl<'out> RawDeserializeVisitor<'out> for ToneVisitor<'out> {
    type Out = Tone;
    open spec fn finished(log: Seq<Entry>, default: Option<VxFn<Tone>>, r: Result<Tone, VisitorError>) -> bool { finished(log, default, r) }
//@fn fx "RawDeserializeVisitor for ToneVisitor::new" props=C14
//@at start
    proof { lemma_chain0::<State>(init(), steps()); }
//@end
//@fn fx "RawDeserializeVisitor for ToneVisitor::finalize" props=C14
//@at start
    broadcast use axiom_value_at;
    proof {
        assert(took(self.vx_log@, init(), steps(), self.vx_state()));
        assert forall|r: Result<Tone, VisitorError>| #[trigger] finished(self.vx_log@, default, r) implies <Self as RawDeserializeVisitor>::finished(self.log(), default, r) by {}
    }
//@end
}
impl<'out> RawDeserialize<'out> for Tone { type Visitor = ToneVisitor<'out>; }
impl Deserialize for Tone {
    open spec fn reads(src: Src, i: int, r: Result<Self, VisitorError>) -> bool {
        ||| exists|log: Seq<Entry>| #[trigger] visited(src, i, log) && finished(log, None, r)
        ||| r is Err && r->Err_0 is Propagate && exists|log: Seq<Entry>, s: State| #[trigger] visit_failed(src, i, log, r->Err_0->Propagate_0) && #[trigger] took(log, init(), steps(), s)
    }
//@fn fx "Deserialize for Tone::deserialize" props=C14
//@at start
    broadcast use {lemma_visited, axiom_value_at, lemma_took};
//@end
}
}

// ------------------------------------------------------------------- Marked
pub enum Marked { Yes(i32), No, Maybe(Tight) }
pub mod Marked_code {
use super::*;
pub type State = Option<Marked>;
pub open spec fn init() -> State { None }
/// An entry takes the enum from `a` to `b`.
pub open spec fn step(a: State, b: State, e: Entry) -> bool {
    if is_elem(e, "urn:a"@, "Yes"@) {
        match a {
            Some(Marked::Yes(f)) => b is Some && b.unwrap() is Yes && elem_step(Some(f), Some(b.unwrap()->Yes_0), e),
            None => (b is Some ==> b.unwrap() is Yes) && elem_step(None, (if b is Some { Some(b.unwrap()->Yes_0) } else { None }), e),
            // another variant was chosen before
            _ => b == a && e.answer is Failed && e.answer->Failed_0 is Wrap,
        }
    } else if is_elem(e, "urn:b"@, "Yes"@) {
        match a {
            Some(Marked::No) => b == a && e.answer is Consumed,
            None => b == Some(Marked::No) && e.answer is Consumed,
            // another variant was chosen before
            _ => b == a && e.answer is Failed && e.answer->Failed_0 is Wrap,
        }
    } else if is_elem(e, ""@, "Maybe"@) {
        match a {
            Some(Marked::Maybe(f)) => b is Some && b.unwrap() is Maybe && elem_step(Some(f), Some(b.unwrap()->Maybe_0), e),
            None => (b is Some ==> b.unwrap() is Maybe) && elem_step(None, (if b is Some { Some(b.unwrap()->Maybe_0) } else { None }), e),
            // another variant was chosen before
            _ => b == a && e.answer is Failed && e.answer->Failed_0 is Wrap,
        }
    } else { b == a && e.answer == handed_on(e) }
}
pub open spec fn steps() -> spec_fn(State, State, Entry) -> bool { |a: State, b: State, e: Entry| step(a, b, e) }
pub open spec fn finished(log: Seq<Entry>, default: Option<VxFn<Marked>>, r: Result<Marked, VisitorError>) -> bool {
    exists|s: State| #[trigger] took(log, init(), steps(), s) && match s {
        Some(v) => r == Ok::<Marked, VisitorError>(v),
        None => match default { Some(d) => r is Ok && d.gives(r->Ok_0), None => r is Err && r->Err_0 is Wrap },
    }
}
//@fn fx Marked_ELEMENTS props=C11,C14 nocanary=1
    ensures names_sorted(r@), r@.len() == 3, //# C11,C14
        name_of(r@[0]) == (""@, "Maybe"@), //# C11,C14
        name_of(r@[1]) == ("urn:a"@, "Yes"@), //# C11,C14
        name_of(r@[2]) == ("urn:b"@, "Yes"@), //# C11,C14
        (""@, "Maybe"@) != ("urn:a"@, "Yes"@),
        (""@, "Maybe"@) != ("urn:b"@, "Yes"@),
        ("urn:a"@, "Yes"@) != ("urn:b"@, "Yes"@),
//@at start
    proof {
        reveal(names_sorted);
        reveal_strlit("");
        reveal_strlit("Maybe");
        reveal_strlit("Yes");
        reveal_strlit("urn:a");
        reveal_strlit("urn:b");
        lemma_str_lt_at(""@, "urn:a"@, 0);
        lemma_str_lt_at(""@, "urn:b"@, 0);
        lemma_str_lt_at("urn:a"@, "urn:b"@, 4);
    }
//@end
//@item fx struct MarkedVisitor
impl<'out> MarkedVisitor<'out> {
    pub closed spec fn vx_state(&self) -> State { (*self.out)@ }
    #[verifier::prophetic]
    pub closed spec fn vx_place(&self) -> Place { place_of(final(self.out)@) }
    pub closed spec fn vx_ok(&self) -> bool { self.vx_present_0 == (*self.out)@ is Some }
//@fn fx "ElementVisitor for MarkedVisitor::element" rename=vx_element props=C14
    requires old(self).vx_ok(), fresh(child),
    ensures
        final(self).vx_ok(), final(self).vx_log == old(self).vx_log, final(self).vx_hist == old(self).vx_hist,
        final(self).vx_place() == old(self).vx_place(),
        step(old(self).vx_state(), final(self).vx_state(), Entry { call: Call::Elem { src: at(child).src, at: at(child).idx }, answer: answer_element(r) }), //# C14
        match r {
            // passed on: the very same child, untouched
            Ok(Some(c)) => c == child && (has_resolved(r) ==> has_resolved(c.reader))
                && (has_resolved(c.reader) ==> final(c.reader).st() == (*c.reader).st()),
            _ => advanced(old(child.reader).st(), final(child.reader).st(), child.stack_pos as int),
        },
//@at start
    broadcast use lemma_child_name;
//@end
}
impl<'out> ElementVisitor for MarkedVisitor<'out> {
    closed spec fn log(&self) -> Seq<Entry> { self.vx_log@ }
    closed spec fn inv(&self) -> bool { self.vx_ok() && chain(self.vx_hist@, self.vx_log@, init(), steps()) && self.vx_hist@.last() == self.vx_state() }
    #[verifier::prophetic]
    closed spec fn place(&self) -> Place { self.vx_place() }
    fn attribute(&mut self, name: &ExpandedNameRef<'_>, value: String) -> (r: Result<Option<String>, VisitorError>) {
        let r = { let mut d = VxDefault { log: Ghost(Seq::empty()) }; d.attribute(name, value) };
        proof {
            let e = Entry { call: Call::Attr { ns: name.namespace@, local: name.local_name@, value: value@ }, answer: answer_text(r) };
            lemma_chain(self.vx_hist@, self.vx_log@, init(), steps(), self.vx_state(), e);
            self.vx_log@ = self.vx_log@.push(e); self.vx_hist@ = self.vx_hist@.push(self.vx_state());
        }
        r
    }
    fn element<'a>(&mut self, child: ElementReader<'a>) -> (r: Result<Option<ElementReader<'a>>, VisitorError>) {
        let r = self.vx_element(child);
        proof {
            let e = Entry { call: Call::Elem { src: at(child).src, at: at(child).idx }, answer: answer_element(r) };
            lemma_chain(self.vx_hist@, self.vx_log@, init(), steps(), self.vx_state(), e);
            self.vx_log@ = self.vx_log@.push(e); self.vx_hist@ = self.vx_hist@.push(self.vx_state());
        }
        r
    }
    fn characters(&mut self, s: String, p: TextPosition) -> (r: Result<Option<String>, BoxedStdError>) {
        let r = { let mut d = VxDefault { log: Ghost(Seq::empty()) }; d.characters(s, p) };
        proof {
            let e = Entry { call: Call::Chars { s: s@, pos: p }, answer: answer_chars(r) };
            lemma_chain(self.vx_hist@, self.vx_log@, init(), steps(), self.vx_state(), e);
            self.vx_log@ = self.vx_log@.push(e); self.vx_hist@ = self.vx_hist@.push(self.vx_state());
        }
        r
    }
}
impl<'out> RawDeserializeVisitor<'out> for MarkedVisitor<'out> {
    type Out = Marked;
    open spec fn finished(log: Seq<Entry>, default: Option<VxFn<Marked>>, r: Result<Marked, VisitorError>) -> bool { finished(log, default, r) }
//@fn fx "RawDeserializeVisitor for MarkedVisitor::new" props=C14
//@at start
    proof { lemma_chain0::<State>(init(), steps()); }
//@end
//@fn fx "RawDeserializeVisitor for MarkedVisitor::finalize" props=C14
//@at start
    broadcast use axiom_value_at;
    proof {
        assert(took(self.vx_log@, init(), steps(), self.vx_state()));
        assert forall|r: Result<Marked, VisitorError>| #[trigger] finished(self.vx_log@, default, r) implies <Self as RawDeserializeVisitor>::finished(self.log(), default, r) by {}
    }
//@end
}
impl<'out> RawDeserialize<'out> for Marked { type Visitor = MarkedVisitor<'out>; }
impl Deserialize for Marked {
    open spec fn reads(src: Src, i: int, r: Result<Self, VisitorError>) -> bool {
        ||| exists|log: Seq<Entry>| #[trigger] visited(src, i, log) && finished(log, None, r)
        ||| r is Err && r->Err_0 is Propagate && exists|log: Seq<Entry>, s: State| #[trigger] visit_failed(src, i, log, r->Err_0->Propagate_0) && #[trigger] took(log, init(), steps(), s)
    }
//@fn fx "Deserialize for Marked::deserialize" props=C14
//@at start
    broadcast use {lemma_visited, axiom_value_at, lemma_took};
//@end
}
}

// ------------------------------------------------------------------- Single
pub enum Single { Only(Vec<i32>) }
pub mod Single_code {
use super::*;
pub type State = Option<Single>;
pub open spec fn init() -> State { None }
/// An entry takes the enum from `a` to `b`.
pub open spec fn step(a: State, b: State, e: Entry) -> bool {
    if is_elem(e, ""@, "Only"@) {
        match a {
            Some(Single::Only(f)) => b is Some && b.unwrap() is Only && elem_step(Some(f), Some(b.unwrap()->Only_0), e),
            None => (b is Some ==> b.unwrap() is Only) && elem_step(None, (if b is Some { Some(b.unwrap()->Only_0) } else { None }), e),
        }
    } else { b == a && e.answer == handed_on(e) }
}
pub open spec fn steps() -> spec_fn(State, State, Entry) -> bool { |a: State, b: State, e: Entry| step(a, b, e) }
pub open spec fn finished(log: Seq<Entry>, default: Option<VxFn<Single>>, r: Result<Single, VisitorError>) -> bool {
    exists|s: State| #[trigger] took(log, init(), steps(), s) && match s {
        Some(v) => r == Ok::<Single, VisitorError>(v),
        None => match default { Some(d) => r is Ok && d.gives(r->Ok_0), None => r is Err && r->Err_0 is Wrap },
    }
}
//@fn fx Single_ELEMENTS props=C11,C14 nocanary=1
    ensures names_sorted(r@), r@.len() == 1, //# C11,C14
        name_of(r@[0]) == (""@, "Only"@), //# C11,C14
//@at start
    proof {
        reveal(names_sorted);
        reveal_strlit("");
        reveal_strlit("Only");
    }
//@end
//@item fx struct SingleVisitor
impl<'out> SingleVisitor<'out> {
    pub closed spec fn vx_state(&self) -> State { (*self.out)@ }
    #[verifier::prophetic]
    pub closed spec fn vx_place(&self) -> Place { place_of(final(self.out)@) }
    pub closed spec fn vx_ok(&self) -> bool { self.vx_present_0 == (*self.out)@ is Some }
//@fn fx "ElementVisitor for SingleVisitor::element" rename=vx_element props=C14
    requires old(self).vx_ok(), fresh(child),
    ensures
        final(self).vx_ok(), final(self).vx_log == old(self).vx_log, final(self).vx_hist == old(self).vx_hist,
        final(self).vx_place() == old(self).vx_place(),
        step(old(self).vx_state(), final(self).vx_state(), Entry { call: Call::Elem { src: at(child).src, at: at(child).idx }, answer: answer_element(r) }), //# C14
        match r {
            // passed on: the very same child, untouched
            Ok(Some(c)) => c == child && (has_resolved(r) ==> has_resolved(c.reader))
                && (has_resolved(c.reader) ==> final(c.reader).st() == (*c.reader).st()),
            _ => advanced(old(child.reader).st(), final(child.reader).st(), child.stack_pos as int),
        },
//@at start
    broadcast use lemma_child_name;
//@end
}
impl<'out> ElementVisitor for SingleVisitor<'out> {
    closed spec fn log(&self) -> Seq<Entry> { self.vx_log@ }
    closed spec fn inv(&self) -> bool { self.vx_ok() && chain(self.vx_hist@, self.vx_log@, init(), steps()) && self.vx_hist@.last() == self.vx_state() }
    #[verifier::prophetic]
    closed spec fn place(&self) -> Place { self.vx_place() }
    fn attribute(&mut self, name: &ExpandedNameRef<'_>, value: String) -> (r: Result<Option<String>, VisitorError>) {
        let r = { let mut d = VxDefault { log: Ghost(Seq::empty()) }; d.attribute(name, value) };
        proof {
            let e = Entry { call: Call::Attr { ns: name.namespace@, local: name.local_name@, value: value@ }, answer: answer_text(r) };
            lemma_chain(self.vx_hist@, self.vx_log@, init(), steps(), self.vx_state(), e);
            self.vx_log@ = self.vx_log@.push(e); self.vx_hist@ = self.vx_hist@.push(self.vx_state());
        }
        r
    }
    fn element<'a>(&mut self, child: ElementReader<'a>) -> (r: Result<Option<ElementReader<'a>>, VisitorError>) {
        let r = self.vx_element(child);
        proof {
            let e = Entry { call: Call::Elem { src: at(child).src, at: at(child).idx }, answer: answer_element(r) };
            lemma_chain(self.vx_hist@, self.vx_log@, init(), steps(), self.vx_state(), e);
            self.vx_log@ = self.vx_log@.push(e); self.vx_hist@ = self.vx_hist@.push(self.vx_state());
        }
        r
    }
    fn characters(&mut self, s: String, p: TextPosition) -> (r: Result<Option<String>, BoxedStdError>) {
        let r = { let mut d = VxDefault { log: Ghost(Seq::empty()) }; d.characters(s, p) };
        proof {
            let e = Entry { call: Call::Chars { s: s@, pos: p }, answer: answer_chars(r) };
            lemma_chain(self.vx_hist@, self.vx_log@, init(), steps(), self.vx_state(), e);
            self.vx_log@ = self.vx_log@.push(e); self.vx_hist@ = self.vx_hist@.push(self.vx_state());
        }
        r
    }
}
impl<'out> RawDeserializeVisitor<'out> for SingleVisitor<'out> {
    type Out = Single;
    open spec fn finished(log: Seq<Entry>, default: Option<VxFn<Single>>, r: Result<Single, VisitorError>) -> bool { finished(log, default, r) }
//@fn fx "RawDeserializeVisitor for SingleVisitor::new" props=C14
//@at start
    proof { lemma_chain0::<State>(init(), steps()); }
//@end
//@fn fx "RawDeserializeVisitor for SingleVisitor::finalize" props=C14
//@at start
    broadcast use axiom_value_at;
    proof {
        assert(took(self.vx_log@, init(), steps(), self.vx_state()));
        assert forall|r: Result<Single, VisitorError>| #[trigger] finished(self.vx_log@, default, r) implies <Self as RawDeserializeVisitor>::finished(self.log(), default, r) by {}
    }
//@end
}
impl<'out> RawDeserialize<'out> for Single { type Visitor = SingleVisitor<'out>; }
impl Deserialize for Single {
    open spec fn reads(src: Src, i: int, r: Result<Self, VisitorError>) -> bool {
        ||| exists|log: Seq<Entry>| #[trigger] visited(src, i, log) && finished(log, None, r)
        ||| r is Err && r->Err_0 is Propagate && exists|log: Seq<Entry>, s: State| #[trigger] visit_failed(src, i, log, r->Err_0->Propagate_0) && #[trigger] took(log, init(), steps(), s)
    }
//@fn fx "Deserialize for Single::deserialize" props=C14
//@at start
    broadcast use {lemma_visited, axiom_value_at, lemma_took};
//@end
}
}

// ------------------------------------------------------------------- Blank
pub enum Blank { Nothing }
pub mod Blank_code {
use super::*;
pub type State = Option<Blank>;
pub open spec fn init() -> State { None }
/// An entry takes the enum from `a` to `b`.
pub open spec fn step(a: State, b: State, e: Entry) -> bool {
    if is_elem(e, ""@, "Nothing"@) {
        match a {
            Some(Blank::Nothing) => b == a && e.answer is Consumed,
            None => b == Some(Blank::Nothing) && e.answer is Consumed,
        }
    } else { b == a && e.answer == handed_on(e) }
}
pub open spec fn steps() -> spec_fn(State, State, Entry) -> bool { |a: State, b: State, e: Entry| step(a, b, e) }
pub open spec fn finished(log: Seq<Entry>, default: Option<VxFn<Blank>>, r: Result<Blank, VisitorError>) -> bool {
    exists|s: State| #[trigger] took(log, init(), steps(), s) && match s {
        Some(v) => r == Ok::<Blank, VisitorError>(v),
        None => match default { Some(d) => r is Ok && d.gives(r->Ok_0), None => r is Err && r->Err_0 is Wrap },
    }
}
//@fn fx Blank_ELEMENTS props=C11,C14 nocanary=1
    ensures names_sorted(r@), r@.len() == 1, //# C11,C14
        name_of(r@[0]) == (""@, "Nothing"@), //# C11,C14
//@at start
    proof {
        reveal(names_sorted);
        reveal_strlit("");
        reveal_strlit("Nothing");
    }
//@end
//@item fx struct BlankVisitor
impl<'out> BlankVisitor<'out> {
    pub closed spec fn vx_state(&self) -> State { (*self.out)@ }
    #[verifier::prophetic]
    pub closed spec fn vx_place(&self) -> Place { place_of(final(self.out)@) }
    pub closed spec fn vx_ok(&self) -> bool { self.vx_present_0 == (*self.out)@ is Some }
//@fn fx "ElementVisitor for BlankVisitor::element" rename=vx_element props=C14
    requires old(self).vx_ok(), fresh(child),
    ensures
        final(self).vx_ok(), final(self).vx_log == old(self).vx_log, final(self).vx_hist == old(self).vx_hist,
        final(self).vx_place() == old(self).vx_place(),
        step(old(self).vx_state(), final(self).vx_state(), Entry { call: Call::Elem { src: at(child).src, at: at(child).idx }, answer: answer_element(r) }), //# C14
        match r {
            // passed on: the very same child, untouched
            Ok(Some(c)) => c == child && (has_resolved(r) ==> has_resolved(c.reader))
                && (has_resolved(c.reader) ==> final(c.reader).st() == (*c.reader).st()),
            _ => advanced(old(child.reader).st(), final(child.reader).st(), child.stack_pos as int),
        },
//@at start
    broadcast use lemma_child_name;
//@end
}
impl<'out> ElementVisitor for BlankVisitor<'out> {
    closed spec fn log(&self) -> Seq<Entry> { self.vx_log@ }
    closed spec fn inv(&self) -> bool { self.vx_ok() && chain(self.vx_hist@, self.vx_log@, init(), steps()) && self.vx_hist@.last() == self.vx_state() }
    #[verifier::prophetic]
    closed spec fn place(&self) -> Place { self.vx_place() }
    fn attribute(&mut self, name: &ExpandedNameRef<'_>, value: String) -> (r: Result<Option<String>, VisitorError>) {
        let r = { let mut d = VxDefault { log: Ghost(Seq::empty()) }; d.attribute(name, value) };
        proof {
            let e = Entry { call: Call::Attr { ns: name.namespace@, local: name.local_name@, value: value@ }, answer: answer_text(r) };
            lemma_chain(self.vx_hist@, self.vx_log@, init(), steps(), self.vx_state(), e);
            self.vx_log@ = self.vx_log@.push(e); self.vx_hist@ = self.vx_hist@.push(self.vx_state());
        }
        r
    }
    fn element<'a>(&mut self, child: ElementReader<'a>) -> (r: Result<Option<ElementReader<'a>>, VisitorError>) {
        let r = self.vx_element(child);
        proof {
            let e = Entry { call: Call::Elem { src: at(child).src, at: at(child).idx }, answer: answer_element(r) };
            lemma_chain(self.vx_hist@, self.vx_log@, init(), steps(), self.vx_state(), e);
            self.vx_log@ = self.vx_log@.push(e); self.vx_hist@ = self.vx_hist@.push(self.vx_state());
        }
        r
    }
    fn characters(&mut self, s: String, p: TextPosition) -> (r: Result<Option<String>, BoxedStdError>) {
        let r = { let mut d = VxDefault { log: Ghost(Seq::empty()) }; d.characters(s, p) };
        proof {
            let e = Entry { call: Call::Chars { s: s@, pos: p }, answer: answer_chars(r) };
            lemma_chain(self.vx_hist@, self.vx_log@, init(), steps(), self.vx_state(), e);
            self.vx_log@ = self.vx_log@.push(e); self.vx_hist@ = self.vx_hist@.push(self.vx_state());
        }
        r
    }
}
impl<'out> RawDeserializeVisitor<'out> for BlankVisitor<'out> {
    type Out = Blank;
    open spec fn finished(log: Seq<Entry>, default: Option<VxFn<Blank>>, r: Result<Blank, VisitorError>) -> bool { finished(log, default, r) }
//@fn fx "RawDeserializeVisitor for BlankVisitor::new" props=C14
//@at start
    proof { lemma_chain0::<State>(init(), steps()); }
//@end
//@fn fx "RawDeserializeVisitor for BlankVisitor::finalize" props=C14
//@at start
    broadcast use axiom_value_at;
    proof {
        assert(took(self.vx_log@, init(), steps(), self.vx_state()));
        assert forall|r: Result<Blank, VisitorError>| #[trigger] finished(self.vx_log@, default, r) implies <Self as RawDeserializeVisitor>::finished(self.log(), default, r) by {}
    }
//@end
}
impl<'out> RawDeserialize<'out> for Blank { type Visitor = BlankVisitor<'out>; }
impl Deserialize for Blank {
    open spec fn reads(src: Src, i: int, r: Result<Self, VisitorError>) -> bool {
        ||| exists|log: Seq<Entry>| #[trigger] visited(src, i, log) && finished(log, None, r)
        ||| r is Err && r->Err_0 is Propagate && exists|log: Seq<Entry>, s: State| #[trigger] visit_failed(src, i, log, r->Err_0->Propagate_0) && #[trigger] took(log, init(), steps(), s)
    }
//@fn fx "Deserialize for Blank::deserialize" props=C14
//@at start
    broadcast use {lemma_visited, axiom_value_at, lemma_took};
//@end
}
}

// ------------------------------------------------------------------- Mixed
pub enum Mixed { Zed(i32), Lost(Plain), Name(String), Zed2(Option<Tight>), vxr_type, Bare(Vec<Color>) }
pub mod Mixed_code {
use super::*;
pub type State = Option<Mixed>;
pub open spec fn init() -> State { None }
/// An entry takes the enum from `a` to `b`.
pub open spec fn step(a: State, b: State, e: Entry) -> bool {
    if is_elem(e, "urn:a"@, "Zed"@) {
        match a {
            Some(Mixed::Zed(f)) => b is Some && b.unwrap() is Zed && elem_step(Some(f), Some(b.unwrap()->Zed_0), e),
            None => (b is Some ==> b.unwrap() is Zed) && elem_step(None, (if b is Some { Some(b.unwrap()->Zed_0) } else { None }), e),
            // another variant was chosen before
            _ => b == a && e.answer is Failed && e.answer->Failed_0 is Wrap,
        }
    } else if is_elem(e, "urn:d"@, "Name"@) {
        match a {
            Some(Mixed::Name(f)) => b is Some && b.unwrap() is Name && elem_step(Some(f), Some(b.unwrap()->Name_0), e),
            None => (b is Some ==> b.unwrap() is Name) && elem_step(None, (if b is Some { Some(b.unwrap()->Name_0) } else { None }), e),
            // another variant was chosen before
            _ => b == a && e.answer is Failed && e.answer->Failed_0 is Wrap,
        }
    } else if is_elem(e, "urn:b"@, "Zed"@) {
        match a {
            Some(Mixed::Zed2(f)) => b is Some && b.unwrap() is Zed2 && elem_step(Some(f), Some(b.unwrap()->Zed2_0), e),
            None => (b is Some ==> b.unwrap() is Zed2) && elem_step(None, (if b is Some { Some(b.unwrap()->Zed2_0) } else { None }), e),
            // another variant was chosen before
            _ => b == a && e.answer is Failed && e.answer->Failed_0 is Wrap,
        }
    } else if is_elem(e, "urn:a"@, "type"@) {
        match a {
            Some(Mixed::vxr_type) => b == a && e.answer is Consumed,
            None => b == Some(Mixed::vxr_type) && e.answer is Consumed,
            // another variant was chosen before
            _ => b == a && e.answer is Failed && e.answer->Failed_0 is Wrap,
        }
    } else if is_elem(e, "urn:d"@, "Bare"@) {
        match a {
            Some(Mixed::Bare(f)) => b is Some && b.unwrap() is Bare && elem_step(Some(f), Some(b.unwrap()->Bare_0), e),
            None => (b is Some ==> b.unwrap() is Bare) && elem_step(None, (if b is Some { Some(b.unwrap()->Bare_0) } else { None }), e),
            // another variant was chosen before
            _ => b == a && e.answer is Failed && e.answer->Failed_0 is Wrap,
        }
    } else { b == a && e.answer == handed_on(e) }
}
pub open spec fn steps() -> spec_fn(State, State, Entry) -> bool { |a: State, b: State, e: Entry| step(a, b, e) }
pub open spec fn finished(log: Seq<Entry>, default: Option<VxFn<Mixed>>, r: Result<Mixed, VisitorError>) -> bool {
    exists|s: State| #[trigger] took(log, init(), steps(), s) && match s {
        Some(v) => r == Ok::<Mixed, VisitorError>(v) && !(v is Lost),
        None => match default { Some(d) => r is Ok && d.gives(r->Ok_0), None => r is Err && r->Err_0 is Wrap },
    }
}
//@fn fx Mixed_ELEMENTS props=C11,C14 nocanary=1
    ensures names_sorted(r@), r@.len() == 5, //# C11,C14
        name_of(r@[0]) == ("urn:a"@, "Zed"@), //# C11,C14
        name_of(r@[1]) == ("urn:a"@, "type"@), //# C11,C14
        name_of(r@[2]) == ("urn:b"@, "Zed"@), //# C11,C14
        name_of(r@[3]) == ("urn:d"@, "Bare"@), //# C11,C14
        name_of(r@[4]) == ("urn:d"@, "Name"@), //# C11,C14
        ("urn:a"@, "Zed"@) != ("urn:a"@, "type"@),
        ("urn:a"@, "Zed"@) != ("urn:b"@, "Zed"@),
        ("urn:a"@, "type"@) != ("urn:b"@, "Zed"@),
        ("urn:a"@, "Zed"@) != ("urn:d"@, "Bare"@),
        ("urn:a"@, "type"@) != ("urn:d"@, "Bare"@),
        ("urn:b"@, "Zed"@) != ("urn:d"@, "Bare"@),
        ("urn:a"@, "Zed"@) != ("urn:d"@, "Name"@),
        ("urn:a"@, "type"@) != ("urn:d"@, "Name"@),
        ("urn:b"@, "Zed"@) != ("urn:d"@, "Name"@),
        ("urn:d"@, "Bare"@) != ("urn:d"@, "Name"@),
//@at start
    proof {
        reveal(names_sorted);
        reveal_strlit("Bare");
        reveal_strlit("Name");
        reveal_strlit("Zed");
        reveal_strlit("type");
        reveal_strlit("urn:a");
        reveal_strlit("urn:b");
        reveal_strlit("urn:d");
        lemma_str_lt_at("Zed"@, "type"@, 0);
        lemma_str_lt_at("urn:a"@, "urn:b"@, 4);
        lemma_str_lt_at("urn:a"@, "urn:b"@, 4);
        lemma_str_lt_at("urn:a"@, "urn:d"@, 4);
        lemma_str_lt_at("urn:a"@, "urn:d"@, 4);
        lemma_str_lt_at("urn:b"@, "urn:d"@, 4);
        lemma_str_lt_at("urn:a"@, "urn:d"@, 4);
        lemma_str_lt_at("urn:a"@, "urn:d"@, 4);
        lemma_str_lt_at("urn:b"@, "urn:d"@, 4);
        lemma_str_lt_at("Bare"@, "Name"@, 0);
    }
//@end
//@item fx struct MixedVisitor
impl<'out> MixedVisitor<'out> {
    pub closed spec fn vx_state(&self) -> State { (*self.out)@ }
    #[verifier::prophetic]
    pub closed spec fn vx_place(&self) -> Place { place_of(final(self.out)@) }
    pub closed spec fn vx_ok(&self) -> bool { self.vx_present_0 == (*self.out)@ is Some && !((*self.out)@ matches Some(Mixed::Lost(_))) }
//@fn fx "ElementVisitor for MixedVisitor::element" rename=vx_element props=C14
    requires old(self).vx_ok(), fresh(child),
    ensures
        final(self).vx_ok(), final(self).vx_log == old(self).vx_log, final(self).vx_hist == old(self).vx_hist,
        final(self).vx_place() == old(self).vx_place(),
        step(old(self).vx_state(), final(self).vx_state(), Entry { call: Call::Elem { src: at(child).src, at: at(child).idx }, answer: answer_element(r) }), //# C14
        match r {
            // passed on: the very same child, untouched
            Ok(Some(c)) => c == child && (has_resolved(r) ==> has_resolved(c.reader))
                && (has_resolved(c.reader) ==> final(c.reader).st() == (*c.reader).st()),
            _ => advanced(old(child.reader).st(), final(child.reader).st(), child.stack_pos as int),
        },
//@at start
    broadcast use lemma_child_name;
//@end
}
impl<'out> ElementVisitor for MixedVisitor<'out> {
    closed spec fn log(&self) -> Seq<Entry> { self.vx_log@ }
    closed spec fn inv(&self) -> bool { self.vx_ok() && chain(self.vx_hist@, self.vx_log@, init(), steps()) && self.vx_hist@.last() == self.vx_state() }
    #[verifier::prophetic]
    closed spec fn place(&self) -> Place { self.vx_place() }
    fn attribute(&mut self, name: &ExpandedNameRef<'_>, value: String) -> (r: Result<Option<String>, VisitorError>) {
        let r = { let mut d = VxDefault { log: Ghost(Seq::empty()) }; d.attribute(name, value) };
        proof {
            let e = Entry { call: Call::Attr { ns: name.namespace@, local: name.local_name@, value: value@ }, answer: answer_text(r) };
            lemma_chain(self.vx_hist@, self.vx_log@, init(), steps(), self.vx_state(), e);
            self.vx_log@ = self.vx_log@.push(e); self.vx_hist@ = self.vx_hist@.push(self.vx_state());
        }
        r
    }
    fn element<'a>(&mut self, child: ElementReader<'a>) -> (r: Result<Option<ElementReader<'a>>, VisitorError>) {
        let r = self.vx_element(child);
        proof {
            let e = Entry { call: Call::Elem { src: at(child).src, at: at(child).idx }, answer: answer_element(r) };
            lemma_chain(self.vx_hist@, self.vx_log@, init(), steps(), self.vx_state(), e);
            self.vx_log@ = self.vx_log@.push(e); self.vx_hist@ = self.vx_hist@.push(self.vx_state());
        }
        r
    }
    fn characters(&mut self, s: String, p: TextPosition) -> (r: Result<Option<String>, BoxedStdError>) {
        let r = { let mut d = VxDefault { log: Ghost(Seq::empty()) }; d.characters(s, p) };
        proof {
            let e = Entry { call: Call::Chars { s: s@, pos: p }, answer: answer_chars(r) };
            lemma_chain(self.vx_hist@, self.vx_log@, init(), steps(), self.vx_state(), e);
            self.vx_log@ = self.vx_log@.push(e); self.vx_hist@ = self.vx_hist@.push(self.vx_state());
        }
        r
    }
}
impl<'out> RawDeserializeVisitor<'out> for MixedVisitor<'out> {
    type Out = Mixed;
    open spec fn finished(log: Seq<Entry>, default: Option<VxFn<Mixed>>, r: Result<Mixed, VisitorError>) -> bool { finished(log, default, r) }
//@fn fx "RawDeserializeVisitor for MixedVisitor::new" props=C14
//@at start
    proof { lemma_chain0::<State>(init(), steps()); }
//@end
//@fn fx "RawDeserializeVisitor for MixedVisitor::finalize" props=C14
//@at start
    broadcast use axiom_value_at;
    proof {
        assert(took(self.vx_log@, init(), steps(), self.vx_state()));
        assert forall|r: Result<Mixed, VisitorError>| #[trigger] finished(self.vx_log@, default, r) implies <Self as RawDeserializeVisitor>::finished(self.log(), default, r) by {}
    }
//@end
}
impl<'out> RawDeserialize<'out> for Mixed { type Visitor = MixedVisitor<'out>; }
impl Deserialize for Mixed {
    open spec fn reads(src: Src, i: int, r: Result<Self, VisitorError>) -> bool {
        ||| exists|log: Seq<Entry>| #[trigger] visited(src, i, log) && finished(log, None, r)
        ||| r is Err && r->Err_0 is Propagate && exists|log: Seq<Entry>, s: State| #[trigger] visit_failed(src, i, log, r->Err_0->Propagate_0) && #[trigger] took(log, init(), steps(), s)
    }
//@fn fx "Deserialize for Mixed::deserialize" props=C14
//@at start
    broadcast use {lemma_visited, axiom_value_at, lemma_took};
//@end
}
}

// ------------------------------------------------------------------- Guarded
pub enum Guarded { Hidden(String), Seen(String), Gone, Flag }
pub mod Guarded_code {
use super::*;
pub type State = Option<Guarded>;
pub open spec fn init() -> State { None }
/// An entry takes the enum from `a` to `b`.
pub open spec fn step(a: State, b: State, e: Entry) -> bool {
    if is_elem(e, ""@, "Seen"@) {
        match a {
            Some(Guarded::Seen(f)) => b is Some && b.unwrap() is Seen && elem_step(Some(f), Some(b.unwrap()->Seen_0), e),
            None => (b is Some ==> b.unwrap() is Seen) && elem_step(None, (if b is Some { Some(b.unwrap()->Seen_0) } else { None }), e),
            // another variant was chosen before
            _ => b == a && e.answer is Failed && e.answer->Failed_0 is Wrap,
        }
    } else if is_elem(e, ""@, "Flag"@) {
        match a {
            Some(Guarded::Flag) => b == a && e.answer is Consumed,
            None => b == Some(Guarded::Flag) && e.answer is Consumed,
            // another variant was chosen before
            _ => b == a && e.answer is Failed && e.answer->Failed_0 is Wrap,
        }
    } else { b == a && e.answer == handed_on(e) }
}
pub open spec fn steps() -> spec_fn(State, State, Entry) -> bool { |a: State, b: State, e: Entry| step(a, b, e) }
pub open spec fn finished(log: Seq<Entry>, default: Option<VxFn<Guarded>>, r: Result<Guarded, VisitorError>) -> bool {
    exists|s: State| #[trigger] took(log, init(), steps(), s) && match s {
        Some(v) => r == Ok::<Guarded, VisitorError>(v) && !(v is Hidden) && !(v is Gone),
        None => match default { Some(d) => r is Ok && d.gives(r->Ok_0), None => r is Err && r->Err_0 is Wrap },
    }
}
//@fn fx Guarded_ELEMENTS props=C11,C14 nocanary=1
    ensures names_sorted(r@), r@.len() == 2, //# C11,C14
        name_of(r@[0]) == (""@, "Flag"@), //# C11,C14
        name_of(r@[1]) == (""@, "Seen"@), //# C11,C14
        (""@, "Flag"@) != (""@, "Seen"@),
//@at start
    proof {
        reveal(names_sorted);
        reveal_strlit("");
        reveal_strlit("Flag");
        reveal_strlit("Seen");
        lemma_str_lt_at("Flag"@, "Seen"@, 0);
    }
//@end
//@item fx struct GuardedVisitor
impl<'out> GuardedVisitor<'out> {
    pub closed spec fn vx_state(&self) -> State { (*self.out)@ }
    #[verifier::prophetic]
    pub closed spec fn vx_place(&self) -> Place { place_of(final(self.out)@) }
    pub closed spec fn vx_ok(&self) -> bool { self.vx_present_0 == (*self.out)@ is Some && !((*self.out)@ matches Some(Guarded::Hidden(_))) && !((*self.out)@ matches Some(Guarded::Gone)) }
//@fn fx "ElementVisitor for GuardedVisitor::element" rename=vx_element props=C14
    requires old(self).vx_ok(), fresh(child),
    ensures
        final(self).vx_ok(), final(self).vx_log == old(self).vx_log, final(self).vx_hist == old(self).vx_hist,
        final(self).vx_place() == old(self).vx_place(),
        step(old(self).vx_state(), final(self).vx_state(), Entry { call: Call::Elem { src: at(child).src, at: at(child).idx }, answer: answer_element(r) }), //# C14
        match r {
            // passed on: the very same child, untouched
            Ok(Some(c)) => c == child && (has_resolved(r) ==> has_resolved(c.reader))
                && (has_resolved(c.reader) ==> final(c.reader).st() == (*c.reader).st()),
            _ => advanced(old(child.reader).st(), final(child.reader).st(), child.stack_pos as int),
        },
//@at start
    broadcast use lemma_child_name;
//@end
}
impl<'out> ElementVisitor for GuardedVisitor<'out> {
    closed spec fn log(&self) -> Seq<Entry> { self.vx_log@ }
    closed spec fn inv(&self) -> bool { self.vx_ok() && chain(self.vx_hist@, self.vx_log@, init(), steps()) && self.vx_hist@.last() == self.vx_state() }
    #[verifier::prophetic]
    closed spec fn place(&self) -> Place { self.vx_place() }
    fn attribute(&mut self, name: &ExpandedNameRef<'_>, value: String) -> (r: Result<Option<String>, VisitorError>) {
        let r = { let mut d = VxDefault { log: Ghost(Seq::empty()) }; d.attribute(name, value) };
        proof {
            let e = Entry { call: Call::Attr { ns: name.namespace@, local: name.local_name@, value: value@ }, answer: answer_text(r) };
            lemma_chain(self.vx_hist@, self.vx_log@, init(), steps(), self.vx_state(), e);
            self.vx_log@ = self.vx_log@.push(e); self.vx_hist@ = self.vx_hist@.push(self.vx_state());
        }
        r
    }
    fn element<'a>(&mut self, child: ElementReader<'a>) -> (r: Result<Option<ElementReader<'a>>, VisitorError>) {
        let r = self.vx_element(child);
        proof {
            let e = Entry { call: Call::Elem { src: at(child).src, at: at(child).idx }, answer: answer_element(r) };
            lemma_chain(self.vx_hist@, self.vx_log@, init(), steps(), self.vx_state(), e);
            self.vx_log@ = self.vx_log@.push(e); self.vx_hist@ = self.vx_hist@.push(self.vx_state());
        }
        r
    }
    fn characters(&mut self, s: String, p: TextPosition) -> (r: Result<Option<String>, BoxedStdError>) {
        let r = { let mut d = VxDefault { log: Ghost(Seq::empty()) }; d.characters(s, p) };
        proof {
            let e = Entry { call: Call::Chars { s: s@, pos: p }, answer: answer_chars(r) };
            lemma_chain(self.vx_hist@, self.vx_log@, init(), steps(), self.vx_state(), e);
            self.vx_log@ = self.vx_log@.push(e); self.vx_hist@ = self.vx_hist@.push(self.vx_state());
        }
        r
    }
}
impl<'out> RawDeserializeVisitor<'out> for GuardedVisitor<'out> {
    type Out = Guarded;
    open spec fn finished(log: Seq<Entry>, default: Option<VxFn<Guarded>>, r: Result<Guarded, VisitorError>) -> bool { finished(log, default, r) }
//@fn fx "RawDeserializeVisitor for GuardedVisitor::new" props=C14
//@at start
    proof { lemma_chain0::<State>(init(), steps()); }
//@end
//@fn fx "RawDeserializeVisitor for GuardedVisitor::finalize" props=C14
//@at start
    broadcast use axiom_value_at;
    proof {
        assert(took(self.vx_log@, init(), steps(), self.vx_state()));
        assert forall|r: Result<Guarded, VisitorError>| #[trigger] finished(self.vx_log@, default, r) implies <Self as RawDeserializeVisitor>::finished(self.log(), default, r) by {}
    }
//@end
}
impl<'out> RawDeserialize<'out> for Guarded { type Visitor = GuardedVisitor<'out>; }
impl Deserialize for Guarded {
    open spec fn reads(src: Src, i: int, r: Result<Self, VisitorError>) -> bool {
        ||| exists|log: Seq<Entry>| #[trigger] visited(src, i, log) && finished(log, None, r)
        ||| r is Err && r->Err_0 is Propagate && exists|log: Seq<Entry>, s: State| #[trigger] visit_failed(src, i, log, r->Err_0->Propagate_0) && #[trigger] took(log, init(), steps(), s)
    }
//@fn fx "Deserialize for Guarded::deserialize" props=C14
//@at start
    broadcast use {lemma_visited, axiom_value_at, lemma_took};
//@end
}
}

// ------------------------------------------------------------------- One
pub struct One { pub head: String, pub shape: Shape }
pub mod One_code {
use super::*;
/// One slot of memory per field the struct fills itself.
pub struct OneOut<'out> { pub head: &'out mut MaybeUninit<String> }
pub struct Places<'out> { pub out: OneOut<'out>, pub shape: &'out mut MaybeUninit<Shape> }
/// What the struct's own memory holds once its fields hold these.
pub open spec fn assembled(head: Option<String>, shape: Option<Shape>) -> Option<One> {
    if head is Some && shape is Some { Some(One { head: head.unwrap(), shape: shape.unwrap() }) } else { None }
}
#[verifier::external_body]
pub fn vx_split<'out>(out: &'out mut MaybeUninit<One>) -> (p: Places<'out>)
    requires old(out)@ is None
    ensures (*p.out.head)@ is None, (*p.shape)@ is None, final(out)@ == assembled(final(p.out.head)@, final(p.shape)@)
{ unimplemented!() }
pub ghost struct State { pub head: Option<String>, pub subs: Seq<Seq<Entry>> }
pub open spec fn init() -> State { State { head: None, subs: seq![Seq::<Entry>::empty()] } }
/// The field an entry is for.
pub open spec fn field_of(e: Entry) -> int {
    if is_elem(e, ""@, "head"@) { 0 } else { -1 }
}
/// An entry takes the struct from `a` to `b`.
pub open spec fn step(a: State, b: State, e: Entry) -> bool {
    &&& if field_of(e) == 0 { elem_step(a.head, b.head, e) } else { b.head == a.head }
    &&& if field_of(e) >= 0 { b.subs == a.subs } else { routed(a.subs, b.subs, e) }
}
pub open spec fn steps() -> spec_fn(State, State, Entry) -> bool { |a: State, b: State, e: Entry| step(a, b, e) }
/// What becomes of the struct after its last entry.
pub open spec fn filled(s: State, r: Result<One, VisitorError>) -> bool {
    match r {
        Ok(v) => {
            &&& elem_value(s.head, v.head)
            &&& Shape_code::finished(s.subs[0], None, Ok(v.shape))

        }
        Err(e) => {
            ||| elem_missing(s.head, e)
            ||| Shape_code::finished(s.subs[0], None, Err(e))

        }
    }
}
pub open spec fn finished(log: Seq<Entry>, r: Result<One, VisitorError>) -> bool {
    exists|s: State| #[trigger] took(log, init(), steps(), s) && filled(s, r)
}
//@fn fx One_ELEMENTS props=C11,C13 nocanary=1
    ensures names_sorted(r@), r@.len() == 1, //# C11,C13
        name_of(r@[0]) == (""@, "head"@), //# C11,C13
//@at start
    proof {
        reveal(names_sorted);
        reveal_strlit("");
        reveal_strlit("head");
    }
//@end
//@fn fx One_ATTRIBUTES props=C11,C13 nocanary=1
    ensures names_sorted(r@), r@.len() == 0, //# C11,C13
//@at start
    proof {
        reveal(names_sorted);
    }
//@end
//@item fx struct OneVisitor
impl<'out> OneVisitor<'out> {
    pub closed spec fn vx_state(&self) -> State { State { head: (*self.out.head)@, subs: seq![self.vx_sub_0.log()] } }
    pub closed spec fn vx_ok(&self) -> bool { self.vx_present_0 == (*self.out.head)@ is Some && self.vx_sub_0.inv() }
    #[verifier::prophetic]
    pub closed spec fn vx_place(&self) -> Place { place_of(assembled(final(self.out.head)@, value_at(self.vx_sub_0.place()))) }
//@fn fx "ElementVisitor for OneVisitor::element" rename=vx_element props=C13
    requires old(self).vx_ok(), fresh(child),
    ensures
        final(self).vx_ok(), final(self).vx_log == old(self).vx_log, final(self).vx_hist == old(self).vx_hist,
        final(self).vx_place() == old(self).vx_place(),
        step(old(self).vx_state(), final(self).vx_state(), Entry { call: Call::Elem { src: at(child).src, at: at(child).idx }, answer: answer_element(r) }), //# C13
        match r {
            // passed on: the very same child, untouched
            Ok(Some(c)) => c == child && (has_resolved(r) ==> has_resolved(c.reader))
                && (has_resolved(c.reader) ==> final(c.reader).st() == (*c.reader).st()),
            _ => advanced(old(child.reader).st(), final(child.reader).st(), child.stack_pos as int),
        },
//@at start
    broadcast use lemma_child_name;
//@at before let vx_r
    let ghost g0 = logs(vx_sl@);
//@at after let vx_r
    proof {
        assert(has_resolved(vx_sl)); assert(has_resolved(vx_arr)); assert(has_resolved(vx_arr@[0]));
        assert(g0 =~= old(self).vx_state().subs);
        assert(logs(vx_sl@) =~= self.vx_state().subs);
    }
//@end
//@fn fx "ElementVisitor for OneVisitor::attribute" rename=vx_attribute props=C13
    requires old(self).vx_ok(),
    ensures
        final(self).vx_ok(), final(self).vx_log == old(self).vx_log, final(self).vx_hist == old(self).vx_hist,
        final(self).vx_place() == old(self).vx_place(),
        step(old(self).vx_state(), final(self).vx_state(), Entry { call: Call::Attr { ns: name.namespace@, local: name.local_name@, value: value@ }, answer: answer_text(r) }), //# C13
//@at before let vx_r
    let ghost g0 = logs(vx_sl@);
//@at after let vx_r
    proof {
        assert(has_resolved(vx_sl)); assert(has_resolved(vx_arr)); assert(has_resolved(vx_arr@[0]));
        assert(g0 =~= old(self).vx_state().subs);
        assert(logs(vx_sl@) =~= self.vx_state().subs);
    }
//@end
//@fn fx "ElementVisitor for OneVisitor::characters" rename=vx_characters props=C13
    requires old(self).vx_ok(),
    ensures
        final(self).vx_ok(), final(self).vx_log == old(self).vx_log, final(self).vx_hist == old(self).vx_hist,
        final(self).vx_place() == old(self).vx_place(),
        step(old(self).vx_state(), final(self).vx_state(), Entry { call: Call::Chars { s: s@, pos: p }, answer: answer_chars(r) }), //# C13
//@at before let vx_r
    let ghost g0 = logs(vx_sl@);
//@at after let vx_r
    proof {
        assert(has_resolved(vx_sl)); assert(has_resolved(vx_arr)); assert(has_resolved(vx_arr@[0]));
        assert(g0 =~= old(self).vx_state().subs);
        assert(logs(vx_sl@) =~= self.vx_state().subs);
    }
//@end
}
impl<'out> ElementVisitor for OneVisitor<'out> {
    closed spec fn log(&self) -> Seq<Entry> { self.vx_log@ }
    closed spec fn inv(&self) -> bool { self.vx_ok() && chain(self.vx_hist@, self.vx_log@, init(), steps()) && self.vx_hist@.last() == self.vx_state() }
    #[verifier::prophetic]
    closed spec fn place(&self) -> Place { self.vx_place() }
    fn attribute(&mut self, name: &ExpandedNameRef<'_>, value: String) -> (r: Result<Option<String>, VisitorError>) {
        let r = self.vx_attribute(name, value);
        proof {
            let e = Entry { call: Call::Attr { ns: name.namespace@, local: name.local_name@, value: value@ }, answer: answer_text(r) };
            lemma_chain(self.vx_hist@, self.vx_log@, init(), steps(), self.vx_state(), e);
            self.vx_log@ = self.vx_log@.push(e); self.vx_hist@ = self.vx_hist@.push(self.vx_state());
        }
        r
    }
    fn element<'a>(&mut self, child: ElementReader<'a>) -> (r: Result<Option<ElementReader<'a>>, VisitorError>) {
        let r = self.vx_element(child);
        proof {
            let e = Entry { call: Call::Elem { src: at(child).src, at: at(child).idx }, answer: answer_element(r) };
            lemma_chain(self.vx_hist@, self.vx_log@, init(), steps(), self.vx_state(), e);
            self.vx_log@ = self.vx_log@.push(e); self.vx_hist@ = self.vx_hist@.push(self.vx_state());
        }
        r
    }
    fn characters(&mut self, s: String, p: TextPosition) -> (r: Result<Option<String>, BoxedStdError>) {
        let r = self.vx_characters(s, p);
        proof {
            let e = Entry { call: Call::Chars { s: s@, pos: p }, answer: answer_chars(r) };
            lemma_chain(self.vx_hist@, self.vx_log@, init(), steps(), self.vx_state(), e);
            self.vx_log@ = self.vx_log@.push(e); self.vx_hist@ = self.vx_hist@.push(self.vx_state());
        }
        r
    }
}
impl<'out> RawDeserializeVisitor<'out> for OneVisitor<'out> {
    type Out = One;
    open spec fn finished(log: Seq<Entry>, default: Option<VxFn<One>>, r: Result<One, VisitorError>) -> bool { finished(log, r) }
//@fn fx "RawDeserializeVisitor for OneVisitor::new" props=C13
//@at start
    proof { broadcast use axiom_value_at; lemma_chain0::<State>(init(), steps()); }
//@at after tail
    proof { assert(vx_r.vx_state().subs =~= init().subs); }
//@end
//@fn fx "RawDeserializeVisitor for OneVisitor::finalize" props=C13
//@at start
    broadcast use {lemma_took, axiom_value_at};
    proof {
        assert(took(self.vx_log@, init(), steps(), self.vx_state()));
        assert forall|r: Result<One, VisitorError>| #[trigger] filled(self.vx_state(), r) implies <Self as RawDeserializeVisitor>::finished(self.log(), default, r) by {}
    }
//@end
}
impl Deserialize for One {
    open spec fn reads(src: Src, i: int, r: Result<Self, VisitorError>) -> bool {
        ||| exists|log: Seq<Entry>| #[trigger] visited(src, i, log) && finished(log, r)
        ||| r is Err && r->Err_0 is Propagate && exists|log: Seq<Entry>, s: State| #[trigger] visit_failed(src, i, log, r->Err_0->Propagate_0) && #[trigger] took(log, init(), steps(), s)
    }
//@fn fx "Deserialize for One::deserialize" props=C13
//@at start
    broadcast use {lemma_visited, axiom_value_at, lemma_took};
//@end
}
}

// ------------------------------------------------------------------- TwoFlat
pub struct TwoFlat { pub shape: Shape, pub id: Tracked, pub tone: Tone, pub tail: Vec<Tracked> }
pub mod TwoFlat_code {
use super::*;
/// One slot of memory per field the struct fills itself.
pub struct TwoFlatOut<'out> { pub id: &'out mut MaybeUninit<Tracked>, pub tail: &'out mut MaybeUninit<Vec<Tracked>> }
pub struct Places<'out> { pub out: TwoFlatOut<'out>, pub shape: &'out mut MaybeUninit<Shape>, pub tone: &'out mut MaybeUninit<Tone> }
/// What the struct's own memory holds once its fields hold these.
pub open spec fn assembled(shape: Option<Shape>, id: Option<Tracked>, tone: Option<Tone>, tail: Option<Vec<Tracked>>) -> Option<TwoFlat> {
    if shape is Some && id is Some && tone is Some && tail is Some { Some(TwoFlat { shape: shape.unwrap(), id: id.unwrap(), tone: tone.unwrap(), tail: tail.unwrap() }) } else { None }
}
#[verifier::external_body]
pub fn vx_split<'out>(out: &'out mut MaybeUninit<TwoFlat>) -> (p: Places<'out>)
    requires old(out)@ is None
    ensures (*p.shape)@ is None, (*p.out.id)@ is None, (*p.tone)@ is None, (*p.out.tail)@ is None, final(out)@ == assembled(final(p.shape)@, final(p.out.id)@, final(p.tone)@, final(p.out.tail)@)
{ unimplemented!() }
pub ghost struct State { pub id: Option<Tracked>, pub tail: Option<Vec<Tracked>>, pub subs: Seq<Seq<Entry>> }
pub open spec fn init() -> State { State { id: None, tail: None, subs: seq![Seq::<Entry>::empty(), Seq::<Entry>::empty()] } }
/// The field an entry is for.
pub open spec fn field_of(e: Entry) -> int {
    if is_attr(e, ""@, "id"@) { 0 } else if is_elem(e, ""@, "tail"@) { 1 } else { -1 }
}
/// An entry takes the struct from `a` to `b`.
pub open spec fn step(a: State, b: State, e: Entry) -> bool {
    &&& if field_of(e) == 0 { attr_step(a.id, b.id, e) } else { b.id == a.id }
    &&& if field_of(e) == 1 { elem_step(a.tail, b.tail, e) } else { b.tail == a.tail }
    &&& if field_of(e) >= 0 { b.subs == a.subs } else { routed(a.subs, b.subs, e) }
}
pub open spec fn steps() -> spec_fn(State, State, Entry) -> bool { |a: State, b: State, e: Entry| step(a, b, e) }
/// What becomes of the struct after its last entry.
pub open spec fn filled(s: State, r: Result<TwoFlat, VisitorError>) -> bool {
    match r {
        Ok(v) => {
            &&& Shape_code::finished(s.subs[0], None, Ok(v.shape))
            &&& attr_value(s.id, v.id)
            &&& Tone_code::finished(s.subs[1], None, Ok(v.tone))
            &&& elem_value(s.tail, v.tail)

        }
        Err(e) => {
            ||| Shape_code::finished(s.subs[0], None, Err(e))
            ||| attr_missing(s.id, e)
            ||| Tone_code::finished(s.subs[1], None, Err(e))
            ||| elem_missing(s.tail, e)

        }
    }
}
pub open spec fn finished(log: Seq<Entry>, r: Result<TwoFlat, VisitorError>) -> bool {
    exists|s: State| #[trigger] took(log, init(), steps(), s) && filled(s, r)
}
//@fn fx TwoFlat_ELEMENTS props=C11,C13 nocanary=1
    ensures names_sorted(r@), r@.len() == 1, //# C11,C13
        name_of(r@[0]) == (""@, "tail"@), //# C11,C13
//@at start
    proof {
        reveal(names_sorted);
        reveal_strlit("");
        reveal_strlit("tail");
    }
//@end
//@fn fx TwoFlat_ATTRIBUTES props=C11,C13 nocanary=1
    ensures names_sorted(r@), r@.len() == 1, //# C11,C13
        name_of(r@[0]) == (""@, "id"@), //# C11,C13
//@at start
    proof {
        reveal(names_sorted);
        reveal_strlit("");
        reveal_strlit("id");
    }
//@end
//@item fx struct TwoFlatVisitor
impl<'out> TwoFlatVisitor<'out> {
    pub closed spec fn vx_state(&self) -> State { State { id: (*self.out.id)@, tail: (*self.out.tail)@, subs: seq![self.vx_sub_0.log(), self.vx_sub_1.log()] } }
    pub closed spec fn vx_ok(&self) -> bool { self.vx_present_0 == (*self.out.id)@ is Some && self.vx_present_1 == (*self.out.tail)@ is Some && self.vx_sub_0.inv() && self.vx_sub_1.inv() }
    #[verifier::prophetic]
    pub closed spec fn vx_place(&self) -> Place { place_of(assembled(value_at(self.vx_sub_0.place()), final(self.out.id)@, value_at(self.vx_sub_1.place()), final(self.out.tail)@)) }
//@fn fx "ElementVisitor for TwoFlatVisitor::element" rename=vx_element props=C13
    requires old(self).vx_ok(), fresh(child),
    ensures
        final(self).vx_ok(), final(self).vx_log == old(self).vx_log, final(self).vx_hist == old(self).vx_hist,
        final(self).vx_place() == old(self).vx_place(),
        step(old(self).vx_state(), final(self).vx_state(), Entry { call: Call::Elem { src: at(child).src, at: at(child).idx }, answer: answer_element(r) }), //# C13
        match r {
            // passed on: the very same child, untouched
            Ok(Some(c)) => c == child && (has_resolved(r) ==> has_resolved(c.reader))
                && (has_resolved(c.reader) ==> final(c.reader).st() == (*c.reader).st()),
            _ => advanced(old(child.reader).st(), final(child.reader).st(), child.stack_pos as int),
        },
//@at start
    broadcast use lemma_child_name;
//@at before let vx_r
    let ghost g0 = logs(vx_sl@);
//@at after let vx_r
    proof {
        assert(has_resolved(vx_sl)); assert(has_resolved(vx_arr)); assert(has_resolved(vx_arr@[0])); assert(has_resolved(vx_arr@[1]));
        assert(g0 =~= old(self).vx_state().subs);
        assert(logs(vx_sl@) =~= self.vx_state().subs);
    }
//@end
//@fn fx "ElementVisitor for TwoFlatVisitor::attribute" rename=vx_attribute props=C13
    requires old(self).vx_ok(),
    ensures
        final(self).vx_ok(), final(self).vx_log == old(self).vx_log, final(self).vx_hist == old(self).vx_hist,
        final(self).vx_place() == old(self).vx_place(),
        step(old(self).vx_state(), final(self).vx_state(), Entry { call: Call::Attr { ns: name.namespace@, local: name.local_name@, value: value@ }, answer: answer_text(r) }), //# C13
//@at before let vx_r
    let ghost g0 = logs(vx_sl@);
//@at after let vx_r
    proof {
        assert(has_resolved(vx_sl)); assert(has_resolved(vx_arr)); assert(has_resolved(vx_arr@[0])); assert(has_resolved(vx_arr@[1]));
        assert(g0 =~= old(self).vx_state().subs);
        assert(logs(vx_sl@) =~= self.vx_state().subs);
    }
//@end
//@fn fx "ElementVisitor for TwoFlatVisitor::characters" rename=vx_characters props=C13
    requires old(self).vx_ok(),
    ensures
        final(self).vx_ok(), final(self).vx_log == old(self).vx_log, final(self).vx_hist == old(self).vx_hist,
        final(self).vx_place() == old(self).vx_place(),
        step(old(self).vx_state(), final(self).vx_state(), Entry { call: Call::Chars { s: s@, pos: p }, answer: answer_chars(r) }), //# C13
//@at before let vx_r
    let ghost g0 = logs(vx_sl@);
//@at after let vx_r
    proof {
        assert(has_resolved(vx_sl)); assert(has_resolved(vx_arr)); assert(has_resolved(vx_arr@[0])); assert(has_resolved(vx_arr@[1]));
        assert(g0 =~= old(self).vx_state().subs);
        assert(logs(vx_sl@) =~= self.vx_state().subs);
    }
//@end
}
impl<'out> ElementVisitor for TwoFlatVisitor<'out> {
    closed spec fn log(&self) -> Seq<Entry> { self.vx_log@ }
    closed spec fn inv(&self) -> bool { self.vx_ok() && chain(self.vx_hist@, self.vx_log@, init(), steps()) && self.vx_hist@.last() == self.vx_state() }
    #[verifier::prophetic]
    closed spec fn place(&self) -> Place { self.vx_place() }
    fn attribute(&mut self, name: &ExpandedNameRef<'_>, value: String) -> (r: Result<Option<String>, VisitorError>) {
        let r = self.vx_attribute(name, value);
        proof {
            let e = Entry { call: Call::Attr { ns: name.namespace@, local: name.local_name@, value: value@ }, answer: answer_text(r) };
            lemma_chain(self.vx_hist@, self.vx_log@, init(), steps(), self.vx_state(), e);
            self.vx_log@ = self.vx_log@.push(e); self.vx_hist@ = self.vx_hist@.push(self.vx_state());
        }
        r
    }
    fn element<'a>(&mut self, child: ElementReader<'a>) -> (r: Result<Option<ElementReader<'a>>, VisitorError>) {
        let r = self.vx_element(child);
        proof {
            let e = Entry { call: Call::Elem { src: at(child).src, at: at(child).idx }, answer: answer_element(r) };
            lemma_chain(self.vx_hist@, self.vx_log@, init(), steps(), self.vx_state(), e);
            self.vx_log@ = self.vx_log@.push(e); self.vx_hist@ = self.vx_hist@.push(self.vx_state());
        }
        r
    }
    fn characters(&mut self, s: String, p: TextPosition) -> (r: Result<Option<String>, BoxedStdError>) {
        let r = self.vx_characters(s, p);
        proof {
            let e = Entry { call: Call::Chars { s: s@, pos: p }, answer: answer_chars(r) };
            lemma_chain(self.vx_hist@, self.vx_log@, init(), steps(), self.vx_state(), e);
            self.vx_log@ = self.vx_log@.push(e); self.vx_hist@ = self.vx_hist@.push(self.vx_state());
        }
        r
    }
}
impl<'out> RawDeserializeVisitor<'out> for TwoFlatVisitor<'out> {
    type Out = TwoFlat;
    open spec fn finished(log: Seq<Entry>, default: Option<VxFn<TwoFlat>>, r: Result<TwoFlat, VisitorError>) -> bool { finished(log, r) }
//@fn fx "RawDeserializeVisitor for TwoFlatVisitor::new" props=C13
//@at start
    proof { broadcast use axiom_value_at; lemma_chain0::<State>(init(), steps()); }
//@at after tail
    proof { assert(vx_r.vx_state().subs =~= init().subs); }
//@end
//@fn fx "RawDeserializeVisitor for TwoFlatVisitor::finalize" props=C13
//@at start
    broadcast use {lemma_took, axiom_value_at};
    proof {
        assert(took(self.vx_log@, init(), steps(), self.vx_state()));
        assert forall|r: Result<TwoFlat, VisitorError>| #[trigger] filled(self.vx_state(), r) implies <Self as RawDeserializeVisitor>::finished(self.log(), default, r) by {}
    }
//@end
}
impl Deserialize for TwoFlat {
    open spec fn reads(src: Src, i: int, r: Result<Self, VisitorError>) -> bool {
        ||| exists|log: Seq<Entry>| #[trigger] visited(src, i, log) && finished(log, r)
        ||| r is Err && r->Err_0 is Propagate && exists|log: Seq<Entry>, s: State| #[trigger] visit_failed(src, i, log, r->Err_0->Propagate_0) && #[trigger] took(log, init(), steps(), s)
    }
//@fn fx "Deserialize for TwoFlat::deserialize" props=C13
//@at start
    broadcast use {lemma_visited, axiom_value_at, lemma_took};
//@end
}
}

// ------------------------------------------------------------------- Overlap
pub struct Overlap { pub Dot: Option<Empty>, pub first: Shape, pub second: Shape, pub mark: Marked, pub note: Option<String> }
pub mod Overlap_code {
use super::*;
/// One slot of memory per field the struct fills itself.
pub struct OverlapOut<'out> { pub Dot: &'out mut MaybeUninit<Option<Empty>>, pub note: &'out mut MaybeUninit<Option<String>> }
pub struct Places<'out> { pub out: OverlapOut<'out>, pub first: &'out mut MaybeUninit<Shape>, pub second: &'out mut MaybeUninit<Shape>, pub mark: &'out mut MaybeUninit<Marked> }
/// What the struct's own memory holds once its fields hold these.
pub open spec fn assembled(Dot: Option<Option<Empty>>, first: Option<Shape>, second: Option<Shape>, mark: Option<Marked>, note: Option<Option<String>>) -> Option<Overlap> {
    if Dot is Some && first is Some && second is Some && mark is Some && note is Some { Some(Overlap { Dot: Dot.unwrap(), first: first.unwrap(), second: second.unwrap(), mark: mark.unwrap(), note: note.unwrap() }) } else { None }
}
#[verifier::external_body]
pub fn vx_split<'out>(out: &'out mut MaybeUninit<Overlap>) -> (p: Places<'out>)
    requires old(out)@ is None
    ensures (*p.out.Dot)@ is None, (*p.first)@ is None, (*p.second)@ is None, (*p.mark)@ is None, (*p.out.note)@ is None, final(out)@ == assembled(final(p.out.Dot)@, final(p.first)@, final(p.second)@, final(p.mark)@, final(p.out.note)@)
{ unimplemented!() }
pub ghost struct State { pub Dot: Option<Option<Empty>>, pub note: Option<Option<String>>, pub subs: Seq<Seq<Entry>> }
pub open spec fn init() -> State { State { Dot: None, note: None, subs: seq![Seq::<Entry>::empty(), Seq::<Entry>::empty(), Seq::<Entry>::empty()] } }
/// The field an entry is for.
pub open spec fn field_of(e: Entry) -> int {
    if is_elem(e, ""@, "Dot"@) { 0 } else if is_attr(e, "urn:n"@, "note"@) { 1 } else { -1 }
}
/// An entry takes the struct from `a` to `b`.
pub open spec fn step(a: State, b: State, e: Entry) -> bool {
    &&& if field_of(e) == 0 { elem_step(a.Dot, b.Dot, e) } else { b.Dot == a.Dot }
    &&& if field_of(e) == 1 { attr_step(a.note, b.note, e) } else { b.note == a.note }
    &&& if field_of(e) >= 0 { b.subs == a.subs } else { routed(a.subs, b.subs, e) }
}
pub open spec fn steps() -> spec_fn(State, State, Entry) -> bool { |a: State, b: State, e: Entry| step(a, b, e) }
/// What becomes of the struct after its last entry.
pub open spec fn filled(s: State, r: Result<Overlap, VisitorError>) -> bool {
    match r {
        Ok(v) => {
            &&& elem_value(s.Dot, v.Dot)
            &&& Shape_code::finished(s.subs[0], None, Ok(v.first))
            &&& Shape_code::finished(s.subs[1], None, Ok(v.second))
            &&& Marked_code::finished(s.subs[2], None, Ok(v.mark))
            &&& attr_value(s.note, v.note)

        }
        Err(e) => {
            ||| elem_missing(s.Dot, e)
            ||| Shape_code::finished(s.subs[0], None, Err(e))
            ||| Shape_code::finished(s.subs[1], None, Err(e))
            ||| Marked_code::finished(s.subs[2], None, Err(e))
            ||| attr_missing(s.note, e)

        }
    }
}
pub open spec fn finished(log: Seq<Entry>, r: Result<Overlap, VisitorError>) -> bool {
    exists|s: State| #[trigger] took(log, init(), steps(), s) && filled(s, r)
}
//@fn fx Overlap_ELEMENTS props=C11,C13 nocanary=1
    ensures names_sorted(r@), r@.len() == 1, //# C11,C13
        name_of(r@[0]) == (""@, "Dot"@), //# C11,C13
//@at start
    proof {
        reveal(names_sorted);
        reveal_strlit("");
        reveal_strlit("Dot");
    }
//@end
//@fn fx Overlap_ATTRIBUTES props=C11,C13 nocanary=1
    ensures names_sorted(r@), r@.len() == 1, //# C11,C13
        name_of(r@[0]) == ("urn:n"@, "note"@), //# C11,C13
//@at start
    proof {
        reveal(names_sorted);
        reveal_strlit("note");
        reveal_strlit("urn:n");
    }
//@end
//@item fx struct OverlapVisitor
impl<'out> OverlapVisitor<'out> {
    pub closed spec fn vx_state(&self) -> State { State { Dot: (*self.out.Dot)@, note: (*self.out.note)@, subs: seq![self.vx_sub_0.log(), self.vx_sub_1.log(), self.vx_sub_2.log()] } }
    pub closed spec fn vx_ok(&self) -> bool { self.vx_present_0 == (*self.out.Dot)@ is Some && self.vx_present_1 == (*self.out.note)@ is Some && self.vx_sub_0.inv() && self.vx_sub_1.inv() && self.vx_sub_2.inv() }
    #[verifier::prophetic]
    pub closed spec fn vx_place(&self) -> Place { place_of(assembled(final(self.out.Dot)@, value_at(self.vx_sub_0.place()), value_at(self.vx_sub_1.place()), value_at(self.vx_sub_2.place()), final(self.out.note)@)) }
//@fn fx "ElementVisitor for OverlapVisitor::element" rename=vx_element props=C13
    requires old(self).vx_ok(), fresh(child),
    ensures
        final(self).vx_ok(), final(self).vx_log == old(self).vx_log, final(self).vx_hist == old(self).vx_hist,
        final(self).vx_place() == old(self).vx_place(),
        step(old(self).vx_state(), final(self).vx_state(), Entry { call: Call::Elem { src: at(child).src, at: at(child).idx }, answer: answer_element(r) }), //# C13
        match r {
            // passed on: the very same child, untouched
            Ok(Some(c)) => c == child && (has_resolved(r) ==> has_resolved(c.reader))
                && (has_resolved(c.reader) ==> final(c.reader).st() == (*c.reader).st()),
            _ => advanced(old(child.reader).st(), final(child.reader).st(), child.stack_pos as int),
        },
//@at start
    broadcast use lemma_child_name;
//@at before let vx_r
    let ghost g0 = logs(vx_sl@);
//@at after let vx_r
    proof {
        assert(has_resolved(vx_sl)); assert(has_resolved(vx_arr)); assert(has_resolved(vx_arr@[0])); assert(has_resolved(vx_arr@[1])); assert(has_resolved(vx_arr@[2]));
        assert(g0 =~= old(self).vx_state().subs);
        assert(logs(vx_sl@) =~= self.vx_state().subs);
    }
//@end
//@fn fx "ElementVisitor for OverlapVisitor::attribute" rename=vx_attribute props=C13
    requires old(self).vx_ok(),
    ensures
        final(self).vx_ok(), final(self).vx_log == old(self).vx_log, final(self).vx_hist == old(self).vx_hist,
        final(self).vx_place() == old(self).vx_place(),
        step(old(self).vx_state(), final(self).vx_state(), Entry { call: Call::Attr { ns: name.namespace@, local: name.local_name@, value: value@ }, answer: answer_text(r) }), //# C13
//@at before let vx_r
    let ghost g0 = logs(vx_sl@);
//@at after let vx_r
    proof {
        assert(has_resolved(vx_sl)); assert(has_resolved(vx_arr)); assert(has_resolved(vx_arr@[0])); assert(has_resolved(vx_arr@[1])); assert(has_resolved(vx_arr@[2]));
        assert(g0 =~= old(self).vx_state().subs);
        assert(logs(vx_sl@) =~= self.vx_state().subs);
    }
//@end
//@fn fx "ElementVisitor for OverlapVisitor::characters" rename=vx_characters props=C13
    requires old(self).vx_ok(),
    ensures
        final(self).vx_ok(), final(self).vx_log == old(self).vx_log, final(self).vx_hist == old(self).vx_hist,
        final(self).vx_place() == old(self).vx_place(),
        step(old(self).vx_state(), final(self).vx_state(), Entry { call: Call::Chars { s: s@, pos: p }, answer: answer_chars(r) }), //# C13
//@at before let vx_r
    let ghost g0 = logs(vx_sl@);
//@at after let vx_r
    proof {
        assert(has_resolved(vx_sl)); assert(has_resolved(vx_arr)); assert(has_resolved(vx_arr@[0])); assert(has_resolved(vx_arr@[1])); assert(has_resolved(vx_arr@[2]));
        assert(g0 =~= old(self).vx_state().subs);
        assert(logs(vx_sl@) =~= self.vx_state().subs);
    }
//@end
}
impl<'out> ElementVisitor for OverlapVisitor<'out> {
    closed spec fn log(&self) -> Seq<Entry> { self.vx_log@ }
    closed spec fn inv(&self) -> bool { self.vx_ok() && chain(self.vx_hist@, self.vx_log@, init(), steps()) && self.vx_hist@.last() == self.vx_state() }
    #[verifier::prophetic]
    closed spec fn place(&self) -> Place { self.vx_place() }
    fn attribute(&mut self, name: &ExpandedNameRef<'_>, value: String) -> (r: Result<Option<String>, VisitorError>) {
        let r = self.vx_attribute(name, value);
        proof {
            let e = Entry { call: Call::Attr { ns: name.namespace@, local: name.local_name@, value: value@ }, answer: answer_text(r) };
            lemma_chain(self.vx_hist@, self.vx_log@, init(), steps(), self.vx_state(), e);
            self.vx_log@ = self.vx_log@.push(e); self.vx_hist@ = self.vx_hist@.push(self.vx_state());
        }
        r
    }
    fn element<'a>(&mut self, child: ElementReader<'a>) -> (r: Result<Option<ElementReader<'a>>, VisitorError>) {
        let r = self.vx_element(child);
        proof {
            let e = Entry { call: Call::Elem { src: at(child).src, at: at(child).idx }, answer: answer_element(r) };
            lemma_chain(self.vx_hist@, self.vx_log@, init(), steps(), self.vx_state(), e);
            self.vx_log@ = self.vx_log@.push(e); self.vx_hist@ = self.vx_hist@.push(self.vx_state());
        }
        r
    }
    fn characters(&mut self, s: String, p: TextPosition) -> (r: Result<Option<String>, BoxedStdError>) {
        let r = self.vx_characters(s, p);
        proof {
            let e = Entry { call: Call::Chars { s: s@, pos: p }, answer: answer_chars(r) };
            lemma_chain(self.vx_hist@, self.vx_log@, init(), steps(), self.vx_state(), e);
            self.vx_log@ = self.vx_log@.push(e); self.vx_hist@ = self.vx_hist@.push(self.vx_state());
        }
        r
    }
}
impl<'out> RawDeserializeVisitor<'out> for OverlapVisitor<'out> {
    type Out = Overlap;
    open spec fn finished(log: Seq<Entry>, default: Option<VxFn<Overlap>>, r: Result<Overlap, VisitorError>) -> bool { finished(log, r) }
//@fn fx "RawDeserializeVisitor for OverlapVisitor::new" props=C13
//@at start
    proof { broadcast use axiom_value_at; lemma_chain0::<State>(init(), steps()); }
//@at after tail
    proof { assert(vx_r.vx_state().subs =~= init().subs); }
//@end
//@fn fx "RawDeserializeVisitor for OverlapVisitor::finalize" props=C13
//@at start
    broadcast use {lemma_took, axiom_value_at};
    proof {
        assert(took(self.vx_log@, init(), steps(), self.vx_state()));
        assert forall|r: Result<Overlap, VisitorError>| #[trigger] filled(self.vx_state(), r) implies <Self as RawDeserializeVisitor>::finished(self.log(), default, r) by {}
    }
//@end
}
impl Deserialize for Overlap {
    open spec fn reads(src: Src, i: int, r: Result<Self, VisitorError>) -> bool {
        ||| exists|log: Seq<Entry>| #[trigger] visited(src, i, log) && finished(log, r)
        ||| r is Err && r->Err_0 is Propagate && exists|log: Seq<Entry>, s: State| #[trigger] visit_failed(src, i, log, r->Err_0->Propagate_0) && #[trigger] took(log, init(), steps(), s)
    }
//@fn fx "Deserialize for Overlap::deserialize" props=C13
//@at start
    broadcast use {lemma_visited, axiom_value_at, lemma_took};
//@end
}
}

// ------------------------------------------------------------------- Bare
pub struct Bare { pub k: i32, pub m: Marked }
pub mod Bare_code {
use super::*;
/// One slot of memory per field the struct fills itself.
pub struct BareOut<'out> { pub k: &'out mut MaybeUninit<i32> }
pub struct Places<'out> { pub out: BareOut<'out>, pub m: &'out mut MaybeUninit<Marked> }
/// What the struct's own memory holds once its fields hold these.
pub open spec fn assembled(k: Option<i32>, m: Option<Marked>) -> Option<Bare> {
    if k is Some && m is Some { Some(Bare { k: k.unwrap(), m: m.unwrap() }) } else { None }
}
#[verifier::external_body]
pub fn vx_split<'out>(out: &'out mut MaybeUninit<Bare>) -> (p: Places<'out>)
    requires old(out)@ is None
    ensures (*p.out.k)@ is None, (*p.m)@ is None, final(out)@ == assembled(final(p.out.k)@, final(p.m)@)
{ unimplemented!() }
pub ghost struct State { pub k: Option<i32>, pub subs: Seq<Seq<Entry>> }
pub open spec fn init() -> State { State { k: None, subs: seq![Seq::<Entry>::empty()] } }
/// The field an entry is for.
pub open spec fn field_of(e: Entry) -> int {
    if is_elem(e, ""@, "k"@) { 0 } else { -1 }
}
/// An entry takes the struct from `a` to `b`.
pub open spec fn step(a: State, b: State, e: Entry) -> bool {
    &&& if field_of(e) == 0 { elem_step(a.k, b.k, e) } else { b.k == a.k }
    &&& if field_of(e) >= 0 { b.subs == a.subs } else { routed(a.subs, b.subs, e) }
}
pub open spec fn steps() -> spec_fn(State, State, Entry) -> bool { |a: State, b: State, e: Entry| step(a, b, e) }
/// What becomes of the struct after its last entry.
pub open spec fn filled(s: State, r: Result<Bare, VisitorError>) -> bool {
    match r {
        Ok(v) => {
            &&& elem_value(s.k, v.k)
            &&& Marked_code::finished(s.subs[0], None, Ok(v.m))

        }
        Err(e) => {
            ||| elem_missing(s.k, e)
            ||| Marked_code::finished(s.subs[0], None, Err(e))

        }
    }
}
pub open spec fn finished(log: Seq<Entry>, r: Result<Bare, VisitorError>) -> bool {
    exists|s: State| #[trigger] took(log, init(), steps(), s) && filled(s, r)
}
//@fn fx Bare_ELEMENTS props=C11,C13 nocanary=1
    ensures names_sorted(r@), r@.len() == 1, //# C11,C13
        name_of(r@[0]) == (""@, "k"@), //# C11,C13
//@at start
    proof {
        reveal(names_sorted);
        reveal_strlit("");
        reveal_strlit("k");
    }
//@end
//@fn fx Bare_ATTRIBUTES props=C11,C13 nocanary=1
    ensures names_sorted(r@), r@.len() == 0, //# C11,C13
//@at start
    proof {
        reveal(names_sorted);
    }
//@end
//@item fx struct BareVisitor
impl<'out> BareVisitor<'out> {
    pub closed spec fn vx_state(&self) -> State { State { k: (*self.out.k)@, subs: seq![self.vx_sub_0.log()] } }
    pub closed spec fn vx_ok(&self) -> bool { self.vx_present_0 == (*self.out.k)@ is Some && self.vx_sub_0.inv() }
    #[verifier::prophetic]
    pub closed spec fn vx_place(&self) -> Place { place_of(assembled(final(self.out.k)@, value_at(self.vx_sub_0.place()))) }
//@fn fx "ElementVisitor for BareVisitor::element" rename=vx_element props=C13
    requires old(self).vx_ok(), fresh(child),
    ensures
        final(self).vx_ok(), final(self).vx_log == old(self).vx_log, final(self).vx_hist == old(self).vx_hist,
        final(self).vx_place() == old(self).vx_place(),
        step(old(self).vx_state(), final(self).vx_state(), Entry { call: Call::Elem { src: at(child).src, at: at(child).idx }, answer: answer_element(r) }), //# C13
        match r {
            // passed on: the very same child, untouched
            Ok(Some(c)) => c == child && (has_resolved(r) ==> has_resolved(c.reader))
                && (has_resolved(c.reader) ==> final(c.reader).st() == (*c.reader).st()),
            _ => advanced(old(child.reader).st(), final(child.reader).st(), child.stack_pos as int),
        },
//@at start
    broadcast use lemma_child_name;
//@at before let vx_r
    let ghost g0 = logs(vx_sl@);
//@at after let vx_r
    proof {
        assert(has_resolved(vx_sl)); assert(has_resolved(vx_arr)); assert(has_resolved(vx_arr@[0]));
        assert(g0 =~= old(self).vx_state().subs);
        assert(logs(vx_sl@) =~= self.vx_state().subs);
    }
//@end
//@fn fx "ElementVisitor for BareVisitor::attribute" rename=vx_attribute props=C13
    requires old(self).vx_ok(),
    ensures
        final(self).vx_ok(), final(self).vx_log == old(self).vx_log, final(self).vx_hist == old(self).vx_hist,
        final(self).vx_place() == old(self).vx_place(),
        step(old(self).vx_state(), final(self).vx_state(), Entry { call: Call::Attr { ns: name.namespace@, local: name.local_name@, value: value@ }, answer: answer_text(r) }), //# C13
//@at before let vx_r
    let ghost g0 = logs(vx_sl@);
//@at after let vx_r
    proof {
        assert(has_resolved(vx_sl)); assert(has_resolved(vx_arr)); assert(has_resolved(vx_arr@[0]));
        assert(g0 =~= old(self).vx_state().subs);
        assert(logs(vx_sl@) =~= self.vx_state().subs);
    }
//@end
//@fn fx "ElementVisitor for BareVisitor::characters" rename=vx_characters props=C13
    requires old(self).vx_ok(),
    ensures
        final(self).vx_ok(), final(self).vx_log == old(self).vx_log, final(self).vx_hist == old(self).vx_hist,
        final(self).vx_place() == old(self).vx_place(),
        step(old(self).vx_state(), final(self).vx_state(), Entry { call: Call::Chars { s: s@, pos: p }, answer: answer_chars(r) }), //# C13
//@at before let vx_r
    let ghost g0 = logs(vx_sl@);
//@at after let vx_r
    proof {
        assert(has_resolved(vx_sl)); assert(has_resolved(vx_arr)); assert(has_resolved(vx_arr@[0]));
        assert(g0 =~= old(self).vx_state().subs);
        assert(logs(vx_sl@) =~= self.vx_state().subs);
    }
//@end
}
impl<'out> ElementVisitor for BareVisitor<'out> {
    closed spec fn log(&self) -> Seq<Entry> { self.vx_log@ }
    closed spec fn inv(&self) -> bool { self.vx_ok() && chain(self.vx_hist@, self.vx_log@, init(), steps()) && self.vx_hist@.last() == self.vx_state() }
    #[verifier::prophetic]
    closed spec fn place(&self) -> Place { self.vx_place() }
    fn attribute(&mut self, name: &ExpandedNameRef<'_>, value: String) -> (r: Result<Option<String>, VisitorError>) {
        let r = self.vx_attribute(name, value);
        proof {
            let e = Entry { call: Call::Attr { ns: name.namespace@, local: name.local_name@, value: value@ }, answer: answer_text(r) };
            lemma_chain(self.vx_hist@, self.vx_log@, init(), steps(), self.vx_state(), e);
            self.vx_log@ = self.vx_log@.push(e); self.vx_hist@ = self.vx_hist@.push(self.vx_state());
        }
        r
    }
    fn element<'a>(&mut self, child: ElementReader<'a>) -> (r: Result<Option<ElementReader<'a>>, VisitorError>) {
        let r = self.vx_element(child);
        proof {
            let e = Entry { call: Call::Elem { src: at(child).src, at: at(child).idx }, answer: answer_element(r) };
            lemma_chain(self.vx_hist@, self.vx_log@, init(), steps(), self.vx_state(), e);
            self.vx_log@ = self.vx_log@.push(e); self.vx_hist@ = self.vx_hist@.push(self.vx_state());
        }
        r
    }
    fn characters(&mut self, s: String, p: TextPosition) -> (r: Result<Option<String>, BoxedStdError>) {
        let r = self.vx_characters(s, p);
        proof {
            let e = Entry { call: Call::Chars { s: s@, pos: p }, answer: answer_chars(r) };
            lemma_chain(self.vx_hist@, self.vx_log@, init(), steps(), self.vx_state(), e);
            self.vx_log@ = self.vx_log@.push(e); self.vx_hist@ = self.vx_hist@.push(self.vx_state());
        }
        r
    }
}
impl<'out> RawDeserializeVisitor<'out> for BareVisitor<'out> {
    type Out = Bare;
    open spec fn finished(log: Seq<Entry>, default: Option<VxFn<Bare>>, r: Result<Bare, VisitorError>) -> bool { finished(log, r) }
//@fn fx "RawDeserializeVisitor for BareVisitor::new" props=C13
//@at start
    proof { broadcast use axiom_value_at; lemma_chain0::<State>(init(), steps()); }
//@at after tail
    proof { assert(vx_r.vx_state().subs =~= init().subs); }
//@end
//@fn fx "RawDeserializeVisitor for BareVisitor::finalize" props=C13
//@at start
    broadcast use {lemma_took, axiom_value_at};
    proof {
        assert(took(self.vx_log@, init(), steps(), self.vx_state()));
        assert forall|r: Result<Bare, VisitorError>| #[trigger] filled(self.vx_state(), r) implies <Self as RawDeserializeVisitor>::finished(self.log(), default, r) by {}
    }
//@end
}
impl Deserialize for Bare {
    open spec fn reads(src: Src, i: int, r: Result<Self, VisitorError>) -> bool {
        ||| exists|log: Seq<Entry>| #[trigger] visited(src, i, log) && finished(log, r)
        ||| r is Err && r->Err_0 is Propagate && exists|log: Seq<Entry>, s: State| #[trigger] visit_failed(src, i, log, r->Err_0->Propagate_0) && #[trigger] took(log, init(), steps(), s)
    }
//@fn fx "Deserialize for Bare::deserialize" props=C13
//@at start
    broadcast use {lemma_visited, axiom_value_at, lemma_took};
//@end
}
}

// ------------------------------------------------------------------- Trio
pub struct Trio { pub single: Single, pub Flag: Option<i32>, pub g: Guarded, pub n: Blank, pub only: i32 }
pub mod Trio_code {
use super::*;
/// One slot of memory per field the struct fills itself.
pub struct TrioOut<'out> { pub Flag: &'out mut MaybeUninit<Option<i32>>, pub only: &'out mut MaybeUninit<i32> }
pub struct Places<'out> { pub out: TrioOut<'out>, pub single: &'out mut MaybeUninit<Single>, pub g: &'out mut MaybeUninit<Guarded>, pub n: &'out mut MaybeUninit<Blank> }
/// What the struct's own memory holds once its fields hold these.
pub open spec fn assembled(single: Option<Single>, Flag: Option<Option<i32>>, g: Option<Guarded>, n: Option<Blank>, only: Option<i32>) -> Option<Trio> {
    if single is Some && Flag is Some && g is Some && n is Some && only is Some { Some(Trio { single: single.unwrap(), Flag: Flag.unwrap(), g: g.unwrap(), n: n.unwrap(), only: only.unwrap() }) } else { None }
}
#[verifier::external_body]
pub fn vx_split<'out>(out: &'out mut MaybeUninit<Trio>) -> (p: Places<'out>)
    requires old(out)@ is None
    ensures (*p.single)@ is None, (*p.out.Flag)@ is None, (*p.g)@ is None, (*p.n)@ is None, (*p.out.only)@ is None, final(out)@ == assembled(final(p.single)@, final(p.out.Flag)@, final(p.g)@, final(p.n)@, final(p.out.only)@)
{ unimplemented!() }
pub ghost struct State { pub Flag: Option<Option<i32>>, pub only: Option<i32>, pub subs: Seq<Seq<Entry>> }
pub open spec fn init() -> State { State { Flag: None, only: None, subs: seq![Seq::<Entry>::empty(), Seq::<Entry>::empty(), Seq::<Entry>::empty()] } }
/// The field an entry is for.
pub open spec fn field_of(e: Entry) -> int {
    if is_elem(e, ""@, "Flag"@) { 0 } else if is_attr(e, ""@, "Only"@) { 1 } else { -1 }
}
/// An entry takes the struct from `a` to `b`.
pub open spec fn step(a: State, b: State, e: Entry) -> bool {
    &&& if field_of(e) == 0 { elem_step(a.Flag, b.Flag, e) } else { b.Flag == a.Flag }
    &&& if field_of(e) == 1 { attr_step(a.only, b.only, e) } else { b.only == a.only }
    &&& if field_of(e) >= 0 { b.subs == a.subs } else { routed(a.subs, b.subs, e) }
}
pub open spec fn steps() -> spec_fn(State, State, Entry) -> bool { |a: State, b: State, e: Entry| step(a, b, e) }
/// What becomes of the struct after its last entry.
pub open spec fn filled(s: State, r: Result<Trio, VisitorError>) -> bool {
    match r {
        Ok(v) => {
            &&& Single_code::finished(s.subs[0], None, Ok(v.single))
            &&& elem_value(s.Flag, v.Flag)
            &&& Guarded_code::finished(s.subs[1], None, Ok(v.g))
            &&& Blank_code::finished(s.subs[2], None, Ok(v.n))
            &&& attr_value(s.only, v.only)

        }
        Err(e) => {
            ||| Single_code::finished(s.subs[0], None, Err(e))
            ||| elem_missing(s.Flag, e)
            ||| Guarded_code::finished(s.subs[1], None, Err(e))
            ||| Blank_code::finished(s.subs[2], None, Err(e))
            ||| attr_missing(s.only, e)

        }
    }
}
pub open spec fn finished(log: Seq<Entry>, r: Result<Trio, VisitorError>) -> bool {
    exists|s: State| #[trigger] took(log, init(), steps(), s) && filled(s, r)
}
//@fn fx Trio_ELEMENTS props=C11,C13 nocanary=1
    ensures names_sorted(r@), r@.len() == 1, //# C11,C13
        name_of(r@[0]) == (""@, "Flag"@), //# C11,C13
//@at start
    proof {
        reveal(names_sorted);
        reveal_strlit("");
        reveal_strlit("Flag");
    }
//@end
//@fn fx Trio_ATTRIBUTES props=C11,C13 nocanary=1
    ensures names_sorted(r@), r@.len() == 1, //# C11,C13
        name_of(r@[0]) == (""@, "Only"@), //# C11,C13
//@at start
    proof {
        reveal(names_sorted);
        reveal_strlit("");
        reveal_strlit("Only");
    }
//@end
//@item fx struct TrioVisitor
impl<'out> TrioVisitor<'out> {
    pub closed spec fn vx_state(&self) -> State { State { Flag: (*self.out.Flag)@, only: (*self.out.only)@, subs: seq![self.vx_sub_0.log(), self.vx_sub_1.log(), self.vx_sub_2.log()] } }
    pub closed spec fn vx_ok(&self) -> bool { self.vx_present_0 == (*self.out.Flag)@ is Some && self.vx_present_1 == (*self.out.only)@ is Some && self.vx_sub_0.inv() && self.vx_sub_1.inv() && self.vx_sub_2.inv() }
    #[verifier::prophetic]
    pub closed spec fn vx_place(&self) -> Place { place_of(assembled(value_at(self.vx_sub_0.place()), final(self.out.Flag)@, value_at(self.vx_sub_1.place()), value_at(self.vx_sub_2.place()), final(self.out.only)@)) }
//@fn fx "ElementVisitor for TrioVisitor::element" rename=vx_element props=C13
    requires old(self).vx_ok(), fresh(child),
    ensures
        final(self).vx_ok(), final(self).vx_log == old(self).vx_log, final(self).vx_hist == old(self).vx_hist,
        final(self).vx_place() == old(self).vx_place(),
        step(old(self).vx_state(), final(self).vx_state(), Entry { call: Call::Elem { src: at(child).src, at: at(child).idx }, answer: answer_element(r) }), //# C13
        match r {
            // passed on: the very same child, untouched
            Ok(Some(c)) => c == child && (has_resolved(r) ==> has_resolved(c.reader))
                && (has_resolved(c.reader) ==> final(c.reader).st() == (*c.reader).st()),
            _ => advanced(old(child.reader).st(), final(child.reader).st(), child.stack_pos as int),
        },
//@at start
    broadcast use lemma_child_name;
//@at before let vx_r
    let ghost g0 = logs(vx_sl@);
//@at after let vx_r
    proof {
        assert(has_resolved(vx_sl)); assert(has_resolved(vx_arr)); assert(has_resolved(vx_arr@[0])); assert(has_resolved(vx_arr@[1])); assert(has_resolved(vx_arr@[2]));
        assert(g0 =~= old(self).vx_state().subs);
        assert(logs(vx_sl@) =~= self.vx_state().subs);
    }
//@end
//@fn fx "ElementVisitor for TrioVisitor::attribute" rename=vx_attribute props=C13
    requires old(self).vx_ok(),
    ensures
        final(self).vx_ok(), final(self).vx_log == old(self).vx_log, final(self).vx_hist == old(self).vx_hist,
        final(self).vx_place() == old(self).vx_place(),
        step(old(self).vx_state(), final(self).vx_state(), Entry { call: Call::Attr { ns: name.namespace@, local: name.local_name@, value: value@ }, answer: answer_text(r) }), //# C13
//@at before let vx_r
    let ghost g0 = logs(vx_sl@);
//@at after let vx_r
    proof {
        assert(has_resolved(vx_sl)); assert(has_resolved(vx_arr)); assert(has_resolved(vx_arr@[0])); assert(has_resolved(vx_arr@[1])); assert(has_resolved(vx_arr@[2]));
        assert(g0 =~= old(self).vx_state().subs);
        assert(logs(vx_sl@) =~= self.vx_state().subs);
    }
//@end
//@fn fx "ElementVisitor for TrioVisitor::characters" rename=vx_characters props=C13
    requires old(self).vx_ok(),
    ensures
        final(self).vx_ok(), final(self).vx_log == old(self).vx_log, final(self).vx_hist == old(self).vx_hist,
        final(self).vx_place() == old(self).vx_place(),
        step(old(self).vx_state(), final(self).vx_state(), Entry { call: Call::Chars { s: s@, pos: p }, answer: answer_chars(r) }), //# C13
//@at before let vx_r
    let ghost g0 = logs(vx_sl@);
//@at after let vx_r
    proof {
        assert(has_resolved(vx_sl)); assert(has_resolved(vx_arr)); assert(has_resolved(vx_arr@[0])); assert(has_resolved(vx_arr@[1])); assert(has_resolved(vx_arr@[2]));
        assert(g0 =~= old(self).vx_state().subs);
        assert(logs(vx_sl@) =~= self.vx_state().subs);
    }
//@end
}
impl<'out> ElementVisitor for TrioVisitor<'out> {
    closed spec fn log(&self) -> Seq<Entry> { self.vx_log@ }
    closed spec fn inv(&self) -> bool { self.vx_ok() && chain(self.vx_hist@, self.vx_log@, init(), steps()) && self.vx_hist@.last() == self.vx_state() }
    #[verifier::prophetic]
    closed spec fn place(&self) -> Place { self.vx_place() }
    fn attribute(&mut self, name: &ExpandedNameRef<'_>, value: String) -> (r: Result<Option<String>, VisitorError>) {
        let r = self.vx_attribute(name, value);
        proof {
            let e = Entry { call: Call::Attr { ns: name.namespace@, local: name.local_name@, value: value@ }, answer: answer_text(r) };
            lemma_chain(self.vx_hist@, self.vx_log@, init(), steps(), self.vx_state(), e);
            self.vx_log@ = self.vx_log@.push(e); self.vx_hist@ = self.vx_hist@.push(self.vx_state());
        }
        r
    }
    fn element<'a>(&mut self, child: ElementReader<'a>) -> (r: Result<Option<ElementReader<'a>>, VisitorError>) {
        let r = self.vx_element(child);
        proof {
            let e = Entry { call: Call::Elem { src: at(child).src, at: at(child).idx }, answer: answer_element(r) };
            lemma_chain(self.vx_hist@, self.vx_log@, init(), steps(), self.vx_state(), e);
            self.vx_log@ = self.vx_log@.push(e); self.vx_hist@ = self.vx_hist@.push(self.vx_state());
        }
        r
    }
    fn characters(&mut self, s: String, p: TextPosition) -> (r: Result<Option<String>, BoxedStdError>) {
        let r = self.vx_characters(s, p);
        proof {
            let e = Entry { call: Call::Chars { s: s@, pos: p }, answer: answer_chars(r) };
            lemma_chain(self.vx_hist@, self.vx_log@, init(), steps(), self.vx_state(), e);
            self.vx_log@ = self.vx_log@.push(e); self.vx_hist@ = self.vx_hist@.push(self.vx_state());
        }
        r
    }
}
impl<'out> RawDeserializeVisitor<'out> for TrioVisitor<'out> {
    type Out = Trio;
    open spec fn finished(log: Seq<Entry>, default: Option<VxFn<Trio>>, r: Result<Trio, VisitorError>) -> bool { finished(log, r) }
//@fn fx "RawDeserializeVisitor for TrioVisitor::new" props=C13
//@at start
    proof { broadcast use axiom_value_at; lemma_chain0::<State>(init(), steps()); }
//@at after tail
    proof { assert(vx_r.vx_state().subs =~= init().subs); }
//@end
//@fn fx "RawDeserializeVisitor for TrioVisitor::finalize" props=C13
//@at start
    broadcast use {lemma_took, axiom_value_at};
    proof {
        assert(took(self.vx_log@, init(), steps(), self.vx_state()));
        assert forall|r: Result<Trio, VisitorError>| #[trigger] filled(self.vx_state(), r) implies <Self as RawDeserializeVisitor>::finished(self.log(), default, r) by {}
    }
//@end
}
impl Deserialize for Trio {
    open spec fn reads(src: Src, i: int, r: Result<Self, VisitorError>) -> bool {
        ||| exists|log: Seq<Entry>| #[trigger] visited(src, i, log) && finished(log, r)
        ||| r is Err && r->Err_0 is Propagate && exists|log: Seq<Entry>, s: State| #[trigger] visit_failed(src, i, log, r->Err_0->Propagate_0) && #[trigger] took(log, init(), steps(), s)
    }
//@fn fx "Deserialize for Trio::deserialize" props=C13
//@at start
    broadcast use {lemma_visited, axiom_value_at, lemma_took};
//@end
}
}

// ------------------------------------------------------------------- Words
pub struct Words { pub vxr_type: String, pub vxr_match: Option<i32>, pub kana: Option<Foreign>, pub e: Option<i32>, pub vxr_in: Vec<Ahead>, pub _under: Option<Early>, pub Upper: Option<Front> }
pub mod Words_code {
use super::*;
/// One slot of memory per field the struct fills itself.
pub struct WordsOut<'out> { pub vxr_type: &'out mut MaybeUninit<String>, pub vxr_match: &'out mut MaybeUninit<Option<i32>>, pub kana: &'out mut MaybeUninit<Option<Foreign>>, pub e: &'out mut MaybeUninit<Option<i32>>, pub vxr_in: &'out mut MaybeUninit<Vec<Ahead>>, pub _under: &'out mut MaybeUninit<Option<Early>>, pub Upper: &'out mut MaybeUninit<Option<Front>> }
pub struct Places<'out> { pub out: WordsOut<'out> }
/// What the struct's own memory holds once its fields hold these.
pub open spec fn assembled(vxr_type: Option<String>, vxr_match: Option<Option<i32>>, kana: Option<Option<Foreign>>, e: Option<Option<i32>>, vxr_in: Option<Vec<Ahead>>, _under: Option<Option<Early>>, Upper: Option<Option<Front>>) -> Option<Words> {
    if vxr_type is Some && vxr_match is Some && kana is Some && e is Some && vxr_in is Some && _under is Some && Upper is Some { Some(Words { vxr_type: vxr_type.unwrap(), vxr_match: vxr_match.unwrap(), kana: kana.unwrap(), e: e.unwrap(), vxr_in: vxr_in.unwrap(), _under: _under.unwrap(), Upper: Upper.unwrap() }) } else { None }
}
#[verifier::external_body]
pub fn vx_split<'out>(out: &'out mut MaybeUninit<Words>) -> (p: Places<'out>)
    requires old(out)@ is None
    ensures (*p.out.vxr_type)@ is None, (*p.out.vxr_match)@ is None, (*p.out.kana)@ is None, (*p.out.e)@ is None, (*p.out.vxr_in)@ is None, (*p.out._under)@ is None, (*p.out.Upper)@ is None, final(out)@ == assembled(final(p.out.vxr_type)@, final(p.out.vxr_match)@, final(p.out.kana)@, final(p.out.e)@, final(p.out.vxr_in)@, final(p.out._under)@, final(p.out.Upper)@)
{ unimplemented!() }
pub ghost struct State { pub vxr_type: Option<String>, pub vxr_match: Option<Option<i32>>, pub kana: Option<Option<Foreign>>, pub e: Option<Option<i32>>, pub vxr_in: Option<Vec<Ahead>>, pub _under: Option<Option<Early>>, pub Upper: Option<Option<Front>>, pub subs: Seq<Seq<Entry>> }
pub open spec fn init() -> State { State { vxr_type: None, vxr_match: None, kana: None, e: None, vxr_in: None, _under: None, Upper: None, subs: Seq::<Seq<Entry>>::empty() } }
/// The field an entry is for.
pub open spec fn field_of(e: Entry) -> int {
    if is_elem(e, ""@, "type"@) { 0 } else if is_attr(e, ""@, "match"@) { 1 } else if is_elem(e, ""@, "かな"@) { 2 } else if is_attr(e, ""@, "é"@) { 3 } else if is_elem(e, ""@, "in-put"@) { 4 } else if is_elem(e, ""@, "_under"@) { 5 } else if is_elem(e, ""@, "UPPER.case"@) { 6 } else { -1 }
}
/// An entry takes the struct from `a` to `b`.
pub open spec fn step(a: State, b: State, e: Entry) -> bool {
    &&& if field_of(e) == 0 { elem_step(a.vxr_type, b.vxr_type, e) } else { b.vxr_type == a.vxr_type }
    &&& if field_of(e) == 1 { attr_step(a.vxr_match, b.vxr_match, e) } else { b.vxr_match == a.vxr_match }
    &&& if field_of(e) == 2 { elem_step(a.kana, b.kana, e) } else { b.kana == a.kana }
    &&& if field_of(e) == 3 { attr_step(a.e, b.e, e) } else { b.e == a.e }
    &&& if field_of(e) == 4 { elem_step(a.vxr_in, b.vxr_in, e) } else { b.vxr_in == a.vxr_in }
    &&& if field_of(e) == 5 { elem_step(a._under, b._under, e) } else { b._under == a._under }
    &&& if field_of(e) == 6 { elem_step(a.Upper, b.Upper, e) } else { b.Upper == a.Upper }
    &&& if field_of(e) >= 0 { b.subs == a.subs } else { routed(a.subs, b.subs, e) }
}
pub open spec fn steps() -> spec_fn(State, State, Entry) -> bool { |a: State, b: State, e: Entry| step(a, b, e) }
/// What becomes of the struct after its last entry.
pub open spec fn filled(s: State, r: Result<Words, VisitorError>) -> bool {
    match r {
        Ok(v) => {
            &&& elem_value(s.vxr_type, v.vxr_type)
            &&& attr_value(s.vxr_match, v.vxr_match)
            &&& elem_value(s.kana, v.kana)
            &&& attr_value(s.e, v.e)
            &&& elem_value(s.vxr_in, v.vxr_in)
            &&& elem_value(s._under, v._under)
            &&& elem_value(s.Upper, v.Upper)

        }
        Err(e) => {
            ||| elem_missing(s.vxr_type, e)
            ||| attr_missing(s.vxr_match, e)
            ||| elem_missing(s.kana, e)
            ||| attr_missing(s.e, e)
            ||| elem_missing(s.vxr_in, e)
            ||| elem_missing(s._under, e)
            ||| elem_missing(s.Upper, e)

        }
    }
}
pub open spec fn finished(log: Seq<Entry>, r: Result<Words, VisitorError>) -> bool {
    exists|s: State| #[trigger] took(log, init(), steps(), s) && filled(s, r)
}
//@fn fx Words_ELEMENTS props=C11,C13 nocanary=1
    ensures names_sorted(r@), r@.len() == 5, //# C11,C13
        name_of(r@[0]) == (""@, "UPPER.case"@), //# C11,C13
        name_of(r@[1]) == (""@, "_under"@), //# C11,C13
        name_of(r@[2]) == (""@, "in-put"@), //# C11,C13
        name_of(r@[3]) == (""@, "type"@), //# C11,C13
        name_of(r@[4]) == (""@, "かな"@), //# C11,C13
        (""@, "UPPER.case"@) != (""@, "_under"@),
        (""@, "UPPER.case"@) != (""@, "in-put"@),
        (""@, "_under"@) != (""@, "in-put"@),
        (""@, "UPPER.case"@) != (""@, "type"@),
        (""@, "_under"@) != (""@, "type"@),
        (""@, "in-put"@) != (""@, "type"@),
        (""@, "UPPER.case"@) != (""@, "かな"@),
        (""@, "_under"@) != (""@, "かな"@),
        (""@, "in-put"@) != (""@, "かな"@),
        (""@, "type"@) != (""@, "かな"@),
//@at start
    proof {
        reveal(names_sorted);
        reveal_strlit("");
        reveal_strlit("UPPER.case");
        reveal_strlit("_under");
        reveal_strlit("in-put");
        reveal_strlit("type");
        reveal_strlit("かな");
        lemma_str_lt_at("UPPER.case"@, "_under"@, 0);
        lemma_str_lt_at("UPPER.case"@, "in-put"@, 0);
        lemma_str_lt_at("_under"@, "in-put"@, 0);
        lemma_str_lt_at("UPPER.case"@, "type"@, 0);
        lemma_str_lt_at("_under"@, "type"@, 0);
        lemma_str_lt_at("in-put"@, "type"@, 0);
        lemma_str_lt_at("UPPER.case"@, "かな"@, 0);
        lemma_str_lt_at("_under"@, "かな"@, 0);
        lemma_str_lt_at("in-put"@, "かな"@, 0);
        lemma_str_lt_at("type"@, "かな"@, 0);
    }
//@end
//@fn fx Words_ATTRIBUTES props=C11,C13 nocanary=1
    ensures names_sorted(r@), r@.len() == 2, //# C11,C13
        name_of(r@[0]) == (""@, "match"@), //# C11,C13
        name_of(r@[1]) == (""@, "é"@), //# C11,C13
        (""@, "match"@) != (""@, "é"@),
//@at start
    proof {
        reveal(names_sorted);
        reveal_strlit("");
        reveal_strlit("match");
        reveal_strlit("é");
        lemma_str_lt_at("match"@, "é"@, 0);
    }
//@end
//@item fx struct WordsVisitor
impl<'out> WordsVisitor<'out> {
    pub closed spec fn vx_state(&self) -> State { State { vxr_type: (*self.out.vxr_type)@, vxr_match: (*self.out.vxr_match)@, kana: (*self.out.kana)@, e: (*self.out.e)@, vxr_in: (*self.out.vxr_in)@, _under: (*self.out._under)@, Upper: (*self.out.Upper)@, subs: Seq::<Seq<Entry>>::empty() } }
    pub closed spec fn vx_ok(&self) -> bool { self.vx_present_0 == (*self.out.vxr_type)@ is Some && self.vx_present_1 == (*self.out.vxr_match)@ is Some && self.vx_present_2 == (*self.out.kana)@ is Some && self.vx_present_3 == (*self.out.e)@ is Some && self.vx_present_4 == (*self.out.vxr_in)@ is Some && self.vx_present_5 == (*self.out._under)@ is Some && self.vx_present_6 == (*self.out.Upper)@ is Some }
    #[verifier::prophetic]
    pub closed spec fn vx_place(&self) -> Place { place_of(assembled(final(self.out.vxr_type)@, final(self.out.vxr_match)@, final(self.out.kana)@, final(self.out.e)@, final(self.out.vxr_in)@, final(self.out._under)@, final(self.out.Upper)@)) }
//@fn fx "ElementVisitor for WordsVisitor::element" rename=vx_element props=C13
    requires old(self).vx_ok(), fresh(child),
    ensures
        final(self).vx_ok(), final(self).vx_log == old(self).vx_log, final(self).vx_hist == old(self).vx_hist,
        final(self).vx_place() == old(self).vx_place(),
        step(old(self).vx_state(), final(self).vx_state(), Entry { call: Call::Elem { src: at(child).src, at: at(child).idx }, answer: answer_element(r) }), //# C13
        match r {
            // passed on: the very same child, untouched
            Ok(Some(c)) => c == child && (has_resolved(r) ==> has_resolved(c.reader))
                && (has_resolved(c.reader) ==> final(c.reader).st() == (*c.reader).st()),
            _ => advanced(old(child.reader).st(), final(child.reader).st(), child.stack_pos as int),
        },
//@at start
    broadcast use lemma_child_name;
//@end
//@fn fx "ElementVisitor for WordsVisitor::attribute" rename=vx_attribute props=C13
    requires old(self).vx_ok(),
    ensures
        final(self).vx_ok(), final(self).vx_log == old(self).vx_log, final(self).vx_hist == old(self).vx_hist,
        final(self).vx_place() == old(self).vx_place(),
        step(old(self).vx_state(), final(self).vx_state(), Entry { call: Call::Attr { ns: name.namespace@, local: name.local_name@, value: value@ }, answer: answer_text(r) }), //# C13
//@end
}
impl<'out> ElementVisitor for WordsVisitor<'out> {
    closed spec fn log(&self) -> Seq<Entry> { self.vx_log@ }
    closed spec fn inv(&self) -> bool { self.vx_ok() && chain(self.vx_hist@, self.vx_log@, init(), steps()) && self.vx_hist@.last() == self.vx_state() }
    #[verifier::prophetic]
    closed spec fn place(&self) -> Place { self.vx_place() }
    fn attribute(&mut self, name: &ExpandedNameRef<'_>, value: String) -> (r: Result<Option<String>, VisitorError>) {
        let r = self.vx_attribute(name, value);
        proof {
            let e = Entry { call: Call::Attr { ns: name.namespace@, local: name.local_name@, value: value@ }, answer: answer_text(r) };
            lemma_chain(self.vx_hist@, self.vx_log@, init(), steps(), self.vx_state(), e);
            self.vx_log@ = self.vx_log@.push(e); self.vx_hist@ = self.vx_hist@.push(self.vx_state());
        }
        r
    }
    fn element<'a>(&mut self, child: ElementReader<'a>) -> (r: Result<Option<ElementReader<'a>>, VisitorError>) {
        let r = self.vx_element(child);
        proof {
            let e = Entry { call: Call::Elem { src: at(child).src, at: at(child).idx }, answer: answer_element(r) };
            lemma_chain(self.vx_hist@, self.vx_log@, init(), steps(), self.vx_state(), e);
            self.vx_log@ = self.vx_log@.push(e); self.vx_hist@ = self.vx_hist@.push(self.vx_state());
        }
        r
    }
    fn characters(&mut self, s: String, p: TextPosition) -> (r: Result<Option<String>, BoxedStdError>) {
        let r = { let mut d = VxDefault { log: Ghost(Seq::empty()) }; d.characters(s, p) };
        proof {
            let e = Entry { call: Call::Chars { s: s@, pos: p }, answer: answer_chars(r) };
            lemma_chain(self.vx_hist@, self.vx_log@, init(), steps(), self.vx_state(), e);
            self.vx_log@ = self.vx_log@.push(e); self.vx_hist@ = self.vx_hist@.push(self.vx_state());
        }
        r
    }
}
impl<'out> RawDeserializeVisitor<'out> for WordsVisitor<'out> {
    type Out = Words;
    open spec fn finished(log: Seq<Entry>, default: Option<VxFn<Words>>, r: Result<Words, VisitorError>) -> bool { finished(log, r) }
//@fn fx "RawDeserializeVisitor for WordsVisitor::new" props=C13
//@at start
    proof { broadcast use axiom_value_at; lemma_chain0::<State>(init(), steps()); }
//@at after tail
    proof { assert(vx_r.vx_state().subs =~= init().subs); }
//@end
//@fn fx "RawDeserializeVisitor for WordsVisitor::finalize" props=C13
//@at start
    broadcast use {lemma_took, axiom_value_at};
    proof {
        assert(took(self.vx_log@, init(), steps(), self.vx_state()));
        assert forall|r: Result<Words, VisitorError>| #[trigger] filled(self.vx_state(), r) implies <Self as RawDeserializeVisitor>::finished(self.log(), default, r) by {}
    }
//@end
}
impl Deserialize for Words {
    open spec fn reads(src: Src, i: int, r: Result<Self, VisitorError>) -> bool {
        ||| exists|log: Seq<Entry>| #[trigger] visited(src, i, log) && finished(log, r)
        ||| r is Err && r->Err_0 is Propagate && exists|log: Seq<Entry>, s: State| #[trigger] visit_failed(src, i, log, r->Err_0->Propagate_0) && #[trigger] took(log, init(), steps(), s)
    }
//@fn fx "Deserialize for Words::deserialize" props=C13
//@at start
    broadcast use {lemma_visited, axiom_value_at, lemma_took};
//@end
}
}

// ------------------------------------------------------------------- Wide
pub struct Wide { pub m: i32, pub zz: Vec<u64>, pub a10: Option<i32>, pub b: Option<Line>, pub a2: Option<Tracked>, pub n: i32, pub l: Option<String>, pub h: Option<TwoRest> }
pub mod Wide_code {
use super::*;
/// One slot of memory per field the struct fills itself.
pub struct WideOut<'out> { pub m: &'out mut MaybeUninit<i32>, pub zz: &'out mut MaybeUninit<Vec<u64>>, pub a10: &'out mut MaybeUninit<Option<i32>>, pub b: &'out mut MaybeUninit<Option<Line>>, pub a2: &'out mut MaybeUninit<Option<Tracked>>, pub n: &'out mut MaybeUninit<i32>, pub l: &'out mut MaybeUninit<Option<String>>, pub h: &'out mut MaybeUninit<Option<TwoRest>> }
pub struct Places<'out> { pub out: WideOut<'out> }
/// What the struct's own memory holds once its fields hold these.
pub open spec fn assembled(m: Option<i32>, zz: Option<Vec<u64>>, a10: Option<Option<i32>>, b: Option<Option<Line>>, a2: Option<Option<Tracked>>, n: Option<i32>, l: Option<Option<String>>, h: Option<Option<TwoRest>>) -> Option<Wide> {
    if m is Some && zz is Some && a10 is Some && b is Some && a2 is Some && n is Some && l is Some && h is Some { Some(Wide { m: m.unwrap(), zz: zz.unwrap(), a10: a10.unwrap(), b: b.unwrap(), a2: a2.unwrap(), n: n.unwrap(), l: l.unwrap(), h: h.unwrap() }) } else { None }
}
#[verifier::external_body]
pub fn vx_split<'out>(out: &'out mut MaybeUninit<Wide>) -> (p: Places<'out>)
    requires old(out)@ is None
    ensures (*p.out.m)@ is None, (*p.out.zz)@ is None, (*p.out.a10)@ is None, (*p.out.b)@ is None, (*p.out.a2)@ is None, (*p.out.n)@ is None, (*p.out.l)@ is None, (*p.out.h)@ is None, final(out)@ == assembled(final(p.out.m)@, final(p.out.zz)@, final(p.out.a10)@, final(p.out.b)@, final(p.out.a2)@, final(p.out.n)@, final(p.out.l)@, final(p.out.h)@)
{ unimplemented!() }
pub ghost struct State { pub m: Option<i32>, pub zz: Option<Vec<u64>>, pub a10: Option<Option<i32>>, pub b: Option<Option<Line>>, pub a2: Option<Option<Tracked>>, pub n: Option<i32>, pub l: Option<Option<String>>, pub h: Option<Option<TwoRest>>, pub subs: Seq<Seq<Entry>> }
pub open spec fn init() -> State { State { m: None, zz: None, a10: None, b: None, a2: None, n: None, l: None, h: None, subs: Seq::<Seq<Entry>>::empty() } }
/// The field an entry is for.
pub open spec fn field_of(e: Entry) -> int {
    if is_elem(e, ""@, "m"@) { 0 } else if is_elem(e, ""@, "zz"@) { 1 } else if is_elem(e, ""@, "a10"@) { 2 } else if is_elem(e, ""@, "b"@) { 3 } else if is_elem(e, ""@, "a2"@) { 4 } else if is_attr(e, ""@, "n"@) { 5 } else if is_attr(e, ""@, "l"@) { 6 } else if is_attr(e, ""@, "h"@) { 7 } else { -1 }
}
/// An entry takes the struct from `a` to `b`.
pub open spec fn step(a: State, b: State, e: Entry) -> bool {
    &&& if field_of(e) == 0 { elem_step(a.m, b.m, e) } else { b.m == a.m }
    &&& if field_of(e) == 1 { elem_step(a.zz, b.zz, e) } else { b.zz == a.zz }
    &&& if field_of(e) == 2 { elem_step(a.a10, b.a10, e) } else { b.a10 == a.a10 }
    &&& if field_of(e) == 3 { elem_step(a.b, b.b, e) } else { b.b == a.b }
    &&& if field_of(e) == 4 { elem_step(a.a2, b.a2, e) } else { b.a2 == a.a2 }
    &&& if field_of(e) == 5 { attr_step(a.n, b.n, e) } else { b.n == a.n }
    &&& if field_of(e) == 6 { attr_step(a.l, b.l, e) } else { b.l == a.l }
    &&& if field_of(e) == 7 { attr_step(a.h, b.h, e) } else { b.h == a.h }
    &&& if field_of(e) >= 0 { b.subs == a.subs } else { routed(a.subs, b.subs, e) }
}
pub open spec fn steps() -> spec_fn(State, State, Entry) -> bool { |a: State, b: State, e: Entry| step(a, b, e) }
/// What becomes of the struct after its last entry.
pub open spec fn filled(s: State, r: Result<Wide, VisitorError>) -> bool {
    match r {
        Ok(v) => {
            &&& elem_value(s.m, v.m)
            &&& elem_value(s.zz, v.zz)
            &&& elem_value(s.a10, v.a10)
            &&& elem_value(s.b, v.b)
            &&& elem_value(s.a2, v.a2)
            &&& attr_value(s.n, v.n)
            &&& attr_value(s.l, v.l)
            &&& attr_value(s.h, v.h)

        }
        Err(e) => {
            ||| elem_missing(s.m, e)
            ||| elem_missing(s.zz, e)
            ||| elem_missing(s.a10, e)
            ||| elem_missing(s.b, e)
            ||| elem_missing(s.a2, e)
            ||| attr_missing(s.n, e)
            ||| attr_missing(s.l, e)
            ||| attr_missing(s.h, e)

        }
    }
}
pub open spec fn finished(log: Seq<Entry>, r: Result<Wide, VisitorError>) -> bool {
    exists|s: State| #[trigger] took(log, init(), steps(), s) && filled(s, r)
}
//@fn fx Wide_ELEMENTS props=C11,C13 nocanary=1
    ensures names_sorted(r@), r@.len() == 5, //# C11,C13
        name_of(r@[0]) == (""@, "a10"@), //# C11,C13
        name_of(r@[1]) == (""@, "a2"@), //# C11,C13
        name_of(r@[2]) == (""@, "b"@), //# C11,C13
        name_of(r@[3]) == (""@, "m"@), //# C11,C13
        name_of(r@[4]) == (""@, "zz"@), //# C11,C13
        (""@, "a10"@) != (""@, "a2"@),
        (""@, "a10"@) != (""@, "b"@),
        (""@, "a2"@) != (""@, "b"@),
        (""@, "a10"@) != (""@, "m"@),
        (""@, "a2"@) != (""@, "m"@),
        (""@, "b"@) != (""@, "m"@),
        (""@, "a10"@) != (""@, "zz"@),
        (""@, "a2"@) != (""@, "zz"@),
        (""@, "b"@) != (""@, "zz"@),
        (""@, "m"@) != (""@, "zz"@),
//@at start
    proof {
        reveal(names_sorted);
        reveal_strlit("");
        reveal_strlit("a10");
        reveal_strlit("a2");
        reveal_strlit("b");
        reveal_strlit("m");
        reveal_strlit("zz");
        lemma_str_lt_at("a10"@, "a2"@, 1);
        lemma_str_lt_at("a10"@, "b"@, 0);
        lemma_str_lt_at("a2"@, "b"@, 0);
        lemma_str_lt_at("a10"@, "m"@, 0);
        lemma_str_lt_at("a2"@, "m"@, 0);
        lemma_str_lt_at("b"@, "m"@, 0);
        lemma_str_lt_at("a10"@, "zz"@, 0);
        lemma_str_lt_at("a2"@, "zz"@, 0);
        lemma_str_lt_at("b"@, "zz"@, 0);
        lemma_str_lt_at("m"@, "zz"@, 0);
    }
//@end
//@fn fx Wide_ATTRIBUTES props=C11,C13 nocanary=1
    ensures names_sorted(r@), r@.len() == 3, //# C11,C13
        name_of(r@[0]) == (""@, "h"@), //# C11,C13
        name_of(r@[1]) == (""@, "l"@), //# C11,C13
        name_of(r@[2]) == (""@, "n"@), //# C11,C13
        (""@, "h"@) != (""@, "l"@),
        (""@, "h"@) != (""@, "n"@),
        (""@, "l"@) != (""@, "n"@),
//@at start
    proof {
        reveal(names_sorted);
        reveal_strlit("");
        reveal_strlit("h");
        reveal_strlit("l");
        reveal_strlit("n");
        lemma_str_lt_at("h"@, "l"@, 0);
        lemma_str_lt_at("h"@, "n"@, 0);
        lemma_str_lt_at("l"@, "n"@, 0);
    }
//@end
//@item fx struct WideVisitor
impl<'out> WideVisitor<'out> {
    pub closed spec fn vx_state(&self) -> State { State { m: (*self.out.m)@, zz: (*self.out.zz)@, a10: (*self.out.a10)@, b: (*self.out.b)@, a2: (*self.out.a2)@, n: (*self.out.n)@, l: (*self.out.l)@, h: (*self.out.h)@, subs: Seq::<Seq<Entry>>::empty() } }
    pub closed spec fn vx_ok(&self) -> bool { self.vx_present_0 == (*self.out.m)@ is Some && self.vx_present_1 == (*self.out.zz)@ is Some && self.vx_present_2 == (*self.out.a10)@ is Some && self.vx_present_3 == (*self.out.b)@ is Some && self.vx_present_4 == (*self.out.a2)@ is Some && self.vx_present_5 == (*self.out.n)@ is Some && self.vx_present_6 == (*self.out.l)@ is Some && self.vx_present_7 == (*self.out.h)@ is Some }
    #[verifier::prophetic]
    pub closed spec fn vx_place(&self) -> Place { place_of(assembled(final(self.out.m)@, final(self.out.zz)@, final(self.out.a10)@, final(self.out.b)@, final(self.out.a2)@, final(self.out.n)@, final(self.out.l)@, final(self.out.h)@)) }
//@fn fx "ElementVisitor for WideVisitor::element" rename=vx_element props=C13
    requires old(self).vx_ok(), fresh(child),
    ensures
        final(self).vx_ok(), final(self).vx_log == old(self).vx_log, final(self).vx_hist == old(self).vx_hist,
        final(self).vx_place() == old(self).vx_place(),
        step(old(self).vx_state(), final(self).vx_state(), Entry { call: Call::Elem { src: at(child).src, at: at(child).idx }, answer: answer_element(r) }), //# C13
        match r {
            // passed on: the very same child, untouched
            Ok(Some(c)) => c == child && (has_resolved(r) ==> has_resolved(c.reader))
                && (has_resolved(c.reader) ==> final(c.reader).st() == (*c.reader).st()),
            _ => advanced(old(child.reader).st(), final(child.reader).st(), child.stack_pos as int),
        },
//@at start
    broadcast use lemma_child_name;
//@end
//@fn fx "ElementVisitor for WideVisitor::attribute" rename=vx_attribute props=C13
    requires old(self).vx_ok(),
    ensures
        final(self).vx_ok(), final(self).vx_log == old(self).vx_log, final(self).vx_hist == old(self).vx_hist,
        final(self).vx_place() == old(self).vx_place(),
        step(old(self).vx_state(), final(self).vx_state(), Entry { call: Call::Attr { ns: name.namespace@, local: name.local_name@, value: value@ }, answer: answer_text(r) }), //# C13
//@end
}
impl<'out> ElementVisitor for WideVisitor<'out> {
    closed spec fn log(&self) -> Seq<Entry> { self.vx_log@ }
    closed spec fn inv(&self) -> bool { self.vx_ok() && chain(self.vx_hist@, self.vx_log@, init(), steps()) && self.vx_hist@.last() == self.vx_state() }
    #[verifier::prophetic]
    closed spec fn place(&self) -> Place { self.vx_place() }
    fn attribute(&mut self, name: &ExpandedNameRef<'_>, value: String) -> (r: Result<Option<String>, VisitorError>) {
        let r = self.vx_attribute(name, value);
        proof {
            let e = Entry { call: Call::Attr { ns: name.namespace@, local: name.local_name@, value: value@ }, answer: answer_text(r) };
            lemma_chain(self.vx_hist@, self.vx_log@, init(), steps(), self.vx_state(), e);
            self.vx_log@ = self.vx_log@.push(e); self.vx_hist@ = self.vx_hist@.push(self.vx_state());
        }
        r
    }
    fn element<'a>(&mut self, child: ElementReader<'a>) -> (r: Result<Option<ElementReader<'a>>, VisitorError>) {
        let r = self.vx_element(child);
        proof {
            let e = Entry { call: Call::Elem { src: at(child).src, at: at(child).idx }, answer: answer_element(r) };
            lemma_chain(self.vx_hist@, self.vx_log@, init(), steps(), self.vx_state(), e);
            self.vx_log@ = self.vx_log@.push(e); self.vx_hist@ = self.vx_hist@.push(self.vx_state());
        }
        r
    }
    fn characters(&mut self, s: String, p: TextPosition) -> (r: Result<Option<String>, BoxedStdError>) {
        let r = { let mut d = VxDefault { log: Ghost(Seq::empty()) }; d.characters(s, p) };
        proof {
            let e = Entry { call: Call::Chars { s: s@, pos: p }, answer: answer_chars(r) };
            lemma_chain(self.vx_hist@, self.vx_log@, init(), steps(), self.vx_state(), e);
            self.vx_log@ = self.vx_log@.push(e); self.vx_hist@ = self.vx_hist@.push(self.vx_state());
        }
        r
    }
}
impl<'out> RawDeserializeVisitor<'out> for WideVisitor<'out> {
    type Out = Wide;
    open spec fn finished(log: Seq<Entry>, default: Option<VxFn<Wide>>, r: Result<Wide, VisitorError>) -> bool { finished(log, r) }
//@fn fx "RawDeserializeVisitor for WideVisitor::new" props=C13
//@at start
    proof { broadcast use axiom_value_at; lemma_chain0::<State>(init(), steps()); }
//@at after tail
    proof { assert(vx_r.vx_state().subs =~= init().subs); }
//@end
//@fn fx "RawDeserializeVisitor for WideVisitor::finalize" props=C13
//@at start
    broadcast use {lemma_took, axiom_value_at};
    proof {
        assert(took(self.vx_log@, init(), steps(), self.vx_state()));
        assert forall|r: Result<Wide, VisitorError>| #[trigger] filled(self.vx_state(), r) implies <Self as RawDeserializeVisitor>::finished(self.log(), default, r) by {}
    }
//@end
}
impl Deserialize for Wide {
    open spec fn reads(src: Src, i: int, r: Result<Self, VisitorError>) -> bool {
        ||| exists|log: Seq<Entry>| #[trigger] visited(src, i, log) && finished(log, r)
        ||| r is Err && r->Err_0 is Propagate && exists|log: Seq<Entry>, s: State| #[trigger] visit_failed(src, i, log, r->Err_0->Propagate_0) && #[trigger] took(log, init(), steps(), s)
    }
//@fn fx "Deserialize for Wide::deserialize" props=C13
//@at start
    broadcast use {lemma_visited, axiom_value_at, lemma_took};
//@end
}
}

// ------------------------------------------------------------------- Guard
pub struct Guard { pub before: i32, pub g: Guarded, pub after: Option<Guarded> }
pub mod Guard_code {
use super::*;
/// One slot of memory per field the struct fills itself.
pub struct GuardOut<'out> { pub before: &'out mut MaybeUninit<i32>, pub g: &'out mut MaybeUninit<Guarded>, pub after: &'out mut MaybeUninit<Option<Guarded>> }
pub struct Places<'out> { pub out: GuardOut<'out> }
/// What the struct's own memory holds once its fields hold these.
pub open spec fn assembled(before: Option<i32>, g: Option<Guarded>, after: Option<Option<Guarded>>) -> Option<Guard> {
    if before is Some && g is Some && after is Some { Some(Guard { before: before.unwrap(), g: g.unwrap(), after: after.unwrap() }) } else { None }
}
#[verifier::external_body]
pub fn vx_split<'out>(out: &'out mut MaybeUninit<Guard>) -> (p: Places<'out>)
    requires old(out)@ is None
    ensures (*p.out.before)@ is None, (*p.out.g)@ is None, (*p.out.after)@ is None, final(out)@ == assembled(final(p.out.before)@, final(p.out.g)@, final(p.out.after)@)
{ unimplemented!() }
pub ghost struct State { pub before: Option<i32>, pub g: Option<Guarded>, pub after: Option<Option<Guarded>>, pub subs: Seq<Seq<Entry>> }
pub open spec fn init() -> State { State { before: None, g: None, after: None, subs: Seq::<Seq<Entry>>::empty() } }
/// The field an entry is for.
pub open spec fn field_of(e: Entry) -> int {
    if is_elem(e, ""@, "before"@) { 0 } else if is_elem(e, ""@, "g"@) { 1 } else if is_elem(e, ""@, "after"@) { 2 } else { -1 }
}
/// An entry takes the struct from `a` to `b`.
pub open spec fn step(a: State, b: State, e: Entry) -> bool {
    &&& if field_of(e) == 0 { elem_step(a.before, b.before, e) } else { b.before == a.before }
    &&& if field_of(e) == 1 { elem_step(a.g, b.g, e) } else { b.g == a.g }
    &&& if field_of(e) == 2 { elem_step(a.after, b.after, e) } else { b.after == a.after }
    &&& if field_of(e) >= 0 { b.subs == a.subs } else { routed(a.subs, b.subs, e) }
}
pub open spec fn steps() -> spec_fn(State, State, Entry) -> bool { |a: State, b: State, e: Entry| step(a, b, e) }
/// What becomes of the struct after its last entry.
pub open spec fn filled(s: State, r: Result<Guard, VisitorError>) -> bool {
    match r {
        Ok(v) => {
            &&& elem_value(s.before, v.before)
            &&& elem_value(s.g, v.g)
            &&& elem_value(s.after, v.after)

        }
        Err(e) => {
            ||| elem_missing(s.before, e)
            ||| elem_missing(s.g, e)
            ||| elem_missing(s.after, e)

        }
    }
}
pub open spec fn finished(log: Seq<Entry>, r: Result<Guard, VisitorError>) -> bool {
    exists|s: State| #[trigger] took(log, init(), steps(), s) && filled(s, r)
}
//@fn fx Guard_ELEMENTS props=C11,C13 nocanary=1
    ensures names_sorted(r@), r@.len() == 3, //# C11,C13
        name_of(r@[0]) == (""@, "after"@), //# C11,C13
        name_of(r@[1]) == (""@, "before"@), //# C11,C13
        name_of(r@[2]) == (""@, "g"@), //# C11,C13
        (""@, "after"@) != (""@, "before"@),
        (""@, "after"@) != (""@, "g"@),
        (""@, "before"@) != (""@, "g"@),
//@at start
    proof {
        reveal(names_sorted);
        reveal_strlit("");
        reveal_strlit("after");
        reveal_strlit("before");
        reveal_strlit("g");
        lemma_str_lt_at("after"@, "before"@, 0);
        lemma_str_lt_at("after"@, "g"@, 0);
        lemma_str_lt_at("before"@, "g"@, 0);
    }
//@end
//@fn fx Guard_ATTRIBUTES props=C11,C13 nocanary=1
    ensures names_sorted(r@), r@.len() == 0, //# C11,C13
//@at start
    proof {
        reveal(names_sorted);
    }
//@end
//@item fx struct GuardVisitor
impl<'out> GuardVisitor<'out> {
    pub closed spec fn vx_state(&self) -> State { State { before: (*self.out.before)@, g: (*self.out.g)@, after: (*self.out.after)@, subs: Seq::<Seq<Entry>>::empty() } }
    pub closed spec fn vx_ok(&self) -> bool { self.vx_present_0 == (*self.out.before)@ is Some && self.vx_present_1 == (*self.out.g)@ is Some && self.vx_present_2 == (*self.out.after)@ is Some }
    #[verifier::prophetic]
    pub closed spec fn vx_place(&self) -> Place { place_of(assembled(final(self.out.before)@, final(self.out.g)@, final(self.out.after)@)) }
//@fn fx "ElementVisitor for GuardVisitor::element" rename=vx_element props=C13
    requires old(self).vx_ok(), fresh(child),
    ensures
        final(self).vx_ok(), final(self).vx_log == old(self).vx_log, final(self).vx_hist == old(self).vx_hist,
        final(self).vx_place() == old(self).vx_place(),
        step(old(self).vx_state(), final(self).vx_state(), Entry { call: Call::Elem { src: at(child).src, at: at(child).idx }, answer: answer_element(r) }), //# C13
        match r {
            // passed on: the very same child, untouched
            Ok(Some(c)) => c == child && (has_resolved(r) ==> has_resolved(c.reader))
                && (has_resolved(c.reader) ==> final(c.reader).st() == (*c.reader).st()),
            _ => advanced(old(child.reader).st(), final(child.reader).st(), child.stack_pos as int),
        },
//@at start
    broadcast use lemma_child_name;
//@end
//@fn fx "ElementVisitor for GuardVisitor::attribute" rename=vx_attribute props=C13
    requires old(self).vx_ok(),
    ensures
        final(self).vx_ok(), final(self).vx_log == old(self).vx_log, final(self).vx_hist == old(self).vx_hist,
        final(self).vx_place() == old(self).vx_place(),
        step(old(self).vx_state(), final(self).vx_state(), Entry { call: Call::Attr { ns: name.namespace@, local: name.local_name@, value: value@ }, answer: answer_text(r) }), //# C13
//@end
}
impl<'out> ElementVisitor for GuardVisitor<'out> {
    closed spec fn log(&self) -> Seq<Entry> { self.vx_log@ }
    closed spec fn inv(&self) -> bool { self.vx_ok() && chain(self.vx_hist@, self.vx_log@, init(), steps()) && self.vx_hist@.last() == self.vx_state() }
    #[verifier::prophetic]
    closed spec fn place(&self) -> Place { self.vx_place() }
    fn attribute(&mut self, name: &ExpandedNameRef<'_>, value: String) -> (r: Result<Option<String>, VisitorError>) {
        let r = self.vx_attribute(name, value);
        proof {
            let e = Entry { call: Call::Attr { ns: name.namespace@, local: name.local_name@, value: value@ }, answer: answer_text(r) };
            lemma_chain(self.vx_hist@, self.vx_log@, init(), steps(), self.vx_state(), e);
            self.vx_log@ = self.vx_log@.push(e); self.vx_hist@ = self.vx_hist@.push(self.vx_state());
        }
        r
    }
    fn element<'a>(&mut self, child: ElementReader<'a>) -> (r: Result<Option<ElementReader<'a>>, VisitorError>) {
        let r = self.vx_element(child);
        proof {
            let e = Entry { call: Call::Elem { src: at(child).src, at: at(child).idx }, answer: answer_element(r) };
            lemma_chain(self.vx_hist@, self.vx_log@, init(), steps(), self.vx_state(), e);
            self.vx_log@ = self.vx_log@.push(e); self.vx_hist@ = self.vx_hist@.push(self.vx_state());
        }
        r
    }
    fn characters(&mut self, s: String, p: TextPosition) -> (r: Result<Option<String>, BoxedStdError>) {
        let r = { let mut d = VxDefault { log: Ghost(Seq::empty()) }; d.characters(s, p) };
        proof {
            let e = Entry { call: Call::Chars { s: s@, pos: p }, answer: answer_chars(r) };
            lemma_chain(self.vx_hist@, self.vx_log@, init(), steps(), self.vx_state(), e);
            self.vx_log@ = self.vx_log@.push(e); self.vx_hist@ = self.vx_hist@.push(self.vx_state());
        }
        r
    }
}
impl<'out> RawDeserializeVisitor<'out> for GuardVisitor<'out> {
    type Out = Guard;
    open spec fn finished(log: Seq<Entry>, default: Option<VxFn<Guard>>, r: Result<Guard, VisitorError>) -> bool { finished(log, r) }
//@fn fx "RawDeserializeVisitor for GuardVisitor::new" props=C13
//@at start
    proof { broadcast use axiom_value_at; lemma_chain0::<State>(init(), steps()); }
//@at after tail
    proof { assert(vx_r.vx_state().subs =~= init().subs); }
//@end
//@fn fx "RawDeserializeVisitor for GuardVisitor::finalize" props=C13
//@at start
    broadcast use {lemma_took, axiom_value_at};
    proof {
        assert(took(self.vx_log@, init(), steps(), self.vx_state()));
        assert forall|r: Result<Guard, VisitorError>| #[trigger] filled(self.vx_state(), r) implies <Self as RawDeserializeVisitor>::finished(self.log(), default, r) by {}
    }
//@end
}
impl Deserialize for Guard {
    open spec fn reads(src: Src, i: int, r: Result<Self, VisitorError>) -> bool {
        ||| exists|log: Seq<Entry>| #[trigger] visited(src, i, log) && finished(log, r)
        ||| r is Err && r->Err_0 is Propagate && exists|log: Seq<Entry>, s: State| #[trigger] visit_failed(src, i, log, r->Err_0->Propagate_0) && #[trigger] took(log, init(), steps(), s)
    }
//@fn fx "Deserialize for Guard::deserialize" props=C13
//@at start
    broadcast use {lemma_visited, axiom_value_at, lemma_took};
//@end
}
}

// ------------------------------------------------------------------- GuardFlat
pub struct GuardFlat { pub before: Option<i32>, pub g: Guarded }
pub mod GuardFlat_code {
use super::*;
/// One slot of memory per field the struct fills itself.
pub struct GuardFlatOut<'out> { pub before: &'out mut MaybeUninit<Option<i32>> }
pub struct Places<'out> { pub out: GuardFlatOut<'out>, pub g: &'out mut MaybeUninit<Guarded> }
/// What the struct's own memory holds once its fields hold these.
pub open spec fn assembled(before: Option<Option<i32>>, g: Option<Guarded>) -> Option<GuardFlat> {
    if before is Some && g is Some { Some(GuardFlat { before: before.unwrap(), g: g.unwrap() }) } else { None }
}
#[verifier::external_body]
pub fn vx_split<'out>(out: &'out mut MaybeUninit<GuardFlat>) -> (p: Places<'out>)
    requires old(out)@ is None
    ensures (*p.out.before)@ is None, (*p.g)@ is None, final(out)@ == assembled(final(p.out.before)@, final(p.g)@)
{ unimplemented!() }
pub ghost struct State { pub before: Option<Option<i32>>, pub subs: Seq<Seq<Entry>> }
pub open spec fn init() -> State { State { before: None, subs: seq![Seq::<Entry>::empty()] } }
/// The field an entry is for.
pub open spec fn field_of(e: Entry) -> int {
    if is_elem(e, ""@, "before"@) { 0 } else { -1 }
}
/// An entry takes the struct from `a` to `b`.
pub open spec fn step(a: State, b: State, e: Entry) -> bool {
    &&& if field_of(e) == 0 { elem_step(a.before, b.before, e) } else { b.before == a.before }
    &&& if field_of(e) >= 0 { b.subs == a.subs } else { routed(a.subs, b.subs, e) }
}
pub open spec fn steps() -> spec_fn(State, State, Entry) -> bool { |a: State, b: State, e: Entry| step(a, b, e) }
/// What becomes of the struct after its last entry.
pub open spec fn filled(s: State, r: Result<GuardFlat, VisitorError>) -> bool {
    match r {
        Ok(v) => {
            &&& elem_value(s.before, v.before)
            &&& Guarded_code::finished(s.subs[0], None, Ok(v.g))

        }
        Err(e) => {
            ||| elem_missing(s.before, e)
            ||| Guarded_code::finished(s.subs[0], None, Err(e))

        }
    }
}
pub open spec fn finished(log: Seq<Entry>, r: Result<GuardFlat, VisitorError>) -> bool {
    exists|s: State| #[trigger] took(log, init(), steps(), s) && filled(s, r)
}
//@fn fx GuardFlat_ELEMENTS props=C11,C13 nocanary=1
    ensures names_sorted(r@), r@.len() == 1, //# C11,C13
        name_of(r@[0]) == (""@, "before"@), //# C11,C13
//@at start
    proof {
        reveal(names_sorted);
        reveal_strlit("");
        reveal_strlit("before");
    }
//@end
//@fn fx GuardFlat_ATTRIBUTES props=C11,C13 nocanary=1
    ensures names_sorted(r@), r@.len() == 0, //# C11,C13
//@at start
    proof {
        reveal(names_sorted);
    }
//@end
//@item fx struct GuardFlatVisitor
impl<'out> GuardFlatVisitor<'out> {
    pub closed spec fn vx_state(&self) -> State { State { before: (*self.out.before)@, subs: seq![self.vx_sub_0.log()] } }
    pub closed spec fn vx_ok(&self) -> bool { self.vx_present_0 == (*self.out.before)@ is Some && self.vx_sub_0.inv() }
    #[verifier::prophetic]
    pub closed spec fn vx_place(&self) -> Place { place_of(assembled(final(self.out.before)@, value_at(self.vx_sub_0.place()))) }
//@fn fx "ElementVisitor for GuardFlatVisitor::element" rename=vx_element props=C13
    requires old(self).vx_ok(), fresh(child),
    ensures
        final(self).vx_ok(), final(self).vx_log == old(self).vx_log, final(self).vx_hist == old(self).vx_hist,
        final(self).vx_place() == old(self).vx_place(),
        step(old(self).vx_state(), final(self).vx_state(), Entry { call: Call::Elem { src: at(child).src, at: at(child).idx }, answer: answer_element(r) }), //# C13
        match r {
            // passed on: the very same child, untouched
            Ok(Some(c)) => c == child && (has_resolved(r) ==> has_resolved(c.reader))
                && (has_resolved(c.reader) ==> final(c.reader).st() == (*c.reader).st()),
            _ => advanced(old(child.reader).st(), final(child.reader).st(), child.stack_pos as int),
        },
//@at start
    broadcast use lemma_child_name;
//@at before let vx_r
    let ghost g0 = logs(vx_sl@);
//@at after let vx_r
    proof {
        assert(has_resolved(vx_sl)); assert(has_resolved(vx_arr)); assert(has_resolved(vx_arr@[0]));
        assert(g0 =~= old(self).vx_state().subs);
        assert(logs(vx_sl@) =~= self.vx_state().subs);
    }
//@end
//@fn fx "ElementVisitor for GuardFlatVisitor::attribute" rename=vx_attribute props=C13
    requires old(self).vx_ok(),
    ensures
        final(self).vx_ok(), final(self).vx_log == old(self).vx_log, final(self).vx_hist == old(self).vx_hist,
        final(self).vx_place() == old(self).vx_place(),
        step(old(self).vx_state(), final(self).vx_state(), Entry { call: Call::Attr { ns: name.namespace@, local: name.local_name@, value: value@ }, answer: answer_text(r) }), //# C13
//@at before let vx_r
    let ghost g0 = logs(vx_sl@);
//@at after let vx_r
    proof {
        assert(has_resolved(vx_sl)); assert(has_resolved(vx_arr)); assert(has_resolved(vx_arr@[0]));
        assert(g0 =~= old(self).vx_state().subs);
        assert(logs(vx_sl@) =~= self.vx_state().subs);
    }
//@end
//@fn fx "ElementVisitor for GuardFlatVisitor::characters" rename=vx_characters props=C13
    requires old(self).vx_ok(),
    ensures
        final(self).vx_ok(), final(self).vx_log == old(self).vx_log, final(self).vx_hist == old(self).vx_hist,
        final(self).vx_place() == old(self).vx_place(),
        step(old(self).vx_state(), final(self).vx_state(), Entry { call: Call::Chars { s: s@, pos: p }, answer: answer_chars(r) }), //# C13
//@at before let vx_r
    let ghost g0 = logs(vx_sl@);
//@at after let vx_r
    proof {
        assert(has_resolved(vx_sl)); assert(has_resolved(vx_arr)); assert(has_resolved(vx_arr@[0]));
        assert(g0 =~= old(self).vx_state().subs);
        assert(logs(vx_sl@) =~= self.vx_state().subs);
    }
//@end
}
impl<'out> ElementVisitor for GuardFlatVisitor<'out> {
    closed spec fn log(&self) -> Seq<Entry> { self.vx_log@ }
    closed spec fn inv(&self) -> bool { self.vx_ok() && chain(self.vx_hist@, self.vx_log@, init(), steps()) && self.vx_hist@.last() == self.vx_state() }
    #[verifier::prophetic]
    closed spec fn place(&self) -> Place { self.vx_place() }
    fn attribute(&mut self, name: &ExpandedNameRef<'_>, value: String) -> (r: Result<Option<String>, VisitorError>) {
        let r = self.vx_attribute(name, value);
        proof {
            let e = Entry { call: Call::Attr { ns: name.namespace@, local: name.local_name@, value: value@ }, answer: answer_text(r) };
            lemma_chain(self.vx_hist@, self.vx_log@, init(), steps(), self.vx_state(), e);
            self.vx_log@ = self.vx_log@.push(e); self.vx_hist@ = self.vx_hist@.push(self.vx_state());
        }
        r
    }
    fn element<'a>(&mut self, child: ElementReader<'a>) -> (r: Result<Option<ElementReader<'a>>, VisitorError>) {
        let r = self.vx_element(child);
        proof {
            let e = Entry { call: Call::Elem { src: at(child).src, at: at(child).idx }, answer: answer_element(r) };
            lemma_chain(self.vx_hist@, self.vx_log@, init(), steps(), self.vx_state(), e);
            self.vx_log@ = self.vx_log@.push(e); self.vx_hist@ = self.vx_hist@.push(self.vx_state());
        }
        r
    }
    fn characters(&mut self, s: String, p: TextPosition) -> (r: Result<Option<String>, BoxedStdError>) {
        let r = self.vx_characters(s, p);
        proof {
            let e = Entry { call: Call::Chars { s: s@, pos: p }, answer: answer_chars(r) };
            lemma_chain(self.vx_hist@, self.vx_log@, init(), steps(), self.vx_state(), e);
            self.vx_log@ = self.vx_log@.push(e); self.vx_hist@ = self.vx_hist@.push(self.vx_state());
        }
        r
    }
}
impl<'out> RawDeserializeVisitor<'out> for GuardFlatVisitor<'out> {
    type Out = GuardFlat;
    open spec fn finished(log: Seq<Entry>, default: Option<VxFn<GuardFlat>>, r: Result<GuardFlat, VisitorError>) -> bool { finished(log, r) }
//@fn fx "RawDeserializeVisitor for GuardFlatVisitor::new" props=C13
//@at start
    proof { broadcast use axiom_value_at; lemma_chain0::<State>(init(), steps()); }
//@at after tail
    proof { assert(vx_r.vx_state().subs =~= init().subs); }
//@end
//@fn fx "RawDeserializeVisitor for GuardFlatVisitor::finalize" props=C13
//@at start
    broadcast use {lemma_took, axiom_value_at};
    proof {
        assert(took(self.vx_log@, init(), steps(), self.vx_state()));
        assert forall|r: Result<GuardFlat, VisitorError>| #[trigger] filled(self.vx_state(), r) implies <Self as RawDeserializeVisitor>::finished(self.log(), default, r) by {}
    }
//@end
}
impl Deserialize for GuardFlat {
    open spec fn reads(src: Src, i: int, r: Result<Self, VisitorError>) -> bool {
        ||| exists|log: Seq<Entry>| #[trigger] visited(src, i, log) && finished(log, r)
        ||| r is Err && r->Err_0 is Propagate && exists|log: Seq<Entry>, s: State| #[trigger] visit_failed(src, i, log, r->Err_0->Propagate_0) && #[trigger] took(log, init(), steps(), s)
    }
//@fn fx "Deserialize for GuardFlat::deserialize" props=C13
//@at start
    broadcast use {lemma_visited, axiom_value_at, lemma_took};
//@end
}
}

// ------------------------------------------------------------------- Deep
pub struct Deep { pub plain: Plain, pub list: Vec<One>, pub choice: Option<Shape>, pub many: Vec<Tone>, pub text: ColorOrNum, pub t2: Option<Loose>, pub sp: Option<Spaced> }
pub mod Deep_code {
use super::*;
/// One slot of memory per field the struct fills itself.
pub struct DeepOut<'out> { pub plain: &'out mut MaybeUninit<Plain>, pub list: &'out mut MaybeUninit<Vec<One>>, pub choice: &'out mut MaybeUninit<Option<Shape>>, pub many: &'out mut MaybeUninit<Vec<Tone>>, pub text: &'out mut MaybeUninit<ColorOrNum>, pub t2: &'out mut MaybeUninit<Option<Loose>>, pub sp: &'out mut MaybeUninit<Option<Spaced>> }
pub struct Places<'out> { pub out: DeepOut<'out> }
/// What the struct's own memory holds once its fields hold these.
pub open spec fn assembled(plain: Option<Plain>, list: Option<Vec<One>>, choice: Option<Option<Shape>>, many: Option<Vec<Tone>>, text: Option<ColorOrNum>, t2: Option<Option<Loose>>, sp: Option<Option<Spaced>>) -> Option<Deep> {
    if plain is Some && list is Some && choice is Some && many is Some && text is Some && t2 is Some && sp is Some { Some(Deep { plain: plain.unwrap(), list: list.unwrap(), choice: choice.unwrap(), many: many.unwrap(), text: text.unwrap(), t2: t2.unwrap(), sp: sp.unwrap() }) } else { None }
}
#[verifier::external_body]
pub fn vx_split<'out>(out: &'out mut MaybeUninit<Deep>) -> (p: Places<'out>)
    requires old(out)@ is None
    ensures (*p.out.plain)@ is None, (*p.out.list)@ is None, (*p.out.choice)@ is None, (*p.out.many)@ is None, (*p.out.text)@ is None, (*p.out.t2)@ is None, (*p.out.sp)@ is None, final(out)@ == assembled(final(p.out.plain)@, final(p.out.list)@, final(p.out.choice)@, final(p.out.many)@, final(p.out.text)@, final(p.out.t2)@, final(p.out.sp)@)
{ unimplemented!() }
pub ghost struct State { pub plain: Option<Plain>, pub list: Option<Vec<One>>, pub choice: Option<Option<Shape>>, pub many: Option<Vec<Tone>>, pub text: Option<ColorOrNum>, pub t2: Option<Option<Loose>>, pub sp: Option<Option<Spaced>>, pub subs: Seq<Seq<Entry>> }
pub open spec fn init() -> State { State { plain: None, list: None, choice: None, many: None, text: None, t2: None, sp: None, subs: Seq::<Seq<Entry>>::empty() } }
/// The field an entry is for.
pub open spec fn field_of(e: Entry) -> int {
    if is_elem(e, ""@, "plain"@) { 0 } else if is_elem(e, ""@, "list"@) { 1 } else if is_elem(e, ""@, "choice"@) { 2 } else if is_elem(e, ""@, "many"@) { 3 } else if is_elem(e, ""@, "text"@) { 4 } else if is_attr(e, ""@, "t2"@) { 5 } else if is_elem(e, "urn:a"@, "spaced-out"@) { 6 } else { -1 }
}
/// An entry takes the struct from `a` to `b`.
pub open spec fn step(a: State, b: State, e: Entry) -> bool {
    &&& if field_of(e) == 0 { elem_step(a.plain, b.plain, e) } else { b.plain == a.plain }
    &&& if field_of(e) == 1 { elem_step(a.list, b.list, e) } else { b.list == a.list }
    &&& if field_of(e) == 2 { elem_step(a.choice, b.choice, e) } else { b.choice == a.choice }
    &&& if field_of(e) == 3 { elem_step(a.many, b.many, e) } else { b.many == a.many }
    &&& if field_of(e) == 4 { elem_step(a.text, b.text, e) } else { b.text == a.text }
    &&& if field_of(e) == 5 { attr_step(a.t2, b.t2, e) } else { b.t2 == a.t2 }
    &&& if field_of(e) == 6 { elem_step(a.sp, b.sp, e) } else { b.sp == a.sp }
    &&& if field_of(e) >= 0 { b.subs == a.subs } else { routed(a.subs, b.subs, e) }
}
pub open spec fn steps() -> spec_fn(State, State, Entry) -> bool { |a: State, b: State, e: Entry| step(a, b, e) }
/// What becomes of the struct after its last entry.
pub open spec fn filled(s: State, r: Result<Deep, VisitorError>) -> bool {
    match r {
        Ok(v) => {
            &&& elem_value(s.plain, v.plain)
            &&& elem_value(s.list, v.list)
            &&& elem_value(s.choice, v.choice)
            &&& elem_value(s.many, v.many)
            &&& elem_value(s.text, v.text)
            &&& attr_value(s.t2, v.t2)
            &&& elem_value(s.sp, v.sp)

        }
        Err(e) => {
            ||| elem_missing(s.plain, e)
            ||| elem_missing(s.list, e)
            ||| elem_missing(s.choice, e)
            ||| elem_missing(s.many, e)
            ||| elem_missing(s.text, e)
            ||| attr_missing(s.t2, e)
            ||| elem_missing(s.sp, e)

        }
    }
}
pub open spec fn finished(log: Seq<Entry>, r: Result<Deep, VisitorError>) -> bool {
    exists|s: State| #[trigger] took(log, init(), steps(), s) && filled(s, r)
}
//@fn fx Deep_ELEMENTS props=C11,C13 nocanary=1
    ensures names_sorted(r@), r@.len() == 6, //# C11,C13
        name_of(r@[0]) == (""@, "choice"@), //# C11,C13
        name_of(r@[1]) == (""@, "list"@), //# C11,C13
        name_of(r@[2]) == (""@, "many"@), //# C11,C13
        name_of(r@[3]) == (""@, "plain"@), //# C11,C13
        name_of(r@[4]) == (""@, "text"@), //# C11,C13
        name_of(r@[5]) == ("urn:a"@, "spaced-out"@), //# C11,C13
        (""@, "choice"@) != (""@, "list"@),
        (""@, "choice"@) != (""@, "many"@),
        (""@, "list"@) != (""@, "many"@),
        (""@, "choice"@) != (""@, "plain"@),
        (""@, "list"@) != (""@, "plain"@),
        (""@, "many"@) != (""@, "plain"@),
        (""@, "choice"@) != (""@, "text"@),
        (""@, "list"@) != (""@, "text"@),
        (""@, "many"@) != (""@, "text"@),
        (""@, "plain"@) != (""@, "text"@),
        (""@, "choice"@) != ("urn:a"@, "spaced-out"@),
        (""@, "list"@) != ("urn:a"@, "spaced-out"@),
        (""@, "many"@) != ("urn:a"@, "spaced-out"@),
        (""@, "plain"@) != ("urn:a"@, "spaced-out"@),
        (""@, "text"@) != ("urn:a"@, "spaced-out"@),
//@at start
    proof {
        reveal(names_sorted);
        reveal_strlit("");
        reveal_strlit("choice");
        reveal_strlit("list");
        reveal_strlit("many");
        reveal_strlit("plain");
        reveal_strlit("spaced-out");
        reveal_strlit("text");
        reveal_strlit("urn:a");
        lemma_str_lt_at("choice"@, "list"@, 0);
        lemma_str_lt_at("choice"@, "many"@, 0);
        lemma_str_lt_at("list"@, "many"@, 0);
        lemma_str_lt_at("choice"@, "plain"@, 0);
        lemma_str_lt_at("list"@, "plain"@, 0);
        lemma_str_lt_at("many"@, "plain"@, 0);
        lemma_str_lt_at("choice"@, "text"@, 0);
        lemma_str_lt_at("list"@, "text"@, 0);
        lemma_str_lt_at("many"@, "text"@, 0);
        lemma_str_lt_at("plain"@, "text"@, 0);
        lemma_str_lt_at(""@, "urn:a"@, 0);
        lemma_str_lt_at(""@, "urn:a"@, 0);
        lemma_str_lt_at(""@, "urn:a"@, 0);
        lemma_str_lt_at(""@, "urn:a"@, 0);
        lemma_str_lt_at(""@, "urn:a"@, 0);
    }
//@end
//@fn fx Deep_ATTRIBUTES props=C11,C13 nocanary=1
    ensures names_sorted(r@), r@.len() == 1, //# C11,C13
        name_of(r@[0]) == (""@, "t2"@), //# C11,C13
//@at start
    proof {
        reveal(names_sorted);
        reveal_strlit("");
        reveal_strlit("t2");
    }
//@end
//@item fx struct DeepVisitor
impl<'out> DeepVisitor<'out> {
    pub closed spec fn vx_state(&self) -> State { State { plain: (*self.out.plain)@, list: (*self.out.list)@, choice: (*self.out.choice)@, many: (*self.out.many)@, text: (*self.out.text)@, t2: (*self.out.t2)@, sp: (*self.out.sp)@, subs: Seq::<Seq<Entry>>::empty() } }
    pub closed spec fn vx_ok(&self) -> bool { self.vx_present_0 == (*self.out.plain)@ is Some && self.vx_present_1 == (*self.out.list)@ is Some && self.vx_present_2 == (*self.out.choice)@ is Some && self.vx_present_3 == (*self.out.many)@ is Some && self.vx_present_4 == (*self.out.text)@ is Some && self.vx_present_5 == (*self.out.t2)@ is Some && self.vx_present_6 == (*self.out.sp)@ is Some }
    #[verifier::prophetic]
    pub closed spec fn vx_place(&self) -> Place { place_of(assembled(final(self.out.plain)@, final(self.out.list)@, final(self.out.choice)@, final(self.out.many)@, final(self.out.text)@, final(self.out.t2)@, final(self.out.sp)@)) }
//@fn fx "ElementVisitor for DeepVisitor::element" rename=vx_element props=C13
    requires old(self).vx_ok(), fresh(child),
    ensures
        final(self).vx_ok(), final(self).vx_log == old(self).vx_log, final(self).vx_hist == old(self).vx_hist,
        final(self).vx_place() == old(self).vx_place(),
        step(old(self).vx_state(), final(self).vx_state(), Entry { call: Call::Elem { src: at(child).src, at: at(child).idx }, answer: answer_element(r) }), //# C13
        match r {
            // passed on: the very same child, untouched
            Ok(Some(c)) => c == child && (has_resolved(r) ==> has_resolved(c.reader))
                && (has_resolved(c.reader) ==> final(c.reader).st() == (*c.reader).st()),
            _ => advanced(old(child.reader).st(), final(child.reader).st(), child.stack_pos as int),
        },
//@at start
    broadcast use lemma_child_name;
//@end
//@fn fx "ElementVisitor for DeepVisitor::attribute" rename=vx_attribute props=C13
    requires old(self).vx_ok(),
    ensures
        final(self).vx_ok(), final(self).vx_log == old(self).vx_log, final(self).vx_hist == old(self).vx_hist,
        final(self).vx_place() == old(self).vx_place(),
        step(old(self).vx_state(), final(self).vx_state(), Entry { call: Call::Attr { ns: name.namespace@, local: name.local_name@, value: value@ }, answer: answer_text(r) }), //# C13
//@end
}
impl<'out> ElementVisitor for DeepVisitor<'out> {
    closed spec fn log(&self) -> Seq<Entry> { self.vx_log@ }
    closed spec fn inv(&self) -> bool { self.vx_ok() && chain(self.vx_hist@, self.vx_log@, init(), steps()) && self.vx_hist@.last() == self.vx_state() }
    #[verifier::prophetic]
    closed spec fn place(&self) -> Place { self.vx_place() }
    fn attribute(&mut self, name: &ExpandedNameRef<'_>, value: String) -> (r: Result<Option<String>, VisitorError>) {
        let r = self.vx_attribute(name, value);
        proof {
            let e = Entry { call: Call::Attr { ns: name.namespace@, local: name.local_name@, value: value@ }, answer: answer_text(r) };
            lemma_chain(self.vx_hist@, self.vx_log@, init(), steps(), self.vx_state(), e);
            self.vx_log@ = self.vx_log@.push(e); self.vx_hist@ = self.vx_hist@.push(self.vx_state());
        }
        r
    }
    fn element<'a>(&mut self, child: ElementReader<'a>) -> (r: Result<Option<ElementReader<'a>>, VisitorError>) {
        let r = self.vx_element(child);
        proof {
            let e = Entry { call: Call::Elem { src: at(child).src, at: at(child).idx }, answer: answer_element(r) };
            lemma_chain(self.vx_hist@, self.vx_log@, init(), steps(), self.vx_state(), e);
            self.vx_log@ = self.vx_log@.push(e); self.vx_hist@ = self.vx_hist@.push(self.vx_state());
        }
        r
    }
    fn characters(&mut self, s: String, p: TextPosition) -> (r: Result<Option<String>, BoxedStdError>) {
        let r = { let mut d = VxDefault { log: Ghost(Seq::empty()) }; d.characters(s, p) };
        proof {
            let e = Entry { call: Call::Chars { s: s@, pos: p }, answer: answer_chars(r) };
            lemma_chain(self.vx_hist@, self.vx_log@, init(), steps(), self.vx_state(), e);
            self.vx_log@ = self.vx_log@.push(e); self.vx_hist@ = self.vx_hist@.push(self.vx_state());
        }
        r
    }
}
impl<'out> RawDeserializeVisitor<'out> for DeepVisitor<'out> {
    type Out = Deep;
    open spec fn finished(log: Seq<Entry>, default: Option<VxFn<Deep>>, r: Result<Deep, VisitorError>) -> bool { finished(log, r) }
//@fn fx "RawDeserializeVisitor for DeepVisitor::new" props=C13
//@at start
    proof { broadcast use axiom_value_at; lemma_chain0::<State>(init(), steps()); }
//@at after tail
    proof { assert(vx_r.vx_state().subs =~= init().subs); }
//@end
//@fn fx "RawDeserializeVisitor for DeepVisitor::finalize" props=C13
//@at start
    broadcast use {lemma_took, axiom_value_at};
    proof {
        assert(took(self.vx_log@, init(), steps(), self.vx_state()));
        assert forall|r: Result<Deep, VisitorError>| #[trigger] filled(self.vx_state(), r) implies <Self as RawDeserializeVisitor>::finished(self.log(), default, r) by {}
    }
//@end
}
impl Deserialize for Deep {
    open spec fn reads(src: Src, i: int, r: Result<Self, VisitorError>) -> bool {
        ||| exists|log: Seq<Entry>| #[trigger] visited(src, i, log) && finished(log, r)
        ||| r is Err && r->Err_0 is Propagate && exists|log: Seq<Entry>, s: State| #[trigger] visit_failed(src, i, log, r->Err_0->Propagate_0) && #[trigger] took(log, init(), steps(), s)
    }
//@fn fx "Deserialize for Deep::deserialize" props=C13
//@at start
    broadcast use {lemma_visited, axiom_value_at, lemma_took};
//@end
}
}

// ------------------------------------------------------------------- Tree
pub enum Tree { Leaf(TwoFlat), Branch(Vec<Deep>), Nil }
pub mod Tree_code {
use super::*;
pub type State = Option<Tree>;
pub open spec fn init() -> State { None }
/// An entry takes the enum from `a` to `b`.
pub open spec fn step(a: State, b: State, e: Entry) -> bool {
    if is_elem(e, ""@, "Leaf"@) {
        match a {
            Some(Tree::Leaf(f)) => b is Some && b.unwrap() is Leaf && elem_step(Some(f), Some(b.unwrap()->Leaf_0), e),
            None => (b is Some ==> b.unwrap() is Leaf) && elem_step(None, (if b is Some { Some(b.unwrap()->Leaf_0) } else { None }), e),
            // another variant was chosen before
            _ => b == a && e.answer is Failed && e.answer->Failed_0 is Wrap,
        }
    } else if is_elem(e, ""@, "Branch"@) {
        match a {
            Some(Tree::Branch(f)) => b is Some && b.unwrap() is Branch && elem_step(Some(f), Some(b.unwrap()->Branch_0), e),
            None => (b is Some ==> b.unwrap() is Branch) && elem_step(None, (if b is Some { Some(b.unwrap()->Branch_0) } else { None }), e),
            // another variant was chosen before
            _ => b == a && e.answer is Failed && e.answer->Failed_0 is Wrap,
        }
    } else if is_elem(e, ""@, "Nil"@) {
        match a {
            Some(Tree::Nil) => b == a && e.answer is Consumed,
            None => b == Some(Tree::Nil) && e.answer is Consumed,
            // another variant was chosen before
            _ => b == a && e.answer is Failed && e.answer->Failed_0 is Wrap,
        }
    } else { b == a && e.answer == handed_on(e) }
}
pub open spec fn steps() -> spec_fn(State, State, Entry) -> bool { |a: State, b: State, e: Entry| step(a, b, e) }
pub open spec fn finished(log: Seq<Entry>, default: Option<VxFn<Tree>>, r: Result<Tree, VisitorError>) -> bool {
    exists|s: State| #[trigger] took(log, init(), steps(), s) && match s {
        Some(v) => r == Ok::<Tree, VisitorError>(v),
        None => match default { Some(d) => r is Ok && d.gives(r->Ok_0), None => r is Err && r->Err_0 is Wrap },
    }
}
//@fn fx Tree_ELEMENTS props=C11,C14 nocanary=1
    ensures names_sorted(r@), r@.len() == 3, //# C11,C14
        name_of(r@[0]) == (""@, "Branch"@), //# C11,C14
        name_of(r@[1]) == (""@, "Leaf"@), //# C11,C14
        name_of(r@[2]) == (""@, "Nil"@), //# C11,C14
        (""@, "Branch"@) != (""@, "Leaf"@),
        (""@, "Branch"@) != (""@, "Nil"@),
        (""@, "Leaf"@) != (""@, "Nil"@),
//@at start
    proof {
        reveal(names_sorted);
        reveal_strlit("");
        reveal_strlit("Branch");
        reveal_strlit("Leaf");
        reveal_strlit("Nil");
        lemma_str_lt_at("Branch"@, "Leaf"@, 0);
        lemma_str_lt_at("Branch"@, "Nil"@, 0);
        lemma_str_lt_at("Leaf"@, "Nil"@, 0);
    }
//@end
//@item fx struct TreeVisitor
impl<'out> TreeVisitor<'out> {
    pub closed spec fn vx_state(&self) -> State { (*self.out)@ }
    #[verifier::prophetic]
    pub closed spec fn vx_place(&self) -> Place { place_of(final(self.out)@) }
    pub closed spec fn vx_ok(&self) -> bool { self.vx_present_0 == (*self.out)@ is Some }
//@fn fx "ElementVisitor for TreeVisitor::element" rename=vx_element props=C14
    requires old(self).vx_ok(), fresh(child),
    ensures
        final(self).vx_ok(), final(self).vx_log == old(self).vx_log, final(self).vx_hist == old(self).vx_hist,
        final(self).vx_place() == old(self).vx_place(),
        step(old(self).vx_state(), final(self).vx_state(), Entry { call: Call::Elem { src: at(child).src, at: at(child).idx }, answer: answer_element(r) }), //# C14
        match r {
            // passed on: the very same child, untouched
            Ok(Some(c)) => c == child && (has_resolved(r) ==> has_resolved(c.reader))
                && (has_resolved(c.reader) ==> final(c.reader).st() == (*c.reader).st()),
            _ => advanced(old(child.reader).st(), final(child.reader).st(), child.stack_pos as int),
        },
//@at start
    broadcast use lemma_child_name;
//@end
}
impl<'out> ElementVisitor for TreeVisitor<'out> {
    closed spec fn log(&self) -> Seq<Entry> { self.vx_log@ }
    closed spec fn inv(&self) -> bool { self.vx_ok() && chain(self.vx_hist@, self.vx_log@, init(), steps()) && self.vx_hist@.last() == self.vx_state() }
    #[verifier::prophetic]
    closed spec fn place(&self) -> Place { self.vx_place() }
    fn attribute(&mut self, name: &ExpandedNameRef<'_>, value: String) -> (r: Result<Option<String>, VisitorError>) {
        let r = { let mut d = VxDefault { log: Ghost(Seq::empty()) }; d.attribute(name, value) };
        proof {
            let e = Entry { call: Call::Attr { ns: name.namespace@, local: name.local_name@, value: value@ }, answer: answer_text(r) };
            lemma_chain(self.vx_hist@, self.vx_log@, init(), steps(), self.vx_state(), e);
            self.vx_log@ = self.vx_log@.push(e); self.vx_hist@ = self.vx_hist@.push(self.vx_state());
        }
        r
    }
    fn element<'a>(&mut self, child: ElementReader<'a>) -> (r: Result<Option<ElementReader<'a>>, VisitorError>) {
        let r = self.vx_element(child);
        proof {
            let e = Entry { call: Call::Elem { src: at(child).src, at: at(child).idx }, answer: answer_element(r) };
            lemma_chain(self.vx_hist@, self.vx_log@, init(), steps(), self.vx_state(), e);
            self.vx_log@ = self.vx_log@.push(e); self.vx_hist@ = self.vx_hist@.push(self.vx_state());
        }
        r
    }
    fn characters(&mut self, s: String, p: TextPosition) -> (r: Result<Option<String>, BoxedStdError>) {
        let r = { let mut d = VxDefault { log: Ghost(Seq::empty()) }; d.characters(s, p) };
        proof {
            let e = Entry { call: Call::Chars { s: s@, pos: p }, answer: answer_chars(r) };
            lemma_chain(self.vx_hist@, self.vx_log@, init(), steps(), self.vx_state(), e);
            self.vx_log@ = self.vx_log@.push(e); self.vx_hist@ = self.vx_hist@.push(self.vx_state());
        }
        r
    }
}
impl<'out> RawDeserializeVisitor<'out> for TreeVisitor<'out> {
    type Out = Tree;
    open spec fn finished(log: Seq<Entry>, default: Option<VxFn<Tree>>, r: Result<Tree, VisitorError>) -> bool { finished(log, default, r) }
//@fn fx "RawDeserializeVisitor for TreeVisitor::new" props=C14
//@at start
    proof { lemma_chain0::<State>(init(), steps()); }
//@end
//@fn fx "RawDeserializeVisitor for TreeVisitor::finalize" props=C14
//@at start
    broadcast use axiom_value_at;
    proof {
        assert(took(self.vx_log@, init(), steps(), self.vx_state()));
        assert forall|r: Result<Tree, VisitorError>| #[trigger] finished(self.vx_log@, default, r) implies <Self as RawDeserializeVisitor>::finished(self.log(), default, r) by {}
    }
//@end
}
impl<'out> RawDeserialize<'out> for Tree { type Visitor = TreeVisitor<'out>; }
impl Deserialize for Tree {
    open spec fn reads(src: Src, i: int, r: Result<Self, VisitorError>) -> bool {
        ||| exists|log: Seq<Entry>| #[trigger] visited(src, i, log) && finished(log, None, r)
        ||| r is Err && r->Err_0 is Propagate && exists|log: Seq<Entry>, s: State| #[trigger] visit_failed(src, i, log, r->Err_0->Propagate_0) && #[trigger] took(log, init(), steps(), s)
    }
//@fn fx "Deserialize for Tree::deserialize" props=C14
//@at start
    broadcast use {lemma_visited, axiom_value_at, lemma_took};
//@end
}
}

} // verus!
fn main() {}
