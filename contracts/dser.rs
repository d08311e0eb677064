// Written by tools/corpus.py. Contracts on the code that #[derive(Serialize)]
// generates for the element types of the corpus (corpus/src/lib.rs).
use vstd::prelude::*;
use vstd::utf8::*;
use std::io::Write;

verus! {

//@include ser_body.rs
//@include derive_paths.rs
//@own
//@source fx @flat.rs

pub type Outcome = Result<(), Error>;
pub type Bindings = Map<Seq<char>, Seq<char>>;
pub broadcast proof fn lemma_attributes_trans(a: BS, m: BS, b: BS)
    requires #[trigger] attributes_added(a, m), #[trigger] attributes_added(m, b)
    ensures attributes_added(a, b)
{
    assert(b.attrs.take(a.attrs.len() as int) =~= b.attrs.take(m.attrs.len() as int).take(a.attrs.len() as int));
}
pub broadcast proof fn lemma_declared_added(a: BS, n: Map<Key, NsV>)
    ensures #[trigger] attributes_added(a, BS { nss: n, ..a })
{
    assert(a.attrs.take(a.attrs.len() as int) =~= a.attrs);
}
pub broadcast proof fn lemma_grew_chain(a: WS, m: WS, b: WS)
    requires #[trigger] grew(a, m), #[trigger] grew(m, b)
    ensures grew(a, b)
{ lemma_grew_trans(a, m, b); }
/// From `a` to `b` an element without attributes or content was written.
pub open spec fn empty_element(name: Key, ctx: Bindings, a: WS, b: WS, r: Outcome) -> bool {
    match r {
        Ok(_) => exists|nss: Map<Key, NsV>, s: WS| #[trigger] inherited(ctx, name.0, nss)
            && started(a, s) && #[trigger] start_tag(BS { name: name, attrs: Seq::empty(), nss: nss }, s.log.last())
            && #[trigger] wrote(s, b, Ev::End, Ok(())),
        Err(_) => b.poison is Some,
    }
}
pub broadcast proof fn lemma_empty_element(ctx: Bindings, b0: BS, a: WS, s: WS, b: WS, r: Outcome)
    requires
        #[trigger] inherited(ctx, b0.name.0, b0.nss), b0.attrs.len() == 0,
        #[trigger] started(a, s), start_tag(b0, s.log.last()), #[trigger] wrote(s, b, Ev::End, r),
    ensures
        empty_element(b0.name, ctx, a, b, r), grew(a, b)
{
    broadcast use {lemma_grew_same, lemma_element_finished};
    assert(b0.attrs =~= Seq::empty());
    assert(start_tag(BS { name: b0.name, attrs: Seq::empty(), nss: b0.nss }, s.log.last()));
    assert(grew(s, s));
}
pub broadcast proof fn lemma_empty_failed(name: Key, ctx: Bindings, a: WS, b: WS, r: Outcome)
    requires #[trigger] poisoned(a, b), r is Err
    ensures #[trigger] empty_element(name, ctx, a, b, r)
{ }

pub struct Color { x: u8 }
impl ToText for Color {
    uninterp spec fn prints(&self, r: Result<String, Error>) -> bool;
    #[verifier::external_body]
    fn to_text(&self) -> (r: Result<String, Error>) { unimplemented!() }
}
pub struct Size { x: u8 }
impl ToText for Size {
    uninterp spec fn prints(&self, r: Result<String, Error>) -> bool;
    #[verifier::external_body]
    fn to_text(&self) -> (r: Result<String, Error>) { unimplemented!() }
}
pub struct Code { x: u8 }
impl ToText for Code {
    uninterp spec fn prints(&self, r: Result<String, Error>) -> bool;
    #[verifier::external_body]
    fn to_text(&self) -> (r: Result<String, Error>) { unimplemented!() }
}
pub struct Keep { x: u8 }
impl ToText for Keep {
    uninterp spec fn prints(&self, r: Result<String, Error>) -> bool;
    #[verifier::external_body]
    fn to_text(&self) -> (r: Result<String, Error>) { unimplemented!() }
}
pub struct Tight { x: u8 }
impl ToText for Tight {
    uninterp spec fn prints(&self, r: Result<String, Error>) -> bool;
    #[verifier::external_body]
    fn to_text(&self) -> (r: Result<String, Error>) { unimplemented!() }
}
pub struct Vowel { x: u8 }
impl ToText for Vowel {
    uninterp spec fn prints(&self, r: Result<String, Error>) -> bool;
    #[verifier::external_body]
    fn to_text(&self) -> (r: Result<String, Error>) { unimplemented!() }
}
pub struct Pair { x: u8 }
impl ToText for Pair {
    uninterp spec fn prints(&self, r: Result<String, Error>) -> bool;
    #[verifier::external_body]
    fn to_text(&self) -> (r: Result<String, Error>) { unimplemented!() }
}
pub struct Word { x: u8 }
impl ToText for Word {
    uninterp spec fn prints(&self, r: Result<String, Error>) -> bool;
    #[verifier::external_body]
    fn to_text(&self) -> (r: Result<String, Error>) { unimplemented!() }
}
pub struct ColorOrNum { x: u8 }
impl ToText for ColorOrNum {
    uninterp spec fn prints(&self, r: Result<String, Error>) -> bool;
    #[verifier::external_body]
    fn to_text(&self) -> (r: Result<String, Error>) { unimplemented!() }
}
pub struct Loose { x: u8 }
impl ToText for Loose {
    uninterp spec fn prints(&self, r: Result<String, Error>) -> bool;
    #[verifier::external_body]
    fn to_text(&self) -> (r: Result<String, Error>) { unimplemented!() }
}
pub struct TwoTexts { x: u8 }
impl ToText for TwoTexts {
    uninterp spec fn prints(&self, r: Result<String, Error>) -> bool;
    #[verifier::external_body]
    fn to_text(&self) -> (r: Result<String, Error>) { unimplemented!() }
}
pub struct Nested { x: u8 }
impl ToText for Nested {
    uninterp spec fn prints(&self, r: Result<String, Error>) -> bool;
    #[verifier::external_body]
    fn to_text(&self) -> (r: Result<String, Error>) { unimplemented!() }
}
pub struct Early { x: u8 }
impl ToText for Early {
    uninterp spec fn prints(&self, r: Result<String, Error>) -> bool;
    #[verifier::external_body]
    fn to_text(&self) -> (r: Result<String, Error>) { unimplemented!() }
}
pub struct Front { x: u8 }
impl ToText for Front {
    uninterp spec fn prints(&self, r: Result<String, Error>) -> bool;
    #[verifier::external_body]
    fn to_text(&self) -> (r: Result<String, Error>) { unimplemented!() }
}
pub struct Alone { x: u8 }
impl ToText for Alone {
    uninterp spec fn prints(&self, r: Result<String, Error>) -> bool;
    #[verifier::external_body]
    fn to_text(&self) -> (r: Result<String, Error>) { unimplemented!() }
}
pub struct TwoRest { x: u8 }
impl ToText for TwoRest {
    uninterp spec fn prints(&self, r: Result<String, Error>) -> bool;
    #[verifier::external_body]
    fn to_text(&self) -> (r: Result<String, Error>) { unimplemented!() }
}
pub struct Ahead { x: u8 }
impl ToText for Ahead {
    uninterp spec fn prints(&self, r: Result<String, Error>) -> bool;
    #[verifier::external_body]
    fn to_text(&self) -> (r: Result<String, Error>) { unimplemented!() }
}
pub struct Foreign { x: u8 }
impl ToText for Foreign {
    uninterp spec fn prints(&self, r: Result<String, Error>) -> bool;
    #[verifier::external_body]
    fn to_text(&self) -> (r: Result<String, Error>) { unimplemented!() }
}
pub struct Line { x: u8 }
impl ToText for Line {
    uninterp spec fn prints(&self, r: Result<String, Error>) -> bool;
    #[verifier::external_body]
    fn to_text(&self) -> (r: Result<String, Error>) { unimplemented!() }
}
pub struct Strings { x: u8 }
impl ToText for Strings {
    uninterp spec fn prints(&self, r: Result<String, Error>) -> bool;
    #[verifier::external_body]
    fn to_text(&self) -> (r: Result<String, Error>) { unimplemented!() }
}
pub struct Tracked { x: u8 }
impl ToText for String {
    uninterp spec fn prints(&self, r: Result<String, Error>) -> bool;
    #[verifier::external_body]
    fn to_text(&self) -> (r: Result<String, Error>) { unimplemented!() }
}
impl ToText for bool {
    uninterp spec fn prints(&self, r: Result<String, Error>) -> bool;
    #[verifier::external_body]
    fn to_text(&self) -> (r: Result<String, Error>) { unimplemented!() }
}
impl ToText for i32 {
    uninterp spec fn prints(&self, r: Result<String, Error>) -> bool;
    #[verifier::external_body]
    fn to_text(&self) -> (r: Result<String, Error>) { unimplemented!() }
}
impl ToText for u64 {
    uninterp spec fn prints(&self, r: Result<String, Error>) -> bool;
    #[verifier::external_body]
    fn to_text(&self) -> (r: Result<String, Error>) { unimplemented!() }
}
impl ToText for f64 {
    uninterp spec fn prints(&self, r: Result<String, Error>) -> bool;
    #[verifier::external_body]
    fn to_text(&self) -> (r: Result<String, Error>) { unimplemented!() }
}
impl ToText for Tracked {
    uninterp spec fn prints(&self, r: Result<String, Error>) -> bool;
    #[verifier::external_body]
    fn to_text(&self) -> (r: Result<String, Error>) { unimplemented!() }
}
// ------------------------------------------------------------------- Plain
pub struct Plain { pub one: String, pub two: Option<i32>, pub three: Vec<String>, pub attr: String, pub attr_opt: Option<i32> }
pub mod Plain_ser {
use super::*;
impl Serialize for Plain {
    open spec fn attributes(&self, a: BS, b: BS, r: Outcome) -> bool {
        let a1 = BS { nss: a.nss, ..a };
        exists|m1: BS, r1: Outcome| #[trigger] self.attr.attr((""@, "attr"@), a1, m1, r1) && match r1 {
            Err(_) => r == r1 && b == m1,
            Ok(_) => {
                exists|m2: BS, r2: Outcome| #[trigger] self.attr_opt.attr((""@, "attr_opt"@), m1, m2, r2) && match r2 {
                    Err(_) => r == r2 && b == m2,
                    Ok(_) => {
                        r is Ok && b == m2
                    }
                }
            }
        }
    }
    open spec fn children(&self, ctx: Bindings, a: WS, b: WS, r: Outcome) -> bool {
        exists|m1: WS, r1: Outcome| #[trigger] self.one.field((""@, "one"@), ctx, a, m1, r1) && match r1 {
            Err(_) => r == r1 && b == m1,
            Ok(_) => {
                exists|m2: WS, r2: Outcome| #[trigger] self.two.field((""@, "two"@), ctx, m1, m2, r2) && match r2 {
                    Err(_) => r == r2 && b == m2,
                    Ok(_) => {
                        exists|m3: WS, r3: Outcome| #[trigger] self.three.field((""@, "three"@), ctx, m2, m3, r3) && match r3 {
                            Err(_) => r == r3 && b == m3,
                            Ok(_) => {
                                r is Ok && b == m3
                            }
                        }
                    }
                }
            }
        }
    }
//@fn fx "Serialize for Plain::write_attributes" props=C16 inherit="trait Serialize::write_attributes"
//@at start
    broadcast use {lemma_attributes_same, lemma_attributes_added, lemma_attributes_trans, lemma_declared_added};
    proof {
    }
//@end
//@fn fx "Serialize for Plain::write_children" props=C16 inherit="trait Serialize::write_children"
//@at start
    broadcast use {lemma_grew_same, lemma_grew_poisoned, lemma_grew_chain, lemma_empty_element, lemma_empty_failed};
//@end
}
impl SerializeRoot for Plain {
    open spec fn root_name(&self) -> Key { (""@, "Plain"@) }
//@fn fx "SerializeRoot for Plain::root" props=C16 inherit="trait SerializeRoot::root"
//@end
}
}

// ------------------------------------------------------------------- Empty
pub struct Empty {  }
pub mod Empty_ser {
use super::*;
impl Serialize for Empty {
    open spec fn attributes(&self, a: BS, b: BS, r: Outcome) -> bool {
        let a1 = BS { nss: a.nss, ..a };
        r is Ok && b == a1
    }
    open spec fn children(&self, ctx: Bindings, a: WS, b: WS, r: Outcome) -> bool {
        r is Ok && b == a
    }
//@fn fx "Serialize for Empty::write_attributes" props=C16 inherit="trait Serialize::write_attributes"
//@at start
    broadcast use {lemma_attributes_same, lemma_attributes_added, lemma_attributes_trans, lemma_declared_added};
    proof {
    }
//@end
//@fn fx "Serialize for Empty::write_children" props=C16 inherit="trait Serialize::write_children"
//@at start
    broadcast use {lemma_grew_same, lemma_grew_poisoned, lemma_grew_chain, lemma_empty_element, lemma_empty_failed};
//@end
}
impl SerializeRoot for Empty {
    open spec fn root_name(&self) -> Key { (""@, "Empty"@) }
//@fn fx "SerializeRoot for Empty::root" props=C16 inherit="trait SerializeRoot::root"
//@end
}
}

// ------------------------------------------------------------------- Big
pub struct Big { pub a: i32, pub b: String, pub c: Vec<i32>, pub d: Tracked, pub e: Option<String>, pub f: Option<u64> }
pub mod Big_ser {
use super::*;
impl Serialize for Big {
    open spec fn attributes(&self, a: BS, b: BS, r: Outcome) -> bool {
        let a1 = BS { nss: a.nss, ..a };
        exists|m1: BS, r1: Outcome| #[trigger] self.e.attr((""@, "e"@), a1, m1, r1) && match r1 {
            Err(_) => r == r1 && b == m1,
            Ok(_) => {
                exists|m2: BS, r2: Outcome| #[trigger] self.f.attr((""@, "f"@), m1, m2, r2) && match r2 {
                    Err(_) => r == r2 && b == m2,
                    Ok(_) => {
                        r is Ok && b == m2
                    }
                }
            }
        }
    }
    open spec fn children(&self, ctx: Bindings, a: WS, b: WS, r: Outcome) -> bool {
        exists|m1: WS, r1: Outcome| #[trigger] self.a.field((""@, "a"@), ctx, a, m1, r1) && match r1 {
            Err(_) => r == r1 && b == m1,
            Ok(_) => {
                exists|m2: WS, r2: Outcome| #[trigger] self.b.field((""@, "b"@), ctx, m1, m2, r2) && match r2 {
                    Err(_) => r == r2 && b == m2,
                    Ok(_) => {
                        exists|m3: WS, r3: Outcome| #[trigger] self.c.field((""@, "c"@), ctx, m2, m3, r3) && match r3 {
                            Err(_) => r == r3 && b == m3,
                            Ok(_) => {
                                exists|m4: WS, r4: Outcome| #[trigger] self.d.field((""@, "d"@), ctx, m3, m4, r4) && match r4 {
                                    Err(_) => r == r4 && b == m4,
                                    Ok(_) => {
                                        r is Ok && b == m4
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
    }
//@fn fx "Serialize for Big::write_attributes" props=C16 inherit="trait Serialize::write_attributes"
//@at start
    broadcast use {lemma_attributes_same, lemma_attributes_added, lemma_attributes_trans, lemma_declared_added};
    proof {
    }
//@end
//@fn fx "Serialize for Big::write_children" props=C16 inherit="trait Serialize::write_children"
//@at start
    broadcast use {lemma_grew_same, lemma_grew_poisoned, lemma_grew_chain, lemma_empty_element, lemma_empty_failed};
//@end
}
impl SerializeRoot for Big {
    open spec fn root_name(&self) -> Key { (""@, "Big"@) }
//@fn fx "SerializeRoot for Big::root" props=C16 inherit="trait SerializeRoot::root"
//@end
}
}

// ------------------------------------------------------------------- Defaults
pub struct Defaults { pub z: i32, pub y: Vec<Tracked>, pub x: Tracked, pub w: Tracked, pub v: Option<Tracked>, pub big: Big, pub u: Option<Big>, pub t: bool }
pub mod Defaults_ser {
use super::*;
impl Serialize for Defaults {
    open spec fn attributes(&self, a: BS, b: BS, r: Outcome) -> bool {
        let a1 = BS { nss: a.nss, ..a };
        exists|m1: BS, r1: Outcome| #[trigger] self.x.attr((""@, "x"@), a1, m1, r1) && match r1 {
            Err(_) => r == r1 && b == m1,
            Ok(_) => {
                exists|m2: BS, r2: Outcome| #[trigger] self.v.attr((""@, "v"@), m1, m2, r2) && match r2 {
                    Err(_) => r == r2 && b == m2,
                    Ok(_) => {
                        exists|m3: BS, r3: Outcome| #[trigger] self.t.attr((""@, "t"@), m2, m3, r3) && match r3 {
                            Err(_) => r == r3 && b == m3,
                            Ok(_) => {
                                r is Ok && b == m3
                            }
                        }
                    }
                }
            }
        }
    }
    open spec fn children(&self, ctx: Bindings, a: WS, b: WS, r: Outcome) -> bool {
        exists|m1: WS, r1: Outcome| #[trigger] self.z.field((""@, "z"@), ctx, a, m1, r1) && match r1 {
            Err(_) => r == r1 && b == m1,
            Ok(_) => {
                exists|m2: WS, r2: Outcome| #[trigger] self.y.field((""@, "y"@), ctx, m1, m2, r2) && match r2 {
                    Err(_) => r == r2 && b == m2,
                    Ok(_) => {
                        exists|m3: WS, r3: Outcome| #[trigger] self.w.field((""@, "w"@), ctx, m2, m3, r3) && match r3 {
                            Err(_) => r == r3 && b == m3,
                            Ok(_) => {
                                exists|m4: WS, r4: Outcome| #[trigger] self.big.field((""@, "big"@), ctx, m3, m4, r4) && match r4 {
                                    Err(_) => r == r4 && b == m4,
                                    Ok(_) => {
                                        exists|m5: WS, r5: Outcome| #[trigger] self.u.field((""@, "u"@), ctx, m4, m5, r5) && match r5 {
                                            Err(_) => r == r5 && b == m5,
                                            Ok(_) => {
                                                r is Ok && b == m5
                                            }
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
    }
//@fn fx "Serialize for Defaults::write_attributes" props=C16 inherit="trait Serialize::write_attributes"
//@at start
    broadcast use {lemma_attributes_same, lemma_attributes_added, lemma_attributes_trans, lemma_declared_added};
    proof {
    }
//@end
//@fn fx "Serialize for Defaults::write_children" props=C16 inherit="trait Serialize::write_children"
//@at start
    broadcast use {lemma_grew_same, lemma_grew_poisoned, lemma_grew_chain, lemma_empty_element, lemma_empty_failed};
//@end
}
impl SerializeRoot for Defaults {
    open spec fn root_name(&self) -> Key { (""@, "Defaults"@) }
//@fn fx "SerializeRoot for Defaults::root" props=C16 inherit="trait SerializeRoot::root"
//@end
}
}

// ------------------------------------------------------------------- Spaced
pub struct Spaced { pub x: String, pub x2: String, pub x3: Option<String>, pub p: i32, pub p2: Option<i32>, pub q: Option<String> }
pub mod Spaced_ser {
use super::*;
impl Serialize for Spaced {
    open spec fn attributes(&self, a: BS, b: BS, r: Outcome) -> bool {
        let a1 = BS { nss: declared(declared(a.nss, "a"@, "urn:a"@), "b"@, "urn:b"@), ..a };
        exists|m1: BS, r1: Outcome| #[trigger] self.p.attr(("urn:b"@, "p"@), a1, m1, r1) && match r1 {
            Err(_) => r == r1 && b == m1,
            Ok(_) => {
                exists|m2: BS, r2: Outcome| #[trigger] self.p2.attr((""@, "p"@), m1, m2, r2) && match r2 {
                    Err(_) => r == r2 && b == m2,
                    Ok(_) => {
                        exists|m3: BS, r3: Outcome| #[trigger] self.q.attr(("http://www.w3.org/XML/1998/namespace"@, "lang"@), m2, m3, r3) && match r3 {
                            Err(_) => r == r3 && b == m3,
                            Ok(_) => {
                                r is Ok && b == m3
                            }
                        }
                    }
                }
            }
        }
    }
    open spec fn children(&self, ctx: Bindings, a: WS, b: WS, r: Outcome) -> bool {
        exists|m1: WS, r1: Outcome| #[trigger] self.x.field(("urn:a"@, "x"@), ctx, a, m1, r1) && match r1 {
            Err(_) => r == r1 && b == m1,
            Ok(_) => {
                exists|m2: WS, r2: Outcome| #[trigger] self.x2.field(("urn:b"@, "x"@), ctx, m1, m2, r2) && match r2 {
                    Err(_) => r == r2 && b == m2,
                    Ok(_) => {
                        exists|m3: WS, r3: Outcome| #[trigger] self.x3.field((""@, "x"@), ctx, m2, m3, r3) && match r3 {
                            Err(_) => r == r3 && b == m3,
                            Ok(_) => {
                                r is Ok && b == m3
                            }
                        }
                    }
                }
            }
        }
    }
//@fn fx "Serialize for Spaced::write_attributes" props=C16 inherit="trait Serialize::write_attributes"
//@at start
    broadcast use {lemma_attributes_same, lemma_attributes_added, lemma_attributes_trans, lemma_declared_added};
    proof {
        reveal_strlit("a");
        reveal_strlit("b");
        reveal_strlit("xml");
    }
//@end
//@fn fx "Serialize for Spaced::write_children" props=C16 inherit="trait Serialize::write_children"
//@at start
    broadcast use {lemma_grew_same, lemma_grew_poisoned, lemma_grew_chain, lemma_empty_element, lemma_empty_failed};
//@end
}
impl SerializeRoot for Spaced {
    open spec fn root_name(&self) -> Key { ("urn:a"@, "spaced-out"@) }
//@fn fx "SerializeRoot for Spaced::root" props=C16 inherit="trait SerializeRoot::root"
//@end
}
}

// ------------------------------------------------------------------- Defaulted
pub struct Defaulted { pub a: String, pub ab: Vec<i32>, pub b: Color, pub a2: Option<Color>, pub c: Option<i32>, pub c2: Option<i32> }
pub mod Defaulted_ser {
use super::*;
impl Serialize for Defaulted {
    open spec fn attributes(&self, a: BS, b: BS, r: Outcome) -> bool {
        let a1 = BS { nss: declared(a.nss, ""@, "urn:d"@), ..a };
        exists|m1: BS, r1: Outcome| #[trigger] self.b.attr((""@, "b"@), a1, m1, r1) && match r1 {
            Err(_) => r == r1 && b == m1,
            Ok(_) => {
                exists|m2: BS, r2: Outcome| #[trigger] self.a2.attr((""@, "a"@), m1, m2, r2) && match r2 {
                    Err(_) => r == r2 && b == m2,
                    Ok(_) => {
                        exists|m3: BS, r3: Outcome| #[trigger] self.c.attr(("urn:d"@, "c"@), m2, m3, r3) && match r3 {
                            Err(_) => r == r3 && b == m3,
                            Ok(_) => {
                                exists|m4: BS, r4: Outcome| #[trigger] self.c2.attr((""@, "c"@), m3, m4, r4) && match r4 {
                                    Err(_) => r == r4 && b == m4,
                                    Ok(_) => {
                                        r is Ok && b == m4
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    open spec fn children(&self, ctx: Bindings, a: WS, b: WS, r: Outcome) -> bool {
        exists|m1: WS, r1: Outcome| #[trigger] self.a.field(("urn:d"@, "a"@), ctx, a, m1, r1) && match r1 {
            Err(_) => r == r1 && b == m1,
            Ok(_) => {
                exists|m2: WS, r2: Outcome| #[trigger] self.ab.field(("urn:d"@, "ab"@), ctx, m1, m2, r2) && match r2 {
                    Err(_) => r == r2 && b == m2,
                    Ok(_) => {
                        r is Ok && b == m2
                    }
                }
            }
        }
    }
//@fn fx "Serialize for Defaulted::write_attributes" props=C16 inherit="trait Serialize::write_attributes"
//@at start
    broadcast use {lemma_attributes_same, lemma_attributes_added, lemma_attributes_trans, lemma_declared_added};
    proof {
        reveal_strlit("");
        reveal_strlit("xml");
    }
//@end
//@fn fx "Serialize for Defaulted::write_children" props=C16 inherit="trait Serialize::write_children"
//@at start
    broadcast use {lemma_grew_same, lemma_grew_poisoned, lemma_grew_chain, lemma_empty_element, lemma_empty_failed};
//@end
}
impl SerializeRoot for Defaulted {
    open spec fn root_name(&self) -> Key { ("urn:d"@, "d"@) }
//@fn fx "SerializeRoot for Defaulted::root" props=C16 inherit="trait SerializeRoot::root"
//@end
}
}

// ------------------------------------------------------------------- Near
pub struct Near { pub ab: i32, pub a: i32, pub abc: Option<i32>, pub aB: Option<i32>, pub b: Vec<i32>, pub a_: Option<i32> }
pub mod Near_ser {
use super::*;
impl Serialize for Near {
    open spec fn attributes(&self, a: BS, b: BS, r: Outcome) -> bool {
        let a1 = BS { nss: a.nss, ..a };
        r is Ok && b == a1
    }
    open spec fn children(&self, ctx: Bindings, a: WS, b: WS, r: Outcome) -> bool {
        exists|m1: WS, r1: Outcome| #[trigger] self.ab.field((""@, "ab"@), ctx, a, m1, r1) && match r1 {
            Err(_) => r == r1 && b == m1,
            Ok(_) => {
                exists|m2: WS, r2: Outcome| #[trigger] self.a.field((""@, "a"@), ctx, m1, m2, r2) && match r2 {
                    Err(_) => r == r2 && b == m2,
                    Ok(_) => {
                        exists|m3: WS, r3: Outcome| #[trigger] self.abc.field((""@, "abc"@), ctx, m2, m3, r3) && match r3 {
                            Err(_) => r == r3 && b == m3,
                            Ok(_) => {
                                exists|m4: WS, r4: Outcome| #[trigger] self.aB.field((""@, "aB"@), ctx, m3, m4, r4) && match r4 {
                                    Err(_) => r == r4 && b == m4,
                                    Ok(_) => {
                                        exists|m5: WS, r5: Outcome| #[trigger] self.b.field((""@, "b"@), ctx, m4, m5, r5) && match r5 {
                                            Err(_) => r == r5 && b == m5,
                                            Ok(_) => {
                                                exists|m6: WS, r6: Outcome| #[trigger] self.a_.field((""@, "a_"@), ctx, m5, m6, r6) && match r6 {
                                                    Err(_) => r == r6 && b == m6,
                                                    Ok(_) => {
                                                        r is Ok && b == m6
                                                    }
                                                }
                                            }
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
    }
//@fn fx "Serialize for Near::write_attributes" props=C16 inherit="trait Serialize::write_attributes"
//@at start
    broadcast use {lemma_attributes_same, lemma_attributes_added, lemma_attributes_trans, lemma_declared_added};
    proof {
    }
//@end
//@fn fx "Serialize for Near::write_children" props=C16 inherit="trait Serialize::write_children"
//@at start
    broadcast use {lemma_grew_same, lemma_grew_poisoned, lemma_grew_chain, lemma_empty_element, lemma_empty_failed};
//@end
}
impl SerializeRoot for Near {
    open spec fn root_name(&self) -> Key { (""@, "Near"@) }
//@fn fx "SerializeRoot for Near::root" props=C16 inherit="trait SerializeRoot::root"
//@end
}
}

// ------------------------------------------------------------------- Shape
pub enum Shape { Circle(i32), Square(Plain), Dot, Line(Vec<String>) }
pub mod Shape_ser {
use super::*;
impl Serialize for Shape {
    open spec fn attributes(&self, a: BS, b: BS, r: Outcome) -> bool {
        let a1 = BS { nss: a.nss, ..a };
        r is Ok && b == a1
    }
    open spec fn children(&self, ctx: Bindings, a: WS, b: WS, r: Outcome) -> bool {
        match self {
            Shape::Circle(f) => f.field((""@, "Circle"@), ctx, a, b, r),
            Shape::Square(f) => f.field((""@, "Square"@), ctx, a, b, r),
            Shape::Dot => empty_element((""@, "Dot"@), ctx, a, b, r),
            Shape::Line(f) => f.field((""@, "Line"@), ctx, a, b, r),
        }
    }
//@fn fx "Serialize for Shape::write_attributes" props=C16 inherit="trait Serialize::write_attributes"
//@at start
    broadcast use {lemma_attributes_same, lemma_attributes_added, lemma_attributes_trans, lemma_declared_added};
    proof {
    }
//@end
//@fn fx "Serialize for Shape::write_children" props=C16 inherit="trait Serialize::write_children"
//@at start
    broadcast use {lemma_grew_same, lemma_grew_poisoned, lemma_grew_chain, lemma_empty_element, lemma_empty_failed};
//@end
}
impl SerializeRoot for Shape {
    open spec fn root_name(&self) -> Key { (""@, "Shape"@) }
//@fn fx "SerializeRoot for Shape::root" props=C16 inherit="trait SerializeRoot::root"
//@end
}
}

// ------------------------------------------------------------------- Tone
pub enum Tone { Zeta(Color), Alpha(Option<Tracked>), Mid, Other(Vec<Tracked>) }
pub mod Tone_ser {
use super::*;
impl Serialize for Tone {
    open spec fn attributes(&self, a: BS, b: BS, r: Outcome) -> bool {
        let a1 = BS { nss: a.nss, ..a };
        r is Ok && b == a1
    }
    open spec fn children(&self, ctx: Bindings, a: WS, b: WS, r: Outcome) -> bool {
        match self {
            Tone::Zeta(f) => f.field((""@, "Zeta"@), ctx, a, b, r),
            Tone::Alpha(f) => f.field((""@, "Alpha"@), ctx, a, b, r),
            Tone::Mid => empty_element((""@, "Mid"@), ctx, a, b, r),
            Tone::Other(f) => f.field((""@, "beta"@), ctx, a, b, r),
        }
    }
//@fn fx "Serialize for Tone::write_attributes" props=C16 inherit="trait Serialize::write_attributes"
//@at start
    broadcast use {lemma_attributes_same, lemma_attributes_added, lemma_attributes_trans, lemma_declared_added};
    proof {
    }
//@end
//@fn fx "Serialize for Tone::write_children" props=C16 inherit="trait Serialize::write_children"
//@at start
    broadcast use {lemma_grew_same, lemma_grew_poisoned, lemma_grew_chain, lemma_empty_element, lemma_empty_failed};
//@end
}
impl SerializeRoot for Tone {
    open spec fn root_name(&self) -> Key { (""@, "Tone"@) }
//@fn fx "SerializeRoot for Tone::root" props=C16 inherit="trait SerializeRoot::root"
//@end
}
}

// ------------------------------------------------------------------- Marked
pub enum Marked { Yes(i32), No, Maybe(Tight) }
pub mod Marked_ser {
use super::*;
impl Serialize for Marked {
    open spec fn attributes(&self, a: BS, b: BS, r: Outcome) -> bool {
        let a1 = BS { nss: declared(declared(a.nss, "a"@, "urn:a"@), "b"@, "urn:b"@), ..a };
        r is Ok && b == a1
    }
    open spec fn children(&self, ctx: Bindings, a: WS, b: WS, r: Outcome) -> bool {
        match self {
            Marked::Yes(f) => f.field(("urn:a"@, "Yes"@), ctx, a, b, r),
            Marked::No => empty_element(("urn:b"@, "Yes"@), ctx, a, b, r),
            Marked::Maybe(f) => f.field((""@, "Maybe"@), ctx, a, b, r),
        }
    }
//@fn fx "Serialize for Marked::write_attributes" props=C16 inherit="trait Serialize::write_attributes"
//@at start
    broadcast use {lemma_attributes_same, lemma_attributes_added, lemma_attributes_trans, lemma_declared_added};
    proof {
        reveal_strlit("a");
        reveal_strlit("b");
        reveal_strlit("xml");
    }
//@end
//@fn fx "Serialize for Marked::write_children" props=C16 inherit="trait Serialize::write_children"
//@at start
    broadcast use {lemma_grew_same, lemma_grew_poisoned, lemma_grew_chain, lemma_empty_element, lemma_empty_failed};
//@end
}
impl SerializeRoot for Marked {
    open spec fn root_name(&self) -> Key { ("urn:b"@, "marked"@) }
//@fn fx "SerializeRoot for Marked::root" props=C16 inherit="trait SerializeRoot::root"
//@end
}
}

// ------------------------------------------------------------------- Single
pub enum Single { Only(Vec<i32>) }
pub mod Single_ser {
use super::*;
impl Serialize for Single {
    open spec fn attributes(&self, a: BS, b: BS, r: Outcome) -> bool {
        let a1 = BS { nss: a.nss, ..a };
        r is Ok && b == a1
    }
    open spec fn children(&self, ctx: Bindings, a: WS, b: WS, r: Outcome) -> bool {
        match self {
            Single::Only(f) => f.field((""@, "Only"@), ctx, a, b, r),
        }
    }
//@fn fx "Serialize for Single::write_attributes" props=C16 inherit="trait Serialize::write_attributes"
//@at start
    broadcast use {lemma_attributes_same, lemma_attributes_added, lemma_attributes_trans, lemma_declared_added};
    proof {
    }
//@end
//@fn fx "Serialize for Single::write_children" props=C16 inherit="trait Serialize::write_children"
//@at start
    broadcast use {lemma_grew_same, lemma_grew_poisoned, lemma_grew_chain, lemma_empty_element, lemma_empty_failed};
//@end
}
impl SerializeRoot for Single {
    open spec fn root_name(&self) -> Key { (""@, "Single"@) }
//@fn fx "SerializeRoot for Single::root" props=C16 inherit="trait SerializeRoot::root"
//@end
}
}

// ------------------------------------------------------------------- Blank
pub enum Blank { Nothing }
pub mod Blank_ser {
use super::*;
impl Serialize for Blank {
    open spec fn attributes(&self, a: BS, b: BS, r: Outcome) -> bool {
        let a1 = BS { nss: a.nss, ..a };
        r is Ok && b == a1
    }
    open spec fn children(&self, ctx: Bindings, a: WS, b: WS, r: Outcome) -> bool {
        match self {
            Blank::Nothing => empty_element((""@, "Nothing"@), ctx, a, b, r),
        }
    }
//@fn fx "Serialize for Blank::write_attributes" props=C16 inherit="trait Serialize::write_attributes"
//@at start
    broadcast use {lemma_attributes_same, lemma_attributes_added, lemma_attributes_trans, lemma_declared_added};
    proof {
    }
//@end
//@fn fx "Serialize for Blank::write_children" props=C16 inherit="trait Serialize::write_children"
//@at start
    broadcast use {lemma_grew_same, lemma_grew_poisoned, lemma_grew_chain, lemma_empty_element, lemma_empty_failed};
//@end
}
impl SerializeRoot for Blank {
    open spec fn root_name(&self) -> Key { (""@, "blank"@) }
//@fn fx "SerializeRoot for Blank::root" props=C16 inherit="trait SerializeRoot::root"
//@end
}
}

// ------------------------------------------------------------------- Mixed
pub enum Mixed { Zed(i32), Lost(Plain), Name(String), Zed2(Option<Tight>), vxr_type, Bare(Vec<Color>) }
pub mod Mixed_ser {
use super::*;
impl Serialize for Mixed {
    open spec fn attributes(&self, a: BS, b: BS, r: Outcome) -> bool {
        let a1 = BS { nss: declared(declared(declared(a.nss, ""@, "urn:d"@), "a"@, "urn:a"@), "b"@, "urn:b"@), ..a };
        r is Ok && b == a1
    }
    open spec fn children(&self, ctx: Bindings, a: WS, b: WS, r: Outcome) -> bool {
        match self {
            Mixed::Zed(f) => f.field(("urn:a"@, "Zed"@), ctx, a, b, r),
            Mixed::Lost(_) => r is Err && b == a,
            Mixed::Name(f) => f.field(("urn:d"@, "Name"@), ctx, a, b, r),
            Mixed::Zed2(f) => f.field(("urn:b"@, "Zed"@), ctx, a, b, r),
            Mixed::vxr_type => empty_element(("urn:a"@, "type"@), ctx, a, b, r),
            Mixed::Bare(f) => f.field(("urn:d"@, "Bare"@), ctx, a, b, r),
        }
    }
//@fn fx "Serialize for Mixed::write_attributes" props=C16 inherit="trait Serialize::write_attributes"
//@at start
    broadcast use {lemma_attributes_same, lemma_attributes_added, lemma_attributes_trans, lemma_declared_added};
    proof {
        reveal_strlit("");
        reveal_strlit("a");
        reveal_strlit("b");
        reveal_strlit("xml");
    }
//@end
//@fn fx "Serialize for Mixed::write_children" props=C16,C14 inherit="trait Serialize::write_children"
//@at start
    broadcast use {lemma_grew_same, lemma_grew_poisoned, lemma_grew_chain, lemma_empty_element, lemma_empty_failed};
//@end
}
impl SerializeRoot for Mixed {
    open spec fn root_name(&self) -> Key { ("urn:d"@, "Mixed"@) }
//@fn fx "SerializeRoot for Mixed::root" props=C16 inherit="trait SerializeRoot::root"
//@end
}
}

// ------------------------------------------------------------------- Guarded
pub enum Guarded { Hidden(String), Seen(String), Gone, Flag }
pub mod Guarded_ser {
use super::*;
impl Serialize for Guarded {
    open spec fn attributes(&self, a: BS, b: BS, r: Outcome) -> bool {
        let a1 = BS { nss: a.nss, ..a };
        r is Ok && b == a1
    }
    open spec fn children(&self, ctx: Bindings, a: WS, b: WS, r: Outcome) -> bool {
        match self {
            Guarded::Hidden(_) => r is Err && b == a,
            Guarded::Seen(f) => f.field((""@, "Seen"@), ctx, a, b, r),
            Guarded::Gone => r is Err && b == a,
            Guarded::Flag => empty_element((""@, "Flag"@), ctx, a, b, r),
        }
    }
//@fn fx "Serialize for Guarded::write_attributes" props=C16 inherit="trait Serialize::write_attributes"
//@at start
    broadcast use {lemma_attributes_same, lemma_attributes_added, lemma_attributes_trans, lemma_declared_added};
    proof {
    }
//@end
//@fn fx "Serialize for Guarded::write_children" props=C16,C14 inherit="trait Serialize::write_children"
//@at start
    broadcast use {lemma_grew_same, lemma_grew_poisoned, lemma_grew_chain, lemma_empty_element, lemma_empty_failed};
//@end
}
impl SerializeRoot for Guarded {
    open spec fn root_name(&self) -> Key { (""@, "Guarded"@) }
//@fn fx "SerializeRoot for Guarded::root" props=C16 inherit="trait SerializeRoot::root"
//@end
}
}

// ------------------------------------------------------------------- One
pub struct One { pub head: String, pub shape: Shape }
pub mod One_ser {
use super::*;
impl Serialize for One {
    open spec fn attributes(&self, a: BS, b: BS, r: Outcome) -> bool {
        let a1 = BS { nss: a.nss, ..a };
        exists|m1: BS, r1: Outcome| #[trigger] self.shape.attributes(a1, m1, r1) && match r1 {
            Err(_) => r == r1 && b == m1,
            Ok(_) => {
                r is Ok && b == m1
            }
        }
    }
    open spec fn children(&self, ctx: Bindings, a: WS, b: WS, r: Outcome) -> bool {
        exists|m1: WS, r1: Outcome| #[trigger] self.head.field((""@, "head"@), ctx, a, m1, r1) && match r1 {
            Err(_) => r == r1 && b == m1,
            Ok(_) => {
                exists|m2: WS, r2: Outcome| #[trigger] self.shape.children(ctx, m1, m2, r2) && match r2 {
                    Err(_) => r == r2 && b == m2,
                    Ok(_) => {
                        r is Ok && b == m2
                    }
                }
            }
        }
    }
//@fn fx "Serialize for One::write_attributes" props=C16 inherit="trait Serialize::write_attributes"
//@at start
    broadcast use {lemma_attributes_same, lemma_attributes_added, lemma_attributes_trans, lemma_declared_added};
    proof {
    }
//@end
//@fn fx "Serialize for One::write_children" props=C16 inherit="trait Serialize::write_children"
//@at start
    broadcast use {lemma_grew_same, lemma_grew_poisoned, lemma_grew_chain, lemma_empty_element, lemma_empty_failed};
//@end
}
impl SerializeRoot for One {
    open spec fn root_name(&self) -> Key { (""@, "One"@) }
//@fn fx "SerializeRoot for One::root" props=C16 inherit="trait SerializeRoot::root"
//@end
}
}

// ------------------------------------------------------------------- TwoFlat
pub struct TwoFlat { pub shape: Shape, pub id: Tracked, pub tone: Tone, pub tail: Vec<Tracked> }
pub mod TwoFlat_ser {
use super::*;
impl Serialize for TwoFlat {
    open spec fn attributes(&self, a: BS, b: BS, r: Outcome) -> bool {
        let a1 = BS { nss: a.nss, ..a };
        exists|m1: BS, r1: Outcome| #[trigger] self.id.attr((""@, "id"@), a1, m1, r1) && match r1 {
            Err(_) => r == r1 && b == m1,
            Ok(_) => {
                exists|m2: BS, r2: Outcome| #[trigger] self.shape.attributes(m1, m2, r2) && match r2 {
                    Err(_) => r == r2 && b == m2,
                    Ok(_) => {
                        exists|m3: BS, r3: Outcome| #[trigger] self.tone.attributes(m2, m3, r3) && match r3 {
                            Err(_) => r == r3 && b == m3,
                            Ok(_) => {
                                r is Ok && b == m3
                            }
                        }
                    }
                }
            }
        }
    }
    open spec fn children(&self, ctx: Bindings, a: WS, b: WS, r: Outcome) -> bool {
        exists|m1: WS, r1: Outcome| #[trigger] self.tail.field((""@, "tail"@), ctx, a, m1, r1) && match r1 {
            Err(_) => r == r1 && b == m1,
            Ok(_) => {
                exists|m2: WS, r2: Outcome| #[trigger] self.shape.children(ctx, m1, m2, r2) && match r2 {
                    Err(_) => r == r2 && b == m2,
                    Ok(_) => {
                        exists|m3: WS, r3: Outcome| #[trigger] self.tone.children(ctx, m2, m3, r3) && match r3 {
                            Err(_) => r == r3 && b == m3,
                            Ok(_) => {
                                r is Ok && b == m3
                            }
                        }
                    }
                }
            }
        }
    }
//@fn fx "Serialize for TwoFlat::write_attributes" props=C16 inherit="trait Serialize::write_attributes"
//@at start
    broadcast use {lemma_attributes_same, lemma_attributes_added, lemma_attributes_trans, lemma_declared_added};
    proof {
    }
//@end
//@fn fx "Serialize for TwoFlat::write_children" props=C16 inherit="trait Serialize::write_children"
//@at start
    broadcast use {lemma_grew_same, lemma_grew_poisoned, lemma_grew_chain, lemma_empty_element, lemma_empty_failed};
//@end
}
impl SerializeRoot for TwoFlat {
    open spec fn root_name(&self) -> Key { (""@, "TwoFlat"@) }
//@fn fx "SerializeRoot for TwoFlat::root" props=C16 inherit="trait SerializeRoot::root"
//@end
}
}

// ------------------------------------------------------------------- Overlap
pub struct Overlap { pub Dot: Option<Empty>, pub first: Shape, pub second: Shape, pub mark: Marked, pub note: Option<String> }
pub mod Overlap_ser {
use super::*;
impl Serialize for Overlap {
    open spec fn attributes(&self, a: BS, b: BS, r: Outcome) -> bool {
        let a1 = BS { nss: declared(a.nss, "n"@, "urn:n"@), ..a };
        exists|m1: BS, r1: Outcome| #[trigger] self.note.attr(("urn:n"@, "note"@), a1, m1, r1) && match r1 {
            Err(_) => r == r1 && b == m1,
            Ok(_) => {
                exists|m2: BS, r2: Outcome| #[trigger] self.first.attributes(m1, m2, r2) && match r2 {
                    Err(_) => r == r2 && b == m2,
                    Ok(_) => {
                        exists|m3: BS, r3: Outcome| #[trigger] self.second.attributes(m2, m3, r3) && match r3 {
                            Err(_) => r == r3 && b == m3,
                            Ok(_) => {
                                exists|m4: BS, r4: Outcome| #[trigger] self.mark.attributes(m3, m4, r4) && match r4 {
                                    Err(_) => r == r4 && b == m4,
                                    Ok(_) => {
                                        r is Ok && b == m4
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    open spec fn children(&self, ctx: Bindings, a: WS, b: WS, r: Outcome) -> bool {
        exists|m1: WS, r1: Outcome| #[trigger] self.Dot.field((""@, "Dot"@), ctx, a, m1, r1) && match r1 {
            Err(_) => r == r1 && b == m1,
            Ok(_) => {
                exists|m2: WS, r2: Outcome| #[trigger] self.first.children(ctx, m1, m2, r2) && match r2 {
                    Err(_) => r == r2 && b == m2,
                    Ok(_) => {
                        exists|m3: WS, r3: Outcome| #[trigger] self.second.children(ctx, m2, m3, r3) && match r3 {
                            Err(_) => r == r3 && b == m3,
                            Ok(_) => {
                                exists|m4: WS, r4: Outcome| #[trigger] self.mark.children(ctx, m3, m4, r4) && match r4 {
                                    Err(_) => r == r4 && b == m4,
                                    Ok(_) => {
                                        r is Ok && b == m4
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
    }
//@fn fx "Serialize for Overlap::write_attributes" props=C16 inherit="trait Serialize::write_attributes"
//@at start
    broadcast use {lemma_attributes_same, lemma_attributes_added, lemma_attributes_trans, lemma_declared_added};
    proof {
        reveal_strlit("n");
        reveal_strlit("xml");
    }
//@end
//@fn fx "Serialize for Overlap::write_children" props=C16 inherit="trait Serialize::write_children"
//@at start
    broadcast use {lemma_grew_same, lemma_grew_poisoned, lemma_grew_chain, lemma_empty_element, lemma_empty_failed};
//@end
}
impl SerializeRoot for Overlap {
    open spec fn root_name(&self) -> Key { (""@, "Overlap"@) }
//@fn fx "SerializeRoot for Overlap::root" props=C16 inherit="trait SerializeRoot::root"
//@end
}
}

// ------------------------------------------------------------------- Bare
pub struct Bare { pub k: i32, pub m: Marked }
pub mod Bare_ser {
use super::*;
impl Serialize for Bare {
    open spec fn attributes(&self, a: BS, b: BS, r: Outcome) -> bool {
        let a1 = BS { nss: a.nss, ..a };
        exists|m1: BS, r1: Outcome| #[trigger] self.m.attributes(a1, m1, r1) && match r1 {
            Err(_) => r == r1 && b == m1,
            Ok(_) => {
                r is Ok && b == m1
            }
        }
    }
    open spec fn children(&self, ctx: Bindings, a: WS, b: WS, r: Outcome) -> bool {
        exists|m1: WS, r1: Outcome| #[trigger] self.k.field((""@, "k"@), ctx, a, m1, r1) && match r1 {
            Err(_) => r == r1 && b == m1,
            Ok(_) => {
                exists|m2: WS, r2: Outcome| #[trigger] self.m.children(ctx, m1, m2, r2) && match r2 {
                    Err(_) => r == r2 && b == m2,
                    Ok(_) => {
                        r is Ok && b == m2
                    }
                }
            }
        }
    }
//@fn fx "Serialize for Bare::write_attributes" props=C16 inherit="trait Serialize::write_attributes"
//@at start
    broadcast use {lemma_attributes_same, lemma_attributes_added, lemma_attributes_trans, lemma_declared_added};
    proof {
    }
//@end
//@fn fx "Serialize for Bare::write_children" props=C16 inherit="trait Serialize::write_children"
//@at start
    broadcast use {lemma_grew_same, lemma_grew_poisoned, lemma_grew_chain, lemma_empty_element, lemma_empty_failed};
//@end
}
impl SerializeRoot for Bare {
    open spec fn root_name(&self) -> Key { (""@, "Bare"@) }
//@fn fx "SerializeRoot for Bare::root" props=C16 inherit="trait SerializeRoot::root"
//@end
}
}

// ------------------------------------------------------------------- Trio
pub struct Trio { pub single: Single, pub Flag: Option<i32>, pub g: Guarded, pub n: Blank, pub only: i32 }
pub mod Trio_ser {
use super::*;
impl Serialize for Trio {
    open spec fn attributes(&self, a: BS, b: BS, r: Outcome) -> bool {
        let a1 = BS { nss: a.nss, ..a };
        exists|m1: BS, r1: Outcome| #[trigger] self.only.attr((""@, "Only"@), a1, m1, r1) && match r1 {
            Err(_) => r == r1 && b == m1,
            Ok(_) => {
                exists|m2: BS, r2: Outcome| #[trigger] self.single.attributes(m1, m2, r2) && match r2 {
                    Err(_) => r == r2 && b == m2,
                    Ok(_) => {
                        exists|m3: BS, r3: Outcome| #[trigger] self.g.attributes(m2, m3, r3) && match r3 {
                            Err(_) => r == r3 && b == m3,
                            Ok(_) => {
                                exists|m4: BS, r4: Outcome| #[trigger] self.n.attributes(m3, m4, r4) && match r4 {
                                    Err(_) => r == r4 && b == m4,
                                    Ok(_) => {
                                        r is Ok && b == m4
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    open spec fn children(&self, ctx: Bindings, a: WS, b: WS, r: Outcome) -> bool {
        exists|m1: WS, r1: Outcome| #[trigger] self.Flag.field((""@, "Flag"@), ctx, a, m1, r1) && match r1 {
            Err(_) => r == r1 && b == m1,
            Ok(_) => {
                exists|m2: WS, r2: Outcome| #[trigger] self.single.children(ctx, m1, m2, r2) && match r2 {
                    Err(_) => r == r2 && b == m2,
                    Ok(_) => {
                        exists|m3: WS, r3: Outcome| #[trigger] self.g.children(ctx, m2, m3, r3) && match r3 {
                            Err(_) => r == r3 && b == m3,
                            Ok(_) => {
                                exists|m4: WS, r4: Outcome| #[trigger] self.n.children(ctx, m3, m4, r4) && match r4 {
                                    Err(_) => r == r4 && b == m4,
                                    Ok(_) => {
                                        r is Ok && b == m4
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
    }
//@fn fx "Serialize for Trio::write_attributes" props=C16 inherit="trait Serialize::write_attributes"
//@at start
    broadcast use {lemma_attributes_same, lemma_attributes_added, lemma_attributes_trans, lemma_declared_added};
    proof {
    }
//@end
//@fn fx "Serialize for Trio::write_children" props=C16 inherit="trait Serialize::write_children"
//@at start
    broadcast use {lemma_grew_same, lemma_grew_poisoned, lemma_grew_chain, lemma_empty_element, lemma_empty_failed};
//@end
}
impl SerializeRoot for Trio {
    open spec fn root_name(&self) -> Key { (""@, "Trio"@) }
//@fn fx "SerializeRoot for Trio::root" props=C16 inherit="trait SerializeRoot::root"
//@end
}
}

// ------------------------------------------------------------------- Words
pub struct Words { pub vxr_type: String, pub vxr_match: Option<i32>, pub kana: Option<Foreign>, pub e: Option<i32>, pub vxr_in: Vec<Ahead>, pub _under: Option<Early>, pub Upper: Option<Front> }
pub mod Words_ser {
use super::*;
impl Serialize for Words {
    open spec fn attributes(&self, a: BS, b: BS, r: Outcome) -> bool {
        let a1 = BS { nss: a.nss, ..a };
        exists|m1: BS, r1: Outcome| #[trigger] self.vxr_match.attr((""@, "match"@), a1, m1, r1) && match r1 {
            Err(_) => r == r1 && b == m1,
            Ok(_) => {
                exists|m2: BS, r2: Outcome| #[trigger] self.e.attr((""@, "é"@), m1, m2, r2) && match r2 {
                    Err(_) => r == r2 && b == m2,
                    Ok(_) => {
                        r is Ok && b == m2
                    }
                }
            }
        }
    }
    open spec fn children(&self, ctx: Bindings, a: WS, b: WS, r: Outcome) -> bool {
        exists|m1: WS, r1: Outcome| #[trigger] self.vxr_type.field((""@, "type"@), ctx, a, m1, r1) && match r1 {
            Err(_) => r == r1 && b == m1,
            Ok(_) => {
                exists|m2: WS, r2: Outcome| #[trigger] self.kana.field((""@, "かな"@), ctx, m1, m2, r2) && match r2 {
                    Err(_) => r == r2 && b == m2,
                    Ok(_) => {
                        exists|m3: WS, r3: Outcome| #[trigger] self.vxr_in.field((""@, "in-put"@), ctx, m2, m3, r3) && match r3 {
                            Err(_) => r == r3 && b == m3,
                            Ok(_) => {
                                exists|m4: WS, r4: Outcome| #[trigger] self._under.field((""@, "_under"@), ctx, m3, m4, r4) && match r4 {
                                    Err(_) => r == r4 && b == m4,
                                    Ok(_) => {
                                        exists|m5: WS, r5: Outcome| #[trigger] self.Upper.field((""@, "UPPER.case"@), ctx, m4, m5, r5) && match r5 {
                                            Err(_) => r == r5 && b == m5,
                                            Ok(_) => {
                                                r is Ok && b == m5
                                            }
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
    }
//@fn fx "Serialize for Words::write_attributes" props=C16 inherit="trait Serialize::write_attributes"
//@at start
    broadcast use {lemma_attributes_same, lemma_attributes_added, lemma_attributes_trans, lemma_declared_added};
    proof {
    }
//@end
//@fn fx "Serialize for Words::write_children" props=C16 inherit="trait Serialize::write_children"
//@at start
    broadcast use {lemma_grew_same, lemma_grew_poisoned, lemma_grew_chain, lemma_empty_element, lemma_empty_failed};
//@end
}
impl SerializeRoot for Words {
    open spec fn root_name(&self) -> Key { (""@, "Words"@) }
//@fn fx "SerializeRoot for Words::root" props=C16 inherit="trait SerializeRoot::root"
//@end
}
}

// ------------------------------------------------------------------- Wide
pub struct Wide { pub m: i32, pub zz: Vec<u64>, pub a10: Option<i32>, pub b: Option<Line>, pub a2: Option<Tracked>, pub n: i32, pub l: Option<String>, pub h: Option<TwoRest> }
pub mod Wide_ser {
use super::*;
impl Serialize for Wide {
    open spec fn attributes(&self, a: BS, b: BS, r: Outcome) -> bool {
        let a1 = BS { nss: a.nss, ..a };
        exists|m1: BS, r1: Outcome| #[trigger] self.n.attr((""@, "n"@), a1, m1, r1) && match r1 {
            Err(_) => r == r1 && b == m1,
            Ok(_) => {
                exists|m2: BS, r2: Outcome| #[trigger] self.l.attr((""@, "l"@), m1, m2, r2) && match r2 {
                    Err(_) => r == r2 && b == m2,
                    Ok(_) => {
                        exists|m3: BS, r3: Outcome| #[trigger] self.h.attr((""@, "h"@), m2, m3, r3) && match r3 {
                            Err(_) => r == r3 && b == m3,
                            Ok(_) => {
                                r is Ok && b == m3
                            }
                        }
                    }
                }
            }
        }
    }
    open spec fn children(&self, ctx: Bindings, a: WS, b: WS, r: Outcome) -> bool {
        exists|m1: WS, r1: Outcome| #[trigger] self.m.field((""@, "m"@), ctx, a, m1, r1) && match r1 {
            Err(_) => r == r1 && b == m1,
            Ok(_) => {
                exists|m2: WS, r2: Outcome| #[trigger] self.zz.field((""@, "zz"@), ctx, m1, m2, r2) && match r2 {
                    Err(_) => r == r2 && b == m2,
                    Ok(_) => {
                        exists|m3: WS, r3: Outcome| #[trigger] self.a10.field((""@, "a10"@), ctx, m2, m3, r3) && match r3 {
                            Err(_) => r == r3 && b == m3,
                            Ok(_) => {
                                exists|m4: WS, r4: Outcome| #[trigger] self.b.field((""@, "b"@), ctx, m3, m4, r4) && match r4 {
                                    Err(_) => r == r4 && b == m4,
                                    Ok(_) => {
                                        exists|m5: WS, r5: Outcome| #[trigger] self.a2.field((""@, "a2"@), ctx, m4, m5, r5) && match r5 {
                                            Err(_) => r == r5 && b == m5,
                                            Ok(_) => {
                                                r is Ok && b == m5
                                            }
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
    }
//@fn fx "Serialize for Wide::write_attributes" props=C16 inherit="trait Serialize::write_attributes"
//@at start
    broadcast use {lemma_attributes_same, lemma_attributes_added, lemma_attributes_trans, lemma_declared_added};
    proof {
    }
//@end
//@fn fx "Serialize for Wide::write_children" props=C16 inherit="trait Serialize::write_children"
//@at start
    broadcast use {lemma_grew_same, lemma_grew_poisoned, lemma_grew_chain, lemma_empty_element, lemma_empty_failed};
//@end
}
impl SerializeRoot for Wide {
    open spec fn root_name(&self) -> Key { (""@, "Wide"@) }
//@fn fx "SerializeRoot for Wide::root" props=C16 inherit="trait SerializeRoot::root"
//@end
}
}

// ------------------------------------------------------------------- Guard
pub struct Guard { pub before: i32, pub g: Guarded, pub after: Option<Guarded> }
pub mod Guard_ser {
use super::*;
impl Serialize for Guard {
    open spec fn attributes(&self, a: BS, b: BS, r: Outcome) -> bool {
        let a1 = BS { nss: a.nss, ..a };
        r is Ok && b == a1
    }
    open spec fn children(&self, ctx: Bindings, a: WS, b: WS, r: Outcome) -> bool {
        exists|m1: WS, r1: Outcome| #[trigger] self.before.field((""@, "before"@), ctx, a, m1, r1) && match r1 {
            Err(_) => r == r1 && b == m1,
            Ok(_) => {
                exists|m2: WS, r2: Outcome| #[trigger] self.g.field((""@, "g"@), ctx, m1, m2, r2) && match r2 {
                    Err(_) => r == r2 && b == m2,
                    Ok(_) => {
                        exists|m3: WS, r3: Outcome| #[trigger] self.after.field((""@, "after"@), ctx, m2, m3, r3) && match r3 {
                            Err(_) => r == r3 && b == m3,
                            Ok(_) => {
                                r is Ok && b == m3
                            }
                        }
                    }
                }
            }
        }
    }
//@fn fx "Serialize for Guard::write_attributes" props=C16 inherit="trait Serialize::write_attributes"
//@at start
    broadcast use {lemma_attributes_same, lemma_attributes_added, lemma_attributes_trans, lemma_declared_added};
    proof {
    }
//@end
//@fn fx "Serialize for Guard::write_children" props=C16 inherit="trait Serialize::write_children"
//@at start
    broadcast use {lemma_grew_same, lemma_grew_poisoned, lemma_grew_chain, lemma_empty_element, lemma_empty_failed};
//@end
}
impl SerializeRoot for Guard {
    open spec fn root_name(&self) -> Key { (""@, "Guard"@) }
//@fn fx "SerializeRoot for Guard::root" props=C16 inherit="trait SerializeRoot::root"
//@end
}
}

// ------------------------------------------------------------------- GuardFlat
pub struct GuardFlat { pub before: Option<i32>, pub g: Guarded }
pub mod GuardFlat_ser {
use super::*;
impl Serialize for GuardFlat {
    open spec fn attributes(&self, a: BS, b: BS, r: Outcome) -> bool {
        let a1 = BS { nss: a.nss, ..a };
        exists|m1: BS, r1: Outcome| #[trigger] self.g.attributes(a1, m1, r1) && match r1 {
            Err(_) => r == r1 && b == m1,
            Ok(_) => {
                r is Ok && b == m1
            }
        }
    }
    open spec fn children(&self, ctx: Bindings, a: WS, b: WS, r: Outcome) -> bool {
        exists|m1: WS, r1: Outcome| #[trigger] self.before.field((""@, "before"@), ctx, a, m1, r1) && match r1 {
            Err(_) => r == r1 && b == m1,
            Ok(_) => {
                exists|m2: WS, r2: Outcome| #[trigger] self.g.children(ctx, m1, m2, r2) && match r2 {
                    Err(_) => r == r2 && b == m2,
                    Ok(_) => {
                        r is Ok && b == m2
                    }
                }
            }
        }
    }
//@fn fx "Serialize for GuardFlat::write_attributes" props=C16 inherit="trait Serialize::write_attributes"
//@at start
    broadcast use {lemma_attributes_same, lemma_attributes_added, lemma_attributes_trans, lemma_declared_added};
    proof {
    }
//@end
//@fn fx "Serialize for GuardFlat::write_children" props=C16 inherit="trait Serialize::write_children"
//@at start
    broadcast use {lemma_grew_same, lemma_grew_poisoned, lemma_grew_chain, lemma_empty_element, lemma_empty_failed};
//@end
}
impl SerializeRoot for GuardFlat {
    open spec fn root_name(&self) -> Key { (""@, "GuardFlat"@) }
//@fn fx "SerializeRoot for GuardFlat::root" props=C16 inherit="trait SerializeRoot::root"
//@end
}
}

// ------------------------------------------------------------------- Deep
pub struct Deep { pub plain: Plain, pub list: Vec<One>, pub choice: Option<Shape>, pub many: Vec<Tone>, pub text: ColorOrNum, pub t2: Option<Loose>, pub sp: Option<Spaced> }
pub mod Deep_ser {
use super::*;
impl Serialize for Deep {
    open spec fn attributes(&self, a: BS, b: BS, r: Outcome) -> bool {
        let a1 = BS { nss: declared(a.nss, "s"@, "urn:a"@), ..a };
        exists|m1: BS, r1: Outcome| #[trigger] self.t2.attr((""@, "t2"@), a1, m1, r1) && match r1 {
            Err(_) => r == r1 && b == m1,
            Ok(_) => {
                r is Ok && b == m1
            }
        }
    }
    open spec fn children(&self, ctx: Bindings, a: WS, b: WS, r: Outcome) -> bool {
        exists|m1: WS, r1: Outcome| #[trigger] self.plain.field((""@, "plain"@), ctx, a, m1, r1) && match r1 {
            Err(_) => r == r1 && b == m1,
            Ok(_) => {
                exists|m2: WS, r2: Outcome| #[trigger] self.list.field((""@, "list"@), ctx, m1, m2, r2) && match r2 {
                    Err(_) => r == r2 && b == m2,
                    Ok(_) => {
                        exists|m3: WS, r3: Outcome| #[trigger] self.choice.field((""@, "choice"@), ctx, m2, m3, r3) && match r3 {
                            Err(_) => r == r3 && b == m3,
                            Ok(_) => {
                                exists|m4: WS, r4: Outcome| #[trigger] self.many.field((""@, "many"@), ctx, m3, m4, r4) && match r4 {
                                    Err(_) => r == r4 && b == m4,
                                    Ok(_) => {
                                        exists|m5: WS, r5: Outcome| #[trigger] self.text.field((""@, "text"@), ctx, m4, m5, r5) && match r5 {
                                            Err(_) => r == r5 && b == m5,
                                            Ok(_) => {
                                                exists|m6: WS, r6: Outcome| #[trigger] self.sp.field(("urn:a"@, "spaced-out"@), ctx, m5, m6, r6) && match r6 {
                                                    Err(_) => r == r6 && b == m6,
                                                    Ok(_) => {
                                                        r is Ok && b == m6
                                                    }
                                                }
                                            }
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
    }
//@fn fx "Serialize for Deep::write_attributes" props=C16 inherit="trait Serialize::write_attributes"
//@at start
    broadcast use {lemma_attributes_same, lemma_attributes_added, lemma_attributes_trans, lemma_declared_added};
    proof {
        reveal_strlit("s");
        reveal_strlit("xml");
    }
//@end
//@fn fx "Serialize for Deep::write_children" props=C16 inherit="trait Serialize::write_children"
//@at start
    broadcast use {lemma_grew_same, lemma_grew_poisoned, lemma_grew_chain, lemma_empty_element, lemma_empty_failed};
//@end
}
impl SerializeRoot for Deep {
    open spec fn root_name(&self) -> Key { (""@, "Deep"@) }
//@fn fx "SerializeRoot for Deep::root" props=C16 inherit="trait SerializeRoot::root"
//@end
}
}

// ------------------------------------------------------------------- Tree
pub enum Tree { Leaf(TwoFlat), Branch(Vec<Deep>), Nil }
pub mod Tree_ser {
use super::*;
impl Serialize for Tree {
    open spec fn attributes(&self, a: BS, b: BS, r: Outcome) -> bool {
        let a1 = BS { nss: a.nss, ..a };
        r is Ok && b == a1
    }
    open spec fn children(&self, ctx: Bindings, a: WS, b: WS, r: Outcome) -> bool {
        match self {
            Tree::Leaf(f) => f.field((""@, "Leaf"@), ctx, a, b, r),
            Tree::Branch(f) => f.field((""@, "Branch"@), ctx, a, b, r),
            Tree::Nil => empty_element((""@, "Nil"@), ctx, a, b, r),
        }
    }
//@fn fx "Serialize for Tree::write_attributes" props=C16 inherit="trait Serialize::write_attributes"
//@at start
    broadcast use {lemma_attributes_same, lemma_attributes_added, lemma_attributes_trans, lemma_declared_added};
    proof {
    }
//@end
//@fn fx "Serialize for Tree::write_children" props=C16 inherit="trait Serialize::write_children"
//@at start
    broadcast use {lemma_grew_same, lemma_grew_poisoned, lemma_grew_chain, lemma_empty_element, lemma_empty_failed};
//@end
}
impl SerializeRoot for Tree {
    open spec fn root_name(&self) -> Key { (""@, "Tree"@) }
//@fn fx "SerializeRoot for Tree::root" props=C16 inherit="trait SerializeRoot::root"
//@end
}
}

} // verus!
fn main() {}
