// Written by tools/corpus.py. Contracts on the code that #[derive(ParseText, ToText)]
// generates for the text types of the corpus (corpus/src/lib.rs).
use vstd::prelude::*;
use vstd::utf8::*;

verus! {

//@source ex @expanded.rs
//@call ::std::convert::AsRef::<str>::as_ref vx_as_ref
//@call ::std::convert::AsRef::as_ref vx_as_ref
//@call ::std::string::ToString::to_string vx_display
//@call ::std::str::FromStr::from_str vx_from_str
//@include scalars_body.rs
//@include derive_paths.rs
#[verifier::external_body]
pub fn vx_as_ref(s: &String) -> (r: &str)
    ensures r@ == s@
{ unimplemented!() }

//@item de enum WhiteSpace derive=Copy+Clone+PartialEq+Eq+Structural needs=PartialEq
//@include normal_model.rs
/// The contract proved in unit c01.
#[verifier::external_body]
pub fn normalize(s: String, whitespace: WhiteSpace) -> (r: String)
    ensures r@ == normalized(s@, whitespace)
{ unimplemented!() }
//@fn de no_such_variant props=C15
//@end
#[verifier::external_body]
pub fn union_error(union_type: &str, errors: Vec<BoxedStdError>) -> (r: BoxedStdError) { unimplemented!() }

/// Parsing `text` as a `T` fails.
pub open spec fn rejects<T: ParseText>(text: Seq<char>) -> bool { exists|e: BoxedStdError| T::parses(text, Err(e)) }

// ------------------------------------------------------------------- Color
pub enum Color { Red, Green, Blue }
//@impl ex "ParseText for Color"
    open spec fn parses(text: Seq<char>, r: Result<Self, BoxedStdError>) -> bool {
        let t = normalized(text, WhiteSpace::Preserve);
        match r {
            Ok(Color::Red) => t == "Red"@,
            Ok(Color::Green) => t == "green"@,
            Ok(Color::Blue) => t == "blue ish"@,
            Err(_) => t != "Red"@ && t != "green"@ && t != "blue ish"@,
        }
    }
//@fn ex parse props=C15 closures=1
//@at start
    broadcast use axiom_str_inj;
    proof {
        reveal_strlit("Red");
        reveal_strlit("green");
        reveal_strlit("blue ish");
        assert("green"@.len() != "Red"@.len());
        assert("blue ish"@.len() != "Red"@.len());
        assert("blue ish"@.len() != "green"@.len());
    }
//@end
//@endimpl
//@impl ex "ToText for Color"
    open spec fn prints(&self, r: Result<String, Error>) -> bool {
        r matches Ok(s) && match *self {
            Color::Red => s@ == "Red"@,
            Color::Green => s@ == "green"@,
            Color::Blue => s@ == "blue ish"@,
        }
    }
//@fn ex to_text props=C15
//@end
//@endimpl
/// Whatever parsing produces prints, and what it prints parses to the same value, whatever the
/// implementations do within their contracts.
proof fn lemma_Color_round_trip(text: Seq<char>, v: Color, p: Result<String, Error>, w: Result<Color, BoxedStdError>)
    requires
        Color::parses(text, Ok(v)), v.prints(p),
        p is Ok ==> Color::parses(p->Ok_0@, w),
    ensures //# C15
        p is Ok, w is Ok,
        ((v matches Color::Red) <==> (w->Ok_0 matches Color::Red)),
        ((v matches Color::Green) <==> (w->Ok_0 matches Color::Green)),
        ((v matches Color::Blue) <==> (w->Ok_0 matches Color::Blue)),
        true,
{
    lemma_normalized_twice(text, WhiteSpace::Preserve);
    reveal_strlit("Red");
    reveal_strlit("green");
    reveal_strlit("blue ish");
    assert("green"@.len() != "Red"@.len());
    assert("blue ish"@.len() != "Red"@.len());
    assert("blue ish"@.len() != "green"@.len());
}

// ------------------------------------------------------------------- Size
pub enum Size { Small, Large, Medium, Other(String) }
//@impl ex "ParseText for Size"
    open spec fn parses(text: Seq<char>, r: Result<Self, BoxedStdError>) -> bool {
        let t = normalized(text, WhiteSpace::Collapse);
        match r {
            Ok(Size::Small) => t == "small"@,
            Ok(Size::Large) => t == "extra large"@,
            Ok(Size::Medium) => t == "Medium"@,
            Ok(Size::Other(s)) => s@ == t && t != "small"@ && t != "extra large"@ && t != "Medium"@,
            Err(_) => false,
        }
    }
//@fn ex parse props=C15 closures=1
//@at start
    broadcast use axiom_str_inj;
    proof {
        reveal_strlit("small");
        reveal_strlit("extra large");
        reveal_strlit("Medium");
        assert("extra large"@.len() != "small"@.len());
        assert("Medium"@.len() != "small"@.len());
        assert("Medium"@.len() != "extra large"@.len());
    }
//@end
//@endimpl
//@impl ex "ToText for Size"
    open spec fn prints(&self, r: Result<String, Error>) -> bool {
        r matches Ok(s) && match *self {
            Size::Small => s@ == "small"@,
            Size::Large => s@ == "extra large"@,
            Size::Medium => s@ == "Medium"@,
            Size::Other(x) => s@ == x@,
        }
    }
//@fn ex to_text props=C15
//@end
//@endimpl
/// Whatever parsing produces prints, and what it prints parses to the same value, whatever the
/// implementations do within their contracts.
proof fn lemma_Size_round_trip(text: Seq<char>, v: Size, p: Result<String, Error>, w: Result<Size, BoxedStdError>)
    requires
        Size::parses(text, Ok(v)), v.prints(p),
        p is Ok ==> Size::parses(p->Ok_0@, w),
    ensures //# C15
        p is Ok, w is Ok,
        ((v matches Size::Small) <==> (w->Ok_0 matches Size::Small)),
        ((v matches Size::Large) <==> (w->Ok_0 matches Size::Large)),
        ((v matches Size::Medium) <==> (w->Ok_0 matches Size::Medium)),
        (v matches Size::Other(a) ==> w->Ok_0->Other_0@ == a@),
{
    lemma_normalized_twice(text, WhiteSpace::Collapse);
    reveal_strlit("small");
    reveal_strlit("extra large");
    reveal_strlit("Medium");
    assert("extra large"@.len() != "small"@.len());
    assert("Medium"@.len() != "small"@.len());
    assert("Medium"@.len() != "extra large"@.len());
}

// ------------------------------------------------------------------- Code
pub enum Code { Ab, A, Empty, Unknown(String) }
//@impl ex "ParseText for Code"
    open spec fn parses(text: Seq<char>, r: Result<Self, BoxedStdError>) -> bool {
        let t = normalized(text, WhiteSpace::Replace);
        match r {
            Ok(Code::Ab) => t == "a b"@,
            Ok(Code::A) => t == "a"@,
            Ok(Code::Empty) => t == ""@,
            Ok(Code::Unknown(s)) => s@ == t && t != "a b"@ && t != "a"@ && t != ""@,
            Err(_) => false,
        }
    }
//@fn ex parse props=C15 closures=1
//@at start
    broadcast use axiom_str_inj;
    proof {
        reveal_strlit("a b");
        reveal_strlit("a");
        reveal_strlit("");
        assert("a"@.len() != "a b"@.len());
        assert(""@.len() != "a b"@.len());
        assert(""@.len() != "a"@.len());
    }
//@end
//@endimpl
//@impl ex "ToText for Code"
    open spec fn prints(&self, r: Result<String, Error>) -> bool {
        r matches Ok(s) && match *self {
            Code::Ab => s@ == "a b"@,
            Code::A => s@ == "a"@,
            Code::Empty => s@ == ""@,
            Code::Unknown(x) => s@ == x@,
        }
    }
//@fn ex to_text props=C15
//@end
//@endimpl
/// Whatever parsing produces prints, and what it prints parses to the same value, whatever the
/// implementations do within their contracts.
proof fn lemma_Code_round_trip(text: Seq<char>, v: Code, p: Result<String, Error>, w: Result<Code, BoxedStdError>)
    requires
        Code::parses(text, Ok(v)), v.prints(p),
        p is Ok ==> Code::parses(p->Ok_0@, w),
    ensures //# C15
        p is Ok, w is Ok,
        ((v matches Code::Ab) <==> (w->Ok_0 matches Code::Ab)),
        ((v matches Code::A) <==> (w->Ok_0 matches Code::A)),
        ((v matches Code::Empty) <==> (w->Ok_0 matches Code::Empty)),
        (v matches Code::Unknown(a) ==> w->Ok_0->Unknown_0@ == a@),
{
    lemma_normalized_twice(text, WhiteSpace::Replace);
    reveal_strlit("a b");
    reveal_strlit("a");
    reveal_strlit("");
    assert("a"@.len() != "a b"@.len());
    assert(""@.len() != "a b"@.len());
    assert(""@.len() != "a"@.len());
}

// ------------------------------------------------------------------- Keep
pub enum Keep { Pad, Pad2, PAD, Rest(String) }
//@impl ex "ParseText for Keep"
    open spec fn parses(text: Seq<char>, r: Result<Self, BoxedStdError>) -> bool {
        let t = normalized(text, WhiteSpace::Preserve);
        match r {
            Ok(Keep::Pad) => t == " pad "@,
            Ok(Keep::Pad2) => t == "pad"@,
            Ok(Keep::PAD) => t == "PAD"@,
            Ok(Keep::Rest(s)) => s@ == t && t != " pad "@ && t != "pad"@ && t != "PAD"@,
            Err(_) => false,
        }
    }
//@fn ex parse props=C15 closures=1
//@at start
    broadcast use axiom_str_inj;
    proof {
        reveal_strlit(" pad ");
        reveal_strlit("pad");
        reveal_strlit("PAD");
        assert("pad"@.len() != " pad "@.len());
        assert("PAD"@.len() != " pad "@.len());
        assert("PAD"@[0] != "pad"@[0]);
    }
//@end
//@endimpl
//@impl ex "ToText for Keep"
    open spec fn prints(&self, r: Result<String, Error>) -> bool {
        r matches Ok(s) && match *self {
            Keep::Pad => s@ == " pad "@,
            Keep::Pad2 => s@ == "pad"@,
            Keep::PAD => s@ == "PAD"@,
            Keep::Rest(x) => s@ == x@,
        }
    }
//@fn ex to_text props=C15
//@end
//@endimpl
/// Whatever parsing produces prints, and what it prints parses to the same value, whatever the
/// implementations do within their contracts.
proof fn lemma_Keep_round_trip(text: Seq<char>, v: Keep, p: Result<String, Error>, w: Result<Keep, BoxedStdError>)
    requires
        Keep::parses(text, Ok(v)), v.prints(p),
        p is Ok ==> Keep::parses(p->Ok_0@, w),
    ensures //# C15
        p is Ok, w is Ok,
        ((v matches Keep::Pad) <==> (w->Ok_0 matches Keep::Pad)),
        ((v matches Keep::Pad2) <==> (w->Ok_0 matches Keep::Pad2)),
        ((v matches Keep::PAD) <==> (w->Ok_0 matches Keep::PAD)),
        (v matches Keep::Rest(a) ==> w->Ok_0->Rest_0@ == a@),
{
    lemma_normalized_twice(text, WhiteSpace::Preserve);
    reveal_strlit(" pad ");
    reveal_strlit("pad");
    reveal_strlit("PAD");
    assert("pad"@.len() != " pad "@.len());
    assert("PAD"@.len() != " pad "@.len());
    assert("PAD"@[0] != "pad"@[0]);
}

// ------------------------------------------------------------------- Tight
pub enum Tight { One, Two }
//@impl ex "ParseText for Tight"
    open spec fn parses(text: Seq<char>, r: Result<Self, BoxedStdError>) -> bool {
        let t = normalized(text, WhiteSpace::Collapse);
        match r {
            Ok(Tight::One) => t == "One"@,
            Ok(Tight::Two) => t == "two words"@,
            Err(_) => t != "One"@ && t != "two words"@,
        }
    }
//@fn ex parse props=C15 closures=1
//@at start
    broadcast use axiom_str_inj;
    proof {
        reveal_strlit("One");
        reveal_strlit("two words");
        assert("two words"@.len() != "One"@.len());
    }
//@end
//@endimpl
//@impl ex "ToText for Tight"
    open spec fn prints(&self, r: Result<String, Error>) -> bool {
        r matches Ok(s) && match *self {
            Tight::One => s@ == "One"@,
            Tight::Two => s@ == "two words"@,
        }
    }
//@fn ex to_text props=C15
//@end
//@endimpl
/// Whatever parsing produces prints, and what it prints parses to the same value, whatever the
/// implementations do within their contracts.
proof fn lemma_Tight_round_trip(text: Seq<char>, v: Tight, p: Result<String, Error>, w: Result<Tight, BoxedStdError>)
    requires
        Tight::parses(text, Ok(v)), v.prints(p),
        p is Ok ==> Tight::parses(p->Ok_0@, w),
    ensures //# C15
        p is Ok, w is Ok,
        ((v matches Tight::One) <==> (w->Ok_0 matches Tight::One)),
        ((v matches Tight::Two) <==> (w->Ok_0 matches Tight::Two)),
        true,
{
    lemma_normalized_twice(text, WhiteSpace::Collapse);
    reveal_strlit("One");
    reveal_strlit("two words");
    assert("two words"@.len() != "One"@.len());
}

// ------------------------------------------------------------------- Vowel
pub enum Vowel { A, E, Ea, Hidden }
//@impl ex "ParseText for Vowel"
    open spec fn parses(text: Seq<char>, r: Result<Self, BoxedStdError>) -> bool {
        let t = normalized(text, WhiteSpace::Replace);
        match r {
            Ok(Vowel::A) => t == "a"@,
            Ok(Vowel::E) => t == "e"@,
            Ok(Vowel::Ea) => t == "ea"@,
            Ok(Vowel::Hidden) => t == "é\t"@,
            Err(_) => t != "a"@ && t != "e"@ && t != "ea"@ && t != "é\t"@,
        }
    }
//@fn ex parse props=C15 closures=1
//@at start
    broadcast use axiom_str_inj;
    proof {
        reveal_strlit("a");
        reveal_strlit("e");
        reveal_strlit("ea");
        reveal_strlit("é\t");
        assert("e"@[0] != "a"@[0]);
        assert("ea"@.len() != "a"@.len());
        assert("ea"@.len() != "e"@.len());
        assert("é\t"@.len() != "a"@.len());
        assert("é\t"@.len() != "e"@.len());
        assert("é\t"@[0] != "ea"@[0]);
    }
//@end
//@endimpl
//@impl ex "ToText for Vowel"
    open spec fn prints(&self, r: Result<String, Error>) -> bool {
        r matches Ok(s) && match *self {
            Vowel::A => s@ == "a"@,
            Vowel::E => s@ == "e"@,
            Vowel::Ea => s@ == "ea"@,
            Vowel::Hidden => s@ == "é\t"@,
        }
    }
//@fn ex to_text props=C15
//@end
//@endimpl
/// Whatever parsing produces prints, and what it prints parses to the same value, whatever the
/// implementations do within their contracts.
proof fn lemma_Vowel_round_trip(text: Seq<char>, v: Vowel, p: Result<String, Error>, w: Result<Vowel, BoxedStdError>)
    requires
        Vowel::parses(text, Ok(v)), v.prints(p),
        p is Ok ==> Vowel::parses(p->Ok_0@, w),
    ensures //# C15
        p is Ok, w is Ok,
        ((v matches Vowel::A) <==> (w->Ok_0 matches Vowel::A)),
        ((v matches Vowel::E) <==> (w->Ok_0 matches Vowel::E)),
        ((v matches Vowel::Ea) <==> (w->Ok_0 matches Vowel::Ea)),
        ((v matches Vowel::Hidden) <==> (w->Ok_0 matches Vowel::Hidden)),
        true,
{
    lemma_normalized_twice(text, WhiteSpace::Replace);
    reveal_strlit("a");
    reveal_strlit("e");
    reveal_strlit("ea");
    reveal_strlit("é\t");
    assert("e"@[0] != "a"@[0]);
    assert("ea"@.len() != "a"@.len());
    assert("ea"@.len() != "e"@.len());
    assert("é\t"@.len() != "a"@.len());
    assert("é\t"@.len() != "e"@.len());
    assert("é\t"@[0] != "ea"@[0]);
}

// ------------------------------------------------------------------- Pair
pub struct Pair(pub String, pub String);
//@impl ex "ParseText for Pair"
    open spec fn parses(text: Seq<char>, r: Result<Self, BoxedStdError>) -> bool {
        let t = normalized(text, WhiteSpace::Collapse);
        match r { Ok(v) => std_parse::<Pair>(t) == Some(v), Err(_) => std_parse::<Pair>(t) is None }
    }
//@fn ex parse props=C15 closures=1
//@end
//@endimpl
//@impl ex "ToText for Pair"
    open spec fn prints(&self, r: Result<String, Error>) -> bool {
        r matches Ok(s) && s@ == std_print::<Pair>(*self)
    }
//@fn ex to_text props=C15
//@end
//@endimpl

// ------------------------------------------------------------------- Word
pub struct Word(pub String, pub String);
//@impl ex "ParseText for Word"
    open spec fn parses(text: Seq<char>, r: Result<Self, BoxedStdError>) -> bool {
        let t = normalized(text, WhiteSpace::Preserve);
        match r { Ok(v) => std_parse::<Word>(t) == Some(v), Err(_) => std_parse::<Word>(t) is None }
    }
//@fn ex parse props=C15 closures=1
//@end
//@endimpl
//@impl ex "ToText for Word"
    open spec fn prints(&self, r: Result<String, Error>) -> bool {
        r matches Ok(s) && s@ == std_print::<Word>(*self)
    }
//@fn ex to_text props=C15
//@end
//@endimpl

// ------------------------------------------------------------------- ColorOrNum
pub enum ColorOrNum { Col(Color), Num(i32), Flag(bool) }
//@impl ex "ParseText for ColorOrNum"
    open spec fn parses(text: Seq<char>, r: Result<Self, BoxedStdError>) -> bool {
        let t = normalized(text, WhiteSpace::Preserve);
        match r {
            Ok(ColorOrNum::Col(v)) => Color::parses(t, Ok(v)),
            Ok(ColorOrNum::Num(v)) => rejects::<Color>(t) && i32::parses(t, Ok(v)),
            Ok(ColorOrNum::Flag(v)) => rejects::<Color>(t) && rejects::<i32>(t) && bool::parses(t, Ok(v)),
            Err(_) => rejects::<Color>(t) && rejects::<i32>(t) && rejects::<bool>(t),
        }
    }
//@fn ex parse props=C15 closures=1
//@end
//@endimpl
//@impl ex "ToText for ColorOrNum"
    open spec fn prints(&self, r: Result<String, Error>) -> bool {
        match *self {
            ColorOrNum::Col(v) => v.prints(r),
            ColorOrNum::Num(v) => v.prints(r),
            ColorOrNum::Flag(v) => v.prints(r),
        }
    }
//@fn ex to_text props=C15
//@end
//@endimpl

// ------------------------------------------------------------------- Loose
pub enum Loose { Num(u64), Neg(i32), Sz(Size) }
//@impl ex "ParseText for Loose"
    open spec fn parses(text: Seq<char>, r: Result<Self, BoxedStdError>) -> bool {
        let t = normalized(text, WhiteSpace::Collapse);
        match r {
            Ok(Loose::Num(v)) => u64::parses(t, Ok(v)),
            Ok(Loose::Neg(v)) => rejects::<u64>(t) && i32::parses(t, Ok(v)),
            Ok(Loose::Sz(v)) => rejects::<u64>(t) && rejects::<i32>(t) && Size::parses(t, Ok(v)),
            Err(_) => rejects::<u64>(t) && rejects::<i32>(t) && rejects::<Size>(t),
        }
    }
//@fn ex parse props=C15 closures=1
//@end
//@endimpl
//@impl ex "ToText for Loose"
    open spec fn prints(&self, r: Result<String, Error>) -> bool {
        match *self {
            Loose::Num(v) => v.prints(r),
            Loose::Neg(v) => v.prints(r),
            Loose::Sz(v) => v.prints(r),
        }
    }
//@fn ex to_text props=C15
//@end
//@endimpl

// ------------------------------------------------------------------- TwoTexts
pub enum TwoTexts { T(Tight), V(Vowel), P(Pair) }
//@impl ex "ParseText for TwoTexts"
    open spec fn parses(text: Seq<char>, r: Result<Self, BoxedStdError>) -> bool {
        let t = normalized(text, WhiteSpace::Replace);
        match r {
            Ok(TwoTexts::T(v)) => Tight::parses(t, Ok(v)),
            Ok(TwoTexts::V(v)) => rejects::<Tight>(t) && Vowel::parses(t, Ok(v)),
            Ok(TwoTexts::P(v)) => rejects::<Tight>(t) && rejects::<Vowel>(t) && Pair::parses(t, Ok(v)),
            Err(_) => rejects::<Tight>(t) && rejects::<Vowel>(t) && rejects::<Pair>(t),
        }
    }
//@fn ex parse props=C15 closures=1
//@end
//@endimpl
//@impl ex "ToText for TwoTexts"
    open spec fn prints(&self, r: Result<String, Error>) -> bool {
        match *self {
            TwoTexts::T(v) => v.prints(r),
            TwoTexts::V(v) => v.prints(r),
            TwoTexts::P(v) => v.prints(r),
        }
    }
//@fn ex to_text props=C15
//@end
//@endimpl

// ------------------------------------------------------------------- Nested
pub enum Nested { Inner(ColorOrNum), Real(f64), Any(String) }
//@impl ex "ParseText for Nested"
    open spec fn parses(text: Seq<char>, r: Result<Self, BoxedStdError>) -> bool {
        let t = normalized(text, WhiteSpace::Preserve);
        match r {
            Ok(Nested::Inner(v)) => ColorOrNum::parses(t, Ok(v)),
            Ok(Nested::Real(v)) => rejects::<ColorOrNum>(t) && f64::parses(t, Ok(v)),
            Ok(Nested::Any(v)) => rejects::<ColorOrNum>(t) && rejects::<f64>(t) && String::parses(t, Ok(v)),
            Err(_) => rejects::<ColorOrNum>(t) && rejects::<f64>(t) && rejects::<String>(t),
        }
    }
//@fn ex parse props=C15 closures=1
//@end
//@endimpl
//@impl ex "ToText for Nested"
    open spec fn prints(&self, r: Result<String, Error>) -> bool {
        match *self {
            Nested::Inner(v) => v.prints(r),
            Nested::Real(v) => v.prints(r),
            Nested::Any(v) => v.prints(r),
        }
    }
//@fn ex to_text props=C15
//@end
//@endimpl

// ------------------------------------------------------------------- Early
pub enum Early { Flag(bool), Text(String), Num(i32) }
//@impl ex "ParseText for Early"
    open spec fn parses(text: Seq<char>, r: Result<Self, BoxedStdError>) -> bool {
        let t = normalized(text, WhiteSpace::Preserve);
        match r {
            Ok(Early::Flag(v)) => bool::parses(t, Ok(v)),
            Ok(Early::Text(v)) => rejects::<bool>(t) && String::parses(t, Ok(v)),
            Ok(Early::Num(v)) => rejects::<bool>(t) && rejects::<String>(t) && i32::parses(t, Ok(v)),
            Err(_) => rejects::<bool>(t) && rejects::<String>(t) && rejects::<i32>(t),
        }
    }
//@fn ex parse props=C15 closures=1
//@end
//@endimpl
//@impl ex "ToText for Early"
    open spec fn prints(&self, r: Result<String, Error>) -> bool {
        match *self {
            Early::Flag(v) => v.prints(r),
            Early::Text(v) => v.prints(r),
            Early::Num(v) => v.prints(r),
        }
    }
//@fn ex to_text props=C15
//@end
//@endimpl

// ------------------------------------------------------------------- Front
pub enum Front { Text(String), Sz(Size) }
//@impl ex "ParseText for Front"
    open spec fn parses(text: Seq<char>, r: Result<Self, BoxedStdError>) -> bool {
        let t = normalized(text, WhiteSpace::Collapse);
        match r {
            Ok(Front::Text(v)) => String::parses(t, Ok(v)),
            Ok(Front::Sz(v)) => rejects::<String>(t) && Size::parses(t, Ok(v)),
            Err(_) => rejects::<String>(t) && rejects::<Size>(t),
        }
    }
//@fn ex parse props=C15 closures=1
//@end
//@endimpl
//@impl ex "ToText for Front"
    open spec fn prints(&self, r: Result<String, Error>) -> bool {
        match *self {
            Front::Text(v) => v.prints(r),
            Front::Sz(v) => v.prints(r),
        }
    }
//@fn ex to_text props=C15
//@end
//@endimpl

// ------------------------------------------------------------------- Alone
pub enum Alone { Only(u64) }
//@impl ex "ParseText for Alone"
    open spec fn parses(text: Seq<char>, r: Result<Self, BoxedStdError>) -> bool {
        let t = normalized(text, WhiteSpace::Replace);
        match r {
            Ok(Alone::Only(v)) => u64::parses(t, Ok(v)),
            Err(_) => rejects::<u64>(t),
        }
    }
//@fn ex parse props=C15 closures=1
//@end
//@endimpl
//@impl ex "ToText for Alone"
    open spec fn prints(&self, r: Result<String, Error>) -> bool {
        match *self {
            Alone::Only(v) => v.prints(r),
        }
    }
//@fn ex to_text props=C15
//@end
//@endimpl

// ------------------------------------------------------------------- TwoRest
pub enum TwoRest { Kept(Keep), Rep(Code), Num(f64) }
//@impl ex "ParseText for TwoRest"
    open spec fn parses(text: Seq<char>, r: Result<Self, BoxedStdError>) -> bool {
        let t = normalized(text, WhiteSpace::Preserve);
        match r {
            Ok(TwoRest::Kept(v)) => Keep::parses(t, Ok(v)),
            Ok(TwoRest::Rep(v)) => rejects::<Keep>(t) && Code::parses(t, Ok(v)),
            Ok(TwoRest::Num(v)) => rejects::<Keep>(t) && rejects::<Code>(t) && f64::parses(t, Ok(v)),
            Err(_) => rejects::<Keep>(t) && rejects::<Code>(t) && rejects::<f64>(t),
        }
    }
//@fn ex parse props=C15 closures=1
//@end
//@endimpl
//@impl ex "ToText for TwoRest"
    open spec fn prints(&self, r: Result<String, Error>) -> bool {
        match *self {
            TwoRest::Kept(v) => v.prints(r),
            TwoRest::Rep(v) => v.prints(r),
            TwoRest::Num(v) => v.prints(r),
        }
    }
//@fn ex to_text props=C15
//@end
//@endimpl

// ------------------------------------------------------------------- Ahead
pub enum Ahead { P, M, r#true, Else(String) }
//@impl ex "ParseText for Ahead"
    open spec fn parses(text: Seq<char>, r: Result<Self, BoxedStdError>) -> bool {
        let t = normalized(text, WhiteSpace::Collapse);
        match r {
            Ok(Ahead::P) => t == "plus"@,
            Ok(Ahead::M) => t == "minus sign"@,
            Ok(Ahead::r#true) => t == "true"@,
            Ok(Ahead::Else(s)) => s@ == t && t != "plus"@ && t != "minus sign"@ && t != "true"@,
            Err(_) => false,
        }
    }
//@fn ex parse props=C15 closures=1
//@at start
    broadcast use axiom_str_inj;
    proof {
        reveal_strlit("plus");
        reveal_strlit("minus sign");
        reveal_strlit("true");
        assert("minus sign"@.len() != "plus"@.len());
        assert("true"@[0] != "plus"@[0]);
        assert("true"@.len() != "minus sign"@.len());
    }
//@end
//@endimpl
//@impl ex "ToText for Ahead"
    open spec fn prints(&self, r: Result<String, Error>) -> bool {
        r matches Ok(s) && match *self {
            Ahead::P => s@ == "plus"@,
            Ahead::M => s@ == "minus sign"@,
            Ahead::r#true => s@ == "true"@,
            Ahead::Else(x) => s@ == x@,
        }
    }
//@fn ex to_text props=C15
//@end
//@endimpl
/// Whatever parsing produces prints, and what it prints parses to the same value, whatever the
/// implementations do within their contracts.
proof fn lemma_Ahead_round_trip(text: Seq<char>, v: Ahead, p: Result<String, Error>, w: Result<Ahead, BoxedStdError>)
    requires
        Ahead::parses(text, Ok(v)), v.prints(p),
        p is Ok ==> Ahead::parses(p->Ok_0@, w),
    ensures //# C15
        p is Ok, w is Ok,
        ((v matches Ahead::P) <==> (w->Ok_0 matches Ahead::P)),
        ((v matches Ahead::M) <==> (w->Ok_0 matches Ahead::M)),
        ((v matches Ahead::r#true) <==> (w->Ok_0 matches Ahead::r#true)),
        (v matches Ahead::Else(a) ==> w->Ok_0->Else_0@ == a@),
{
    lemma_normalized_twice(text, WhiteSpace::Collapse);
    reveal_strlit("plus");
    reveal_strlit("minus sign");
    reveal_strlit("true");
    assert("minus sign"@.len() != "plus"@.len());
    assert("true"@[0] != "plus"@[0]);
    assert("true"@.len() != "minus sign"@.len());
}

// ------------------------------------------------------------------- Foreign
pub enum Foreign { Kurz, Gross, Nihon, Kana }
//@impl ex "ParseText for Foreign"
    open spec fn parses(text: Seq<char>, r: Result<Self, BoxedStdError>) -> bool {
        let t = normalized(text, WhiteSpace::Collapse);
        match r {
            Ok(Foreign::Kurz) => t == "kürzer"@,
            Ok(Foreign::Gross) => t == "Größe"@,
            Ok(Foreign::Nihon) => t == "日本 語"@,
            Ok(Foreign::Kana) => t == "かな "@,
            Err(_) => t != "kürzer"@ && t != "Größe"@ && t != "日本 語"@ && t != "かな "@,
        }
    }
//@fn ex parse props=C15 closures=1
//@at start
    broadcast use axiom_str_inj;
    proof {
        reveal_strlit("kürzer");
        reveal_strlit("Größe");
        reveal_strlit("日本 語");
        reveal_strlit("かな ");
        assert("Größe"@.len() != "kürzer"@.len());
        assert("日本 語"@.len() != "kürzer"@.len());
        assert("日本 語"@.len() != "Größe"@.len());
        assert("かな "@.len() != "kürzer"@.len());
        assert("かな "@.len() != "Größe"@.len());
        assert("かな "@.len() != "日本 語"@.len());
    }
//@end
//@endimpl
//@impl ex "ToText for Foreign"
    open spec fn prints(&self, r: Result<String, Error>) -> bool {
        r matches Ok(s) && match *self {
            Foreign::Kurz => s@ == "kürzer"@,
            Foreign::Gross => s@ == "Größe"@,
            Foreign::Nihon => s@ == "日本 語"@,
            Foreign::Kana => s@ == "かな "@,
        }
    }
//@fn ex to_text props=C15
//@end
//@endimpl
/// Whatever parsing produces prints, and what it prints parses to the same value, whatever the
/// implementations do within their contracts.
proof fn lemma_Foreign_round_trip(text: Seq<char>, v: Foreign, p: Result<String, Error>, w: Result<Foreign, BoxedStdError>)
    requires
        Foreign::parses(text, Ok(v)), v.prints(p),
        p is Ok ==> Foreign::parses(p->Ok_0@, w),
    ensures //# C15
        p is Ok, w is Ok,
        ((v matches Foreign::Kurz) <==> (w->Ok_0 matches Foreign::Kurz)),
        ((v matches Foreign::Gross) <==> (w->Ok_0 matches Foreign::Gross)),
        ((v matches Foreign::Nihon) <==> (w->Ok_0 matches Foreign::Nihon)),
        ((v matches Foreign::Kana) <==> (w->Ok_0 matches Foreign::Kana)),
        true,
{
    lemma_normalized_twice(text, WhiteSpace::Collapse);
    reveal_strlit("kürzer");
    reveal_strlit("Größe");
    reveal_strlit("日本 語");
    reveal_strlit("かな ");
    assert("Größe"@.len() != "kürzer"@.len());
    assert("日本 語"@.len() != "kürzer"@.len());
    assert("日本 語"@.len() != "Größe"@.len());
    assert("かな "@.len() != "kürzer"@.len());
    assert("かな "@.len() != "Größe"@.len());
    assert("かな "@.len() != "日本 語"@.len());
}

// ------------------------------------------------------------------- Line
pub struct Line(pub String, pub String);
//@impl ex "ParseText for Line"
    open spec fn parses(text: Seq<char>, r: Result<Self, BoxedStdError>) -> bool {
        let t = normalized(text, WhiteSpace::Replace);
        match r { Ok(v) => std_parse::<Line>(t) == Some(v), Err(_) => std_parse::<Line>(t) is None }
    }
//@fn ex parse props=C15 closures=1
//@end
//@endimpl
//@impl ex "ToText for Line"
    open spec fn prints(&self, r: Result<String, Error>) -> bool {
        r matches Ok(s) && s@ == std_print::<Line>(*self)
    }
//@fn ex to_text props=C15
//@end
//@endimpl

// ------------------------------------------------------------------- Strings
pub enum Strings { First(Keep), Second(String) }
//@impl ex "ParseText for Strings"
    open spec fn parses(text: Seq<char>, r: Result<Self, BoxedStdError>) -> bool {
        let t = normalized(text, WhiteSpace::Collapse);
        match r {
            Ok(Strings::First(v)) => Keep::parses(t, Ok(v)),
            Ok(Strings::Second(v)) => rejects::<Keep>(t) && String::parses(t, Ok(v)),
            Err(_) => rejects::<Keep>(t) && rejects::<String>(t),
        }
    }
//@fn ex parse props=C15 closures=1
//@end
//@endimpl
//@impl ex "ToText for Strings"
    open spec fn prints(&self, r: Result<String, Error>) -> bool {
        match *self {
            Strings::First(v) => v.prints(r),
            Strings::Second(v) => v.prints(r),
        }
    }
//@fn ex to_text props=C15
//@end
//@endimpl

} // verus!
fn main() {}
