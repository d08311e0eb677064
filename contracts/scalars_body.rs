//@include std_prelude.rs
//@source de static-xml/src/de/mod.rs
//@source ser static-xml/src/ser/mod.rs
//@macrosource parse de text_for_num
//@macrosource print ser text_from_display

#[verifier::external_body]
pub fn vx_fmt() -> (r: String) { unimplemented!() }

/// `crate::BoxedStdError`: opaque
#[verifier::external_body]
pub struct VxBoxedError { x: () }
pub type BoxedStdError = VxBoxedError;
/// `Box::new(e)`, coerced
#[verifier::external_body]
pub fn vx_box<T>(e: T) -> (r: VxBoxedError) { unimplemented!() }
/// `e.into()`
#[verifier::external_body]
pub fn vx_into<T>(e: T) -> (r: BoxedStdError) { unimplemented!() }
pub struct SimpleError(pub String);
//@item ser struct Error needs=Clone

// ------------------------------------------------------------------- std
pub open spec fn trim_start(s: Seq<char>, set: Set<char>) -> Seq<char>
    decreases s.len()
{ if s.len() > 0 && set.contains(s[0]) { trim_start(s.drop_first(), set) } else { s } }
pub open spec fn trim_end(s: Seq<char>, set: Set<char>) -> Seq<char>
    decreases s.len()
{ if s.len() > 0 && set.contains(s.last()) { trim_end(s.drop_last(), set) } else { s } }
/// `str::trim_matches`, `trim_start_matches`, `trim_end_matches` with a slice of characters
#[verifier::external_body]
pub fn vx_trim_matches<'a>(s: &'a str, p: &[char]) -> (r: &'a str)
    ensures r@ == trim_end(trim_start(s@, p@.to_set()), p@.to_set())
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_trim_start_matches<'a>(s: &'a str, p: &[char]) -> (r: &'a str)
    ensures r@ == trim_start(s@, p@.to_set())
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_trim_end_matches<'a>(s: &'a str, p: &[char]) -> (r: &'a str)
    ensures r@ == trim_end(s@, p@.to_set())
{ unimplemented!() }
/// `str::trim`: all Unicode white space
pub uninterp spec fn unicode_space() -> Set<char>;
#[verifier::external_body]
pub fn vx_trim<'a>(s: &'a str) -> (r: &'a str)
    ensures r@ == trim_end(trim_start(s@, unicode_space()), unicode_space())
{ unimplemented!() }
/// What the standard library parses `t` as.
pub uninterp spec fn std_parse<T>(t: Seq<char>) -> Option<T>;
/// What the standard library prints `v` as.
pub uninterp spec fn std_print<T>(v: T) -> Seq<char>;
#[verifier::external_body]
pub struct VxParseError { x: () }
#[verifier::external_body]
pub fn vx_from_str<T>(s: &str) -> (r: Result<T, VxParseError>)
    ensures
        match r { Ok(v) => std_parse::<T>(s@) == Some(v), Err(_) => std_parse::<T>(s@) is None }
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_display<T>(t: &T) -> (r: String)
    ensures r@ == std_print::<T>(*t)
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_to_owned(s: &str) -> (r: String)
    ensures r@ == s@
{ unimplemented!() }
#[verifier::external_body]
pub broadcast proof fn axiom_str_inj(a: &str, b: &str)
    ensures #[trigger] a@ == #[trigger] b@ ==> a == b
{ }

//@method trim_matches vx_trim_matches ref args
//@method trim_start_matches vx_trim_start_matches ref args
//@method trim_end_matches vx_trim_end_matches ref args
//@method trim vx_trim ref
//@call Box::new vx_box
//@method into vx_into val
//@method to_owned vx_to_owned val
//@call std::string::ToString::to_string vx_display
//@call <_>::from_str vx_from_str::<$T>
//@call <_>::to_string vx_display
//@method parse vx_from_str val
//@method to_string vx_display ref


// ------------------------------------------------------------------- the property
/// Tab, line feed, carriage return, space.
pub open spec fn xml_space() -> Set<char> { set!['\u{9}', '\u{a}', '\u{d}', '\u{20}'] }
pub open spec fn xml_trim(s: Seq<char>) -> Seq<char> { trim_end(trim_start(s, xml_space()), xml_space()) }

//@trait de ParseText
    spec fn parses(text: Seq<char>, r: Result<Self, BoxedStdError>) -> bool;
//@fn de parse props=C07
    ensures Self::parses(text@, r)
//@end
//@endimpl

//@trait ser ToText
    spec fn prints(&self, r: Result<String, Error>) -> bool;
//@fn ser to_text props=C07
    ensures self.prints(r)
//@end
//@endimpl

//@impl de "ParseText for bool"
    open spec fn parses(text: Seq<char>, r: Result<Self, BoxedStdError>) -> bool {
        let t = xml_trim(text);
        match r {
            Ok(true) => t == "true"@ || t == "1"@,
            Ok(false) => t == "false"@ || t == "0"@,
            Err(_) => t != "true"@ && t != "1"@ && t != "false"@ && t != "0"@,
        }
    }
//@fn de parse props=C07
//@at start
    broadcast use axiom_str_inj;
    proof { lemma_sets(); reveal_strlit("true"); reveal_strlit("1"); reveal_strlit("false"); reveal_strlit("0"); }
//@end
//@endimpl
/// Four characters, in any order, make up XML's white space.
proof fn lemma_sets()
    ensures forall|q: Seq<char>| q.len() == 4 && has(q, '\u{9}') && has(q, '\u{a}') && has(q, '\u{d}') && has(q, '\u{20}')
        ==> #[trigger] q.to_set() == xml_space()
{
    assert forall|q: Seq<char>| q.len() == 4 && has(q, '\u{9}') && has(q, '\u{a}') && has(q, '\u{d}') && has(q, '\u{20}')
        implies #[trigger] q.to_set() == xml_space() by {
        assert(q.contains(q[0]) && q.contains(q[1]) && q.contains(q[2]) && q.contains(q[3]));
        assert forall|c: char| q.contains(c) implies xml_space().contains(c) by {
            let i = choose|i: int| 0 <= i < q.len() && q[i] == c;
            assert(i == 0 || i == 1 || i == 2 || i == 3);
        }
        assert(q.to_set() =~= xml_space());
    }
}
pub open spec fn has(q: Seq<char>, c: char) -> bool { q[0] == c || q[1] == c || q[2] == c || q[3] == c }
//@impl parse "ParseText for i8"
    open spec fn parses(text: Seq<char>, r: Result<Self, BoxedStdError>) -> bool {
        match r { Ok(v) => std_parse::<i8>(xml_trim(text)) == Some(v), Err(_) => std_parse::<i8>(xml_trim(text)) is None }
    }
//@fn parse parse props=C07 closures=1
//@at start
    proof { lemma_sets(); }
//@end
//@endimpl
//@impl parse "ParseText for u8"
    open spec fn parses(text: Seq<char>, r: Result<Self, BoxedStdError>) -> bool {
        match r { Ok(v) => std_parse::<u8>(xml_trim(text)) == Some(v), Err(_) => std_parse::<u8>(xml_trim(text)) is None }
    }
//@fn parse parse props=C07 closures=1
//@at start
    proof { lemma_sets(); }
//@end
//@endimpl
//@impl parse "ParseText for i16"
    open spec fn parses(text: Seq<char>, r: Result<Self, BoxedStdError>) -> bool {
        match r { Ok(v) => std_parse::<i16>(xml_trim(text)) == Some(v), Err(_) => std_parse::<i16>(xml_trim(text)) is None }
    }
//@fn parse parse props=C07 closures=1
//@at start
    proof { lemma_sets(); }
//@end
//@endimpl
//@impl parse "ParseText for u16"
    open spec fn parses(text: Seq<char>, r: Result<Self, BoxedStdError>) -> bool {
        match r { Ok(v) => std_parse::<u16>(xml_trim(text)) == Some(v), Err(_) => std_parse::<u16>(xml_trim(text)) is None }
    }
//@fn parse parse props=C07 closures=1
//@at start
    proof { lemma_sets(); }
//@end
//@endimpl
//@impl parse "ParseText for i32"
    open spec fn parses(text: Seq<char>, r: Result<Self, BoxedStdError>) -> bool {
        match r { Ok(v) => std_parse::<i32>(xml_trim(text)) == Some(v), Err(_) => std_parse::<i32>(xml_trim(text)) is None }
    }
//@fn parse parse props=C07 closures=1
//@at start
    proof { lemma_sets(); }
//@end
//@endimpl
//@impl parse "ParseText for u32"
    open spec fn parses(text: Seq<char>, r: Result<Self, BoxedStdError>) -> bool {
        match r { Ok(v) => std_parse::<u32>(xml_trim(text)) == Some(v), Err(_) => std_parse::<u32>(xml_trim(text)) is None }
    }
//@fn parse parse props=C07 closures=1
//@at start
    proof { lemma_sets(); }
//@end
//@endimpl
//@impl parse "ParseText for i64"
    open spec fn parses(text: Seq<char>, r: Result<Self, BoxedStdError>) -> bool {
        match r { Ok(v) => std_parse::<i64>(xml_trim(text)) == Some(v), Err(_) => std_parse::<i64>(xml_trim(text)) is None }
    }
//@fn parse parse props=C07 closures=1
//@at start
    proof { lemma_sets(); }
//@end
//@endimpl
//@impl parse "ParseText for u64"
    open spec fn parses(text: Seq<char>, r: Result<Self, BoxedStdError>) -> bool {
        match r { Ok(v) => std_parse::<u64>(xml_trim(text)) == Some(v), Err(_) => std_parse::<u64>(xml_trim(text)) is None }
    }
//@fn parse parse props=C07 closures=1
//@at start
    proof { lemma_sets(); }
//@end
//@endimpl
//@impl parse "ParseText for i128"
    open spec fn parses(text: Seq<char>, r: Result<Self, BoxedStdError>) -> bool {
        match r { Ok(v) => std_parse::<i128>(xml_trim(text)) == Some(v), Err(_) => std_parse::<i128>(xml_trim(text)) is None }
    }
//@fn parse parse props=C07 closures=1
//@at start
    proof { lemma_sets(); }
//@end
//@endimpl
//@impl parse "ParseText for u128"
    open spec fn parses(text: Seq<char>, r: Result<Self, BoxedStdError>) -> bool {
        match r { Ok(v) => std_parse::<u128>(xml_trim(text)) == Some(v), Err(_) => std_parse::<u128>(xml_trim(text)) is None }
    }
//@fn parse parse props=C07 closures=1
//@at start
    proof { lemma_sets(); }
//@end
//@endimpl
//@impl parse "ParseText for f32"
    open spec fn parses(text: Seq<char>, r: Result<Self, BoxedStdError>) -> bool {
        match r { Ok(v) => std_parse::<f32>(xml_trim(text)) == Some(v), Err(_) => std_parse::<f32>(xml_trim(text)) is None }
    }
//@fn parse parse props=C07 closures=1
//@at start
    proof { lemma_sets(); }
//@end
//@endimpl
//@impl parse "ParseText for f64"
    open spec fn parses(text: Seq<char>, r: Result<Self, BoxedStdError>) -> bool {
        match r { Ok(v) => std_parse::<f64>(xml_trim(text)) == Some(v), Err(_) => std_parse::<f64>(xml_trim(text)) is None }
    }
//@fn parse parse props=C07 closures=1
//@at start
    proof { lemma_sets(); }
//@end
//@endimpl
//@impl print "ToText for bool"
    open spec fn prints(&self, r: Result<String, Error>) -> bool { r matches Ok(s) && s@ == std_print::<bool>(*self) }
//@fn print to_text props=C07
//@end
//@endimpl
//@impl print "ToText for i8"
    open spec fn prints(&self, r: Result<String, Error>) -> bool { r matches Ok(s) && s@ == std_print::<i8>(*self) }
//@fn print to_text props=C07
//@end
//@endimpl
//@impl print "ToText for u8"
    open spec fn prints(&self, r: Result<String, Error>) -> bool { r matches Ok(s) && s@ == std_print::<u8>(*self) }
//@fn print to_text props=C07
//@end
//@endimpl
//@impl print "ToText for i16"
    open spec fn prints(&self, r: Result<String, Error>) -> bool { r matches Ok(s) && s@ == std_print::<i16>(*self) }
//@fn print to_text props=C07
//@end
//@endimpl
//@impl print "ToText for u16"
    open spec fn prints(&self, r: Result<String, Error>) -> bool { r matches Ok(s) && s@ == std_print::<u16>(*self) }
//@fn print to_text props=C07
//@end
//@endimpl
//@impl print "ToText for i32"
    open spec fn prints(&self, r: Result<String, Error>) -> bool { r matches Ok(s) && s@ == std_print::<i32>(*self) }
//@fn print to_text props=C07
//@end
//@endimpl
//@impl print "ToText for u32"
    open spec fn prints(&self, r: Result<String, Error>) -> bool { r matches Ok(s) && s@ == std_print::<u32>(*self) }
//@fn print to_text props=C07
//@end
//@endimpl
//@impl print "ToText for i64"
    open spec fn prints(&self, r: Result<String, Error>) -> bool { r matches Ok(s) && s@ == std_print::<i64>(*self) }
//@fn print to_text props=C07
//@end
//@endimpl
//@impl print "ToText for u64"
    open spec fn prints(&self, r: Result<String, Error>) -> bool { r matches Ok(s) && s@ == std_print::<u64>(*self) }
//@fn print to_text props=C07
//@end
//@endimpl
//@impl print "ToText for i128"
    open spec fn prints(&self, r: Result<String, Error>) -> bool { r matches Ok(s) && s@ == std_print::<i128>(*self) }
//@fn print to_text props=C07
//@end
//@endimpl
//@impl print "ToText for u128"
    open spec fn prints(&self, r: Result<String, Error>) -> bool { r matches Ok(s) && s@ == std_print::<u128>(*self) }
//@fn print to_text props=C07
//@end
//@endimpl
//@impl print "ToText for f32"
    open spec fn prints(&self, r: Result<String, Error>) -> bool { r matches Ok(s) && s@ == std_print::<f32>(*self) }
//@fn print to_text props=C07
//@end
//@endimpl
//@impl print "ToText for f64"
    open spec fn prints(&self, r: Result<String, Error>) -> bool { r matches Ok(s) && s@ == std_print::<f64>(*self) }
//@fn print to_text props=C07
//@end
//@endimpl
//@impl de "ParseText for String"
    open spec fn parses(text: Seq<char>, r: Result<Self, BoxedStdError>) -> bool { r matches Ok(s) && s@ == text }
//@fn de parse props=C07
//@end
//@endimpl
//@impl ser "ToText for String"
    open spec fn prints(&self, r: Result<String, Error>) -> bool { r matches Ok(s) && s@ == self@ }
//@fn ser to_text props=C07
//@end
//@endimpl
//@impl ser "ToText for &str"
    open spec fn prints(&self, r: Result<String, Error>) -> bool { r matches Ok(s) && s@ == (**self)@ }
//@fn ser to_text props=C07
//@end
//@endimpl

