use vstd::prelude::*;
use vstd::utf8::*;

verus! {

//@include scalars_body.rs

// ------------------------------------------------------------------- writing, then reading
/// What std promises about printing and parsing a value of these types: the text parses to the
/// value again, and neither begins nor ends with white space.
pub open spec fn std_round_trips<T>(v: T) -> bool {
    let t = std_print::<T>(v);
    &&& std_parse::<T>(t) == Some(v)
    &&& t.len() > 0 && !xml_space().contains(t[0]) && !xml_space().contains(t.last())
}
/// std prints booleans so.
#[verifier::external_body]
proof fn axiom_bool_print()
    ensures std_print::<bool>(true) == "true"@, std_print::<bool>(false) == "false"@
{ }
proof fn lemma_no_trim(s: Seq<char>)
    requires s.len() > 0, !xml_space().contains(s[0]), !xml_space().contains(s.last()),
    ensures xml_trim(s) == s
{ }
/// What `to_text` returns for a value, `parse` accepts and returns that value.
fn vx_round_trip_bool(v: bool)
{
    let t = v.to_text();
    proof {
        axiom_bool_print();
        reveal_strlit("true"); reveal_strlit("1"); reveal_strlit("false"); reveal_strlit("0");
        assert(t.is_ok());
        lemma_no_trim(std_print::<bool>(v));
    }
    if let Ok(t) = t {
        let r = <bool as ParseText>::parse(t);
        assert(r matches Ok(w) && w == v);
    }
}
fn vx_round_trip_string(v: String)
{
    let t = v.to_text();
    assert(t.is_ok());
    if let Ok(t) = t {
        let r = <String as ParseText>::parse(t);
        assert(r matches Ok(w) && w@ == v@);
    }
}
fn vx_round_trip_i8(v: i8)
    requires std_round_trips::<i8>(v)
{
    let t = v.to_text();
    assert(t.is_ok());
    if let Ok(t) = t {
        let r = <i8 as ParseText>::parse(t);
        proof { lemma_no_trim(std_print::<i8>(v)); }
        assert(r matches Ok(w) && w == v);
    }
}
fn vx_round_trip_u8(v: u8)
    requires std_round_trips::<u8>(v)
{
    let t = v.to_text();
    assert(t.is_ok());
    if let Ok(t) = t {
        let r = <u8 as ParseText>::parse(t);
        proof { lemma_no_trim(std_print::<u8>(v)); }
        assert(r matches Ok(w) && w == v);
    }
}
fn vx_round_trip_i16(v: i16)
    requires std_round_trips::<i16>(v)
{
    let t = v.to_text();
    assert(t.is_ok());
    if let Ok(t) = t {
        let r = <i16 as ParseText>::parse(t);
        proof { lemma_no_trim(std_print::<i16>(v)); }
        assert(r matches Ok(w) && w == v);
    }
}
fn vx_round_trip_u16(v: u16)
    requires std_round_trips::<u16>(v)
{
    let t = v.to_text();
    assert(t.is_ok());
    if let Ok(t) = t {
        let r = <u16 as ParseText>::parse(t);
        proof { lemma_no_trim(std_print::<u16>(v)); }
        assert(r matches Ok(w) && w == v);
    }
}
fn vx_round_trip_i32(v: i32)
    requires std_round_trips::<i32>(v)
{
    let t = v.to_text();
    assert(t.is_ok());
    if let Ok(t) = t {
        let r = <i32 as ParseText>::parse(t);
        proof { lemma_no_trim(std_print::<i32>(v)); }
        assert(r matches Ok(w) && w == v);
    }
}
fn vx_round_trip_u32(v: u32)
    requires std_round_trips::<u32>(v)
{
    let t = v.to_text();
    assert(t.is_ok());
    if let Ok(t) = t {
        let r = <u32 as ParseText>::parse(t);
        proof { lemma_no_trim(std_print::<u32>(v)); }
        assert(r matches Ok(w) && w == v);
    }
}
fn vx_round_trip_i64(v: i64)
    requires std_round_trips::<i64>(v)
{
    let t = v.to_text();
    assert(t.is_ok());
    if let Ok(t) = t {
        let r = <i64 as ParseText>::parse(t);
        proof { lemma_no_trim(std_print::<i64>(v)); }
        assert(r matches Ok(w) && w == v);
    }
}
fn vx_round_trip_u64(v: u64)
    requires std_round_trips::<u64>(v)
{
    let t = v.to_text();
    assert(t.is_ok());
    if let Ok(t) = t {
        let r = <u64 as ParseText>::parse(t);
        proof { lemma_no_trim(std_print::<u64>(v)); }
        assert(r matches Ok(w) && w == v);
    }
}
fn vx_round_trip_i128(v: i128)
    requires std_round_trips::<i128>(v)
{
    let t = v.to_text();
    assert(t.is_ok());
    if let Ok(t) = t {
        let r = <i128 as ParseText>::parse(t);
        proof { lemma_no_trim(std_print::<i128>(v)); }
        assert(r matches Ok(w) && w == v);
    }
}
fn vx_round_trip_u128(v: u128)
    requires std_round_trips::<u128>(v)
{
    let t = v.to_text();
    assert(t.is_ok());
    if let Ok(t) = t {
        let r = <u128 as ParseText>::parse(t);
        proof { lemma_no_trim(std_print::<u128>(v)); }
        assert(r matches Ok(w) && w == v);
    }
}
fn vx_round_trip_f32(v: f32)
    requires std_round_trips::<f32>(v)
{
    let t = v.to_text();
    assert(t.is_ok());
    if let Ok(t) = t {
        let r = <f32 as ParseText>::parse(t);
        proof { lemma_no_trim(std_print::<f32>(v)); }
        assert(r matches Ok(w) && w == v);
    }
}
fn vx_round_trip_f64(v: f64)
    requires std_round_trips::<f64>(v)
{
    let t = v.to_text();
    assert(t.is_ok());
    if let Ok(t) = t {
        let r = <f64 as ParseText>::parse(t);
        proof { lemma_no_trim(std_print::<f64>(v)); }
        assert(r matches Ok(w) && w == v);
    }
}

} // verus!
fn main() {}
