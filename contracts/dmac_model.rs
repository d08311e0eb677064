// The syntax trees that the macros see (syn's types, as far as the macro crate's parsing
// code looks at them), what the std functions it calls do, and the ghost definitions
// its contracts are written in. Everything `external_body` here is trusted.

// ------------------------------------------------------------------- syn
#[verifier::external_body]
pub struct TokenStream { x: u8 }
#[verifier::external_body]
pub struct Ident { x: u8 }
impl Ident {
    pub uninterp spec fn text(&self) -> Seq<char>;
    /// without `r#`
    #[verifier::external_body]
    pub fn unraw(&self) -> (r: Ident)
        ensures r.text() == bare(self.text())
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_to_string(&self) -> (r: String)
        ensures r@ == self.text()
    { unimplemented!() }
    /// `ident == "literal"`
    #[verifier::external_body]
    pub fn vx_is(&self, s: &str) -> (r: bool)
        ensures r == (self.text() == s@)
    { unimplemented!() }
}
pub open spec fn bare(s: Seq<char>) -> Seq<char> {
    if s.len() >= 2 && s[0] == 'r' && s[1] == '#' { s.skip(2) } else { s }
}
#[verifier::external_body]
pub struct Path { x: u8 }
impl Path {
    /// The path's only word, if it is one word without arguments.
    pub uninterp spec fn id(&self) -> Option<Seq<char>>;
    #[verifier::external_body]
    pub fn is_ident(&self, s: &str) -> (r: bool)
        ensures r == (self.id() == Some(s@))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_ident(&self) -> (r: Option<&Ident>)
        ensures match r { Some(i) => self.id() == Some(i.text()), None => self.id() is None }
    { unimplemented!() }
}
#[verifier::external_body]
pub struct LitStr { x: u8 }
impl LitStr {
    pub uninterp spec fn v(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn value(&self) -> (r: String)
        ensures r@ == self.v()
    { unimplemented!() }
}
#[verifier::external_body]
pub struct LitOther { x: u8 }
pub enum Lit { Str(LitStr), ByteStr(LitOther), Byte(LitOther), Char(LitOther), Int(LitOther), Float(LitOther), Bool(LitOther), Verbatim(LitOther) }
pub struct MetaNameValue { pub path: Path, pub lit: Lit }
pub struct MetaList { pub path: Path, pub nested: Vec<NestedMeta> }
pub enum Meta { Path(Path), List(MetaList), NameValue(MetaNameValue) }
pub enum NestedMeta { Meta(Meta), Lit(Lit) }
pub struct Attribute { pub path: Path, pub tokens: TokenStream }
impl Attribute {
    /// The attribute as a meta item, if it is one.
    pub uninterp spec fn meta(&self) -> Result<Meta, SynError>;
    #[verifier::external_body]
    pub fn parse_meta(&self) -> (r: Result<Meta, SynError>)
        ensures r == self.meta()
    { unimplemented!() }
}
#[verifier::external_body]
pub struct Type { x: u8 }
pub struct Field { pub attrs: Vec<Attribute>, pub ident: Option<Ident>, pub ty: Type }
pub struct FieldsNamed { pub named: Vec<Field> }
pub struct FieldsUnnamed { pub unnamed: Vec<Field> }
pub enum Fields { Named(FieldsNamed), Unnamed(FieldsUnnamed), Unit }
pub struct Variant { pub attrs: Vec<Attribute>, pub ident: Ident, pub fields: Fields }
pub struct DataStruct { pub fields: Fields }
pub struct DataEnum { pub variants: Vec<Variant> }
pub struct DataUnion { pub fields: FieldsNamed }
pub enum Data { Struct(DataStruct), Enum(DataEnum), Union(DataUnion) }
pub struct DeriveInput { pub attrs: Vec<Attribute>, pub ident: Ident, pub data: Data }
/// What the parser guarantees: fields in braces have names.
pub open spec fn named_ok(fields: Fields) -> bool {
    fields matches Fields::Named(n) ==> forall|i: int| 0 <= i < n.named@.len() ==> (#[trigger] n.named@[i]).ident is Some
}
pub open spec fn parsed(input: DeriveInput) -> bool {
    input.data matches Data::Struct(s) ==> named_ok(s.fields)
}
#[verifier::external_body]
pub struct SynError { x: u8 }
impl SynError {
    #[verifier::external_body]
    pub fn new_spanned<T, M>(t: T, m: M) -> SynError { unimplemented!() }
    #[verifier::external_body]
    pub fn to_compile_error(&self) -> (r: TokenStream)
        ensures r.errs() == 1, forall|k: int| !#[trigger] r.made(k)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn into_compile_error(self) -> (r: TokenStream)
        ensures r.errs() == 1, forall|k: int| !#[trigger] r.made(k)
    { unimplemented!() }
}
#[allow(unused_imports)]
pub mod syn {
    pub use super::{Attribute, Data, DataEnum, DataStruct, DataUnion, DeriveInput, Field, Fields, FieldsNamed, FieldsUnnamed, Lit, LitStr, Meta, MetaList, MetaNameValue, NestedMeta, Path, Type, Variant, Ident, SynError as Error};
    pub fn parse<T: super::VxParse>(input: super::TokenStream) -> (r: Result<T, super::SynError>)
        ensures T::vx_parsed(input, r)
    { T::vx_parse(input) }
    pub fn parse2<T: super::VxParse>(input: super::TokenStream) -> (r: Result<T, super::SynError>)
        ensures T::vx_parsed(input, r)
    { T::vx_parse(input) }
}
pub trait VxParse: Sized {
    spec fn vx_parsed(input: TokenStream, r: Result<Self, SynError>) -> bool;
    fn vx_parse(input: TokenStream) -> (r: Result<Self, SynError>)
        ensures Self::vx_parsed(input, r);
}
impl VxParse for DeriveInput {
    open spec fn vx_parsed(input: TokenStream, r: Result<DeriveInput, SynError>) -> bool {
        r == declared_by(input) && (r matches Ok(d) ==> parsed(d))
    }
    fn vx_parse(input: TokenStream) -> (r: Result<DeriveInput, SynError>)
    { vx_parse_input(input) }
}
pub mod proc_macro2 {
    pub use super::{Ident, TokenStream};
}
pub mod proc_macro {
    pub use super::TokenStream;
}
pub mod static_xml {
    pub mod de { pub use super::super::WhiteSpace; }
}

/// Whatever is iterated over by index.
pub trait VxSeq {
    type T;
    spec fn items(&self) -> Seq<Self::T>;
    fn vx_seq(&self) -> (r: &[Self::T])
        ensures r@ == self.items();
}
impl<X> VxSeq for Vec<X> {
    type T = X;
    open spec fn items(&self) -> Seq<X> { self@ }
    #[verifier::external_body]
    fn vx_seq(&self) -> (r: &[X]) { unimplemented!() }
}
impl<X> VxSeq for [X] {
    type T = X;
    open spec fn items(&self) -> Seq<X> { self@ }
    #[verifier::external_body]
    fn vx_seq(&self) -> (r: &[X]) { unimplemented!() }
}
impl VxSeq for Fields {
    type T = Field;
    open spec fn items(&self) -> Seq<Field> {
        match *self { Fields::Named(n) => n.named@, Fields::Unnamed(n) => n.unnamed@, Fields::Unit => Seq::empty() }
    }
    #[verifier::external_body]
    fn vx_seq(&self) -> (r: &[Field]) { unimplemented!() }
}

// ------------------------------------------------------------------- std
#[verifier::external_body]
pub broadcast proof fn axiom_str_inj(a: &str, b: &str)
    ensures #[trigger] a@ == #[trigger] b@ ==> a == b
{ }
pub uninterp spec fn trimmed(s: Seq<char>) -> Seq<char>;
#[verifier::external_body]
pub fn vx_fmt() -> (r: String) { unimplemented!() }
pub open spec fn starts(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && s.take(p.len() as int) == p }
/// Where `p` first is in `s`, from `i` on.
pub open spec fn first_at(s: Seq<char>, p: Seq<char>, i: int) -> Option<int>
    decreases s.len() - i + 1
{
    if i < 0 || i + p.len() > s.len() { None }
    else if s.subrange(i, i + p.len()) == p { Some(i) }
    else { first_at(s, p, i + 1) }
}
pub open spec fn split_of(s: Seq<char>, p: Seq<char>) -> Option<(Seq<char>, Seq<char>)> {
    match first_at(s, p, 0) { Some(i) => Some((s.take(i), s.skip(i + p.len()))), None => None }
}
/// `is_empty`
pub trait VxEmpty {
    spec fn none(&self) -> bool;
    fn vx_is_empty(&self) -> (r: bool)
        ensures r == self.none();
}
impl VxEmpty for str {
    open spec fn none(&self) -> bool { self@.len() == 0 }
    #[verifier::external_body]
    fn vx_is_empty(&self) -> (r: bool) { unimplemented!() }
}
impl VxEmpty for String {
    open spec fn none(&self) -> bool { self@.len() == 0 }
    #[verifier::external_body]
    fn vx_is_empty(&self) -> (r: bool) { unimplemented!() }
}
impl<T> VxEmpty for [T] {
    open spec fn none(&self) -> bool { self@.len() == 0 }
    #[verifier::external_body]
    fn vx_is_empty(&self) -> (r: bool) { unimplemented!() }
}
impl<T> VxEmpty for Vec<T> {
    open spec fn none(&self) -> bool { self@.len() == 0 }
    #[verifier::external_body]
    fn vx_is_empty(&self) -> (r: bool) { unimplemented!() }
}
impl VxEmpty for BTreeMap<String, String> {
    open spec fn none(&self) -> bool { self@ == Map::<Seq<char>, Seq<char>>::empty() }
    #[verifier::external_body]
    fn vx_is_empty(&self) -> (r: bool) { unimplemented!() }
}
/// Methods of `str`, `String`.
pub trait VxStr {
    spec fn sv(&self) -> Seq<char>;
    /// `x == "literal"`
    fn vx_is(&self, s: &str) -> (r: bool)
        ensures r == (self.sv() == s@), s@.len() == 0 ==> r == (self.sv().len() == 0);
    fn vx_trim(&self) -> (r: &str)
        ensures r@ == trimmed(self.sv());
    fn vx_starts_with(&self, p: &str) -> (r: bool)
        ensures r == starts(self.sv(), p@);
    fn vx_to_owned(&self) -> (r: String)
        ensures r@ == self.sv();
    fn vx_to_string(&self) -> (r: String)
        ensures r@ == self.sv();
    fn vx_split_once(&self, p: &str) -> (r: Option<(&str, &str)>)
        ensures split_of(self.sv(), p@) == (match r { Some((a, b)) => Some((a@, b@)), None => None });
}
impl VxStr for str {
    open spec fn sv(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_is(&self, s: &str) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn vx_trim(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body]
    fn vx_starts_with(&self, p: &str) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn vx_to_owned(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body]
    fn vx_split_once(&self, p: &str) -> (r: Option<(&str, &str)>) { unimplemented!() }
}
impl VxStr for String {
    open spec fn sv(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_is(&self, s: &str) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn vx_trim(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body]
    fn vx_starts_with(&self, p: &str) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn vx_to_owned(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body]
    fn vx_split_once(&self, p: &str) -> (r: Option<(&str, &str)>) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_string_from<T: VxStr + ?Sized>(s: &T) -> (r: String)
    ensures r@ == s.sv()
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_as_deref(o: &Option<String>) -> (r: Option<&str>)
    ensures match r { Some(s) => opt(*o) == Some(s@), None => *o is None }
{ unimplemented!() }
/// `for x in v`, by index: each item is taken out once.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VxQueue<T> { v: Vec<T> }
#[verifier::external_body]
pub fn vx_queue<T>(v: Vec<T>) -> (r: VxQueue<T>)
    ensures r@ == v@
{ unimplemented!() }
impl<T> VxQueue<T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn vx_len(&self) -> (r: usize)
        ensures r == self@.len()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_take(&mut self, i: usize) -> (r: T)
        requires i < old(self)@.len()
        ensures r == old(self)@[i as int], final(self)@ == old(self)@
    { unimplemented!() }
}
/// `v.extend(w.into_iter())`
#[verifier::external_body]
pub fn vx_extend<T>(v: &mut Vec<T>, w: Vec<T>)
    ensures final(v)@ == old(v)@ + w@
{ unimplemented!() }
pub fn vx_push_opt<T>(v: &mut Vec<T>, x: Option<T>)
    ensures final(v)@ == (match x { Some(x) => old(v)@.push(x), None => old(v)@ })
{
    if let Some(x) = x { v.push(x); }
}
/// what `flat_map` does with a `Result`
pub fn vx_flat<T, E>(v: &mut Vec<T>, x: Result<T, E>)
    ensures final(v)@ == (match x { Ok(x) => old(v)@.push(x), Err(_) => old(v)@ })
{
    if let Ok(x) = x { v.push(x); }
}

/// Order of strings: by code points (the byte order of their UTF-8 forms).
pub open spec fn str_lt(a: Seq<char>, b: Seq<char>) -> bool
    decreases a.len()
{
    if b.len() == 0 { false }
    else if a.len() == 0 { true }
    else if a[0] != b[0] { (a[0] as u32) < (b[0] as u32) }
    else { str_lt(a.skip(1), b.skip(1)) }
}
pub type NameKey = (Seq<char>, Seq<char>);
/// The derived order of `ExpandedNameRef`: namespace first, then local name.
pub open spec fn name_lt(a: NameKey, b: NameKey) -> bool {
    str_lt(a.0, b.0) || a.0 == b.0 && str_lt(a.1, b.1)
}
pub open spec fn name_of(n: ExpandedNameRef<'_>) -> NameKey { (n.namespace@, n.local_name@) }
#[verifier::external_body]
pub struct VxSortKey { x: u8 }
impl VxSortKey { pub uninterp spec fn key(&self) -> NameKey; }
/// What a key is ordered by: two strings, the first before the second.
pub trait VxOrd {
    spec fn ord(&self) -> NameKey;
}
impl<'k> VxOrd for ExpandedNameRef<'k> {
    open spec fn ord(&self) -> NameKey { name_of(*self) }
}
impl<'k> VxOrd for (&'k str, &'k str) {
    open spec fn ord(&self) -> NameKey { (self.0@, self.1@) }
}
impl<'k> VxOrd for &'k str {
    open spec fn ord(&self) -> NameKey { (Seq::empty(), self@) }
}
#[verifier::external_body]
pub fn vx_sort_key<K: VxOrd>(n: K) -> (r: VxSortKey)
    ensures r.key() == n.ord()
{ unimplemented!() }
/// `perm` is a rearrangement of 0..n.
pub open spec fn is_perm(perm: Seq<int>, n: int) -> bool {
    &&& perm.len() == n
    &&& forall|i: int| 0 <= i < n ==> 0 <= #[trigger] perm[i] < n
    &&& forall|i: int, j: int| 0 <= i < j < n ==> #[trigger] perm[i] != #[trigger] perm[j]
    &&& forall|p: int| 0 <= p < n ==> perm.contains(p)
}
/// `b` is `a` rearranged so that the keys do not decrease.
pub open spec fn sorted_as<T>(a: Seq<T>, keys: Seq<VxSortKey>, b: Seq<T>, perm: Seq<int>) -> bool {
    &&& is_perm(perm, a.len() as int)
    &&& b.len() == a.len()
    &&& forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] == a[perm[i]]
    &&& forall|i: int, j: int| 0 <= i < j < b.len() ==> !name_lt(keys[#[trigger] perm[j]].key(), keys[#[trigger] perm[i]].key())
}
/// `v.sort_by_key(key)`, `v.sort_by(by key)`, with the keys of the items
#[verifier::external_body]
pub fn vx_sort<T>(v: &mut Vec<T>, keys: Vec<VxSortKey>)
    requires keys@.len() == old(v)@.len()
    ensures exists|perm: Seq<int>| #[trigger] sorted_as(old(v)@, keys@, final(v)@, perm)
{ unimplemented!() }

/// std::collections::BTreeMap, from strings to strings
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct BTreeMap<K, V> { k: K, v: V }
pub type Ns = Map<Seq<char>, Seq<char>>;
impl BTreeMap<String, String> {
    pub uninterp spec fn view(&self) -> Ns;
    #[verifier::external_body]
    pub fn get<'b>(&'b self, k: &str) -> (r: Option<&'b String>)
        ensures match r { Some(v) => self@.contains_key(k@) && v@ == self@[k@], None => !self@.contains_key(k@) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &str) -> (r: bool)
        ensures r == self@.contains_key(k@)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: String, v: String) -> (r: Option<String>)
        ensures
            final(self)@ == old(self)@.insert(k@, v@),
            match r { Some(v) => old(self)@.contains_key(k@) && v@ == old(self)@[k@], None => !old(self)@.contains_key(k@) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn entry<'b>(&'b mut self, k: String) -> (r: Entry<'b>)
        ensures
            match r {
                Entry::Vacant(e) => !old(self)@.contains_key(k@) && e.key() == k@ && e.map()@ == old(self)@ && e.fin()@ == final(self)@,
                Entry::Occupied(e) => old(self)@.contains_key(k@) && e.key() == k@ && e.map()@ == old(self)@ && e.fin()@ == final(self)@,
            }
    { unimplemented!() }
}
pub enum Entry<'b> {
    Vacant(VacantEntry<'b>),
    Occupied(OccupiedEntry<'b>),
}
pub struct VacantEntry<'b> { m: &'b mut BTreeMap<String, String>, k: String }
pub struct OccupiedEntry<'b> { m: &'b mut BTreeMap<String, String>, k: String }
impl<'b> VacantEntry<'b> {
    pub closed spec fn key(&self) -> Seq<char> { self.k@ }
    pub closed spec fn map(&self) -> BTreeMap<String, String> { *self.m }
    /// the map once this borrow has ended
    #[verifier::prophetic]
    pub closed spec fn fin(&self) -> BTreeMap<String, String> { *final(self.m) }
    #[verifier::external_body]
    pub fn insert(self, v: String) -> (r: &'b mut String)
        ensures *r == v, self.fin()@ == self.map()@.insert(self.key(), final(r)@)
    { unimplemented!() }
}
impl<'b> OccupiedEntry<'b> {
    pub closed spec fn key(&self) -> Seq<char> { self.k@ }
    pub closed spec fn map(&self) -> BTreeMap<String, String> { *self.m }
    #[verifier::prophetic]
    pub closed spec fn fin(&self) -> BTreeMap<String, String> { *final(self.m) }
}
/// An entry that goes out of scope gives its map back as it is.
broadcast proof fn lemma_occupied_resolved<'b>(e: OccupiedEntry<'b>)
    requires #[trigger] has_resolved(e)
    ensures e.fin() == e.map()
{ }
broadcast proof fn lemma_vacant_resolved<'b>(e: VacantEntry<'b>)
    requires #[trigger] has_resolved(e)
    ensures e.fin() == e.map()
{ }

// ------------------------------------------------------------------- the errors
/// The accumulated errors: how many there are, and whether they have not been taken yet.
impl Errors {
    #[verifier::opaque]
    pub open spec fn n(&self) -> nat { match self.0 { Some(v) => v@.len(), None => 0 } }
    #[verifier::opaque]
    pub open spec fn live(&self) -> bool { self.0 is Some }
}
/// Compile errors in a sequence of tokens.
pub open spec fn errs_of(v: Seq<TokenStream>) -> nat
    decreases v.len()
{ if v.len() == 0 { 0 } else { errs_of(v.drop_last()) + v.last().errs() } }
pub open spec fn made_in(v: Seq<TokenStream>, k: int) -> bool
    decreases v.len()
{ v.len() > 0 && (made_in(v.drop_last(), k) || v.last().made(k)) }
pub broadcast proof fn lemma_errs(v: Seq<TokenStream>)
    requires forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).errs() == 1
    ensures #[trigger] errs_of(v) == v.len()
    decreases v.len()
{ if v.len() > 0 { assert(v.last() == v[v.len() - 1]); lemma_errs(v.drop_last()); } }
pub broadcast proof fn lemma_none_made(v: Seq<TokenStream>, k: int)
    requires forall|i: int| 0 <= i < v.len() ==> !(#[trigger] v[i]).made(k)
    ensures !#[trigger] made_in(v, k)
    decreases v.len()
{ if v.len() > 0 { assert(v.last() == v[v.len() - 1]); lemma_none_made(v.drop_last(), k); } }
/// The code that macro `k` makes, and no errors.
pub open spec fn made_only(t: TokenStream, k: int) -> bool {
    t.errs() == 0 && forall|j: int| #[trigger] t.made(j) == (j == k)
}
impl TokenStream {
    /// How many of the accumulated errors are in it, each as a `compile_error!`.
    pub uninterp spec fn errs(&self) -> nat;
    /// Is the code that macro `k` makes in it?
    pub uninterp spec fn made(&self, k: int) -> bool;
    pub open spec fn nothing(&self) -> bool { self.errs() == 0 && forall|k: int| !#[trigger] self.made(k) }
    /// `quote!` without its interpolations
    #[verifier::external_body]
    pub fn vx_quote() -> (r: TokenStream)
        ensures r.nothing()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn new() -> (r: TokenStream)
        ensures r.nothing()
    { unimplemented!() }
    /// `#t` in `quote!`
    #[verifier::external_body]
    pub fn vx_put(&mut self, t: &TokenStream)
        ensures
            final(self).errs() == old(self).errs() + t.errs(),
            forall|k: int| #[trigger] final(self).made(k) == (old(self).made(k) || t.made(k)),
    { unimplemented!() }
    /// `#(#t)*` in `quote!`
    #[verifier::external_body]
    pub fn vx_put_all(&mut self, t: &Vec<TokenStream>)
        ensures
            final(self).errs() == old(self).errs() + errs_of(t@),
            forall|k: int| #[trigger] final(self).made(k) == (old(self).made(k) || made_in(t@, k)),
    { unimplemented!() }
    pub fn from(t: TokenStream) -> (r: TokenStream)
        ensures r == t
    { t }
}
pub fn vx_owned<T>(v: Vec<T>) -> (r: Vec<T>)
    ensures r == v
{ v }
/// `parse_macro_input!`'s parser
#[verifier::external_body]
pub fn vx_parse_input(input: TokenStream) -> (r: Result<DeriveInput, SynError>)
    ensures r == declared_by(input), r matches Ok(d) ==> parsed(d)
{ unimplemented!() }
/// What syn makes of the macro's input.
pub uninterp spec fn declared_by(input: TokenStream) -> Result<DeriveInput, SynError>;
#[verifier::external_body]
pub fn vx_unwrap_or_default(r: Result<TokenStream, ()>) -> (t: TokenStream)
    ensures match r { Ok(x) => t == x, Err(_) => t.nothing() }
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_panicking() -> bool { unimplemented!() }

// ------------------------------------------------------------------- what a declaration says
/// The items of the `static_xml` attributes among the first `k`, in order.
pub open spec fn items_of(a: Seq<Attribute>, k: int) -> Seq<NestedMeta>
    decreases k
{
    if k <= 0 { Seq::empty() }
    else if a[k - 1].path.id() != Some("static_xml"@) { items_of(a, k - 1) }
    else {
        match a[k - 1].meta() {
            Ok(Meta::List(l)) => items_of(a, k - 1) + l.nested@,
            _ => items_of(a, k - 1),
        }
    }
}
/// Each of them is `static_xml(...)`.
pub open spec fn lists(a: Seq<Attribute>, k: int) -> bool
    decreases k
{
    k <= 0 || lists(a, k - 1) && (a[k - 1].path.id() == Some("static_xml"@) ==> a[k - 1].meta() matches Ok(Meta::List(_)))
}
pub open spec fn items(a: Vec<Attribute>) -> Seq<NestedMeta> { items_of(a@, a@.len() as int) }
pub open spec fn all_lists(a: Vec<Attribute>) -> bool { lists(a@, a@.len() as int) }

/// An item that is one word, or a pair: (is a pair, its name).
pub type ItemKey = (bool, Seq<char>);
pub open spec fn key_of(i: NestedMeta) -> Option<ItemKey> {
    match i {
        NestedMeta::Meta(Meta::Path(p)) => match p.id() { Some(n) => Some((false, n)), None => None },
        NestedMeta::Meta(Meta::NameValue(nv)) => match nv.path.id() { Some(n) => Some((true, n)), None => None },
        _ => None,
    }
}
pub open spec fn word(n: Seq<char>) -> Option<ItemKey> { Some((false, n)) }
pub open spec fn pair(n: Seq<char>) -> Option<ItemKey> { Some((true, n)) }
pub open spec fn lit_str(l: Lit) -> Option<Seq<char>> {
    match l { Lit::Str(s) => Some(s.v()), _ => None }
}
/// The string of a pair.
pub open spec fn str_of(i: NestedMeta) -> Option<Seq<char>> {
    match i {
        NestedMeta::Meta(Meta::NameValue(nv)) => lit_str(nv.lit),
        _ => None,
    }
}
/// Is such an item among the first `k`?
pub open spec fn seen(s: Seq<NestedMeta>, k: int, key: Option<ItemKey>) -> bool
    decreases k
{
    k > 0 && (key_of(s[k - 1]) == key || seen(s, k - 1, key))
}
/// The string of the last such pair among the first `k`.
pub open spec fn value(s: Seq<NestedMeta>, k: int, n: Seq<char>) -> Option<Seq<char>>
    decreases k
{
    if k <= 0 { None }
    else if key_of(s[k - 1]) == pair(n) && str_of(s[k - 1]) is Some { str_of(s[k - 1]) }
    else { value(s, k - 1, n) }
}
pub open spec fn opt(s: Option<String>) -> Option<Seq<char>> {
    match s { Some(s) => Some(s@), None => None }
}

/// There is nothing to say here.
pub open spec fn nothing(a: Vec<Attribute>) -> bool { all_lists(a) && items(a).len() == 0 }
pub open spec fn nothing_on(f: Seq<Field>, k: int) -> bool
    decreases k
{
    k <= 0 || nothing_on(f, k - 1) && nothing(f[k - 1].attrs)
}

// --- names
pub open spec fn xml_ns() -> Seq<char> { "http://www.w3.org/XML/1998/namespace"@ }
/// Is the prefix (trimmed) known?
pub open spec fn known(ns: Ns, p: Seq<char>) -> bool { ns.contains_key(p) || p == "xml"@ || p.len() == 0 }
pub open spec fn namespace_of(ns: Ns, p: Option<Seq<char>>) -> Option<Seq<char>> {
    match p {
        None => None,
        Some(p) => if ns.contains_key(p) { Some(ns[p]) } else if p == "xml"@ { Some(xml_ns()) } else { None },
    }
}
pub open spec fn trimmed_opt(p: Option<Seq<char>>) -> Option<Seq<char>> {
    match p { Some(p) => Some(trimmed(p)), None => None }
}
/// The name an item has, by the first `k` of what is said about it.
pub open spec fn name_is(name: Name<'_>, ident: Ident, s: Seq<NestedMeta>, k: int, ns: Ns) -> bool {
    &&& *name.ident == ident
    &&& name.local_name@ == (match value(s, k, "rename"@) { Some(v) => v, None => bare(ident.text()) })
    &&& opt(name.prefix) == trimmed_opt(value(s, k, "prefix"@))
    &&& opt(name.namespace) == namespace_of(ns, opt(name.prefix))
}
pub open spec fn key_of_name(name: Name<'_>) -> NameKey {
    (match name.namespace { Some(n) => n@, None => Seq::empty() }, name.local_name@)
}
/// `rename = "..."` or `prefix = "..."` with a known prefix
pub open spec fn name_item(s: Seq<NestedMeta>, j: int, ns: Ns) -> bool {
    ||| key_of(s[j]) == pair("rename"@) && str_of(s[j]) is Some
    ||| key_of(s[j]) == pair("prefix"@) && (str_of(s[j]) matches Some(p) && known(ns, trimmed(p)))
}

// --- namespaces
/// `namespace = "prefix: url"` or `namespace = "url"`: the table with it, and whether it may be.
pub open spec fn ns_declare(ns: Ns, v: Option<Seq<char>>) -> (Ns, bool) {
    match v {
        None => (ns, false),
        Some(v) => match split_of(v, ": "@) {
            None => ns_put(ns, ""@, trimmed(v)),
            Some((p, u)) =>
                if starts(trimmed(p), "xml"@) { (ns, trimmed(p) == "xml"@ && trimmed(u) == xml_ns()) }
                else { ns_put(ns, trimmed(p), trimmed(u)) },
        }
    }
}
/// `default_namespace = "url"`
pub open spec fn ns_default(ns: Ns, v: Option<Seq<char>>) -> (Ns, bool) {
    match v {
        None => (ns, false),
        Some(v) => ns_put(ns, ""@, trimmed(trimmed(v))),
    }
}
/// What one more item does to the table.
pub open spec fn ns_step(ns: Ns, i: NestedMeta) -> (Ns, bool) {
    if key_of(i) == pair("namespace"@) { ns_declare(ns, str_of(i)) }
    else if key_of(i) == pair("default_namespace"@) { ns_default(ns, str_of(i)) }
    else { (ns, true) }
}
pub open spec fn ns_put(ns: Ns, p: Seq<char>, u: Seq<char>) -> (Ns, bool) {
    if ns.contains_key(p) { (ns, false) } else { (ns.insert(p, u), true) }
}
/// The table after the first `k` items.
pub open spec fn ns_of(s: Seq<NestedMeta>, k: int) -> Ns
    decreases k
{
    if k <= 0 { Map::empty() } else { ns_step(ns_of(s, k - 1), s[k - 1]).0 }
}

// --- an element type's own items
pub open spec fn head_item(s: Seq<NestedMeta>, j: int) -> bool {
    ||| key_of(s[j]) == pair("rename"@) && str_of(s[j]) is Some && !seen(s, j, key_of(s[j]))
    ||| key_of(s[j]) == pair("prefix"@) && !seen(s, j, key_of(s[j]))
    ||| (key_of(s[j]) == pair("namespace"@) || key_of(s[j]) == pair("default_namespace"@)) && ns_step(ns_of(s, j), s[j]).1
}
pub open spec fn head_items(s: Seq<NestedMeta>, k: int) -> bool
    decreases k
{
    k <= 0 || head_items(s, k - 1) && head_item(s, k - 1)
}
/// The pair `prefix = ...` among the first `k` (the first one).
pub open spec fn prefix_at(s: Seq<NestedMeta>, k: int) -> Option<NestedMeta>
    decreases k
{
    if k <= 0 { None }
    else if prefix_at(s, k - 1) is Some { prefix_at(s, k - 1) }
    else if key_of(s[k - 1]) == pair("prefix"@) { Some(s[k - 1]) }
    else { None }
}
pub open spec fn head_ok(input: DeriveInput) -> bool {
    let s = items(input.attrs);
    let n = s.len() as int;
    &&& all_lists(input.attrs)
    &&& head_items(s, n)
    &&& prefix_at(s, n) matches Some(i) ==> (str_of(i) matches Some(p) && known(ns_of(s, n), trimmed(p)))
}
pub open spec fn namespaces(input: DeriveInput) -> Ns {
    ns_of(items(input.attrs), items(input.attrs).len() as int)
}

// --- fields of a struct
pub open spec fn field_item(s: Seq<NestedMeta>, j: int, ns: Ns) -> bool {
    &&& !seen(s, j, key_of(s[j]))
    &&& {
        ||| key_of(s[j]) == word("attribute"@)
        ||| key_of(s[j]) == word("default"@)
        ||| key_of(s[j]) == word("flatten"@)
        ||| key_of(s[j]) == word("text"@)
        ||| name_item(s, j, ns)
    }
}
pub open spec fn field_items(s: Seq<NestedMeta>, k: int, ns: Ns) -> bool
    decreases k
{
    k <= 0 || field_items(s, k - 1, ns) && field_item(s, k - 1, ns)
}
pub open spec fn says(f: Field, w: Seq<char>) -> bool { seen(items(f.attrs), items(f.attrs).len() as int, word(w)) }
pub open spec fn field_ok(f: Field, ns: Ns) -> bool {
    let s = items(f.attrs);
    &&& all_lists(f.attrs)
    &&& field_items(s, s.len() as int, ns)
    &&& !(says(f, "attribute"@) && says(f, "flatten"@))
    &&& !(says(f, "attribute"@) && says(f, "text"@))
    &&& !(says(f, "flatten"@) && says(f, "text"@))
    &&& !(says(f, "flatten"@) && says(f, "default"@))
}
/// What is made of a field.
pub open spec fn field_is(r: ElementField<'_>, f: Field, ns: Ns) -> bool {
    &&& *r.inner == f
    &&& f.ident == Some(*r.ident)
    &&& r.default == says(f, "default"@)
    &&& r.mode is Attribute == says(f, "attribute"@)
    &&& r.mode is Flatten == says(f, "flatten"@)
    &&& r.mode is Text == says(f, "text"@)
    &&& name_is(r.name, *r.ident, items(f.attrs), items(f.attrs).len() as int, ns)
}
pub open spec fn fields_ok(f: Seq<Field>, k: int, ns: Ns) -> bool
    decreases k
{
    k <= 0 || fields_ok(f, k - 1, ns) && field_ok(f[k - 1], ns)
}
pub open spec fn no_text(f: Seq<Field>, k: int) -> bool
    decreases k
{
    k <= 0 || no_text(f, k - 1) && !says(f[k - 1], "text"@)
}
pub open spec fn struct_ok(input: DeriveInput, d: DataStruct) -> bool {
    &&& head_ok(input)
    &&& d.fields is Named
    &&& fields_ok(d.fields.items(), d.fields.items().len() as int, namespaces(input))
    &&& no_text(d.fields.items(), d.fields.items().len() as int)
}
/// The places of the fields for which `attribute` holds, in order.
pub open spec fn places(f: Seq<ElementField<'_>>, k: int, attribute: bool) -> Seq<usize>
    decreases k
{
    if k <= 0 { Seq::empty() }
    else {
        let p = places(f, k - 1, attribute);
        let is = if attribute { f[k - 1].mode is Attribute } else { f[k - 1].mode is Element };
        if is { p.push((k - 1) as usize) } else { p }
    }
}
/// The table lists each such field once, by name, and each of them knows its place in it.
pub open spec fn table_ok(f: Seq<ElementField<'_>>, t: Seq<usize>, attribute: bool) -> bool {
    &&& forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i]) < f.len() && f[t[i] as int].mode ==
        (if attribute { ElementFieldMode::Attribute { sorted_attributes_pos: i as usize } } else { ElementFieldMode::Element { sorted_elements_pos: i as usize } })
    &&& forall|p: int| 0 <= p < f.len() && (if attribute { (#[trigger] f[p]).mode is Attribute } else { f[p].mode is Element }) ==> t.contains(p as usize)
    &&& forall|i: int, j: int| 0 <= i < j < t.len() ==> !name_lt(key_of_name(f[#[trigger] t[j] as int].name), key_of_name(f[#[trigger] t[i] as int].name))
}

pub proof fn lemma_no_text(f: Seq<Field>, k: int)
    requires k <= f.len()
    ensures no_text(f, k) <==> forall|i: int| 0 <= i < k ==> !says(#[trigger] f[i], "text"@)
    decreases k
{
    if k > 0 { lemma_no_text(f, k - 1); }
}
pub open spec fn text_at(p: Option<usize>) -> Option<usize> { p }
/// The table before the fields know their places.
pub open spec fn table_is(f: Seq<ElementField<'_>>, t: Seq<usize>, attribute: bool) -> bool {
    &&& forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i]) < f.len() && is_kind(f[t[i] as int], attribute)
    &&& forall|i: int, j: int| 0 <= i < j < t.len() ==> #[trigger] t[i] != #[trigger] t[j]
    &&& forall|p: int| 0 <= p < f.len() && is_kind(#[trigger] f[p], attribute) ==> t.contains(p as usize)
    &&& forall|i: int, j: int| 0 <= i < j < t.len() ==> !name_lt(key_of_name(f[#[trigger] t[j] as int].name), key_of_name(f[#[trigger] t[i] as int].name))
}
pub open spec fn is_kind(f: ElementField<'_>, attribute: bool) -> bool {
    if attribute { f.mode is Attribute } else { f.mode is Element }
}
pub open spec fn same_but_places(a: Seq<ElementField<'_>>, b: Seq<ElementField<'_>>) -> bool {
    &&& a.len() == b.len()
    &&& forall|p: int| 0 <= p < a.len() ==> {
        &&& (#[trigger] a[p]).inner == b[p].inner && a[p].ident == b[p].ident && a[p].default == b[p].default && a[p].name == b[p].name
        &&& a[p].mode is Attribute == b[p].mode is Attribute
        &&& a[p].mode is Element == b[p].mode is Element
        &&& a[p].mode is Flatten == b[p].mode is Flatten
        &&& a[p].mode is Text == b[p].mode is Text
    }
}
pub proof fn lemma_places(f: Seq<ElementField<'_>>, k: int, attribute: bool)
    requires 0 <= k <= f.len() <= usize::MAX
    ensures
        ({
            let t = places(f, k, attribute);
            &&& t.len() <= k
            &&& forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i]) < k && is_kind(f[t[i] as int], attribute)
            &&& forall|i: int, j: int| 0 <= i < j < t.len() ==> #[trigger] t[i] != #[trigger] t[j]
            &&& forall|p: int| 0 <= p < k && is_kind(#[trigger] f[p], attribute) ==> t.contains(p as usize)
        })
    decreases k
{
    if k > 0 {
        lemma_places(f, k - 1, attribute);
        let t0 = places(f, k - 1, attribute);
        let t = places(f, k, attribute);
        assert forall|p: int| 0 <= p < k && is_kind(#[trigger] f[p], attribute) implies t.contains(p as usize) by {
            if p < k - 1 {
                let i = choose|i: int| 0 <= i < t0.len() && t0[i] == p as usize;
                assert(t[i] == p as usize);
            } else {
                assert(t[t0.len() as int] == p as usize);
            }
        }
    }
}
pub proof fn lemma_sorted(f: Seq<ElementField<'_>>, a: Seq<usize>, keys: Seq<VxSortKey>, b: Seq<usize>, attribute: bool)
    requires
        f.len() <= usize::MAX,
        a == places(f, f.len() as int, attribute),
        keys.len() == a.len(),
        forall|i: int| 0 <= i < a.len() ==> (#[trigger] keys[i]).key() == key_of_name(f[a[i] as int].name),
        exists|perm: Seq<int>| #[trigger] sorted_as(a, keys, b, perm),
    ensures table_is(f, b, attribute)
{
    lemma_places(f, f.len() as int, attribute);
    let perm = choose|perm: Seq<int>| #[trigger] sorted_as(a, keys, b, perm);
    assert forall|p: int| 0 <= p < f.len() && is_kind(#[trigger] f[p], attribute) implies b.contains(p as usize) by {
        let i = choose|i: int| 0 <= i < a.len() && a[i] == p as usize;
        assert(perm.contains(i));
        let j = choose|j: int| 0 <= j < perm.len() && perm[j] == i;
        assert(b[j] == p as usize);
    }
    assert forall|i: int, j: int| 0 <= i < j < b.len() implies #[trigger] b[i] != #[trigger] b[j] by {
        assert(perm[i] != perm[j]);
    }
    assert forall|i: int, j: int| 0 <= i < j < b.len() implies !name_lt(key_of_name(f[#[trigger] b[j] as int].name), key_of_name(f[#[trigger] b[i] as int].name)) by {
        assert(!name_lt(keys[perm[j]].key(), keys[perm[i]].key()));
    }
}
pub open spec fn struct_is(r: ElementStruct<'_>, input: DeriveInput, d: DataStruct) -> bool {
    let ns = namespaces(input);
    &&& *r.input == input
    &&& r.attr.namespaces.0@ == ns
    &&& name_is(r.attr.name, input.ident, items(input.attrs), items(input.attrs).len() as int, ns)
    &&& r.fields@.len() == d.fields.items().len()
    &&& forall|i: int| 0 <= i < r.fields@.len() ==> field_is(#[trigger] r.fields@[i], d.fields.items()[i], ns)
    &&& table_ok(r.fields@, r.sorted_attributes@, true)
    &&& table_ok(r.fields@, r.sorted_elements@, false)
    &&& r.text_field_pos is None
}

// --- variants of an enum that stands for elements
pub open spec fn variant_item(s: Seq<NestedMeta>, j: int, ns: Ns) -> bool {
    !seen(s, j, key_of(s[j])) && (key_of(s[j]) == word("skip"@) || name_item(s, j, ns))
}
pub open spec fn variant_items(s: Seq<NestedMeta>, k: int, ns: Ns) -> bool
    decreases k
{
    k <= 0 || variant_items(s, k - 1, ns) && variant_item(s, k - 1, ns)
}
pub open spec fn skipped(v: Variant) -> bool { seen(items(v.attrs), items(v.attrs).len() as int, word("skip"@)) }
pub open spec fn one_or_none(f: Fields) -> bool {
    f is Unit || one_unnamed(f)
}
pub open spec fn one_unnamed(f: Fields) -> bool {
    f matches Fields::Unnamed(u) && u.unnamed@.len() == 1
}
pub open spec fn variant_ok(v: Variant, ns: Ns) -> bool {
    let s = items(v.attrs);
    &&& all_lists(v.attrs)
    &&& variant_items(s, s.len() as int, ns)
    &&& nothing_on(v.fields.items(), v.fields.items().len() as int)
    &&& skipped(v) || one_or_none(v.fields)
}
pub open spec fn variant_is(r: ElementVariant<'_>, v: Variant, ns: Ns) -> bool {
    &&& *r.ident == v.ident
    &&& match r.ty { Some(t) => one_unnamed(v.fields) && *t == v.fields->Unnamed_0.unnamed@[0].ty, None => v.fields is Unit }
    &&& name_is(r.name, v.ident, items(v.attrs), items(v.attrs).len() as int, ns)
}
pub open spec fn variants_ok(v: Seq<Variant>, k: int, ns: Ns) -> bool
    decreases k
{
    k <= 0 || variants_ok(v, k - 1, ns) && variant_ok(v[k - 1], ns)
}
pub open spec fn any_skipped(v: Seq<Variant>, k: int) -> bool
    decreases k
{
    k > 0 && (any_skipped(v, k - 1) || skipped(v[k - 1]))
}
/// The variants that are not skipped.
pub open spec fn kept(v: Seq<Variant>, k: int) -> Seq<int>
    decreases k
{
    if k <= 0 { Seq::empty() }
    else if skipped(v[k - 1]) { kept(v, k - 1) }
    else { kept(v, k - 1).push(k - 1) }
}
pub open spec fn enum_ok(input: DeriveInput, d: DataEnum) -> bool {
    head_ok(input) && variants_ok(d.variants@, d.variants@.len() as int, namespaces(input))
}
/// The variants that are not skipped, each once, by name.
pub open spec fn variants_are(r: Seq<ElementVariant<'_>>, v: Seq<Variant>, ns: Ns) -> bool {
    let k = kept(v, v.len() as int);
    exists|perm: Seq<int>| {
        &&& #[trigger] is_perm(perm, k.len() as int)
        &&& r.len() == k.len()
        &&& forall|i: int| 0 <= i < r.len() ==> variant_is(#[trigger] r[i], v[k[perm[i]]], ns)
        &&& forall|i: int, j: int| 0 <= i < j < r.len() ==> !name_lt(key_of_name((#[trigger] r[j]).name), key_of_name((#[trigger] r[i]).name))
    }
}

/// The variants that are not skipped among the first `k`, in order.
pub open spec fn kept_are(r: Seq<ElementVariant<'_>>, v: Seq<Variant>, k: int, ns: Ns) -> bool {
    let t = kept(v, k);
    r.len() == t.len() && forall|i: int| 0 <= i < r.len() ==> variant_is(#[trigger] r[i], v[t[i]], ns)
}
pub open spec fn enum_is(r: ElementEnum<'_>, input: DeriveInput, d: DataEnum) -> bool {
    let ns = namespaces(input);
    &&& *r.input == input
    &&& r.attr.namespaces.0@ == ns
    &&& name_is(r.attr.name, input.ident, items(input.attrs), items(input.attrs).len() as int, ns)
    &&& r.has_skipped_variants == any_skipped(d.variants@, d.variants@.len() as int)
    &&& variants_are(r.variants@, d.variants@, ns)
}
pub proof fn lemma_variants(a: Seq<ElementVariant<'_>>, keys: Seq<VxSortKey>, b: Seq<ElementVariant<'_>>, v: Seq<Variant>, ns: Ns)
    requires
        kept_are(a, v, v.len() as int, ns),
        keys.len() == a.len(),
        forall|i: int| 0 <= i < a.len() ==> (#[trigger] keys[i]).key() == key_of_name(a[i].name),
        exists|perm: Seq<int>| #[trigger] sorted_as(a, keys, b, perm),
    ensures variants_are(b, v, ns)
{
    let k = kept(v, v.len() as int);
    let perm = choose|perm: Seq<int>| #[trigger] sorted_as(a, keys, b, perm);
    assert(is_perm(perm, k.len() as int));
    assert forall|i: int| 0 <= i < b.len() implies variant_is(#[trigger] b[i], v[k[perm[i]]], ns) by {
        assert(b[i] == a[perm[i]]);
    }
    assert forall|i: int, j: int| 0 <= i < j < b.len() implies !name_lt(key_of_name((#[trigger] b[j]).name), key_of_name((#[trigger] b[i]).name)) by {
        assert(!name_lt(keys[perm[j]].key(), keys[perm[i]].key()));
    }
}

// --- types that stand for text
pub open spec fn whitespace_of(v: Seq<char>) -> Option<WhiteSpace> {
    if v == "preserve"@ { Some(WhiteSpace::Preserve) }
    else if v == "replace"@ { Some(WhiteSpace::Replace) }
    else if v == "collapse"@ { Some(WhiteSpace::Collapse) }
    else { None }
}
pub open spec fn mode_of(v: Seq<char>) -> Option<TextMode> {
    if v == "std"@ { Some(TextMode::Std) }
    else if v == "restriction"@ { Some(TextMode::Restriction) }
    else if v == "union"@ { Some(TextMode::Union) }
    else { None }
}
pub open spec fn text_item(s: Seq<NestedMeta>, j: int) -> bool {
    &&& !seen(s, j, key_of(s[j]))
    &&& {
        ||| key_of(s[j]) == pair("whitespace"@) && (str_of(s[j]) matches Some(v) && whitespace_of(v) is Some)
        ||| key_of(s[j]) == pair("mode"@) && (str_of(s[j]) matches Some(v) && mode_of(v) is Some)
    }
}
pub open spec fn text_items(s: Seq<NestedMeta>, k: int) -> bool
    decreases k
{
    k <= 0 || text_items(s, k - 1) && text_item(s, k - 1)
}
pub open spec fn said_whitespace(s: Seq<NestedMeta>, k: int) -> Option<WhiteSpace> {
    match value(s, k, "whitespace"@) { Some(v) => whitespace_of(v), None => None }
}
pub open spec fn said_mode(s: Seq<NestedMeta>, k: int) -> Option<TextMode> {
    match value(s, k, "mode"@) { Some(v) => mode_of(v), None => None }
}
pub open spec fn nothing_in(v: Seq<Variant>, k: int) -> bool
    decreases k
{
    k <= 0 || nothing_in(v, k - 1) && nothing(v[k - 1].attrs) && nothing_on(v[k - 1].fields.items(), v[k - 1].fields.items().len() as int)
}
pub open spec fn nothing_below(d: Data) -> bool {
    match d {
        Data::Struct(s) => nothing_on(s.fields.items(), s.fields.items().len() as int),
        Data::Enum(e) => nothing_in(e.variants@, e.variants@.len() as int),
        Data::Union(u) => nothing_on(u.fields.named@, u.fields.named@.len() as int),
    }
}
pub open spec fn mode_said(input: DeriveInput) -> Option<TextMode> {
    said_mode(items(input.attrs), items(input.attrs).len() as int)
}
pub open spec fn text_head_ok(input: DeriveInput) -> bool {
    let s = items(input.attrs);
    &&& all_lists(input.attrs)
    &&& text_items(s, s.len() as int)
    &&& mode_said(input) == Some(TextMode::Std) ==> nothing_below(input.data)
}
pub open spec fn text_attr_is(r: TextAttr, input: DeriveInput) -> bool {
    let s = items(input.attrs);
    &&& r.mode == mode_said(input)
    &&& r.whitespace == (match said_whitespace(s, s.len() as int) { Some(w) => w, None => WhiteSpace::Preserve })
}
pub open spec fn choice_item(s: Seq<NestedMeta>, j: int) -> bool {
    &&& !seen(s, j, key_of(s[j]))
    &&& key_of(s[j]) == word("unknown"@) || key_of(s[j]) == pair("rename"@) && str_of(s[j]) is Some
}
pub open spec fn choice_items(s: Seq<NestedMeta>, k: int) -> bool
    decreases k
{
    k <= 0 || choice_items(s, k - 1) && choice_item(s, k - 1)
}
pub open spec fn unknown(v: Variant) -> bool { seen(items(v.attrs), items(v.attrs).len() as int, word("unknown"@)) }
pub open spec fn renamed(v: Variant) -> Option<Seq<char>> { value(items(v.attrs), items(v.attrs).len() as int, "rename"@) }
pub open spec fn choice_ok(v: Variant) -> bool {
    let s = items(v.attrs);
    &&& all_lists(v.attrs)
    &&& choice_items(s, s.len() as int)
    &&& nothing_on(v.fields.items(), v.fields.items().len() as int)
    &&& if unknown(v) { renamed(v) is None && one_unnamed(v.fields) } else { v.fields is Unit }
}
/// The last variant for unknown text among the first `k`.
pub open spec fn unknown_at(v: Seq<Variant>, k: int) -> Option<usize>
    decreases k
{
    if k <= 0 { None }
    else if unknown(v[k - 1]) { Some((k - 1) as usize) }
    else { unknown_at(v, k - 1) }
}
pub open spec fn choices_ok(v: Seq<Variant>, k: int) -> bool
    decreases k
{
    k <= 0 || choices_ok(v, k - 1) && choice_ok(v[k - 1]) && (unknown(v[k - 1]) ==> unknown_at(v, k - 1) is None)
}
pub open spec fn choice_is(r: RestrictionVariant<'_>, v: Variant) -> bool {
    &&& *r.inner == v
    &&& match r.mode {
        TextVariantMode::Unknown => unknown(v),
        TextVariantMode::Known { text } => !unknown(v) && text@ == (match renamed(v) { Some(t) => t, None => bare(v.ident.text()) }),
    }
}
pub open spec fn member_ok(v: Variant) -> bool {
    &&& nothing(v.attrs)
    &&& nothing_on(v.fields.items(), v.fields.items().len() as int)
    &&& one_unnamed(v.fields)
}
pub open spec fn members_ok(v: Seq<Variant>, k: int) -> bool
    decreases k
{
    k <= 0 || members_ok(v, k - 1) && member_ok(v[k - 1])
}
pub open spec fn member_is(r: UnionVariant<'_>, v: Variant) -> bool {
    *r.inner == v && one_unnamed(v.fields) && *r.ty == v.fields->Unnamed_0.unnamed@[0].ty
}
pub open spec fn text_body_ok(mode: TextMode, d: DataEnum) -> bool {
    match mode {
        TextMode::Restriction => choices_ok(d.variants@, d.variants@.len() as int),
        TextMode::Union => members_ok(d.variants@, d.variants@.len() as int),
        TextMode::Std => false,
    }
}
pub open spec fn text_mode_is(r: TextEnumMode<'_>, mode: TextMode, d: DataEnum) -> bool {
    match r {
        TextEnumMode::Restriction { variants, unknown_variant } => {
            &&& mode == TextMode::Restriction
            &&& variants@.len() == d.variants@.len()
            &&& forall|i: int| 0 <= i < variants@.len() ==> choice_is(#[trigger] variants@[i], d.variants@[i])
            &&& unknown_variant == unknown_at(d.variants@, d.variants@.len() as int)
        }
        TextEnumMode::Union(members) => {
            &&& mode == TextMode::Union
            &&& members@.len() == d.variants@.len()
            &&& forall|i: int| 0 <= i < members@.len() ==> member_is(#[trigger] members@[i], d.variants@[i])
        }
    }
}
/// Everything a type that stands for text says makes sense.
pub open spec fn text_ok(input: DeriveInput) -> bool {
    &&& text_head_ok(input)
    &&& match mode_said(input) {
        None => false,
        Some(TextMode::Std) => true,
        Some(m) => input.data matches Data::Enum(d) && text_body_ok(m, d),
    }
}
/// Everything a type that stands for an element says makes sense.
pub open spec fn element_ok(input: DeriveInput) -> bool {
    match input.data {
        Data::Enum(d) => enum_ok(input, d),
        Data::Struct(d) => struct_ok(input, d),
        Data::Union(_) => false,
    }
}
pub open spec fn no_text_field(s: ElementStruct<'_>) -> bool {
    forall|i: int| 0 <= i < s.fields@.len() ==> !((#[trigger] s.fields@[i]).mode is Text)
}

// --- the code that is written out (outside the contracts; none of it reports errors)
#[verifier::external_body]
pub fn parse_do_std(ident: &Ident, attr: &TextAttr) -> (r: TokenStream)
    ensures made_only(r, 3)
{ unimplemented!() }
#[verifier::external_body]
pub fn parse_do_enum(enum_: TextEnum<'_>) -> (r: TokenStream)
    ensures made_only(r, 3)
{ unimplemented!() }
#[verifier::external_body]
pub fn to_text_do_std(ident: &Ident) -> (r: TokenStream)
    ensures made_only(r, 4)
{ unimplemented!() }
#[verifier::external_body]
pub fn to_text_do_enum(enum_: TextEnum<'_>) -> (r: TokenStream)
    ensures made_only(r, 4)
{ unimplemented!() }
#[verifier::external_body]
pub fn deserialize_do_enum(enum_: &ElementEnum<'_>) -> (r: TokenStream)
    ensures made_only(r, 1)
{ unimplemented!() }
/// It has no code for text fields.
#[verifier::external_body]
pub fn deserialize_do_struct(struct_: &ElementStruct<'_>) -> (r: TokenStream)
    requires no_text_field(*struct_)
    ensures made_only(r, 1)
{ unimplemented!() }
#[verifier::external_body]
pub fn serialize_do_enum(enum_: &ElementEnum<'_>) -> (r: TokenStream)
    ensures made_only(r, 2)
{ unimplemented!() }
#[verifier::external_body]
pub fn serialize_do_struct(struct_: &ElementStruct<'_>) -> (r: TokenStream)
    requires no_text_field(*struct_)
    ensures made_only(r, 2)
{ unimplemented!() }

/// The names are different.
pub proof fn lemma_names()
    ensures
        ""@ == Seq::<char>::empty(),
        "rename"@.len() == 6, "rename"@[0] == 'r',
        "prefix"@.len() == 6, "prefix"@[0] == 'p',
        "namespace"@.len() == 9, "namespace"@[0] == 'n',
        "default_namespace"@.len() == 17, "default_namespace"@[0] == 'd',
        "attribute"@.len() == 9, "attribute"@[0] == 'a',
        "default"@.len() == 7, "default"@[0] == 'd',
        "flatten"@.len() == 7, "flatten"@[0] == 'f',
        "text"@.len() == 4, "text"@[0] == 't',
        "skip"@.len() == 4, "skip"@[0] == 's',
        "unknown"@.len() == 7, "unknown"@[0] == 'u',
        "whitespace"@.len() == 10, "whitespace"@[0] == 'w',
        "mode"@.len() == 4, "mode"@[0] == 'm',
        "std"@.len() == 3, "std"@[0] == 's',
        "restriction"@.len() == 11, "restriction"@[0] == 'r',
        "union"@.len() == 5, "union"@[0] == 'u',
        "preserve"@.len() == 8, "preserve"@[0] == 'p',
        "replace"@.len() == 7, "replace"@[0] == 'r',
        "collapse"@.len() == 8, "collapse"@[0] == 'c',
        "xml"@.len() == 3, "xml"@[0] == 'x',
        "static_xml"@.len() == 10, "static_xml"@[0] == 's',
{
    reveal_strlit(""); assert(""@ =~= Seq::<char>::empty());
    reveal_strlit("rename");
    reveal_strlit("prefix");
    reveal_strlit("namespace");
    reveal_strlit("default_namespace");
    reveal_strlit("attribute");
    reveal_strlit("default");
    reveal_strlit("flatten");
    reveal_strlit("text");
    reveal_strlit("skip");
    reveal_strlit("unknown");
    reveal_strlit("whitespace");
    reveal_strlit("mode");
    reveal_strlit("std");
    reveal_strlit("restriction");
    reveal_strlit("union");
    reveal_strlit("preserve");
    reveal_strlit("replace");
    reveal_strlit("collapse");
    reveal_strlit("xml");
    reveal_strlit("static_xml");
}
