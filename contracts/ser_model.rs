// std collections and the parts of xml-rs's writer that static-xml/src/ser/mod.rs uses,
// with assumed contracts, and the ghost definitions its contracts are written in.

// ------------------------------------------------------------------- std::borrow::Cow
pub trait VxToOwned { type Owned; }
impl VxToOwned for str { type Owned = String; }
impl<'x> VxToOwned for [xml::attribute::Attribute<'x>] { type Owned = Vec<xml::attribute::Attribute<'x>>; }
impl VxToOwned for xml::namespace::Namespace { type Owned = xml::namespace::Namespace; }
pub enum Cow<'a, B: VxToOwned + ?Sized> { Borrowed(&'a B), Owned(<B as VxToOwned>::Owned) }

pub open spec fn cow_str(c: Cow<'_, str>) -> Seq<char> { match c { Cow::Borrowed(s) => s@, Cow::Owned(s) => s@ } }
impl<'a> core::ops::Deref for Cow<'a, str> {
    type Target = str;
    #[verifier::external_body]
    fn deref(&self) -> (r: &str)
        ensures r@ == cow_str(*self)
    { unimplemented!() }
}

// ------------------------------------------------------- std::collections::{BTreeMap, HashMap}
/// What a key is, as a mathematical value.
pub trait VxKey: Sized { spec fn key(&self) -> (Seq<char>, Seq<char>); }
impl<'a> VxKey for &'a str { open spec fn key(&self) -> (Seq<char>, Seq<char>) { (""@, (*self)@) } }
impl<'a> VxKey for ExpandedNameRef<'a> { open spec fn key(&self) -> (Seq<char>, Seq<char>) { (self.namespace@, self.local_name@) } }
impl<'a, 'b> VxKey for &'b ExpandedNameRef<'a> { open spec fn key(&self) -> (Seq<char>, Seq<char>) { (self.namespace@, self.local_name@) } }

#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct VxMap<K, V> { k: K, v: V }
pub type BTreeMap<K, V> = VxMap<K, V>;
pub type HashMap<K, V> = VxMap<K, V>;

impl<K: VxKey, V> VxMap<K, V> {
    pub uninterp spec fn view(&self) -> Map<(Seq<char>, Seq<char>), V>;

    #[verifier::external_body]
    pub fn default() -> (r: Self)
        ensures r@ == Map::<(Seq<char>, Seq<char>), V>::empty()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures r@ == Map::<(Seq<char>, Seq<char>), V>::empty()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures
            final(self)@ == old(self)@.insert(k.key(), v),
            r is Some <==> old(self)@.contains_key(k.key()),
            r is Some ==> r->0 == old(self)@[k.key()],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get<Q: VxKey>(&self, k: Q) -> (r: Option<&V>)
        ensures
            r is Some <==> self@.contains_key(k.key()),
            r is Some ==> *r->0 == self@[k.key()],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key<Q: VxKey>(&self, k: Q) -> (r: bool)
        ensures r == self@.contains_key(k.key())
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut<'b, Q: VxKey>(&'b mut self, k: Q) -> (r: Option<&'b mut V>)
        ensures
            r is Some <==> old(self)@.contains_key(k.key()),
            r is None ==> final(self)@ == old(self)@,
            r is Some ==> *r->0 == old(self)@[k.key()] && final(self)@ == old(self)@.insert(k.key(), *final(r->0)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn entry<'b>(&'b mut self, k: K) -> (r: Entry<'b, K, V>)
        ensures
            match r {
                Entry::Vacant(e) => !old(self)@.contains_key(k.key()) && e.key() == k.key() && e.map()@ == old(self)@ && e.fin()@ == final(self)@,
                Entry::Occupied(e) => old(self)@.contains_key(k.key()) && e.key() == k.key() && e.map()@ == old(self)@ && e.fin()@ == final(self)@,
            }
    { unimplemented!() }
    /// The keys in order. (A map of 2^31 - 2^16 entries does not fit into memory.)
    #[verifier::external_body]
    pub fn vx_keys(&self) -> (r: VxKeys<K>)
        ensures r.keys_of(self@), r@.len() < 0x7fff_0000
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_value<'b>(&'b self, ks: &VxKeys<K>, i: usize) -> (r: &'b V)
        requires i < ks@.len(), self@.contains_key(ks@[i as int].key())
        ensures *r == self@[ks@[i as int].key()]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_value_mut<'b>(&'b mut self, ks: &VxKeys<K>, i: usize) -> (r: &'b mut V)
        requires i < ks@.len(), old(self)@.contains_key(ks@[i as int].key())
        ensures
            *r == old(self)@[ks@[i as int].key()],
            final(self)@ == old(self)@.insert(ks@[i as int].key(), *final(r)),
    { unimplemented!() }
}

#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct VxKeys<K> { k: K }
impl<K: VxKey> VxKeys<K> {
    pub uninterp spec fn view(&self) -> Seq<K>;
    /// exactly the keys of the map, once each
    pub open spec fn keys_of<V>(&self, m: Map<(Seq<char>, Seq<char>), V>) -> bool {
        &&& forall|i: int| 0 <= i < self@.len() ==> m.contains_key((#[trigger] self@[i]).key())
        &&& forall|k: (Seq<char>, Seq<char>)| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < self@.len() && (#[trigger] self@[i]).key() == k
        &&& forall|i: int, j: int| 0 <= i < self@.len() && 0 <= j < self@.len() && i != j ==> (#[trigger] self@[i]).key() != (#[trigger] self@[j]).key()
    }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures r == self@.len()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_get(&self, i: usize) -> (r: K)
        requires i < self@.len()
        ensures r == self@[i as int]
    { unimplemented!() }
}

#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub enum Entry<'b, K, V> { Vacant(VacantEntry<'b, K, V>), Occupied(OccupiedEntry<'b, K, V>) }
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct VacantEntry<'b, K, V> { m: &'b mut VxMap<K, V>, k: K }
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct OccupiedEntry<'b, K, V> { m: &'b mut VxMap<K, V>, k: K }
impl<'b, K: VxKey, V> VacantEntry<'b, K, V> {
    pub closed spec fn key(&self) -> (Seq<char>, Seq<char>) { self.k.key() }
    pub closed spec fn map(&self) -> VxMap<K, V> { *self.m }
    /// the map once this borrow has ended
    #[verifier::prophetic]
    pub closed spec fn fin(&self) -> VxMap<K, V> { *final(self.m) }
    #[verifier::external_body]
    pub fn insert(self, v: V) -> (r: &'b mut V)
        ensures *r == v, self.fin()@ == self.map()@.insert(self.key(), *final(r))
    { unimplemented!() }
}
impl<'b, K: VxKey, V> OccupiedEntry<'b, K, V> {
    pub closed spec fn key(&self) -> (Seq<char>, Seq<char>) { self.k.key() }
    pub closed spec fn map(&self) -> VxMap<K, V> { *self.m }
    #[verifier::prophetic]
    pub closed spec fn fin(&self) -> VxMap<K, V> { *final(self.m) }
    #[verifier::external_body]
    pub fn get_mut<'c>(&'c mut self) -> (r: &'c mut V)
        ensures
            *r == old(self).map()@[old(self).key()],
            final(self).key() == old(self).key(),
            final(self).fin() == old(self).fin(),
            final(self).map()@ == old(self).map()@.insert(old(self).key(), *final(r)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn into_mut(self) -> (r: &'b mut V)
        ensures *r == self.map()@[self.key()], self.fin()@ == self.map()@.insert(self.key(), *final(r))
    { unimplemented!() }
}
/// An entry that goes out of scope gives its map back as it is.
broadcast proof fn lemma_occupied_resolved<'b, K: VxKey, V>(e: OccupiedEntry<'b, K, V>)
    requires #[trigger] has_resolved(e)
    ensures e.fin() == e.map()
{ }
broadcast proof fn lemma_vacant_resolved<'b, K: VxKey, V>(e: VacantEntry<'b, K, V>)
    requires #[trigger] has_resolved(e)
    ensures e.fin() == e.map()
{ }

// ------------------------------------------------------------------- xml-rs
/// `Into<String>`
pub trait VxText: Sized { spec fn txt(&self) -> Seq<char>; }
impl VxText for String { open spec fn txt(&self) -> Seq<char> { self@ } }
impl<'a> VxText for &'a str { open spec fn txt(&self) -> Seq<char> { (*self)@ } }
pub mod xml {
    #[allow(unused_imports)]
    use super::*;
    pub mod name {
        #[derive(Copy, Clone)]
        pub struct Name<'a> {
            pub local_name: &'a str,
            pub namespace: Option<&'a str>,
            pub prefix: Option<&'a str>,
        }
    }
    pub mod attribute {
        #[derive(Copy, Clone)]
        pub struct Attribute<'a> {
            pub name: super::name::Name<'a>,
            pub value: &'a str,
        }
    }
    pub mod namespace {
        #[allow(unused_imports)]
        use super::super::*;
        /// A map from prefixes to URIs.
        #[verifier::external_body]
        pub struct Namespace { x: () }
        impl Namespace {
            pub uninterp spec fn view(&self) -> Map<Seq<char>, Seq<char>>;
            #[verifier::external_body]
            pub fn empty() -> (r: Namespace)
                ensures r@ == Map::<Seq<char>, Seq<char>>::empty()
            { unimplemented!() }
            /// Inserts unless the prefix is there already.
            #[verifier::external_body]
            pub fn put<P: VxText, U: VxText>(&mut self, prefix: P, uri: U) -> (r: bool)
                ensures
                    r == !old(self)@.contains_key(prefix.txt()),
                    final(self)@ == (if r { old(self)@.insert(prefix.txt(), uri.txt()) } else { old(self)@ }),
            { unimplemented!() }
            /// Inserts in any case; the URI that was there before.
            #[verifier::external_body]
            pub fn force_put<P: VxText, U: VxText>(&mut self, prefix: P, uri: U) -> (r: Option<String>)
                ensures
                    r is Some <==> old(self)@.contains_key(prefix.txt()),
                    r is Some ==> r->0@ == old(self)@[prefix.txt()],
                    final(self)@ == old(self)@.insert(prefix.txt(), uri.txt()),
            { unimplemented!() }
            #[verifier::external_body]
            pub fn get(&self, prefix: &str) -> (r: Option<&str>)
                ensures
                    r is Some <==> self@.contains_key(prefix@),
                    r is Some ==> r->0@ == self@[prefix@],
            { unimplemented!() }
            #[verifier::external_body]
            pub fn contains(&self, prefix: &str) -> (r: bool)
                ensures r == self@.contains_key(prefix@)
            { unimplemented!() }
            /// The prefixes, in order.
            #[verifier::external_body]
            pub fn vx_keys<'b>(&'b self) -> (r: VxKeys<&'b str>)
                ensures
                    forall|i: int| 0 <= i < r@.len() ==> self@.contains_key((#[trigger] r@[i])@),
                    forall|k: Seq<char>| #[trigger] self@.contains_key(k) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i])@ == k,
                    forall|i: int, j: int| 0 <= i < r@.len() && 0 <= j < r@.len() && i != j ==> (#[trigger] r@[i])@ != (#[trigger] r@[j])@,
            { unimplemented!() }
            #[verifier::external_body]
            pub fn vx_value<'b>(&'b self, ks: &VxKeys<&str>, i: usize) -> (r: &'b str)
                requires i < ks@.len(), self@.contains_key(ks@[i as int]@)
                ensures r@ == self@[ks@[i as int]@]
            { unimplemented!() }
        }
    }
    pub mod writer {
        #[allow(unused_imports)]
        use super::super::*;
        #[allow(inconsistent_fields)]
        pub enum XmlEvent<'a> {
            StartDocument { encoding: Option<&'a str>, standalone: Option<bool> },
            ProcessingInstruction { name: &'a str, data: Option<&'a str> },
            StartElement {
                name: super::name::Name<'a>,
                attributes: Cow<'a, [super::attribute::Attribute<'a>]>,
                namespace: Cow<'a, super::namespace::Namespace>,
            },
            EndElement { name: Option<super::name::Name<'a>> },
            CData(&'a str),
            Comment(&'a str),
            Characters(&'a str),
        }
        #[verifier::external_body]
        pub struct Error { x: () }
        /// xml::writer::EmitterConfig
        pub struct EmitterConfig { pub perform_indent: bool, pub write_document_declaration: bool, pub rest: VxRest }
        #[verifier::external_body]
        pub struct VxRest { x: () }
        #[verifier::external_body]
        #[verifier::reject_recursive_types(W)]
        pub struct EventWriter<W> { x: std::marker::PhantomData<W> }
        impl<W: std::io::Write> EventWriter<W> {
            /// The events written so far, all of them successfully.
            pub uninterp spec fn log(&self) -> Seq<Ev>;
            #[verifier::external_body]
            pub fn new_with_config(sink: W, config: EmitterConfig) -> (r: Self)
                ensures r.log() == Seq::<Ev>::empty()
            { unimplemented!() }
            /// Either the event is written, or this fails.
            #[verifier::external_body]
            pub fn write(&mut self, event: XmlEvent<'_>) -> (r: Result<(), Error>)
                ensures final(self).log() == (if r is Ok { old(self).log().push(ev_of(event)) } else { old(self).log() })
            { unimplemented!() }
        }
    }
}

// ------------------------------------------------------------------- ghost definitions
pub ghost struct AttrV { pub prefix: Option<Seq<char>>, pub local: Seq<char>, pub value: Seq<char> }
/// One event handed to the XML writer.
pub ghost enum Ev {
    Start { prefix: Option<Seq<char>>, local: Seq<char>, attrs: Seq<AttrV>, ns: Map<Seq<char>, Seq<char>> },
    End,
    Text(Seq<char>),
    Other,
}
pub open spec fn opt_view(o: Option<&str>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
pub open spec fn attr_v(a: xml::attribute::Attribute<'_>) -> AttrV {
    AttrV { prefix: opt_view(a.name.prefix), local: a.name.local_name@, value: a.value@ }
}
pub open spec fn attrs_v(a: Cow<'_, [xml::attribute::Attribute<'_>]>) -> Seq<AttrV> {
    match a {
        Cow::Borrowed(s) => s@.map_values(|x| attr_v(x)),
        Cow::Owned(v) => v@.map_values(|x| attr_v(x)),
    }
}
pub open spec fn ns_v(a: Cow<'_, xml::namespace::Namespace>) -> Map<Seq<char>, Seq<char>> {
    match a { Cow::Borrowed(s) => s@, Cow::Owned(v) => v@ }
}
pub open spec fn ev_of(e: XmlEvent<'_>) -> Ev {
    match e {
        XmlEvent::StartElement { name, attributes, namespace } =>
            Ev::Start { prefix: opt_view(name.prefix), local: name.local_name@, attrs: attrs_v(attributes), ns: ns_v(namespace) },
        XmlEvent::EndElement { name: None } => Ev::End,
        XmlEvent::Characters(s) => Ev::Text(s@),
        _ => Ev::Other,
    }
}

/// State of a writer: what has been written, and the first failure.
pub ghost struct WS { pub log: Seq<Ev>, pub poison: Option<Seq<char>> }
pub open spec fn poison_with(a: WS, e: Seq<char>) -> WS { if a.poison is Some { a } else { WS { log: a.log, poison: Some(e) } } }
/// `b` is `a` with some failure recorded (its first one).
pub open spec fn poisoned(a: WS, b: WS) -> bool {
    &&& b.poison is Some
    &&& b.log == a.log
    &&& a.poison is Some ==> b == a
}
/// One write: refused after any failure; otherwise the event is written or the failure recorded.
pub open spec fn wrote(a: WS, b: WS, ev: Ev, r: Result<(), Error>) -> bool {
    &&& a.poison is Some ==> b == a && r is Err && r->Err_0.0@ == a.poison->0
    &&& a.poison is None ==> match r {
        Ok(_) => b == (WS { log: a.log.push(ev), poison: None }),
        Err(e) => b == (WS { log: a.log, poison: Some(e.0@) }),
    }
}

/// How deep `s` is after `n` events.
pub open spec fn depth_at(s: Seq<Ev>, n: int) -> int
    decreases n
{
    if n <= 0 { 0 } else {
        depth_at(s, n - 1) + (match s[n - 1] { Ev::Start { .. } => 1int, Ev::End => -1int, _ => 0int })
    }
}
/// Every element started in `s` is finished in `s`, and no other.
pub open spec fn balanced(s: Seq<Ev>) -> bool {
    &&& depth_at(s, s.len() as int) == 0
    &&& forall|n: int| 0 <= n <= s.len() ==> #[trigger] depth_at(s, n) >= 0
    &&& forall|n: int| 0 <= n < s.len() ==> !(#[trigger] s[n] is Other)
}
/// From `a` to `b`: after a failure nothing was written; otherwise complete content
/// was appended, or a failure recorded.
pub open spec fn grew(a: WS, b: WS) -> bool {
    &&& a.poison is Some ==> b == a
    &&& a.log.len() <= b.log.len() && b.log.take(a.log.len() as int) == a.log
    &&& b.poison is None ==> balanced(b.log.skip(a.log.len() as int))
}

// --- namespaces
/// One entry of a `NamespacesBuilder`.
pub ghost struct NsV { pub requested: Seq<char>, pub required: bool, pub needs: bool }
pub type Key = (Seq<char>, Seq<char>);
pub open spec fn url_key(u: Seq<char>) -> Key { (""@, u) }
pub open spec fn ns_view(n: Namespace<'_>) -> NsV { NsV { requested: n.requested_prefix@, required: n.required, needs: n.needs_prefix } }
pub open spec fn assigned(n: Namespace<'_>) -> Option<Seq<char>> {
    match n.assigned_prefix { Some(c) => Some(cow_str(c)), None => None }
}
pub open spec fn xmlish(p: Seq<char>) -> bool { p.len() >= 3 && p.take(3) == "xml"@ }
pub open spec fn nb_view(m: Map<Key, Namespace<'_>>) -> Map<Key, NsV> { m.map_values(|n: Namespace<'_>| ns_view(n)) }
/// Invariant of `NamespacesBuilder`.
pub open spec fn nb_inv(m: Map<Key, Namespace<'_>>) -> bool {
    forall|k: Key| #[trigger] m.contains_key(k) ==> k.0 == ""@ && assigned(m[k]) is None && !xmlish(m[k].requested_prefix@)
        && (m[k].needs_prefix ==> m[k].required)
}
pub open spec fn declared(m: Map<Key, NsV>, prefix: Seq<char>, url: Seq<char>) -> Map<Key, NsV> {
    let k = url_key(url);
    m.insert(k, if m.contains_key(k) {
        NsV { requested: if m[k].required { m[k].requested } else { prefix }, required: true, needs: m[k].needs }
    } else {
        NsV { requested: prefix, required: true, needs: false }
    })
}
pub open spec fn used_by_attribute(m: Map<Key, NsV>, url: Seq<char>) -> Map<Key, NsV> {
    let k = url_key(url);
    if m.contains_key(k) { m.insert(k, NsV { required: true, needs: true, ..m[k] }) } else { m }
}
/// The prefixes in `p` are exactly those assigned in `m`, each to its own URL.
pub open spec fn bound_ok(m: Map<Key, Namespace<'_>>, p: Map<Seq<char>, Seq<char>>) -> bool {
    &&& forall|k: Key| #[trigger] m.contains_key(k) ==> k.0 == ""@ && (assigned(m[k]) matches Some(q) ==> p.contains_key(q) && p[q] == k.1)
    &&& forall|q: Seq<char>| #[trigger] p.contains_key(q) ==> m.contains_key(url_key(p[q])) && assigned(m[url_key(p[q])]) == Some(q) && !xmlish(q)
}
/// A required entry that has been given its prefix.
pub open spec fn required_done(n: Namespace<'_>, p: Map<Seq<char>, Seq<char>>) -> bool {
    &&& assigned(n) is Some
    &&& n.needs_prefix ==> assigned(n)->0.len() > 0
    &&& assigned(n) != Some(n.requested_prefix@) && !(n.needs_prefix && n.requested_prefix@.len() == 0) ==> p.contains_key(n.requested_prefix@)
}
pub open spec fn optional_done(n: Namespace<'_>, p: Map<Seq<char>, Seq<char>>) -> bool {
    &&& assigned(n) is Some ==> assigned(n) == Some(n.requested_prefix@)
    &&& assigned(n) is None ==> p.contains_key(n.requested_prefix@)
}
/// What `finalize` makes of `a`.
pub open spec fn finalized(a: Map<Key, NsV>, m: Map<Key, Namespace<'_>>, p: Map<Seq<char>, Seq<char>>) -> bool {
    &&& bound_ok(m, p)
    &&& nb_view(m) == a
    // a required namespace is never dropped, and has a prefix if an attribute uses it
    &&& forall|k: Key| #[trigger] m.contains_key(k) && m[k].required ==> assigned(m[k]) is Some
    &&& forall|k: Key| #[trigger] m.contains_key(k) && m[k].needs_prefix && assigned(m[k]) is Some ==> assigned(m[k])->0.len() > 0
    // the requested prefix is used if it is suitable, unless another namespace has it,
    // and one that is only inherited never takes it from one that is required
    &&& forall|k: Key| #[trigger] m.contains_key(k) && assigned(m[k]) != Some(m[k].requested_prefix@)
        && !(m[k].needs_prefix && m[k].requested_prefix@.len() == 0)
        ==> p.contains_key(m[k].requested_prefix@)
            && (m[k].required ==> m[url_key(p[m[k].requested_prefix@])].required)
}
/// The bindings a child element starts with.
pub open spec fn inherited(p: Map<Seq<char>, Seq<char>>, namespace: Seq<char>, c: Map<Key, NsV>) -> bool {
    &&& forall|q: Seq<char>| #[trigger] p.contains_key(q) ==> c.contains_key(url_key(p[q]))
        && c[url_key(p[q])] == (NsV { requested: q, required: p[q] == namespace, needs: false })
    &&& forall|k: Key| #[trigger] c.contains_key(k) ==> k.0 == ""@ && exists|q: Seq<char>| #[trigger] p.contains_key(q) && p[q] == k.1
}
pub open spec fn xml_uri() -> Seq<char> { "http://www.w3.org/XML/1998/namespace"@ }
/// With the bindings `ns`, an element with this prefix is in namespace `u`.
pub open spec fn denotes_element(prefix: Option<Seq<char>>, ns: Map<Seq<char>, Seq<char>>, u: Seq<char>) -> bool {
    match prefix {
        Some(p) => p.len() > 0 && if p == "xml"@ { u == xml_uri() } else { ns.contains_key(p) && ns[p] == u },
        None => if ns.contains_key(""@) { ns[""@] == u } else { u == ""@ },
    }
}
pub open spec fn denotes_attribute(prefix: Option<Seq<char>>, ns: Map<Seq<char>, Seq<char>>, u: Seq<char>) -> bool {
    match prefix {
        Some(p) => p.len() > 0 && if p == "xml"@ { u == xml_uri() } else { ns.contains_key(p) && ns[p] == u },
        None => u == ""@,
    }
}
/// A name for which the code is documented to panic: its namespace was not declared
/// (or it has none, below a default namespace).
pub open spec fn undeclared_element(n: Namespaces<'_>, u: Seq<char>) -> bool {
    let k = url_key(u);
    &&& !(n.by_url@.contains_key(k) && n.by_url@[k].required && assigned(n.by_url@[k]) is Some)
    &&& !(!n.by_url@.contains_key(k) && u == xml_uri())
    &&& !(u == ""@ && !n.by_prefix@.contains_key(""@))
}
pub open spec fn undeclared_attribute(n: Namespaces<'_>, u: Seq<char>) -> bool {
    let k = url_key(u);
    &&& u != ""@
    &&& !(n.by_url@.contains_key(k) && assigned(n.by_url@[k]) is Some && assigned(n.by_url@[k])->0.len() > 0)
    &&& !(!n.by_url@.contains_key(k) && u == xml_uri())
}

// --- builders
/// An element being built: name, attributes in the order added, namespaces.
pub ghost struct BS {
    pub name: Key,
    pub attrs: Seq<(Key, Seq<char>)>,
    pub nss: Map<Key, NsV>,
}
pub open spec fn has_attr(attrs: Seq<(Key, Seq<char>)>, k: Key) -> bool { exists|i: int| 0 <= i < attrs.len() && (#[trigger] attrs[i]).0 == k }
pub open spec fn attr_views(a: Seq<(ExpandedNameRef<'_>, String)>) -> Seq<(Key, Seq<char>)> {
    a.map_values(|x: (ExpandedNameRef<'_>, String)| (x.0.key(), x.1@))
}
pub open spec fn eb_view(b: ElementBuilderInner<'_>) -> BS {
    BS { name: b.name.key(), attrs: attr_views(b.attributes@), nss: nb_view(b.namespaces.0@) }
}
/// Invariant of a builder: no attribute name occurs twice.
pub open spec fn eb_inv(b: ElementBuilderInner<'_>) -> bool {
    &&& nb_inv(b.namespaces.0@)
    &&& forall|k: Key| #[trigger] b.seen_attributes@.contains_key(k) <==> has_attr(attr_views(b.attributes@), k)
    &&& forall|i: int, j: int| 0 <= i < j < b.attributes@.len() ==> (#[trigger] attr_views(b.attributes@)[i]).0 != (#[trigger] attr_views(b.attributes@)[j]).0
}
pub open spec fn ew_inv(w: ElementWriterInner<'_>) -> bool { bound_ok(w.namespaces.by_url@, w.namespaces.by_prefix@) }
/// The state behind a borrowed writer, and when the borrow has ended.
pub open spec fn cur(w: &mut dyn ErasedEventWriter) -> WS { w.st() }
#[verifier::prophetic]
pub open spec fn fin(w: &mut dyn ErasedEventWriter) -> WS { final(w).st() }
/// mentions a term
pub open spec fn vx_hint(b: bool) -> bool { true }
pub broadcast proof fn lemma_builder_resolved<'a>(e: ElementBuilder<'a>)
    requires #[trigger] has_resolved(e)
    ensures e.0 matches Some(i) ==> fin(i.writer) == cur(i.writer)
{ }
pub broadcast proof fn lemma_writer_resolved<'a>(e: ElementWriter<'a>)
    requires #[trigger] has_resolved(e)
    ensures e.0 matches Some(i) ==> fin(i.writer) == cur(i.writer)
{ }
/// One more attribute.
pub broadcast proof fn lemma_attr_push(a: Seq<(ExpandedNameRef<'_>, String)>, x: (ExpandedNameRef<'_>, String), k: Key)
    ensures
        #![trigger has_attr(attr_views(a.push(x)), k)]
        attr_views(a.push(x)) == attr_views(a).push((x.0.key(), x.1@)),
        has_attr(attr_views(a.push(x)), k) <==> has_attr(attr_views(a), k) || k == x.0.key(),
{
    let b = attr_views(a.push(x));
    let c = attr_views(a);
    assert(b =~= c.push((x.0.key(), x.1@)));
    if has_attr(c, k) { let i = choose|i: int| 0 <= i < c.len() && (#[trigger] c[i]).0 == k; assert(b[i].0 == k); }
    if k == x.0.key() { assert(b[a.len() as int].0 == k); }
    if has_attr(b, k) && k != x.0.key() { let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i]).0 == k; assert(c[i].0 == k); }
}
pub broadcast proof fn lemma_attr_push_view(a: Seq<(ExpandedNameRef<'_>, String)>, x: (ExpandedNameRef<'_>, String))
    ensures #[trigger] attr_views(a.push(x)) == attr_views(a).push((x.0.key(), x.1@)),
{
    assert(attr_views(a.push(x)) =~= attr_views(a).push((x.0.key(), x.1@)));
}
/// Adding an attribute: it goes last, or it is refused and nothing changes.
pub open spec fn added(a: BS, b: BS, name: Key, value: Seq<char>, r: Result<(), Error>) -> bool {
    if has_attr(a.attrs, name) { r is Err && b == a }
    else { r is Ok && b == (BS { name: a.name, attrs: a.attrs.push((name, value)), nss: used_by_attribute(a.nss, name.0) }) }
}
/// The start tag written for `b`.
pub open spec fn start_tag(b: BS, ev: Ev) -> bool {
    &&& ev is Start
    &&& ev->local == b.name.1
    &&& denotes_element(ev->prefix, ev->ns, b.name.0)
    &&& ev->attrs.len() == b.attrs.len()
    &&& forall|i: int| 0 <= i < b.attrs.len() ==> {
        &&& (#[trigger] ev->attrs[i]).local == b.attrs[i].0.1
        &&& ev->attrs[i].value == b.attrs[i].1
        &&& denotes_attribute(ev->attrs[i].prefix, ev->ns, b.attrs[i].0.0)
    }
    &&& exists|m: Map<Key, Namespace<'_>>| #[trigger] finalized(b.nss, m, ev->ns)
}

// --- elements, fields, attributes
/// What `write_attributes` may do to the builder it is given.
pub open spec fn attributes_added(a: BS, b: BS) -> bool {
    &&& b.name == a.name
    &&& a.attrs.len() <= b.attrs.len() && b.attrs.take(a.attrs.len() as int) == a.attrs
}
/// From `a` to `b` a `T` was written as the element `name` below an element with the bindings `ctx`:
/// its start tag with its attributes, its content, its end tag.
pub open spec fn element_written<T: Serialize + ?Sized>(t: &T, name: Key, ctx: Map<Seq<char>, Seq<char>>, a: WS, b: WS) -> bool {
    exists|nss: Map<Key, NsV>, mid: WS| #[trigger] inherited(ctx, name.0, nss) && element_parts(t, BS { name: name, attrs: Seq::empty(), nss: nss }, a, #[trigger] mark(mid), b)
}
pub open spec fn mark(w: WS) -> WS { w }
/// `t` as the element begun by `b0`.
pub open spec fn element_parts<T: Serialize + ?Sized>(t: &T, b0: BS, a: WS, mid: WS, b: WS) -> bool {
    &&& a.poison is None && mid.poison is None && b.poison is None
    &&& a.log.len() < mid.log.len() && mid.log.take(a.log.len() as int) == a.log
    &&& b.log == mid.log.push(Ev::End)
    &&& balanced(mid.log.skip(a.log.len() as int + 1))
    &&& mid.log[a.log.len() as int] is Start
    &&& exists|b1: BS| #[trigger] start_tag(b1, mid.log[a.log.len() as int]) && t.attributes(b0, b1, Ok(()))
    &&& t.children(mid.log[a.log.len() as int]->ns, WS { log: mid.log.take(a.log.len() as int + 1), poison: None }, mid, Ok(()))
}
/// All of `s` in order, once each, successfully.
pub open spec fn all_written<T: Serialize>(s: Seq<T>, name: Key, ctx: Map<Seq<char>, Seq<char>>, a: WS, b: WS) -> bool
    decreases s.len()
{
    if s.len() == 0 { b == a } else {
        exists|m: WS| all_written(s.drop_last(), name, ctx, a, m) && (#[trigger] s.last().field(name, ctx, m, b, Ok(())))
    }
}
/// A start tag was written.
pub open spec fn started(a: WS, s: WS) -> bool {
    &&& a.poison is None && s.poison is None
    &&& s.log.len() == a.log.len() + 1
    &&& s.log.drop_last() == a.log
}
pub broadcast proof fn lemma_grew_same(a: WS)
    ensures #[trigger] grew(a, a)
{
    assert(a.log.skip(a.log.len() as int) =~= Seq::<Ev>::empty());
    assert(a.log.take(a.log.len() as int) =~= a.log);
}
pub broadcast proof fn lemma_grew_poisoned(a: WS, b: WS)
    requires #[trigger] poisoned(a, b)
    ensures grew(a, b)
{
    assert(a.log.take(a.log.len() as int) =~= a.log);
}
proof fn lemma_depth_ext(s: Seq<Ev>, t: Seq<Ev>, n: int)
    requires 0 <= n <= s.len(), n <= t.len(), s.take(n) == t.take(n)
    ensures depth_at(s, n) == depth_at(t, n)
    decreases n
{
    if n > 0 {
        assert(s.take(n - 1) =~= s.take(n).take(n - 1));
        assert(t.take(n - 1) =~= t.take(n).take(n - 1));
        assert(s.take(n)[n - 1] == s[n - 1]); assert(t.take(n)[n - 1] == t[n - 1]);
        lemma_depth_ext(s, t, n - 1);
    }
}
/// the depths in `p + s` are those in `s`, on top of where `p` ended
proof fn lemma_depth_shift(p: Seq<Ev>, s: Seq<Ev>, n: int)
    requires 0 <= n <= s.len()
    ensures depth_at(p + s, p.len() + n) == depth_at(p, p.len() as int) + depth_at(s, n)
    decreases n
{
    if n == 0 {
        assert((p + s).take(p.len() as int) =~= p.take(p.len() as int));
        lemma_depth_ext(p + s, p, p.len() as int);
    } else {
        lemma_depth_shift(p, s, n - 1);
        assert((p + s)[p.len() + n - 1] == s[n - 1]);
    }
}
proof fn lemma_balanced_add(p: Seq<Ev>, s: Seq<Ev>)
    requires balanced(p), balanced(s)
    ensures balanced(p + s)
{
    let t = p + s;
    lemma_depth_shift(p, s, s.len() as int);
    assert forall|n: int| 0 <= n <= t.len() implies #[trigger] depth_at(t, n) >= 0 by {
        if n <= p.len() {
            assert(t.take(n) =~= p.take(n));
            lemma_depth_ext(t, p, n);
            assert(depth_at(p, n) >= 0);
        } else {
            lemma_depth_shift(p, s, n - p.len());
            assert(depth_at(s, n - p.len()) >= 0);
        }
    }
    assert forall|n: int| 0 <= n < t.len() implies !(#[trigger] t[n] is Other) by {
        if n < p.len() { assert(t[n] == p[n]); } else { assert(t[n] == s[n - p.len()]); }
    }
}
/// Complete content between a start tag and its end tag.
proof fn lemma_balanced_element(st: Ev, s: Seq<Ev>)
    requires st is Start, balanced(s)
    ensures balanced(seq![st] + s + seq![Ev::End])
{
    let p = seq![st];
    let t = p + s + seq![Ev::End];
    assert(depth_at(p, 0) == 0); assert(depth_at(p, 1) == 1);
    assert forall|n: int| 0 <= n <= 1 + s.len() implies #[trigger] depth_at(t, n) == (if n == 0 { 0 } else { 1 + depth_at(s, n - 1) }) by {
        if n > 0 {
            lemma_depth_shift(p, s, n - 1);
            assert(t.take(n) =~= (p + s).take(n));
            lemma_depth_ext(t, p + s, n);
        }
    }
    let z = t.len() as int;
    assert(t[z - 1] == Ev::End);
    assert(depth_at(t, z - 1) == 1);
    assert(depth_at(t, z) == 0);
    assert forall|n: int| 0 <= n <= t.len() implies #[trigger] depth_at(t, n) >= 0 by {
        if 0 < n < z { assert(depth_at(s, n - 1) >= 0); }
    }
    assert forall|n: int| 0 <= n < t.len() implies !(#[trigger] t[n] is Other) by {
        if 0 < n < z - 1 { assert(t[n] == s[n - 1]); }
    }
}
pub broadcast proof fn lemma_grew_text(a: WS, b: WS, t: Seq<char>, r: Result<(), Error>)
    requires #[trigger] wrote(a, b, Ev::Text(t), r)
    ensures grew(a, b)
{
    assert(a.log.take(a.log.len() as int) =~= a.log);
    if b.poison is None {
        let s = b.log.skip(a.log.len() as int);
        assert(s =~= seq![Ev::Text(t)]);
        assert(depth_at(s, 0) == 0); assert(depth_at(s, 1) == 0);
        assert(b.log.take(a.log.len() as int) =~= a.log);
    }
}
pub proof fn lemma_grew_trans(a: WS, m: WS, b: WS)
    requires grew(a, m), grew(m, b)
    ensures grew(a, b)
{
    let n = a.log.len() as int;
    assert(b.log.take(n) =~= b.log.take(m.log.len() as int).take(n));
    if b.poison is None {
        assert(b.log.skip(n) =~= m.log.skip(n) + b.log.skip(m.log.len() as int)) by {
            let k = m.log.len() as int;
            assert(b.log.take(k) == m.log);
            assert forall|i: int| 0 <= i < b.log.len() - n implies b.log.skip(n)[i] == (m.log.skip(n) + b.log.skip(k))[i] by {
                if i < k - n { assert(b.log.take(k)[i + n] == m.log[i + n]); }
            }
        }
        lemma_balanced_add(m.log.skip(n), b.log.skip(m.log.len() as int));
    }
}
/// An element that was started but not finished.
pub broadcast proof fn lemma_element_failed(a: WS, s: WS, m: WS, b: WS)
    requires #[trigger] started(a, s), #[trigger] grew(s, m), #[trigger] poisoned(m, b)
    ensures grew(a, b), b.poison is Some
{
    let n = a.log.len() as int;
    assert(m.log.take(n) =~= m.log.take(n + 1).take(n));
    assert(s.log.take(n) =~= s.log.drop_last());
}
/// An element that was started, filled and finished, or failed to.
pub broadcast proof fn lemma_element_finished(a: WS, s: WS, m: WS, b: WS, r: Result<(), Error>)
    requires #[trigger] started(a, s), s.log.last() is Start, #[trigger] grew(s, m), #[trigger] wrote(m, b, Ev::End, r)
    ensures
        grew(a, b),
        r is Err ==> b.poison is Some,
        r is Ok ==> m.poison is None && b.poison is None && b.log == m.log.push(Ev::End)
            && a.log.len() < m.log.len() && m.log.take(a.log.len() as int) == a.log
            && m.log.take(a.log.len() as int + 1) == s.log && m.log[a.log.len() as int] == s.log.last()
            && balanced(m.log.skip(a.log.len() as int + 1)),
{
    let n = a.log.len() as int;
    assert(m.log.take(n) =~= m.log.take(n + 1).take(n));
    assert(s.log.take(n) =~= s.log.drop_last());
    if r is Ok {
        assert(m.log.take(n + 1)[n] == s.log[n]);
        lemma_balanced_element(s.log.last(), m.log.skip(n + 1));
        assert(b.log.skip(n) =~= seq![s.log.last()] + m.log.skip(n + 1) + seq![Ev::End]);
        assert(b.log.take(n) =~= m.log.take(n));
    } else {
        assert(b.log == m.log);
    }
}
pub broadcast group group_grew { lemma_grew_same, lemma_grew_poisoned, lemma_grew_text, lemma_element_failed, lemma_element_finished }
/// A `T` written as an element: what the four steps make of it.
pub broadcast proof fn lemma_element_written<T: Serialize + ?Sized>(t: &T, ctx: Map<Seq<char>, Seq<char>>, b0: BS, b1: BS, a: WS, s: WS, m: WS, b: WS, r: Result<(), Error>)
    requires
        #[trigger] inherited(ctx, b0.name.0, b0.nss), b0.attrs.len() == 0,
        #[trigger] t.attributes(b0, b1, Ok(())),
        started(a, s), start_tag(b1, s.log.last()), grew(s, m),
        #[trigger] t.children(s.log.last()->ns, s, m, Ok(())),
        #[trigger] wrote(m, b, Ev::End, r), r is Ok, #[trigger] started(a, s),
    ensures
        element_written(t, b0.name, ctx, a, b)
{
    broadcast use lemma_element_finished;
    assert(b0.attrs =~= Seq::empty());
    assert(m.log.take(a.log.len() as int + 1) == s.log);
    assert(s == (WS { log: m.log.take(a.log.len() as int + 1), poison: None }));
    assert(start_tag(b1, m.log[a.log.len() as int]));
    assert(element_parts(t, BS { name: b0.name, attrs: Seq::empty(), nss: b0.nss }, a, mark(m), b));
}
pub broadcast proof fn lemma_attributes_same(a: BS)
    ensures #[trigger] attributes_added(a, a)
{
    assert(a.attrs.take(a.attrs.len() as int) =~= a.attrs);
}
pub broadcast proof fn lemma_attributes_added(a: BS, b: BS, name: Key, value: Seq<char>, r: Result<(), Error>)
    requires #[trigger] added(a, b, name, value, r)
    ensures attributes_added(a, b)
{
    assert(b.attrs.take(a.attrs.len() as int) =~= a.attrs);
}
